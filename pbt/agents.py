"""A zoo of small agents of every algorithm, with environments and learning schedules to drive them."""
import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F

from mushroom_rl.algorithms.actor_critic import (A2C, COPDAC_Q, DDPG, PPO, PPO_BPTT, SAC, TD3, TRPO, StochasticAC,
                                                 StochasticAC_AVG)
from mushroom_rl.algorithms.policy_search import (GPOMDP, MORE, PGPE, REINFORCE, REPS, RWR, ConstrainedREPS, eNAC, ePPO)
from mushroom_rl.algorithms.value import (DQN, FQI, LSPI, SARSA, AveragedDQN, BoostedFQI, CategoricalDQN, DoubleDQN,
                                          DoubleFQI, DoubleQLearning, DuelingDQN, ExpectedSARSA, MaxminDQN, MaxminQLearning,
                                          NoisyDQN, QLambda, QLearning, QuantileDQN, Rainbow, RLearning, RQLearning,
                                          SARSALambda, SARSALambdaContinuous, SpeedyQLearning, TrueOnlineSARSALambda,
                                          WeightedQLearning)
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.distributions import (DiagonalGaussianTorchDistribution, GaussianCholeskyDistribution,
                                       GaussianDiagonalDistribution)
from mushroom_rl.features import Features
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.policy import (Boltzmann, BoltzmannTorchPolicy, ClippedGaussianPolicy, DeterministicPolicy,
                                DiagonalGaussianPolicy, EpsGreedy, GaussianPolicy, GaussianTorchPolicy, Mellowmax,
                                OrnsteinUhlenbeckPolicy, RecurrentGaussianTorchPolicy, StateLogStdGaussianPolicy,
                                StateStdGaussianPolicy)
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.rl_utils.variance_parameters import VarianceIncreasingParameter
from pbt import nets


class Ring(Environment):
    """4 states, 3 actions, random slips; state 3 is absorbing."""
    def __init__(self, horizon=6, gamma=.9):
        super().__init__(MDPInfo(Discrete(4), Discrete(3), gamma, horizon))
        self._s = None

    def reset(self, state=None):
        self._s = np.array([np.random.randint(3)])
        return self._s.copy(), {}

    def step(self, action):
        s, a = int(self._s[0]), int(action[0])
        s2 = (s + a + (np.random.rand() < .2)) % 4
        self._s = np.array([s2])
        return self._s.copy(), float(s2) - .5 * a + .25 * np.random.randn(), s2 == 3, {}


class Plane(Environment):
    """2-dimensional continuous state; discrete (3) or continuous (da) actions."""
    def __init__(self, da=None, horizon=6, gamma=.9):
        act = Discrete(3) if da is None else Box(-2 * np.ones(da), 2 * np.ones(da))
        super().__init__(MDPInfo(Box(-3 * np.ones(2), 3 * np.ones(2)), act, gamma, horizon))
        self._da, self._s = da, None

    def reset(self, state=None):
        self._s = np.random.uniform(-1, 1, 2)
        return self._s.copy(), {}

    def step(self, action):
        a = float(np.asarray(action).ravel()[0]) - (1. if self._da is None else 0.)
        self._s = np.clip(.8 * self._s + np.array([.3, -.2]) * np.clip(a, -2, 2) + .1 * np.random.randn(2), -3, 3)
        r = -float(np.sum(self._s ** 2)) + .2 * a
        return self._s.copy(), r, bool(abs(self._s[0]) > 1.2), {}


class Critic(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.h, self.o = nn.Linear(input_shape[0], 5), nn.Linear(5, output_shape[0])

    def forward(self, state, action=None, **kw):
        x = state.float() if action is None else torch.cat((state.float(), action.float()), dim=1)
        q = self.o(torch.tanh(self.h(x)))
        return q if action is None else torch.squeeze(q, 1)


class LinearNet(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.h = nn.Linear(input_shape[0], output_shape[0])

    def forward(self, state, **kw):
        return self.h(state.float())


class Rnn(nn.Module):
    """Recurrent actor or critic with explicit initial hidden state."""
    def __init__(self, input_shape, output_shape, hidden=3, actor=True, **kw):
        super().__init__()
        self.actor, self.hidden = actor, hidden
        self.rnn = nn.RNN(2, hidden, batch_first=True)
        self.o = nn.Linear(hidden, output_shape[0])

    def forward(self, state, policy_state, lengths):
        out, _ = self.rnn(state.float(), policy_state.float().reshape(1, -1, self.hidden))
        idx = (lengths.long() - 1).view(-1, 1, 1).expand(-1, 1, self.hidden)
        h = out.gather(1, idx).squeeze(1)
        y = self.o(h)
        return (y, h) if self.actor else y


def opt(kind, lr):
    return {'class': dict(sgd=torch.optim.SGD, adam=torch.optim.Adam, rms=torch.optim.RMSprop)[kind], 'params': dict(lr=lr)}


def td_policy(k, p=.3):
    if k % 3 == 0:
        return EpsGreedy(LinearParameter(.8, .1, 20))
    if k % 3 == 1:
        return Boltzmann(DecayParameter(1.5, .3))
    return EpsGreedy(Parameter(p))


def rate(k):
    return [Parameter(.3), DecayParameter(.9, .6, size=(4, 3)), LinearParameter(.9, .1, 15),
            DecayParameter(1., .4)][k % 4]


TD = dict(qlearning=QLearning, double=DoubleQLearning, weighted=WeightedQLearning, speedy=SpeedyQLearning, sarsa=SARSA,
          expected=ExpectedSARSA, sarsalambda=SARSALambda, qlambda=QLambda, rlearning=RLearning, rq=RQLearning,
          maxmin=MaxminQLearning)


def tabular(name, k):
    def make():
        mdp, pol, lr = Ring(), td_policy(k), rate(k)
        cls = TD[name]
        kw = {}
        if name in ('sarsalambda', 'qlambda'):
            kw = dict(lambda_coeff=.6, trace=['replacing', 'accumulating'][k % 2])
        elif name == 'rlearning':
            kw = dict(beta=DecayParameter(.5, .3, size=(4, 3)) if k % 2 else Parameter(.2))
        elif name == 'rq':
            b = Parameter(.4) if k % 2 else VarianceIncreasingParameter(value=1., tol=10., size=(4, 3))
            kw = dict(off_policy=bool(k % 4 < 2), **({'beta': b} if k % 3 else {'delta': Parameter(.5)}))
        elif name == 'maxmin':
            kw = dict(n_tables=2 + k % 2)
        elif name == 'weighted':
            kw = dict(precision=50 + k)
        return cls(mdp.info, pol, lr, **kw), mdp, dict(n_steps_per_fit=1)
    return make


def linear_td(name, k):
    def make():
        mdp = Plane()
        tiles = Tiles.generate(2, [3, 3], mdp.info.observation_space.low, mdp.info.observation_space.high)
        feats = Features(tilings=tiles)
        params = dict(input_shape=(feats.size,), output_shape=(3,), n_actions=3, phi=feats)
        if name == 'sarsalambdacont':
            agent = SARSALambdaContinuous(mdp.info, td_policy(k), LinearApproximator, Parameter(.1), lambda_coeff=.7,
                                          approximator_params=params)
        else:
            agent = TrueOnlineSARSALambda(mdp.info, td_policy(k), Parameter(.1), lambda_coeff=.7,
                                          approximator_params=params)
        return agent, mdp, dict(n_steps_per_fit=1)
    return make


def batch_td(name, k):
    def make():
        mdp = Plane()
        tiles = Tiles.generate(1, [3, 3], mdp.info.observation_space.low, mdp.info.observation_space.high)
        feats = Features(tilings=tiles)
        pol = EpsGreedy(Parameter(.3))
        params = dict(input_shape=(feats.size,), output_shape=(1 if name == 'lspi' else 1,), n_actions=3, phi=feats)
        if name == 'lspi':
            agent = LSPI(mdp.info, pol, approximator_params=dict(input_shape=(feats.size,), output_shape=(3,), n_actions=3,
                                                                 phi=feats), epsilon=1e-1)
        elif name == 'boostedfqi':
            agent = BoostedFQI(mdp.info, pol, LinearApproximator, n_iterations=2,
                               approximator_params=dict(params, n_models=2, prediction='sum'), quiet=True)
        else:
            agent = (FQI if name == 'fqi' else DoubleFQI)(mdp.info, pol, LinearApproximator, n_iterations=2,
                                                          approximator_params=params, quiet=True)
        return agent, mdp, dict(n_steps_per_fit=20, min_steps=20, once=name == 'boostedfqi')
    return make


def dqn(name, k):
    def make():
        mdp = Plane()
        pol = td_policy(k)
        dist = name in ('duelingdqn', 'categoricaldqn', 'quantiledqn', 'noisydqn', 'rainbow')
        ap = dict(network=nets.FeatNet if dist else nets.QNet, input_shape=(2,), output_shape=(3,), n_actions=3,
                  n_features=4, optimizer=opt(['adam', 'sgd', 'rms'][k % 3], .02), loss=F.mse_loss)
        kw = dict(batch_size=Parameter(4) if k % 2 else 4, target_update_frequency=3, initial_replay_size=6,
                  max_replay_size=16, clip_reward=bool(k % 2))
        if (k // 2) % 2 and name in ('dqn', 'doubledqn', 'averageddqn', 'duelingdqn', 'noisydqn'):
            kw['replay_memory'] = {'class': PrioritizedReplayMemory,
                                   'params': dict(alpha=.6, beta=LinearParameter(.4, 1., 50))}
        if name in ('dqn', 'doubledqn'):
            a = (DQN if name == 'dqn' else DoubleDQN)(mdp.info, pol, NumpyTorchApproximator, approximator_params=ap, **kw)
        elif name in ('averageddqn', 'maxmindqn'):
            a = (AveragedDQN if name == 'averageddqn' else MaxminDQN)(mdp.info, pol, NumpyTorchApproximator,
                                                                     n_approximators=2, approximator_params=ap, **kw)
        elif name == 'duelingdqn':
            a = DuelingDQN(mdp.info, pol, approximator_params=ap, avg_advantage=bool(k % 2), **kw)
        elif name == 'noisydqn':
            a = NoisyDQN(mdp.info, pol, approximator_params=ap, **kw)
        elif name == 'quantiledqn':
            a = QuantileDQN(mdp.info, pol, approximator_params=ap, n_quantiles=3, **kw)
        elif name == 'categoricaldqn':
            a = CategoricalDQN(mdp.info, pol, approximator_params=ap, n_atoms=4, v_min=-3., v_max=2., **kw)
        else:
            a = Rainbow(mdp.info, pol, approximator_params=ap, n_atoms=4, v_min=-3., v_max=2., n_steps_return=2,
                        alpha_coeff=.6, beta=LinearParameter(.4, 1., 50), sigma_coeff=.5, **kw)
        if k % 3 == 1:
            a.add_core_preprocessor((MinMaxPreprocessor if k % 2 else StandardizationPreprocessor)(mdp.info, 'numpy'))
        fit = dict(n_steps_per_fit=3 if name == 'rainbow' else 1 + k % 2)
        return a, mdp, fit
    return make


def lin(mdp, out, phi=None, shape=None):
    return Regressor(LinearApproximator, input_shape=shape or (phi.size if phi else 2,), output_shape=out,
                     **({'phi': phi} if phi else {}))


def classic_ac(name, k):
    def make():
        mdp = Plane(1)
        tiles = Tiles.generate(1, [2, 2], mdp.info.observation_space.low, mdp.info.observation_space.high)
        phi = Features(tilings=tiles)
        psi = Features(tilings=tiles + Tiles.generate(1, [3, 3], mdp.info.observation_space.low,
                                                      mdp.info.observation_space.high)) if k % 2 else None
        mu = lin(mdp, (1,), phi)
        mu.set_weights(np.linspace(-.5, .5, mu.weights_size))
        if name == 'copdac':
            mu2 = mu
            pol = GaussianPolicy(mu2, .3 * np.eye(1))
            agent = COPDAC_Q(mdp.info, pol, mu2, Parameter(.02), DecayParameter(.2, .3), Parameter(.1),
                             value_function_features=psi)
        else:
            std = lin(mdp, (1,), phi)
            std.set_weights(-.5 * np.ones(std.weights_size))
            pol = StateLogStdGaussianPolicy(mu, std)
            if name == 'stochac':
                agent = StochasticAC(mdp.info, pol, Parameter(.02), DecayParameter(.2, .3), lambda_par=.5,
                                     value_function_features=psi)
            else:
                agent = StochasticAC_AVG(mdp.info, pol, Parameter(.02), DecayParameter(.2, .3), Parameter(.1),
                                         lambda_par=.5, value_function_features=psi)
        return agent, mdp, dict(n_steps_per_fit=1)
    return make


def deep_ac(name, k):
    def make():
        da = 1 + k % 2
        disc = name in ('ppo', 'a2c', 'trpo') and k % 3 == 2
        mdp = Plane(None if disc else da)
        kind = ['adam', 'sgd', 'rms'][k % 3]
        critic = dict(network=Critic, optimizer=opt(['adam', 'rms', 'sgd'][k % 3], .02), loss=F.mse_loss,
                      input_shape=(2,), output_shape=(1,))
        if disc:
            pol = lambda: BoltzmannTorchPolicy(Critic, (2,), (3,), beta=Parameter(.7))
        else:
            pol = lambda: GaussianTorchPolicy(Critic, (2,), (da,), std_0=.8)
        fit = dict(n_steps_per_fit=12, min_steps=12)
        if name == 'a2c':
            agent = A2C(mdp.info, pol(), opt(kind, .05), critic, ent_coeff=LinearParameter(.1, .01, 5),
                        max_grad_norm=.5 if k % 2 else None)
        elif name == 'ppo':
            agent = PPO(mdp.info, pol(), opt(kind, .02), critic, n_epochs_policy=2, batch_size=5,
                        eps_ppo=LinearParameter(.3, .1, 10), lam=.9, ent_coeff=.01, critic_fit_params=dict(n_epochs=2))
        elif name == 'trpo':
            agent = TRPO(mdp.info, pol(), critic, ent_coeff=.01, max_kl=.05, lam=.9, n_epochs_line_search=4, n_epochs_cg=5,
                         critic_fit_params=dict(n_epochs=2))
        elif name == 'ppobptt':
            rp = RecurrentGaussianTorchPolicy(network=Rnn, policy_state_shape=(3,), input_shape=(2,), output_shape=(da,),
                                              std_0=.7)
            critic = dict(network=Rnn, optimizer=opt('adam', .02), loss=F.mse_loss, input_shape=(2,), output_shape=(1,),
                          actor=False)
            agent = PPO_BPTT(mdp.info, rp, opt(kind, .02), critic, n_epochs_policy=2, batch_size=5, eps_ppo=.2, lam=.9,
                             dim_env_state=2, ent_coeff=.01, truncation_length=2 + k % 2,
                             critic_fit_params=dict(n_epochs=2))
        elif name == 'sac':
            cp = dict(critic, input_shape=(2 + da,))
            ap = dict(network=Critic, input_shape=(2,), output_shape=(da,))
            agent = SAC(mdp.info, dict(ap), dict(ap), opt(kind, .02), cp, batch_size=4, initial_replay_size=6,
                        max_replay_size=20, warmup_transitions=9, tau=.3, lr_alpha=.05,
                        use_log_alpha_loss=bool(k % 2), target_entropy=None if k % 3 else -.5)
            fit = dict(n_steps_per_fit=1)
        else:
            cp = dict(critic, input_shape=(2 + da,))
            ap = dict(network=Critic, input_shape=(2,), output_shape=(da,))
            if k % 2:
                pc, pp = OrnsteinUhlenbeckPolicy, dict(sigma=torch.ones(da) * .3, theta=.2, dt=.5)
            else:
                pc, pp = ClippedGaussianPolicy, dict(sigma=torch.eye(da) * .2, low=-2 * torch.ones(da),
                                                     high=2 * torch.ones(da))
            cls = DDPG if name == 'ddpg' else TD3
            agent = cls(mdp.info, pc, pp, ap, opt(kind, .02), cp, batch_size=4, initial_replay_size=6, max_replay_size=20,
                        tau=Parameter(.3), policy_delay=1 + k % 3)
            fit = dict(n_steps_per_fit=1)
        if name in ('ppo', 'trpo') and (k // 2) % 2:
            # with statistics that move between collection and fit the KL Hessian of TRPO need not be positive definite
            agent.add_agent_preprocessor((MinMaxPreprocessor if name == 'trpo' else StandardizationPreprocessor)(mdp.info, 'torch'))
        return agent, mdp, fit
    return make


def pg(name, k):
    def make():
        mdp = Plane(1)
        mu = lin(mdp, (1,))
        mu.set_weights(np.array([.3, -.2]))
        if k % 2:
            pol = DiagonalGaussianPolicy(mu, np.array([.6]))
        else:
            std = lin(mdp, (1,))
            std.set_weights(np.array([.4, .5]))
            pol = StateStdGaussianPolicy(mu, std, eps=.2)
        o = [AdaptiveOptimizer(eps=.05), AdamOptimizer(lr=.02), SGDOptimizer(lr=Parameter(.01))][k % 3]
        if name == 'reinforce':
            agent = REINFORCE(mdp.info, pol, o)
        elif name == 'gpomdp':
            agent = GPOMDP(mdp.info, pol, o)
        else:
            agent = eNAC(mdp.info, pol, o, critic_features=None)
        return agent, mdp, dict(n_episodes_per_fit=6, episodes=True)
    return make


def bbo(name, k):
    def make():
        mdp = Plane(1)
        pol = DeterministicPolicy(Regressor(TorchApproximator, input_shape=(2,), output_shape=(1,), network=LinearNet)
                                  if name == 'eppo' else lin(mdp, (1,)))
        n = pol.weights_size
        chol = name == 'more' or (k % 2 and name in ('rwr', 'reps', 'pgpe'))
        if name == 'eppo':
            d = DiagonalGaussianTorchDistribution(torch.zeros(n), torch.ones(n) * .7)
        elif chol:
            d = GaussianCholeskyDistribution(np.zeros(n), .6 * np.eye(n))
        else:
            d = GaussianDiagonalDistribution(np.zeros(n), .6 * np.ones(n))
        if name == 'rwr':
            a = RWR(mdp.info, d, pol, beta=Parameter(.5))
        elif name == 'reps':
            a = REPS(mdp.info, d, pol, eps=LinearParameter(.7, .3, 4))
        elif name == 'creps':
            a = ConstrainedREPS(mdp.info, d, pol, eps=.6, kappa=.1)
        elif name == 'pgpe':
            a = PGPE(mdp.info, d, pol, [AdaptiveOptimizer(eps=.1), AdamOptimizer(lr=.02),
                                        SGDOptimizer(lr=Parameter(.01))][k % 3])
        elif name == 'more':
            a = MORE(mdp.info, d, pol, eps=.5)
        else:
            a = ePPO(mdp.info, d, pol, opt(['adam', 'sgd', 'rms'][k % 3], .05), n_epochs_policy=2, batch_size=4, eps_ppo=.2,
                     ent_coeff=.01)
        return a, mdp, dict(n_episodes_per_fit=12 if name in ('more', 'creps') else 8, episodes=True)
    return make


FAMILIES = dict(
    tabular=(tabular, sorted(TD)),
    linear=(linear_td, ['sarsalambdacont', 'trueonline']),
    batch=(batch_td, ['fqi', 'doublefqi', 'boostedfqi', 'lspi']),
    dqn=(dqn, ['dqn', 'doubledqn', 'averageddqn', 'maxmindqn', 'duelingdqn', 'categoricaldqn', 'noisydqn', 'quantiledqn',
               'rainbow']),
    classic_ac=(classic_ac, ['copdac', 'stochac', 'stochacavg']),
    deep_ac=(deep_ac, ['a2c', 'ppo', 'trpo', 'ppobptt', 'sac', 'ddpg', 'td3']),
    pg=(pg, ['reinforce', 'gpomdp', 'enac']),
    bbo=(bbo, ['rwr', 'reps', 'creps', 'pgpe', 'more', 'eppo']))


def build(family, name, k):
    return FAMILIES[family][0](name, k)()
