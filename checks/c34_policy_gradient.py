"""C34 - REINFORCE, GPOMDP and eNAC: the gradient estimate equals its definition on every batch of episodes."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.algorithms.policy_search import GPOMDP, REINFORCE, eNAC
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Core, Environment, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.features.basis.polynomial import PolynomialBasis
from mushroom_rl.policy import DiagonalGaussianPolicy, GaussianPolicy, StateLogStdGaussianPolicy
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.parameters import LinearParameter
from mushroom_rl.rl_utils.spaces import Box
from pbt.harness import Check

check = Check('C34', rule='a case is an algorithm, a Gaussian policy, an optimizer, a discount and one to three batches of episodes of '
              'varied lengths collected through Core; the weights after each fit are compared with the reference estimate from the '
              'recorded states, actions and rewards; non-trivial when episodes have different lengths and the weights moved')


class Task(Environment):
    def __init__(self, d, m, lengths, gamma, rewards, dead=False, scale=1.):
        super().__init__(MDPInfo(Box(-10 * np.ones(d), 10 * np.ones(d)), Box(-1e6 * np.ones(m), 1e6 * np.ones(m)), gamma, 50))
        self.lengths, self.rewards, self.dead, self.scale = lengths, rewards, dead, scale
        self.k, self.n = -1, 0
        self.log = []

    def obs(self):
        d = self.info.observation_space.shape[0]
        self.x = np.cos(np.arange(1, d + 1) * (1 + self.t) + .7 * self.k)
        if self.dead:
            self.x[-1] = 0.              # a state component that never varies: zero scores, undefined baselines
        return self.x.copy()

    def reset(self, state=None):
        self.k += 1
        self.t = 0
        self.log.append([])
        return self.obs(), {}

    def step(self, action):
        r = self.rewards[self.n % len(self.rewards)] - .3 * float(np.sum(action ** 2))
        r *= self.scale
        self.log[-1].append((self.x.copy(), np.array(action), r))
        self.n += 1
        self.t += 1
        return self.obs(), r, self.t >= self.lengths[self.k % len(self.lengths)], {}


@st.composite
def runs(draw):
    return dict(d=draw(st.integers(1, 3)), m=draw(st.integers(1, 2)), pol=draw(st.integers(0, 2)), opt=draw(st.integers(0, 2)),
                n=draw(st.sampled_from([2, 3, 4, 6, 6, 14])), fits=draw(st.integers(1, 3)),
                lengths=draw(st.lists(st.integers(1, 5), min_size=1, max_size=6)) + draw(st.sampled_from([[], [], [], [12], [49]])),
                scale=draw(st.sampled_from([1., 1., 1., 40.])),
                gamma=draw(st.sampled_from([1., .9, .5])), feat=draw(st.booleans()),
                rewards=draw(st.lists(st.integers(-8, 8).map(lambda v: v / 4), min_size=3, max_size=9)),
                w=draw(st.integers(-3, 3)), dead=draw(st.integers(0, 3)) == 0)


def policy(x):
    d, m = x['d'], x['m']
    reg = Regressor(LinearApproximator, input_shape=(d,), output_shape=(m,))
    reg.set_weights(.1 * x['w'] * np.ones(d * m))
    if x['pol'] == 0:
        c = np.tril(.3 * np.ones((m, m))) + .5 * np.eye(m)
        return GaussianPolicy(reg, c @ c.T)
    if x['pol'] == 1:
        return DiagonalGaussianPolicy(reg, .4 + .2 * np.arange(m))
    std = Regressor(LinearApproximator, input_shape=(d,), output_shape=(m,))
    std.set_weights(-.2 * np.ones(d * m))
    return StateLogStdGaussianPolicy(reg, std)


def optimizer(x):
    return [lambda: SGDOptimizer(lr=.01), lambda: AdamOptimizer(lr=.02), lambda: SGDOptimizer(lr=LinearParameter(.02, .01, 2))][x['opt']]()


def ratio(num, den):
    with np.errstate(all='ignore'):
        b = num / den
    return np.where(np.isfinite(b), b, 0.)


def reinforce(pol, eps, g, x):
    G = np.array([sum(pol.diff_log(s, a) for s, a, _ in e) for e in eps])
    J = np.array([sum(g ** t * r for t, (_, _, r) in enumerate(e)) for e in eps])[:, None]
    b = ratio((G ** 2 * J).mean(0), (G ** 2).mean(0))
    return (G * (J - b)).mean(0)


def gpomdp(pol, eps, g, x):
    T = max(map(len, eps))
    cums = [np.cumsum([pol.diff_log(s, a) for s, a, _ in e], 0) for e in eps]
    tot = np.zeros(pol.weights_size)
    for t in range(T):
        c = np.array([cums[i][t] for i in range(len(eps)) if len(eps[i]) > t])
        r = np.array([g ** t * e[t][2] for e in eps if len(e) > t])[:, None]
        b = ratio((c ** 2 * r).mean(0), (c ** 2).mean(0))
        tot += (c * (r - b)).sum(0)
    return tot / len(eps)


def features(x):
    return Features(basis_list=PolynomialBasis.generate(1, x['d'])) if x['feat'] else None


def enac(pol, eps, g, x):
    phi = features(x)
    psi = np.array([np.concatenate((sum(g ** t * pol.diff_log(s, a) for t, (s, a, _) in enumerate(e)),
                                    np.ones(1) if phi is None else phi(e[0][0]))) for e in eps])
    J = np.array([sum(g ** t * r for t, (_, _, r) in enumerate(e)) for e in eps])
    sv = np.linalg.svd(psi, compute_uv=False)
    if np.any((sv < 1e-7 * sv.max()) & (sv > 1e-17 * sv.max())):
        return None
    return np.linalg.lstsq(psi, J, rcond=1e-12)[0][:pol.weights_size]


def drive(cls, ref, x):
    mdp = Task(x['d'], x['m'], x['lengths'], x['gamma'], x['rewards'], x['dead'], x['scale'])
    pol = policy(x)
    agent = cls(mdp.info, pol, optimizer(x), features(x)) if cls is eNAC else cls(mdp.info, pol, optimizer(x))
    opt = optimizer(x)
    state = dict(done=0, pol=pol.copy(), moved=False, lost=False)

    def on_fit(dataset):
        eps = mdp.log[state['done']:]
        assert len(eps) == x['n']
        old = state['pol']
        state['done'] = len(mdp.log)
        state['pol'] = agent.policy.copy()
        grad = None if state['lost'] else ref(old, eps, x['gamma'], x)
        if grad is None:
            # rank-deficient up to rounding: the estimate is not determined
            state['lost'] = True
            return
        want = opt(old.get_weights(), grad)
        got = agent.policy.get_weights()
        tol = 1e-4 if cls is eNAC else 1e-6
        assert got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol * (1 + np.abs(grad).max())), (
            'weights after the fit', got, want, 'gradient', grad)
        state['moved'] |= not np.allclose(got, old.get_weights())
    core = Core(agent, mdp, callbacks_fit=[on_fit])
    core.learn(n_episodes=x['n'] * x['fits'], n_episodes_per_fit=x['n'], quiet=True)
    return cls.__name__ if state['moved'] and len(set(x['lengths'])) > 1 else None


@check.case('reinforce', runs(), quick=150)
def _(x):
    return drive(REINFORCE, reinforce, x)


@check.case('gpomdp', runs(), quick=150)
def _(x):
    return drive(GPOMDP, gpomdp, x)


@check.case('enac', runs(), quick=150)
def _(x):
    # distinct rewards keep the least squares problem well conditioned
    return drive(eNAC, enac, dict(x, n=x['n'] + 3 * x['d'] * x['m'] * 2))
