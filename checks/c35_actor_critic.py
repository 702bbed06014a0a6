"""C35 - classic actor-critics and DDPG, TD3, SAC: every fit is the documented update of actor, critic, targets, temperature."""
import copy

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st

from mushroom_rl.algorithms.actor_critic import COPDAC_Q, DDPG, SAC, TD3, StochasticAC, StochasticAC_AVG
from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, TorchApproximator
from mushroom_rl.core import Core, Dataset, Environment, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.features.basis.polynomial import PolynomialBasis
from mushroom_rl.policy import (ClippedGaussianPolicy, DiagonalGaussianPolicy, GaussianPolicy, OrnsteinUhlenbeckPolicy,
                                StateLogStdGaussianPolicy)
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.replay_memory import ReplayMemory
from mushroom_rl.rl_utils.spaces import Box
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C35', rule='a case is an algorithm, its coefficients, networks or policies and a stream of transitions (with absorbing '
              'steps, truncations, varied fit sizes); after every fit the parameters are compared with an independent '
              'implementation fed with the recorded replay batches; non-trivial when the actor moved and an absorbing step occurred')

quarter = st.integers(-8, 8).map(lambda v: v / 4.)


# ---------------------------------------------------------------- classic actor-critics
class Walk(Environment):
    def __init__(self, d, m, gamma, lengths, horizon, rewards):
        super().__init__(MDPInfo(Box(-5 * np.ones(d), 5 * np.ones(d)), Box(-5 * np.ones(m), 5 * np.ones(m)), gamma, horizon))
        self.d, self.lengths, self.rewards = d, lengths, rewards
        self.k, self.n = -1, 0
        self.log = []

    def obs(self):
        self.x = .8 * np.cos((np.arange(self.d) + 1) * (self.n + 1.3) + .7 * self.k)
        return self.x.copy()

    def reset(self, state=None):
        self.k += 1
        self.t = 0
        self.log.append('start')
        return self.obs(), {}

    def step(self, action):
        s, r = self.x.copy(), self.rewards[self.n % len(self.rewards)] + .1 * float(np.sum(action))
        self.n += 1
        self.t += 1
        o = self.obs()
        ab = self.t >= self.lengths[self.k % len(self.lengths)]
        self.log.append((s, np.array(action), r, o.copy(), ab))
        return o, r, ab, {}


@st.composite
def classic(draw):
    return dict(kind=draw(st.sampled_from(['sac', 'avg', 'copdac'])), d=draw(st.sampled_from([1, 2, 3, 6])), m=draw(st.sampled_from([1, 2, 2, 4])),
                gamma=draw(st.sampled_from([1., .9, .5])), lam=draw(st.sampled_from([0., .5, .9, 1.])),
                lengths=draw(st.lists(st.one_of(st.integers(1, 9), st.integers(10, 40)), min_size=1, max_size=4)),
                horizon=draw(st.sampled_from([6, 6, 50])),
                rewards=draw(st.lists(quarter, min_size=2, max_size=6)), steps=draw(st.one_of(st.integers(4, 30), st.integers(31, 150))),
                per=draw(st.integers(1, 3)), rates=[draw(st.integers(0, 2)) for _ in range(3)], psi=draw(st.booleans()),
                pol=draw(st.integers(0, 1)), w=draw(st.integers(-4, 4)))


def rate(k, i):
    v = [.02, .1, .15][i]
    return [lambda: Parameter(v), lambda: DecayParameter(2 * v, .5), lambda: LinearParameter(2 * v, v, 9)][k]()


def pol_of(x, mu):
    if x['kind'] == 'copdac' or x['pol'] == 0:
        return GaussianPolicy(mu, .3 * np.eye(x['m']))
    std = Regressor(LinearApproximator, input_shape=(x['d'],), output_shape=(x['m'],))
    std.set_weights(-.2 * np.ones(std.weights_size))
    return StateLogStdGaussianPolicy(mu, std)


@check.case('classic', classic(), quick=250)
def classic_case(x):
    env = Walk(x['d'], x['m'], x['gamma'], x['lengths'], x['horizon'], x['rewards'])
    g, lam = x['gamma'], x['lam']
    mu = Regressor(LinearApproximator, input_shape=(x['d'],), output_shape=(x['m'],))
    mu.set_weights(.1 * x['w'] * np.ones(mu.weights_size))
    pol = pol_of(x, mu)
    psi = Features(basis_list=PolynomialBasis.generate(2, x['d'])) if x['psi'] else None
    al = [rate(k, i) for i, k in enumerate(x['rates'])]
    ra = [rate(k, i) for i, k in enumerate(x['rates'])]
    if x['kind'] == 'copdac':
        agent = COPDAC_Q(env.info, pol, mu, al[0], al[1], al[2], value_function_features=psi)
        omega = np.zeros(mu.weights_size)
    elif x['kind'] == 'sac':
        agent = StochasticAC(env.info, pol, al[0], al[1], lambda_par=lam, value_function_features=psi)
    else:
        agent = StochasticAC_AVG(env.info, pol, al[0], al[1], al[2], lambda_par=lam, value_function_features=psi)
    ref = pol.copy()
    rmu = mu.copy()
    f = (lambda s: np.asarray(psi(s), dtype=float)) if psi is not None else (lambda s: s)
    v = np.zeros(len(f(np.zeros(x['d']))))
    ev, et, rbar = 0 * v, np.zeros(pol.weights_size), 0.
    st_ = dict(done=0, moved=False, absorbing=False)
    if x['kind'] != 'copdac':
        # a fit that spans an episode boundary sees the traces of the new episode only; keep fits inside episodes
        x = dict(x, per=1)

    def on_fit(dataset):
        nonlocal v, ev, et, rbar, omega
        for e in env.log[st_['done']:]:
            if isinstance(e, str):
                ev, et = 0 * v, 0 * et
                continue
            s, a, r, ss, ab = e
            st_['absorbing'] |= ab
            vn = 0. if ab else float(v @ f(ss))
            if x['kind'] == 'copdac':
                grad = np.atleast_2d(rmu.diff(s))
                if grad.shape[0] != rmu.weights_size:
                    grad = grad.T                              # weights x actions
                nu = grad @ (a - rmu(s))
                delta = r + g * vn - float(v @ f(s)) - float(omega @ nu)
                dth = ra[0](s, a) * grad @ (grad.T @ omega)
                om2 = omega + ra[1](s, a) * delta * nu
                v = v + ra[2](s, a) * delta * f(s)
                rmu.set_weights(rmu.get_weights() + dth)
                omega = om2
                continue
            if x['kind'] == 'sac':
                delta, k = r + g * vn - float(v @ f(s)), g * lam
            else:
                delta, k = r - rbar + vn - float(v @ f(s)), lam
                rbar = rbar + ra[2]() * delta
            ev = k * ev + f(s)
            et = k * et + ref.diff_log(s, a)
            v = v + ra[1](s, a) * delta * ev
            ref.set_weights(ref.get_weights() + ra[0](s, a) * delta * et)
        st_['done'] = len(env.log)
        got = mu.get_weights() if x['kind'] == 'copdac' else agent.policy.get_weights()
        want = rmu.get_weights() if x['kind'] == 'copdac' else ref.get_weights()
        if not np.all(np.abs(want) < 1e3):
            st_['moved'] = None
            raise StopIteration
        assert np.allclose(got, want, rtol=1e-6, atol=1e-8), ('policy parameters', got, want)
        st_['moved'] |= bool(np.any(np.abs(got - .1 * x['w']) > 1e-9))
        if x['kind'] == 'copdac':
            s = env.x
            m1 = np.mean([agent.policy.draw_action(s, None)[0] for _ in range(3)], 0)
            assert np.all(np.abs(m1 - mu(s)) < 6.), 'the policy follows the learned mean'
    if x['kind'] != 'copdac':
        omega = None
    try:
        Core(agent, env, callbacks_fit=[on_fit]).learn(n_steps=x['steps'], n_steps_per_fit=x['per'], quiet=True)
    except StopIteration:
        return None
    return x['kind'] if st_['moved'] and st_['absorbing'] else None


# ---------------------------------------------------------------- deep off-policy actor-critics
class QDouble(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.h, self.o = nn.Linear(input_shape[0], 4).double(), nn.Linear(4, output_shape[0]).double()

    def forward(self, state, action):
        return self.o(torch.tanh(self.h(torch.cat((state.double(), action.double()), 1)))).squeeze(1)


class ADouble(nn.Module):
    def __init__(self, input_shape, output_shape, gain=1., **kw):
        super().__init__()
        self.gain = gain
        self.h, self.o = nn.Linear(input_shape[0], 3).double(), nn.Linear(3, output_shape[0]).double()

    def forward(self, state):
        return self.gain * self.o(torch.tanh(self.h(state.double())))


class Tap(object):
    def __init__(self):
        self.got = []

    def __enter__(self):
        self.orig, tap = ReplayMemory.get, self

        def get(mem, n):
            out = self.orig(mem, n)
            tap.got.append((n, [to_np(o).copy() for o in out]))
            return out
        ReplayMemory.get = get
        return self

    def __exit__(self, *a):
        ReplayMemory.get = self.orig


def optim(k, lr):
    return {'class': [torch.optim.SGD, torch.optim.Adam, torch.optim.RMSprop][k], 'params': dict(lr=lr)}


@st.composite
def deep(draw):
    big = draw(st.integers(0, 3)) == 3
    n = draw(st.integers(20, 70) if big else st.integers(6, 20))
    da = draw(st.integers(1, 5) if big else st.integers(1, 2))
    if big:
        rng, amp = np.random.RandomState(draw(st.integers(0, 10 ** 6))), draw(st.sampled_from([1., 1., 12.]))
        pick = lambda k: [float(v) for v in rng.randint(-8, 9, size=k) / 4.]
        rows = [(pick(2), pick(da), amp * pick(1)[0], ['', '', '', '', 'abs', 'trunc'][rng.randint(6)]) for _ in range(n)]
    else:
        rows = [([draw(quarter), draw(quarter)], [draw(quarter) for _ in range(da)], draw(quarter),
                 draw(st.sampled_from(['', '', 'abs', 'trunc']))) for _ in range(n)]
    top = 12 if big else 3
    return dict(rows=rows, da=da, chunk=draw(st.integers(1, top)), init=draw(st.integers(1, 30 if big else 5)),
                maxsize=draw(st.integers(30, 90) if big else st.integers(6, 24)),
                batch=draw(st.integers(2, 50 if big else 5)), tau=draw(st.sampled_from([.01, .3, .5, 1., (1., .1, 9), (.2, .7, 30)])), gamma=draw(st.sampled_from([.5, .9, .99])),
                delay=draw(st.integers(1, 6 if big else 3)), copt=draw(st.integers(0, 2)), aopt=draw(st.integers(0, 2)), clip=draw(st.booleans()),
                epochs=draw(st.sampled_from([1, 2, 4])), noise=draw(st.sampled_from([(0., .5), (.2, .5), (1., .3), (.4, 2.)])),
                gain=draw(st.sampled_from([.3, 1., 4.])), models=draw(st.integers(2, 5 if big else 3)), warm=draw(st.integers(0, 40 if big else 7)),
                logalpha=draw(st.booleans()), ent=draw(st.sampled_from([None, -.5, -2., 1.])),
                stds=draw(st.sampled_from([(-20, 2), (-1., 0.), (-.3, .1), (-2., -1.)])), seed=draw(st.integers(0, 9999)),
                low=draw(st.sampled_from([-1., -2., 0.])), width=draw(st.sampled_from([1., 2.])))


def nets_of(reg):
    """The networks behind a regressor with one or more models."""
    return [reg.model.network] if len(reg) == 1 else [reg.model[i].network for i in range(len(reg))]


def init(net, seed, scale=.6):
    gen = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(scale * torch.randn(p.shape, generator=gen, dtype=torch.double))


def same(a, b, what):
    for p, q in zip(a.parameters(), b.parameters()):
        assert p.shape == q.shape and torch.allclose(p.double(), q.double(), rtol=1e-4, atol=2e-6), (what, p, q)


def info_of(x):
    d = x['da']
    low = x['low'] - .25 * np.arange(d)
    return MDPInfo(Box(-9 * np.ones(2), 9 * np.ones(2)), Box(low, low + x['width'] * (1 - .25 * (np.arange(d) % 3))), x['gamma'], 100)


def chunks(x, info, agent):
    for c in range(0, len(x['rows']), x['chunk']):
        rows = x['rows'][c:c + x['chunk']]
        d = Dataset.generate(info, agent.info, n_steps=len(rows))
        for i, (s, a, r, end) in enumerate(rows):
            nx = x['rows'][(c + i + 1) % len(x['rows'])][0]
            ps = (np.zeros(x['da']), np.zeros(x['da'])) if agent.info.is_stateful else (None, None)
            d.append((np.array(s), np.array(a), r, np.array(nx), end == 'abs', end != '') + ps, {})
        yield d


class Reference(object):
    """Networks and optimizers kept in step with the agent."""
    def __init__(self, x, critic, tcritic, actor):
        self.x = x
        self.tau = tau_of(x)
        self.c, self.tc, self.a = [[copy.deepcopy(n) for n in ns] for ns in (critic, tcritic, actor)]
        self.copt = [make(optim(x['copt'], .05), list(n.parameters())) for n in self.c]
        self.params = [p for n in self.a for p in n.parameters()]
        self.aopt = make(optim(x['aopt'], .03), self.params)

    def critics(self, s, a, y):
        for n, o in zip(self.c, self.copt):
            for _ in range(self.x['epochs']):
                o.zero_grad()
                F.mse_loss(n(s, a), y).backward()
                o.step()

    def actor(self, loss):
        self.aopt.zero_grad()
        loss.backward()
        if self.x['clip']:
            torch.nn.utils.clip_grad_norm_(self.params, max_norm=.05)
        self.aopt.step()

    def soft(self, online, target):
        with torch.no_grad():
            for n, t in zip(online, target):
                tau = self.tau()
                for p, q in zip(n.parameters(), t.parameters()):
                    q.copy_(tau * p + (1 - tau) * q)


def tau_of(x):
    return LinearParameter(*x['tau']) if isinstance(x['tau'], (tuple, list)) else Parameter(x['tau'])


def make(d, params):
    return d['class'](params, **d['params'])


def batch_of(tap):
    s, a, r, ns, ab = [torch.tensor(np.asarray(o, dtype=float)) for o in tap.got[0][1][:5]]
    return s, a, r.reshape(-1), ns, ab.reshape(-1)


class Spy(object):
    """Records the inputs of a network without touching it."""
    def __init__(self, net):
        self.calls = []
        self.h = net.register_forward_pre_hook(lambda m, args, kw=None: self.calls.append(
            [(t.detach().double().clone(), t.requires_grad) for t in args if isinstance(t, torch.Tensor)]))

    def drain(self):
        out, self.calls = self.calls, []
        return out


def schedule(x, tap, total):
    if total < x['init']:
        assert not tap.got, 'a fit before initial_replay_size samples were collected'
    if total > x['init']:
        assert len(tap.got) == 1 and tap.got[0][0] == x['batch'], 'one batch of batch_size samples per fit'
    return bool(tap.got)


def params_of(x, cls):
    aopt = optim(x['aopt'], .03)
    if x['clip']:
        aopt['clipping'] = dict(method=torch.nn.utils.clip_grad_norm_, params=dict(max_norm=.05))
    critic = dict(network=QDouble, optimizer=optim(x['copt'], .05), loss=F.mse_loss, input_shape=(2 + x['da'],), output_shape=(1,))
    kw = dict(critic_params=critic, batch_size=x['batch'], initial_replay_size=x['init'], max_replay_size=x['maxsize'],
              tau=tau_of(x) if isinstance(x['tau'], (tuple, list)) else x['tau'], critic_fit_params=dict(n_epochs=x['epochs']) if x['epochs'] > 1 else None, actor_optimizer=aopt)
    return kw, dict(network=ADouble, input_shape=(2,), output_shape=(x['da'],), gain=x['gain'])


def ddpg(x, cls):
    info = info_of(x)
    kw, actor = params_of(x, cls)
    if cls is TD3:
        kw.update(noise_std=x['noise'][0], noise_clip=x['noise'][1])
        if x['models'] > 2:
            kw['critic_params']['n_models'] = x['models']
    if x['seed'] % 2:
        pol = dict(policy_class=ClippedGaussianPolicy, policy_params=dict(
            sigma=1e-12 * torch.eye(x['da']).double(), low=-99. * torch.ones(x['da']), high=99. * torch.ones(x['da'])))
    else:
        pol = dict(policy_class=OrnsteinUhlenbeckPolicy, policy_params=dict(sigma=torch.zeros(x['da']), theta=.2, dt=.5))
    agent = cls(info, actor_params=actor, policy_delay=x['delay'], **pol, **kw)
    critic, tcritic = nets_of(agent._critic_approximator), nets_of(agent._target_critic_approximator)
    actor, tactor = nets_of(agent._actor_approximator), nets_of(agent._target_actor_approximator)
    for a, b, w in ((critic, tcritic, 'critic'), (actor, tactor, 'actor')):
        assert len(a) == len(b)
        for n, t in zip(a, b):
            assert n is not t
            same(n, t, 'initial target ' + w)
    assert len(critic) == (x['models'] if cls is TD3 else 1), ('number of critics', len(critic))
    for i, n in enumerate(critic + tcritic + actor + tactor):
        init(n, x['seed'] + i)
    ref = Reference(x, critic, tcritic, actor)
    rt = [copy.deepcopy(n) for n in tactor]
    spy = Spy(tcritic[0])
    fits = total = moved = absorbing = 0
    for d in chunks(x, info, agent):
        total += len(d)
        with Tap() as tap:
            agent.fit(d)
        calls = spy.drain()
        if schedule(x, tap, total):
            s, a, r, ns, ab = batch_of(tap)
            absorbing += int(ab.sum())
            with torch.no_grad():
                an = rt[0](ns)
                if cls is TD3:
                    lo, hi = torch.tensor(info.action_space.low).double(), torch.tensor(info.action_space.high).double()
                    used = calls[-1][1][0]
                    c = x['noise'][1] if x['noise'][0] else 0.
                    assert used.shape == an.shape
                    assert torch.all(used >= torch.clamp(an - c, lo, hi) - 1e-6) and \
                        torch.all(used <= torch.clamp(an + c, lo, hi) + 1e-6), ('smoothed target action', used, an)
                    an = used
                qn = torch.stack([n(ns, an) for n in ref.tc]).min(0)[0]
                y = r + x['gamma'] * (1 - ab) * qn
            ref.critics(s, a, y)
            if fits % x['delay'] == 0:
                ref.actor(-ref.c[0](s, ref.a[0](s)).mean())
                moved += 1
            ref.soft(ref.c, ref.tc)
            ref.soft(ref.a, rt)
            fits += 1
        for w, got, want in (('critic', critic, ref.c), ('target critic', tcritic, ref.tc), ('actor', actor, ref.a),
                             ('target actor', tactor, rt)):
            for p, q in zip(got, want):
                same(p, q, w)
        act = agent.policy.draw_action(torch.tensor([.25, -.5]), torch.zeros(x['da']) if agent.info.is_stateful else None)[0]
        with torch.no_grad():
            assert torch.allclose(torch.as_tensor(act).double().reshape(-1), actor[0](torch.tensor([[.25, -.5]]))[0], atol=1e-4), \
                'the policy acts with the online actor'
    return cls.__name__ if moved and absorbing else None


@check.case('ddpg', deep(), quick=120)
def ddpg_case(x):
    return ddpg(x, DDPG)


@check.case('td3', deep(), quick=140)
def td3_case(x):
    return ddpg(x, TD3)


@check.case('td3_noise', st.fixed_dictionaries(dict(noise=st.sampled_from([(.2, .5), (1., .3), (.4, .4), (.5, 3.)]),
                                                    da=st.integers(1, 2), seed=st.integers(0, 999))), quick=12)
def td3_noise(x):
    """The smoothing noise is clipped white Gaussian noise, independent over samples and action components."""
    n = 1500
    rng = np.random.RandomState(x['seed'])
    y = dict(x, low=-50., width=100., gamma=.9, copt=0, aopt=0, clip=False, batch=n, init=4, maxsize=64, tau=.5, epochs=1,
             models=2, delay=1, gain=1., chunk=64,
             rows=[(list(rng.randn(2)), list(rng.randn(x['da'])), 0., '') for _ in range(64)])
    info = info_of(y)
    kw, actor = params_of(y, TD3)
    agent = TD3(info, ClippedGaussianPolicy, dict(sigma=torch.eye(x['da']), low=-99. * torch.ones(x['da']),
                                                  high=99. * torch.ones(x['da'])), actor, noise_std=x['noise'][0],
                noise_clip=x['noise'][1], **kw)
    spy = Spy(nets_of(agent._target_critic_approximator)[0])
    before = copy.deepcopy(nets_of(agent._target_actor_approximator)[0])
    with Tap() as tap:
        for d in chunks(y, info, agent):
            agent.fit(d)
    ns = batch_of(tap)[3]
    with torch.no_grad():
        eps = (spy.drain()[-1][1][0] - before(ns)).numpy()
    sd, c = x['noise']
    ref = np.clip(sd * np.random.RandomState(1).randn(400000), -c, c)
    assert eps.shape == (n, x['da']) and np.abs(eps).max() <= c + 1e-6
    k = eps.size
    assert abs(eps.mean()) < 6 * ref.std() / np.sqrt(k), ('mean of the smoothing noise', eps.mean())
    dev = np.std((ref - ref.mean()) ** 2)
    assert abs(np.mean(eps ** 2) - ref.var()) < 6 * dev / np.sqrt(k), ('variance of the smoothing noise', eps.var(), ref.var())
    assert abs(np.corrcoef(eps[:-1, 0], eps[1:, 0])[0, 1]) < .2, 'noise correlated over samples'
    if x['da'] > 1:
        assert abs(np.corrcoef(eps.T)[0, 1]) < .2, 'noise correlated over components'
    return 'noise'


def squash(x, info):
    lo, hi = torch.tensor(info.action_space.low).double(), torch.tensor(info.action_space.high).double()
    return (hi - lo) / 2, (hi + lo) / 2


def invert(x, info, mu, ls, a):
    d, c = squash(x, info)
    raw = torch.atanh(((a - c) / d).clamp(-1 + 1e-15, 1 - 1e-15))
    return (raw - mu) / ls.exp()


def sample(x, info, mu, ls, eps):
    d, c = squash(x, info)
    raw = mu + ls.exp() * eps
    t = torch.tanh(raw)
    logp = (-.5 * eps ** 2 - ls - .5 * np.log(2 * np.pi) - torch.log(1 - t ** 2 + 1e-6)).sum(1)
    return c + d * t, logp


@check.case('sac', deep(), quick=140)
def sac_case(x):
    x = dict(x, gain=min(x['gain'], 1.))
    info = info_of(x)
    kw, actor = params_of(x, SAC)
    lr_alpha = [.01, .1][x['seed'] % 2]
    agent = SAC(info, actor_mu_params=dict(actor), actor_sigma_params=dict(actor), warmup_transitions=x['warm'], lr_alpha=lr_alpha,
                use_log_alpha_loss=x['logalpha'], log_std_min=x['stds'][0], log_std_max=x['stds'][1], target_entropy=x['ent'], **kw)
    critic, tcritic = nets_of(agent._critic_approximator), nets_of(agent._target_critic_approximator)
    mu, sg = nets_of(agent.policy._mu_approximator)[0], nets_of(agent.policy._sigma_approximator)[0]
    for n, t in zip(critic, tcritic):
        assert n is not t
        same(n, t, 'initial target critic')
    assert len(critic) == 2
    for i, n in enumerate(critic + tcritic + [mu, sg]):
        init(n, x['seed'] + i, .4)
    ref = Reference(x, critic, tcritic, [mu, sg])
    log_alpha = torch.zeros((), requires_grad=True)
    opt_alpha = torch.optim.Adam([log_alpha], lr=lr_alpha)
    ent = -float(x['da']) if x['ent'] is None else x['ent']
    spies, tspy = Spy(critic[0]), Spy(tcritic[0])
    total = moved = absorbing = 0

    def dist(s):
        return ref.a[0](s), torch.clamp(ref.a[1](s), *[float(v) for v in x['stds']])
    for d in chunks(x, info, agent):
        total += len(d)
        size = min(total, x['maxsize'])
        with Tap() as tap:
            agent.fit(d)
        calls, tcalls = spies.drain(), tspy.drain()
        if schedule(x, tap, total):
            s, a, r, ns, ab = batch_of(tap)
            absorbing += int(ab.sum())
            fresh = [c for c in calls if len(c) > 1 and c[1][1]]
            if size > x['warm']:
                assert fresh, 'no actor update after the warm-up'
                an = fresh[0][1][0]
                with torch.no_grad():
                    eps = invert(x, info, *dist(s), an)
                if not torch.all(torch.abs(eps) < 8) or torch.any(torch.abs(squashed(x, info, an)) > 1 - 1e-6):
                    assert torch.all(torch.abs(eps) < 12), ('noise of the sampled actions', eps)
                    return None
                act, logp = sample(x, info, *dist(s), eps)
                q = torch.min(ref.c[0](s, act), ref.c[1](s, act))
                alpha = log_alpha.detach().exp()
                ref.actor((alpha * logp - q).mean())
                moved += 1
                w = log_alpha if x['logalpha'] else log_alpha.exp()
                opt_alpha.zero_grad()
                (-(w * (logp.detach() + ent)).mean()).backward()
                opt_alpha.step()
            else:
                assert not fresh, 'actor update before the end of the warm-up'
            an = tcalls[-1][1][0]
            with torch.no_grad():
                eps = invert(x, info, *dist(ns), an)
                if not torch.all(torch.abs(eps) < 8) or torch.any(torch.abs(squashed(x, info, an)) > 1 - 1e-6):
                    assert torch.all(torch.abs(eps) < 12), ('noise of the sampled next actions', eps)
                    return None
                act, logp = sample(x, info, *dist(ns), eps)
                qn = torch.min(ref.tc[0](ns, act), ref.tc[1](ns, act)) - log_alpha.exp() * logp
                y = r + x['gamma'] * (1 - ab) * qn
            ref.critics(s, a, y)
            ref.soft(ref.c, ref.tc)
        for w, got, want in (('critic', critic, ref.c), ('target critic', tcritic, ref.tc), ('policy', [mu, sg], ref.a)):
            for p, q in zip(got, want):
                same(p, q, w)
    return 'SAC' if moved and absorbing else None


def squashed(x, info, a):
    d, c = squash(x, info)
    return (a - c) / d


@check.case('sac_policy', st.fixed_dictionaries(dict(
    da=st.integers(1, 3), low=st.sampled_from([-1., -2., 0., .5]), width=st.sampled_from([1., 2., 4.]), gamma=st.just(.9),
    stds=st.sampled_from([(-20, 2), (-1., 0.), (-.3, .1), (-2., -1.)]), seed=st.integers(0, 9999), n=st.integers(1, 5))), quick=120)
def sac_policy(x):
    info = info_of(x)
    kw = dict(network=ADouble, input_shape=(2,), output_shape=(x['da'],))
    mu, sg = Regressor(TorchApproximator, **kw), Regressor(TorchApproximator, **kw)
    pol = SACPolicy(mu, sg, info.action_space.low, info.action_space.high, *x['stds'])
    init(mu.model.network, x['seed'], .5)
    init(sg.model.network, x['seed'] + 1, .8)
    rng = np.random.RandomState(x['seed'])
    s = torch.tensor(rng.randn(x['n'], 2))
    with torch.no_grad():
        m, ls = mu.model.network(s), torch.clamp(sg.model.network(s), *[float(v) for v in x['stds']])
    dd = pol.distribution(s)
    assert torch.allclose(dd.mean.detach(), m) and torch.allclose(dd.stddev.detach(), ls.exp())
    lo, hi = torch.tensor(info.action_space.low), torch.tensor(info.action_space.high)
    for f in (pol.compute_action_and_log_prob, pol.compute_action_and_log_prob_t):
        a, lp = f(s)
        assert a.shape == (x['n'], x['da']) and lp.shape == (x['n'],)
        assert a.requires_grad == lp.requires_grad == (f == pol.compute_action_and_log_prob_t)
        a, lp = a.detach().double(), lp.detach().double()
        assert torch.all(a >= lo) and torch.all(a <= hi), 'action outside the bounds'
        if torch.all(torch.abs(squashed(x, info, a)) < 1 - 1e-6):
            eps = invert(x, info, m, ls, a)
            want = sample(x, info, m, ls, eps)[1]
            assert torch.allclose(lp, want, rtol=1e-4, atol=1e-4), ('log-probability', lp, want)
    # distribution of the draws
    k = 3000
    big = s[:1].repeat(k, 1)
    act = pol.draw_action(big)[0]
    assert act.shape == (k, x['da']) and not act.requires_grad
    one = pol.draw_action(s[0])[0]
    assert one.shape == (x['da'],) and torch.all(one >= lo) and torch.all(one <= hi)
    if torch.all(torch.abs(squashed(x, info, act.double())) < 1 - 1e-7):
        e = invert(x, info, m[:1], ls[:1], act.double()).numpy()
        assert np.all(np.abs(e.mean(0)) < 6 / np.sqrt(k)) and np.all(np.abs((e ** 2).mean(0) - 1) < 6 * np.sqrt(2 / k)), \
            ('moments of the noise', e.mean(0), e.var(0))
        assert np.all(np.abs((e ** 4).mean(0) - 3) < 6 * np.sqrt(96 / k)), 'kurtosis of the noise'
    # entropy: minus the average log-probability
    lps = pol.compute_action_and_log_prob(big)[1]
    h = float(pol.entropy(big))
    assert abs(h + float(lps.mean())) < 9 * float(lps.std()) / np.sqrt(k) + 1e-3, ('entropy', h, -float(lps.mean()))
    # weights
    w = np.asarray(to_np(pol.get_weights()))
    assert len(w) == mu.weights_size + sg.weights_size == sum(p.numel() for p in pol.parameters())
    w2 = rng.randn(len(w))
    pol.set_weights(w2)
    assert np.allclose(to_np(pol.get_weights()), w2)
    assert np.allclose(np.concatenate([to_np(mu.get_weights()), to_np(sg.get_weights())]), w2)
    return 'policy'
