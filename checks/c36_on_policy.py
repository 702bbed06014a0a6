"""C36 - A2C, PPO, TRPO and PPO_BPTT: every fit is the documented update computed from exactly the given trajectories."""
import copy

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import strategies as st

from mushroom_rl.algorithms.actor_critic import A2C, PPO, PPO_BPTT, TRPO
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.policy import BoltzmannTorchPolicy, GaussianTorchPolicy, RecurrentGaussianTorchPolicy
from mushroom_rl.rl_utils.parameters import LinearParameter, to_parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete
from pbt.harness import Check

check = Check('C36', rule='a case is an algorithm, its coefficients, a policy, optional agent preprocessors and one to three batches '
              'of trajectories (absorbing ends, truncated ends, cut at the end of the batch); the parameters of policy and critic '
              'after every fit are compared with an independent implementation; non-trivial with at least two trajectories and a '
              'moved policy')
quarter = st.integers(-8, 8).map(lambda v: v / 4.)


class Net(nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.h, self.o = nn.Linear(input_shape[0], 4), nn.Linear(4, output_shape[0])

    def forward(self, state):
        return self.o(torch.tanh(self.h(state.float())))


class Rnn(nn.Module):
    def __init__(self, input_shape, output_shape, actor=True, **kw):
        super().__init__()
        self.actor = actor
        self.rnn, self.o = nn.RNN(2, 3, batch_first=True), nn.Linear(3, output_shape[0])

    def forward(self, state, policy_state, lengths):
        h = policy_state.float().reshape(-1, 3)
        outs = []
        for t in range(state.shape[1]):
            n = torch.tanh(state[:, t].float() @ self.rnn.weight_ih_l0.T + self.rnn.bias_ih_l0
                           + h @ self.rnn.weight_hh_l0.T + self.rnn.bias_hh_l0)
            h = torch.where((lengths.reshape(-1) > t)[:, None], n, h)
        y = self.o(h)
        return (y, h) if self.actor else y


class Shift(object):
    """An agent preprocessor whose parameters change with every update."""
    def __init__(self, k):
        self.scale, self.shift = 1. + .25 * k, .125 * k

    def __call__(self, s):
        return s * self.scale + self.shift

    def update(self, s):
        self.shift += .25 * float(torch.as_tensor(s).double().mean())


class Rec(object):
    def log_prob_t(self, state, *a):
        self.calls.append((state.detach().clone(), [t.detach().clone() for t in a], torch.is_grad_enabled()))
        return super().log_prob_t(state, *a)


class RecGaussian(Rec, GaussianTorchPolicy):
    pass


class RecBoltzmann(Rec, BoltzmannTorchPolicy):
    pass


class RecRecurrent(Rec, RecurrentGaussianTorchPolicy):
    pass


@st.composite
def runs(draw, disc=True):
    d = disc and draw(st.booleans())
    da = draw(st.sampled_from([1, 2, 2, 4]))
    big = draw(st.integers(0, 3)) == 3

    def rows():
        if big:
            rng, p = np.random.RandomState(draw(st.integers(0, 10 ** 6))), draw(st.sampled_from([.03, .2]))
            amp = draw(st.sampled_from([1., 1., 8.]))
            end = lambda: '' if rng.rand() > p else ['abs', 'trunc'][rng.randint(2)]
            pick = lambda k: [float(v) for v in rng.randint(-8, 9, size=k) / 4.]
            return [(pick(2), int(rng.randint(3)) if d else pick(da), amp * pick(1)[0], end())
                    for _ in range(draw(st.integers(15, 70)))]
        n = draw(st.integers(4, 14))
        return [([draw(quarter), draw(quarter)], draw(st.integers(0, 2)) if d else [draw(quarter) for _ in range(da)],
                 draw(quarter), draw(st.sampled_from(['', '', '', 'abs', 'trunc']))) for _ in range(n)]
    return dict(disc=d, da=da, batches=[rows() for _ in range(draw(st.integers(1, 3)))], gamma=draw(st.sampled_from([.5, .9, 1.])),
                lam=draw(st.sampled_from([0., .5, .95, 1.])), ent=draw(st.sampled_from([0., .01, .3])), sched=draw(st.booleans()),
                epochs=draw(st.integers(1, 3)), batch=draw(st.integers(2, 60 if big else 16)), eps=draw(st.sampled_from([.05, .2, .5])),
                vepochs=draw(st.integers(1, 3)), clip=draw(st.sampled_from([None, None, .05, 5.])), prep=draw(st.integers(0, 2)),
                opt=draw(st.integers(0, 1)), lr=draw(st.sampled_from([.05, .3])), seed=draw(st.integers(0, 9999)),
                kl=draw(st.sampled_from([.001, .05, .5])), cg=draw(st.sampled_from([1, 1, 3, 10])), ls=draw(st.integers(1, 6)),
                damping=draw(st.sampled_from([.01, .1])), trunc=draw(st.integers(1, 12 if big else 4)))


def seeded(params, seed, scale=.5):
    gen = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in params:
            p.copy_(scale * torch.randn(p.shape, generator=gen))


def info_of(x):
    act = Discrete(3) if x['disc'] else Box(-9 * np.ones(x['da']), 9 * np.ones(x['da']))
    return MDPInfo(Box(-9 * np.ones(2), 9 * np.ones(2)), act, x['gamma'], 100)


def policy_of(x):
    if x['disc']:
        pol = RecBoltzmann(Net, (2,), (3,), beta=1.5)
    else:
        pol = RecGaussian(Net, (2,), (x['da'],), std_0=.8)
    pol.calls = []
    seeded([p for p in pol.parameters()][:4], x['seed'])
    return pol


def opt_of(x):
    return {'class': torch.optim.SGD, 'params': dict(lr=x['lr'], momentum=.5 if x['opt'] else 0.)}


def coeff(x, v):
    return LinearParameter(v, .5 * v, 3) if x['sched'] else v


def critic_of(x, network=Net, **kw):
    return dict(network=network, optimizer={'class': torch.optim.SGD, 'params': dict(lr=.05)}, loss=F.mse_loss, input_shape=(2,),
                output_shape=(1,), **kw)


def fill(x, info, agent, rows):
    d = Dataset.generate(info, agent.info, n_steps=len(rows))
    out = []
    for i, (s, a, r, end) in enumerate(rows):
        s = np.array(s) + np.array([i * .0081023, 0.])
        if end or i + 1 == len(rows):
            ns = np.array(s) * .5 - .25
        else:
            ns = np.array(rows[i + 1][0]) + np.array([(i + 1) * .0081023, 0.])
        a = np.atleast_1d(np.array(a)) * (1 if x['disc'] else .5)
        ps = (None, None)
        if agent.info.is_stateful:
            ps = (np.cos(np.arange(3) + i), np.cos(np.arange(3) + i + 1))
        d.append((s, a, r, ns, end == 'abs', end != '') + ps, {})
        out.append((s, a, r, ns, float(end == 'abs'), end != '', ps))
    return d, out


def tensors(rows):
    t = lambda j: torch.tensor(np.array([r[j] for r in rows]), dtype=torch.float)
    return t(0), torch.tensor(np.array([r[1] for r in rows])), t(2), t(3), t(4), [r[5] for r in rows]


def gae(v, vn, r, ab, last, g, lam):
    adv, nxt = np.zeros(len(r)), 0.
    for k in reversed(range(len(r))):
        if last[k] or k == len(r) - 1:
            nxt = 0.
        nxt = r[k] + g * vn[k] * (1 - ab[k]) - v[k] + g * lam * nxt
        adv[k] = nxt
    return adv


def num(t):
    return t.detach().double().numpy()


def close(got, want, what, tol=2e-4):
    for p, q in zip(got, want):
        assert p.shape == q.shape and torch.allclose(p.double(), q.double(), rtol=tol, atol=tol), (what, p, q)


class Twin(object):
    """Reference policy and critic, with optimizers of their own."""
    def __init__(self, x, pol, net):
        self.x, self.pol, self.net = x, copy.deepcopy(pol), copy.deepcopy(net)
        self.pol.calls = []
        self.opt = torch.optim.SGD(list(self.pol.parameters()), **opt_of(x)['params']) if 'lr' in x else None
        self.vopt = torch.optim.SGD(list(self.net.parameters()), lr=.05)

    def critic(self, args, target):
        y = torch.tensor(target, dtype=torch.float)[:, None]
        for _ in range(self.x['vepochs']):
            self.vopt.zero_grad()
            F.mse_loss(self.net(*args), y).backward()
            self.vopt.step()

    def step(self, loss):
        self.opt.zero_grad()
        loss.backward()
        if self.x.get('clip'):
            torch.nn.utils.clip_grad_norm_(list(self.pol.parameters()), self.x['clip'])
        self.opt.step()

    def sync(self, pol, net):
        with torch.no_grad():
            for p, q in zip(list(self.pol.parameters()) + list(self.net.parameters()), list(pol.parameters()) + list(net.parameters())):
                p.copy_(q)

    def wild(self):
        """The reference itself diverged: float32 results are not comparable."""
        w = torch.cat([p.detach().reshape(-1) for p in list(self.pol.parameters()) + list(self.net.parameters())])
        return not torch.all(torch.isfinite(w)) or float(w.abs().max()) > 30

    def compare(self, pol, net):
        close(list(net.parameters()), list(self.net.parameters()), 'critic after the fit')
        close(list(pol.parameters()), list(self.pol.parameters()), 'policy after the fit')


def several(rows):
    return sum(r[5] for r in rows[:-1]) > 0


def std_adv(adv):
    return (adv - adv.mean()) / (adv.std(ddof=1) + 1e-8)


def coeffs(x, v):
    """Values taken by a coefficient over the successive updates."""
    return Tape(to_parameter(coeff(x, v)))


class Tape(object):
    def __init__(self, p):
        self.p, self.vals, self.pos = p, [], 0

    def __next__(self):
        self.pos += 1
        while len(self.vals) < self.pos:
            self.vals.append(float(self.p()))
        return self.vals[self.pos - 1]


# ---------------------------------------------------------------- A2C
@check.case('a2c', runs(), quick=150)
def a2c(x):
    info, pol = info_of(x), policy_of(x)
    agent = A2C(info, pol, opt_of(x), critic_of(x), ent_coeff=coeff(x, x['ent']), max_grad_norm=x['clip'],
                critic_fit_params=dict(n_epochs=x['vepochs']))
    net = agent._V.model.network
    seeded(net.parameters(), x['seed'] + 1)
    ref = Twin(x, pol, net)
    ents = coeffs(x, x['ent'])
    w0 = pol.get_weights()
    many = False
    for rows in x['batches']:
        # a truncation inside the batch is outside the claim for the Monte Carlo estimate
        rows = [(s, a, r, 'abs' if e and i + 1 < len(rows) else e) for i, (s, a, r, e) in enumerate(rows)]
        d, data = fill(x, info, agent, rows)
        s, a, r, ns, ab, last = tensors(data)
        with torch.no_grad():
            v, q = num(ref.net(s))[:, 0], float(ref.net(ns[-1:]))
        tgt = np.zeros(len(data))
        for k in reversed(range(len(data))):
            q = float(r[k]) + x['gamma'] * (1 - float(ab[k])) * q
            tgt[k] = q
        agent.fit(d)
        ref.critic((s,), tgt)
        adv = torch.tensor(tgt - v, dtype=torch.float)
        ref.step(-(ref.pol.log_prob_t(s, a).reshape(-1) * adv).mean() - next(ents) * ref.pol.entropy_t(s))
        if ref.wild():
            return None
        ref.compare(pol, net)
        ref.sync(pol, net)
        many |= several(data)
    return 'a2c' if many and not torch.allclose(w0, pol.get_weights(), atol=1e-6) else None


# ---------------------------------------------------------------- PPO
def attach(agent, x):
    mine = [Shift(k + 1) for k in range(x['prep'])]
    for k in range(x['prep']):
        agent.add_agent_preprocessor(Shift(k + 1))
    return mine


def prep(mine, s):
    for p in mine:
        s = p(s)
    return s


def refresh(mine, s):
    for p in mine:
        p.update(s)
        s = p(s)


def partition(x, used, n):
    """Every epoch visits every sample exactly once, in minibatches of at most batch_size samples."""
    per = -(-n // x['batch'])
    assert len(used) == per * x['epochs'], ('number of policy updates', len(used), per * x['epochs'])
    for e in range(x['epochs']):
        part = used[e * per:(e + 1) * per]
        assert all(len(i) <= x['batch'] for i in part), 'minibatch larger than batch_size'
        assert sorted(np.concatenate(part)) == list(range(n)), ('an epoch does not visit every sample exactly once', part)


def follow(x, agent, pol, d, ref, critic, key, loss, n, tape):
    """Fit, then repeat the fit with the reference on the recorded minibatches; False if the updates diverge or are chaotic."""
    pol.calls, err = [], None
    th, pos, state = ref.pol.get_weights().clone(), tape.pos, copy.deepcopy(ref.opt.state_dict())
    try:
        agent.fit(d)
    except Exception as e:
        err = e
    calls, pol.calls = pol.calls, []
    critic()
    used = [key(c) for c in calls]
    if len(used) > -(-n // x['batch']) * x['epochs'] and len(used[0]) == n:
        used = used[1:]                     # evaluation of the old log-probabilities
    for idx in used:
        ref.step(loss(idx))
        w = ref.pol.get_weights()
        if not torch.all(torch.isfinite(w)) or float(w.abs().max()) > 6:
            return False
    # the same updates from slightly different weights: where they end up elsewhere, rounding errors decide and nothing can be said
    end, tape.pos, after = w.clone(), pos, copy.deepcopy(ref.opt.state_dict())
    ref.opt.load_state_dict(state)
    ref.pol.set_weights(th + 1e-6 * torch.cos(torch.arange(len(th)) * 1.))
    for idx in used:
        ref.step(loss(idx))
    spread = float((ref.pol.get_weights() - end).abs().max())
    ref.opt.load_state_dict(after)
    ref.pol.set_weights(end)
    if ref.wild() or not spread < 3e-5:
        return False
    if err is not None:
        raise err
    partition(x, used, n)
    return True


def nearest(rows, table):
    dist = torch.cdist(rows.double(), table.double())
    idx = dist.argmin(1)
    assert torch.all(dist.gather(1, idx[:, None]) < 1e-4), 'the policy was evaluated on a state that is not in the dataset'
    return idx.numpy()


def surrogate(x, ref, idx, logp, old, adv, eps, ent, entropy):
    ratio = torch.exp(logp.reshape(-1) - old[idx])
    clipped = torch.clamp(ratio, 1 - eps, 1 + eps)
    return -torch.min(ratio * adv[idx], clipped * adv[idx]).mean() - ent * entropy


@check.case('ppo', runs(), quick=150)
def ppo(x):
    x = dict(x, lr=.4 * x['lr'])
    info, pol = info_of(x), policy_of(x)
    agent = PPO(info, pol, opt_of(x), critic_of(x), n_epochs_policy=x['epochs'], batch_size=x['batch'], eps_ppo=coeff(x, x['eps']),
                lam=x['lam'], ent_coeff=x['ent'], critic_fit_params=dict(n_epochs=x['vepochs']))
    x = dict(x, clip=None)
    net = agent._V.model.network
    seeded(net.parameters(), x['seed'] + 1)
    mine = attach(agent, x)
    ref = Twin(x, pol, net)
    epss = coeffs(x, x['eps'])
    w0 = pol.get_weights()
    many = False
    for rows in x['batches']:
        d, data = fill(x, info, agent, rows)
        s, a, r, ns, ab, last = tensors(data)
        s_old = prep(mine, s)
        refresh(mine, s)
        s, ns = prep(mine, s), prep(mine, ns)
        with torch.no_grad():
            v, vn = num(ref.net(s))[:, 0], num(ref.net(ns))[:, 0]
            old = ref.pol.log_prob_t(s_old, a).reshape(-1)
        adv = gae(v, vn, num(r), num(ab), last, x['gamma'], x['lam'])
        tgt = adv + v
        if adv.std() < 1e-2:
            return None
        adv = torch.tensor(std_adv(adv), dtype=torch.float)
        if not follow(x, agent, pol, d, ref, lambda: ref.critic((s,), tgt), lambda c: nearest(c[0], s),
                      lambda idx: surrogate(x, ref, idx, ref.pol.log_prob_t(s[idx], a[idx]), old, adv, next(epss), x['ent'],
                                            ref.pol.entropy_t(s[idx])), len(data), epss):
            return None
        ref.compare(pol, net)
        ref.sync(pol, net)
        many |= several(data)
    return 'ppo' if many and not torch.allclose(w0, pol.get_weights(), atol=1e-6) else None


# ---------------------------------------------------------------- TRPO
def natural(pol, kl_of, p, damping):
    params = list(pol.parameters())
    g = torch.cat([t.reshape(-1) for t in torch.autograd.grad(kl_of(), params, create_graph=True)])
    h = torch.autograd.grad((g * p).sum(), params)
    return torch.cat([t.reshape(-1) for t in h]) + damping * p


@check.case('trpo', runs(), quick=150)
def trpo(x):
    """The accepted step respects the divergence bound and improves the surrogate; with one conjugate gradient iteration it is exact."""
    return trpo_run(x)


def trpo_run(x):
    x = dict(x, vepochs=x['vepochs'])
    info, pol = info_of(x), policy_of(x)
    agent = TRPO(info, pol, critic_of(x), ent_coeff=x['ent'], max_kl=x['kl'], lam=x['lam'], n_epochs_line_search=x['ls'],
                 n_epochs_cg=x['cg'], cg_damping=x['damping'], critic_fit_params=dict(n_epochs=x['vepochs']))
    net = agent._V.model.network
    seeded(net.parameters(), x['seed'] + 1)
    mine = attach(agent, x)
    ref = Twin(x, pol, net)
    w0 = pol.get_weights()
    many = exact = False
    for rows in x['batches']:
        d, data = fill(x, info, agent, rows)
        s, a, r, ns, ab, last = tensors(data)
        s_old = prep(mine, s)
        refresh(mine, s)
        s, ns = prep(mine, s), prep(mine, ns)
        with torch.no_grad():
            v, vn = num(ref.net(s))[:, 0], num(ref.net(ns))[:, 0]
            old_dist = ref.pol.distribution_t(s_old)
            old = ref.pol.log_prob_t(s_old, a).reshape(-1)
        adv = gae(v, vn, num(r), num(ab), last, x['gamma'], x['lam'])
        tgt = adv + v
        if adv.std() < 1e-2:
            return None
        adv = torch.tensor(std_adv(adv), dtype=torch.float)

        def objective():
            return (torch.exp(ref.pol.log_prob_t(s, a).reshape(-1) - old) * adv).mean() + x['ent'] * ref.pol.entropy_t(s)

        def kl():
            return torch.distributions.kl.kl_divergence(old_dist, ref.pol.distribution_t(s)).mean()
        th = ref.pol.get_weights().clone()
        j0 = objective()
        g = torch.cat([t.reshape(-1) for t in torch.autograd.grad(j0, list(ref.pol.parameters()))])
        j0 = float(j0)
        fg = natural(ref.pol, kl, g, x['damping'])
        if x['prep']:
            # the old policy saw the states before the preprocessors were updated: the Hessian need not be positive definite
            hess = torch.stack([natural(ref.pol, kl, e, x['damping']) for e in torch.eye(len(th))])
            if float(torch.linalg.eigvalsh((hess + hess.T).double() / 2)[0]) < .2 * x['damping']:
                return None
        agent.fit(d)
        got = pol.get_weights()
        ref.critic((s,), tgt)
        # bounds
        ref.pol.set_weights(got)
        moved = not torch.equal(got, th)
        if moved:
            with torch.no_grad():
                assert float(kl()) <= 1.5 * x['kl'] * 1.001 + 1e-6, ('divergence of the accepted step', float(kl()), x['kl'])
                assert float(objective()) >= j0 - 1e-5, ('the surrogate got worse', float(objective()), j0)
        if x['cg'] == 1 and float(g.norm()) > 1e-3 and float(g @ fg) > 1e-6:
            step = (g @ g) / (g @ fg) * g
            full = step / torch.sqrt(.5 * step @ natural_at(ref, th, kl, step, x['damping']) / x['kl'])
            want, sure = th, True
            for k in range(x['ls']):
                ref.pol.set_weights(th + full * .5 ** k)
                with torch.no_grad():
                    dj, dk = float(objective()) - j0, float(kl()) - 1.5 * x['kl']
                if abs(dj) < 1e-5 or abs(dk) < 1e-5:
                    sure = False
                if dk <= 0 and dj >= 0:
                    want = th + full * .5 ** k
                    break
            if sure:
                assert torch.allclose(got, want, rtol=1e-3, atol=1e-3 * (1 + float(full.abs().max()))), (
                    'policy after the line search', got, want, 'start', th)
                exact |= moved
        ref.pol.set_weights(got)
        if ref.wild():
            return None
        ref.compare(pol, net)
        ref.sync(pol, net)
        many |= several(data)
    if not many or torch.allclose(w0, pol.get_weights(), atol=1e-6):
        return None
    return 'exact' if exact else 'bounds'


def natural_at(ref, th, kl, p, damping):
    ref.pol.set_weights(th)
    return natural(ref.pol, kl, p, damping)


@check.known('trpo-cg-direction', 'TRPO with several conjugate gradient iterations does not step along the natural gradient')
def cg_direction():
    torch.manual_seed(3)
    x = dict(disc=False, da=1, gamma=.9, seed=5, prep=0, sched=False, ent=0., vepochs=1)
    info, pol = info_of(x), policy_of(x)
    agent = TRPO(info, pol, critic_of(x), ent_coeff=0., max_kl=.01, lam=.9, n_epochs_cg=60, cg_damping=.1,
                 critic_fit_params=dict(n_epochs=1))
    rng = np.random.RandomState(1)
    rows = [(list(rng.randn(2)), [float(rng.randn())], float(rng.randn()), '') for _ in range(12)]
    d, data = fill(x, info, agent, rows)
    s, a, r, ns, ab, last = tensors(data)
    net = copy.deepcopy(agent._V.model.network)
    refp = copy.deepcopy(pol)
    refp.calls = []
    with torch.no_grad():
        v, vn = num(net(s))[:, 0], num(net(ns))[:, 0]
        old_dist, old = refp.distribution_t(s), refp.log_prob_t(s, a).reshape(-1)
    adv = torch.tensor(std_adv(gae(v, vn, num(r), num(ab), last, .9, .9)), dtype=torch.float)
    j = (torch.exp(refp.log_prob_t(s, a).reshape(-1) - old) * adv).mean()
    g = torch.cat([t.reshape(-1) for t in torch.autograd.grad(j, list(refp.parameters()))])
    kl = lambda: torch.distributions.kl.kl_divergence(old_dist, refp.distribution_t(s)).mean()
    n = len(g)
    H = torch.stack([natural(refp, kl, torch.eye(n)[i], .1) for i in range(n)])
    nat = torch.linalg.solve(H.double(), g.double())
    th = pol.get_weights().clone()
    agent.fit(d)
    step = (pol.get_weights() - th).double()
    assert float(step.norm()) > 0
    cos = float(step @ nat / (step.norm() * nat.norm()))
    assert cos > .9999, ('cosine between the step and the natural gradient', cos)


# ---------------------------------------------------------------- PPO_BPTT
@check.case('ppo_bptt', runs(disc=False), quick=120)
def ppo_bptt(x):
    x = dict(x, lr=.2 * x['lr'])
    info = info_of(x)
    pol = RecRecurrent(network=Rnn, policy_state_shape=(3,), input_shape=(2,), output_shape=(x['da'],), std_0=.7)
    pol.calls = []
    params = list(pol.parameters())
    seeded([p for p in params if p.ndim == 2], x['seed'])
    agent = PPO_BPTT(info, pol, opt_of(x), critic_of(x, Rnn, actor=False), n_epochs_policy=x['epochs'], batch_size=x['batch'],
                     eps_ppo=coeff(x, x['eps']), lam=x['lam'], dim_env_state=2, ent_coeff=x['ent'], truncation_length=x['trunc'],
                     critic_fit_params=dict(n_epochs=x['vepochs']))
    x = dict(x, clip=None)
    net = agent._V.model.network
    seeded([p for p in net.parameters() if p.ndim == 2], x['seed'] + 1)
    mine = attach(agent, x)
    ref = Twin(x, pol, net)
    epss = coeffs(x, x['eps'])
    w0 = pol.get_weights()
    many = False
    T = x['trunc']
    for rows in x['batches']:
        d, data = fill(x, info, agent, rows)
        s, a, r, ns, ab, last = tensors(data)
        a = a.float()
        s_old = prep(mine, s)
        refresh(mine, s)
        s, ns = prep(mine, s), prep(mine, ns)
        n = len(data)
        start = []
        for i in range(n):
            b = i
            while b > 0 and i - b + 1 < T and not last[b - 1]:
                b -= 1
            start.append(b)
        lengths = torch.tensor([i - b + 1 for i, b in enumerate(start)])

        def seq(z):
            out = torch.zeros(n, T, 2)
            for i, b in enumerate(start):
                out[i, :i - b + 1] = z[b:i + 1]
            return out
        ps = torch.tensor(np.array([data[b][6][0] for b in start]), dtype=torch.float)
        pns = torch.tensor(np.array([data[b][6][1] for b in start]), dtype=torch.float)
        so, sq, sn = seq(s_old), seq(s), seq(ns)
        with torch.no_grad():
            v, vn = num(ref.net(sq, ps, lengths))[:, 0], num(ref.net(sn, pns, lengths))[:, 0]
            old = ref.pol.log_prob_t(so, a, ps, lengths).reshape(-1)
        adv = gae(v, vn, num(r), num(ab), last, x['gamma'], x['lam'])
        tgt = adv + v
        if adv.std() < 1e-2:
            return None
        adv = torch.tensor(std_adv(adv), dtype=torch.float)

        def key(c):
            ln = c[1][2].reshape(-1).long()
            return nearest(c[0][torch.arange(len(ln)), ln - 1], s)
        if not follow(x, agent, pol, d, ref, lambda: ref.critic((sq, ps, lengths), tgt), key,
                      lambda idx: surrogate(x, ref, idx, ref.pol.log_prob_t(sq[idx], a[idx], ps[idx], lengths[idx]), old, adv,
                                            next(epss), x['ent'], ref.pol.entropy_t(sq[idx])), n, epss):
            return None
        ref.compare(pol, net)
        ref.sync(pol, net)
        many |= several(data)
    return 'bptt' if many and not torch.allclose(w0, pol.get_weights(), atol=1e-6) else None
