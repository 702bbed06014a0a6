"""C19 - the DQN family: every fit is one gradient step towards the exact target; target networks follow the schedule."""
import copy
import itertools

import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st

from mushroom_rl.algorithms.value import (DQN, AveragedDQN, CategoricalDQN, DoubleDQN, DuelingDQN, MaxminDQN, NoisyDQN,
                                          QuantileDQN, Rainbow)
from mushroom_rl.approximators.parametric import NumpyTorchApproximator
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory
from mushroom_rl.rl_utils.spaces import Box, Discrete
from pbt import nets
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C19', rule='a case is an algorithm, replay sizes, batch size, target period, discount, reward clipping and a '
              'stream of transitions fitted in chunks; the batch drawn from the replay memory is recorded and the parameters '
              'after every fit are compared with one gradient step computed independently; non-trivial when at least one '
              'gradient step was taken')

LR = .1
quarter = st.integers(-16, 16).map(lambda v: v / 4.)


class Tap(object):
    """Records what the replay memories hand out and the priorities they are given."""
    def __init__(self):
        self.got, self.updates, self.mems = [], [], []

    def __enter__(self):
        self.saved = [(c, n, c.__dict__[n]) for c, n in ((ReplayMemory, 'get'), (PrioritizedReplayMemory, 'get'),
                                                         (PrioritizedReplayMemory, 'update'), (ReplayMemory, 'add'),
                                                         (PrioritizedReplayMemory, 'add'))]
        tap = self

        def wrap_get(orig):
            def get(mem, n):
                out = orig(mem, n)
                tap.got.append((n, [to_np(o).copy() for o in out]))
                return out
            return get

        def wrap_update(orig):
            def update(mem, error, idx):
                tap.updates.append((to_np(error).copy(), to_np(idx).copy()))
                return orig(mem, error, idx)
            return update

        def wrap_add(orig):
            def add(mem, *a, **k):
                tap.mems.append(mem)
                if isinstance(mem, PrioritizedReplayMemory):
                    p = np.ravel(to_np(a[1] if len(a) > 1 else k['p'])).astype(float)
                    assert len(p) == len(a[0]) and np.allclose(p, float(mem.max_priority)), \
                        'new samples do not enter with the highest priority seen so far'
                return orig(mem, *a, **k)
            return add
        wraps = dict(get=wrap_get, update=wrap_update, add=wrap_add)
        for c, n, o in self.saved:
            setattr(c, n, wraps[n](o))
        return self

    def __exit__(self, *a):
        for c, n, o in self.saved:
            setattr(c, n, o)


@st.composite
def cases(draw, kinds, long=False):
    A = draw(st.sampled_from([2, 2, 3, 3, 5]))
    n = draw(st.integers(4, 24))
    rows = [(draw(quarter), draw(quarter), draw(st.integers(0, A - 1)), draw(quarter),
             draw(st.sampled_from(['', '', '', 'abs', 'trunc']))) for _ in range(n)]
    more = draw(st.sampled_from([25, 40] if long else [0, 0, 0, 0, 40, 90]))
    if more:     # a long history, expanded from a seed
        rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
        ends = ['', '', '', '', 'abs', 'trunc']
        rows = rows + [tuple(rng.randint(-16, 17, 2) / 4.) + (int(rng.randint(A)), rng.randint(-16, 17) / 4., ends[rng.randint(6)])
                       for _ in range(more)]
    return dict(kind=draw(st.sampled_from(kinds)), A=A, rows=rows, chunk=draw(st.integers(1, 2) if long else st.sampled_from([1, 2, 3, 4, 7, 11])), init=draw(st.integers(1, 6)),
                maxsize=draw(st.integers(8, 30)), batch=draw(st.sampled_from([2, 2, 3, 4, 5, 12])), period=draw(st.sampled_from([1, 1, 2] if long else [1, 2, 3, 4, 7])),
                gamma=draw(st.sampled_from([.5, .9, .99])), clip=draw(st.booleans()), seed=draw(st.integers(0, 9999)),
                prio=draw(st.booleans()), n_models=draw(st.sampled_from([3, 4, 5] if long else [2, 2, 3, 5])), atoms=draw(st.integers(2, 9)),
                vrange=draw(st.sampled_from([(-1., 1.), (-4., 3.), (0., 2.5), (-10., 10.)])), nstep=draw(st.sampled_from([1, 2, 3, 4, 6])), scale=draw(st.sampled_from([1., 1., 1., 1., 64.])),
                avg=draw(st.booleans()), epochs=draw(st.sampled_from([1, 1, 2])))


def n_epochs(x):
    """Number of gradient steps per fit; one for the noisy networks, whose noise cannot be switched off between epochs."""
    return 1 if x['kind'] in ('noisy', 'rainbow') else x.get('epochs', 1)


def build(x):
    info = MDPInfo(Box(-100 * np.ones(2), 100 * np.ones(2)), Discrete(x['A']), x['gamma'], 100)
    pol = EpsGreedy(.1)
    dist = x['kind'] in ('dueling', 'categorical', 'quantile', 'noisy', 'rainbow')
    ap = dict(network=nets.FeatNet if dist else nets.QNet, input_shape=(2,), output_shape=(x['A'],), n_actions=x['A'],
              n_features=4, optimizer=dict(**{'class': torch.optim.SGD, 'params': dict(lr=LR / x.get('scale', 1.))}), loss=F.mse_loss)
    kw = dict(batch_size=x['batch'], target_update_frequency=x['period'], initial_replay_size=x['init'],
              max_replay_size=x['maxsize'], clip_reward=x['clip'])
    if n_epochs(x) > 1:
        kw['fit_params'] = dict(n_epochs=n_epochs(x))
    if x['prio'] and x['kind'] in ('dqn', 'double', 'averaged', 'dueling', 'noisy'):
        kw['replay_memory'] = {'class': PrioritizedReplayMemory, 'params': dict(alpha=.6, beta=Parameter(.5))}
    k = x['kind']
    if k in ('dqn', 'double'):
        return info, (DQN if k == 'dqn' else DoubleDQN)(info, pol, NumpyTorchApproximator, approximator_params=ap, **kw)
    if k == 'averaged':
        return info, AveragedDQN(info, pol, NumpyTorchApproximator, n_approximators=x['n_models'], approximator_params=ap, **kw)
    if k == 'maxmin':
        return info, MaxminDQN(info, pol, NumpyTorchApproximator, n_approximators=x['n_models'], approximator_params=ap, **kw)
    if k == 'dueling':
        return info, DuelingDQN(info, pol, approximator_params=ap, avg_advantage=x['avg'], **kw)
    if k == 'noisy':
        return info, NoisyDQN(info, pol, approximator_params=ap, **kw)
    if k == 'quantile':
        return info, QuantileDQN(info, pol, approximator_params=ap, n_quantiles=x['atoms'], **kw)
    if k == 'categorical':
        return info, CategoricalDQN(info, pol, approximator_params=ap, n_atoms=x['atoms'], v_min=x['vrange'][0],
                                    v_max=x['vrange'][1], **kw)
    return info, Rainbow(info, pol, approximator_params=ap, n_atoms=x['atoms'], v_min=x['vrange'][0], v_max=x['vrange'][1],
                         n_steps_return=x['nstep'], alpha_coeff=.6, beta=Parameter(.5), sigma_coeff=0., **kw)


def online_nets(agent, x):
    if x['kind'] == 'maxmin':
        return [agent.approximator.model[i].network for i in range(x['n_models'])]
    return [agent.approximator.model.network]


def quiet_noise(ns):
    """Switch the exploration noise of noisy layers off, so that the networks are deterministic functions."""
    with torch.no_grad():
        for n in ns:
            for name, p in n.named_parameters():
                if 'sigma' in name:
                    p.zero_()


def q_of(net, s):
    with torch.no_grad():
        return net(torch.tensor(s)).numpy().astype(float)


def near_tie(q):
    q = np.sort(q, axis=1)
    return bool(np.any(q[:, -1] - q[:, -2] < 1e-5 * np.maximum(1., np.abs(q[:, -1]))))


def project(p, r, discount, lo, hi, n):
    """Categorical projection of r + discount * Z onto the n atoms."""
    z = np.linspace(lo, hi, n)
    d = (hi - lo) / (n - 1)
    m = np.zeros((len(r), n))
    for i in range(len(r)):
        for j in range(n):
            t = min(max(r[i] + discount[i] * z[j], lo), hi)
            m[i] += p[i, j] * np.clip(1. - np.abs(t - z) / d, 0., 1.)
    return m


def run(x):
    info, agent = build(x)
    online = online_nets(agent, x)
    skip = 'sigma' if x['kind'] in ('noisy', 'rainbow') else None
    for i, n in enumerate(online):
        nets.randomize(n, x['seed'] + i)
    quiet_noise(online)
    snaps = None
    A, g, k = x['A'], x['gamma'], x['kind']
    assert agent.policy.get_q() is agent.approximator
    if k == 'maxmin':
        pr = np.array([[.3, -.2], [1., .5], [-2., 1.]])
        each = [agent.approximator.predict(pr, idx=i) for i in range(x['n_models'])]
        assert np.allclose(agent.approximator.predict(pr), np.min(each, 0), atol=1e-6), 'the policy acts on the minimum of the ensemble'
    tnets0 = agent.target_approximator.model
    tnets = ([tnets0[i].network for i in range(x['n_models'])] if k in ('averaged', 'maxmin') else [tnets0.network])
    # start from target networks that differ from the online ones, so that a target evaluated on the wrong network shows
    if k == 'averaged':
        for i, n in enumerate(tnets):
            nets.randomize(n, 77 + x['seed'])
        snaps = [copy.deepcopy(tnets[0])]
    else:
        for i, n in enumerate(tnets):
            nets.randomize(n, 77 + x['seed'] + i)
        quiet_noise(tnets)
        snaps = [copy.deepcopy(n) for n in tnets]
    fits = steps = 0
    stored, fitted = [], set()
    for c in range(0, len(x['rows']), x['chunk']):
        rows = [(a0, a1, act, r * x.get('scale', 1.), end) for a0, a1, act, r, end in x['rows'][c:c + x['chunk']]]
        stored += transitions(x, rows, c)
        d = Dataset.generate(info, agent.info, n_steps=len(rows))
        for i, (a0, a1, act, r, end) in enumerate(rows):
            nx = x['rows'][(c + i + 1) % len(x['rows'])]
            d.append((np.array([a0, a1]), np.array([act]), r, np.array([nx[0], nx[1]]), end == 'abs', end != '', None, None), {})
        before = [copy.deepcopy(n) for n in online]
        with Tap() as tap:
            agent.fit(d)
        assert tap.mems, 'the dataset of the fit was not added to the replay memory'
        assert bool(tap.got) == bool(tap.mems[-1].initialized), 'learning takes place exactly when the memory holds enough samples'
        counts = k not in ('categorical', 'quantile', 'rainbow')
        if counts:
            fits += 1
        if tap.got:
            steps += 1
            if not counts:
                fits += 1
            assert len(tap.got) == 1 and tap.got[0][0] == x['batch'], 'one batch of batch_size samples per fit'
            recent = np.array(stored[-x['maxsize']:])
            for row in zip(*[np.asarray(o, float).reshape(x['batch'], -1) for o in tap.got[0][1][:5]]):
                assert np.any(np.all(np.isclose(recent, np.concatenate(row), rtol=1e-5, atol=1e-5), axis=1)), \
                    ('the batch holds what is not one of the stored transitions', row)
            which = compare(x, online, before, snaps, tap, skip)
            if which is False:
                return None
            fitted |= set(which)
        else:
            for n, b in zip(online, before):
                assert nets.same_params(nets.params(n), nets.params(b), 0, 0), 'parameters changed without a batch'
        quiet_noise(online)
        if (tap.got or counts) and fits % x['period'] == 0:
            if k == 'averaged':
                snaps = (snaps + [copy.deepcopy(online[0])])[-x['n_models']:]
            else:
                snaps = [copy.deepcopy(n) for n in online]
            quiet_noise(tnets)
        # target networks: exactly the snapshots
        if k == 'averaged':
            pr = np.array([[.3, -.2], [1., .5]])
            for s in snaps:
                assert any(nets.same_params(nets.params(s), nets.params(t), 0, 1e-7) for t in tnets), \
                    'a stored target network is not one of the last snapshots of the online network'
        else:
            for t, s in zip(tnets, snaps):
                assert nets.same_params(nets.params(t, skip), nets.params(s, skip), 0, 1e-7), 'target network after the fit'
    if k == 'maxmin' and x.get('every') and steps:
        # members are picked at random: with 20 n more fits the chance that one of n <= 5 was never picked is below 1e-7
        for _ in range(20 * x['n_models']):
            before = [nets.params(n) for n in online]
            agent.fit(d)
            fitted |= {i for i, n in enumerate(online) if not nets.same_params(nets.params(n), before[i], 0, 0)}
        assert fitted == set(range(x['n_models'])), ('members of the ensemble that are never fitted', fitted)
    return k if steps else None


def transitions(x, rows, c):
    """What the replay memory stores of a chunk: windows of nstep steps of one trajectory (nstep is 1 but for Rainbow)."""
    n = x['nstep'] if x['kind'] == 'rainbow' else 1
    out = []
    for i in range(len(rows) - n + 1):
        w = rows[i:i + n]
        if not any(t[4] for t in w[:-1]):
            nx = x['rows'][(c + i + n) % len(x['rows'])]
            out.append([w[0][0], w[0][1], w[0][2], sum(x['gamma'] ** j * t[3] for j, t in enumerate(w)), nx[0], nx[1],
                        w[-1][4] == 'abs'])
    return out


def compare(x, online, before, snaps, tap, skip):
    k, A, g = x['kind'], x['A'], x['gamma']
    out = tap.got[0][1]
    s, a, r, ns, ab = [np.asarray(o, dtype=float) for o in out[:5]]
    r, ab = r.ravel(), ab.ravel()
    w = out[-1].ravel() if len(out) == 8 else None
    if x['clip']:
        r = np.clip(r, -1, 1)
    at = torch.tensor(a.reshape(-1, 1).astype(int))
    st_ = torch.tensor(s)
    B = len(r)
    rng = np.arange(B)
    lo, hi = x['vrange']
    if k in ('dqn', 'dueling', 'noisy'):
        y = r + g * (1 - ab) * q_of(snaps[0], ns).max(1)
    elif k == 'double':
        q = q_of(before[0], ns)
        if near_tie(q):
            return False
        y = r + g * (1 - ab) * q_of(snaps[0], ns)[rng, q.argmax(1)]
    elif k == 'averaged':
        y = r + g * (1 - ab) * np.mean([q_of(n, ns) for n in snaps], 0).max(1)
    elif k == 'maxmin':
        y = r + g * (1 - ab) * np.min([q_of(n, ns) for n in snaps], 0).max(1)
    elif k == 'quantile':
        q = q_of(snaps[0], ns)
        if near_tie(q):
            return False
        with torch.no_grad():
            z = snaps[0](torch.tensor(ns), get_quantiles=True).numpy()
        y = r[:, None] + g * (1 - ab)[:, None] * z[rng, q.argmax(1)]
    else:
        q = q_of(before[0] if k == 'rainbow' else snaps[0], ns)
        if near_tie(q):
            return False
        with torch.no_grad():
            p = snaps[0](torch.tensor(ns), get_distribution=True).numpy().astype(float)
        disc = (g ** x['nstep'] if k == 'rainbow' else g) * (1 - ab)
        y = project(p[rng, q.argmax(1)], r, disc, lo, hi, x['atoms'])

    def loss_on(net):
        yt = torch.tensor(y, dtype=torch.float)
        if k == 'quantile':
            z = net(st_, get_quantiles=True)[torch.arange(B), at[:, 0]]
            tau = (torch.arange(x['atoms']) + .5) / x['atoms']
            diff = yt[:, None, :] - z[:, :, None]           # batch, quantile, target
            hub = torch.where(diff.abs() < 1., .5 * diff ** 2, diff.abs() - .5)
            return ((tau[None, :, None] - (diff < 0).float()).abs() * hub).mean()
        if k in ('categorical', 'rainbow'):
            pr = net(st_, get_distribution=True)[torch.arange(B), at[:, 0]]
            each = -(yt * torch.log(pr.clamp(1e-5))).sum(1)
            err = each.detach().numpy()
        else:
            q = net(st_)[torch.arange(B), at[:, 0]]
            each = (q - yt) ** 2
            err = (yt - q).detach().numpy()
        if w is not None:
            assert len(tap.updates) == 1, 'priorities are updated once per fit'
            e, idx = tap.updates[0]
            assert np.array_equal(np.ravel(idx), np.ravel(out[-2])), 'indexes of the updated priorities'
            if net is before[0]:
                assert np.allclose(np.abs(e).ravel(), np.abs(err), rtol=1e-3, atol=1e-4), ('priority errors', e, err)
            wt = torch.tensor(w, dtype=torch.float)
            return (wt * each).sum() / wt.sum()
        return each.mean()
    ok = []
    for i in range(len(online)):
        net = before[i]
        want = nets.sgd_step(net, loss_on(net), LR / x.get('scale', 1.), skip)
        for _ in range(n_epochs(x) - 1):
            net = copy.deepcopy(net)
            net.load_state_dict(want, strict=False)
            want = nets.sgd_step(net, loss_on(net), LR / x.get('scale', 1.), skip)
        others = all(nets.same_params(nets.params(online[j]), nets.params(before[j]), 0, 0)
                     for j in range(len(online)) if j != i)
        ok.append(others and nets.same_params(nets.params(online[i], skip), want))
    assert any(ok), ('the parameters are not one gradient step towards the target', k, dict(reward=r, absorbing=ab))
    return [i for i in range(len(ok)) if ok[i]]


@check.case('expected', cases(['dqn', 'double', 'averaged', 'maxmin', 'dueling', 'noisy']), quick=260)
def expected(x):
    return run(x)


@check.case('distributional', cases(['categorical', 'quantile', 'rainbow']), quick=180)
def distributional(x):
    return run(x)


@check.case('ensembles, many target updates', cases(['averaged', 'maxmin'], True).map(lambda x: dict(x, every=True)), quick=40)
def many(x):
    return run(x)


@check.case('n-step returns', cases(['rainbow'], True).map(lambda x: dict(x, chunk=x['nstep'] + 2 * x['chunk'])), quick=40)
def nsteps(x):
    return run(x)


@check.case('heads', st.fixed_dictionaries(dict(
    kind=st.sampled_from(['dueling', 'categorical', 'quantile', 'rainbow']), A=st.integers(2, 6), atoms=st.integers(2, 60),
    vrange=st.tuples(st.integers(-40, 20), st.integers(1, 60)), seed=st.integers(0, 9999), avg=st.booleans(),
    n=st.integers(1, 5))), quick=300)
def heads(x):
    """Structure of the network heads: dueling decomposition, distributions, means."""
    lo = x['vrange'][0] / 4.
    hi = lo + x['vrange'][1] / 4.
    y = dict(x, vrange=(lo, hi), prio=False, batch=2, period=1, init=1, maxsize=4, clip=False, gamma=.9, nstep=1, n_models=2)
    if x['kind'] == 'dueling' and x['A'] == 4:
        y['A'] = 3                       # keep the shapes of the layers distinct
    if x['kind'] == 'rainbow' and x['A'] > 4:
        y['A'] = 4
    A = y['A']
    info, agent = build(y)
    net = agent.approximator.model.network
    nets.randomize(net, x['seed'])
    quiet_noise([net])
    s = np.random.RandomState(x['seed']).randn(x['n'], 2)
    q = agent.approximator.predict(s)
    assert q.shape == (x['n'], A)
    if x['n'] > 1:
        acts = np.random.RandomState(1).randint(0, A, (x['n'], 1))
        assert np.allclose(agent.approximator.predict(s, acts).ravel(), q[np.arange(x['n']), acts[:, 0]], atol=1e-5)
    if x['kind'] == 'dueling':
        shp = {tuple(p.shape): p.detach().numpy().astype(float) for p in net.parameters()}
        hid = [p for p in net.named_parameters() if tuple(p[1].shape) == (4, 2)][0][1].detach().numpy()
        f = np.tanh(s.astype(np.float32) @ hid.T + shp[(4,)])
        v = f @ shp[(1, 4)].T + shp[(1,)]
        a = f @ shp[(A, 4)].T + shp[(A,)]
        want = v + a - (a.mean(1, keepdims=True) if x['avg'] else a.max(1, keepdims=True))
        assert np.allclose(q, want, atol=1e-4), ('dueling', q, want)
    elif x['kind'] == 'quantile':
        z = agent.approximator.predict(s, get_quantiles=True)
        assert z.shape == (x['n'], A, x['atoms']) and np.allclose(z.mean(-1), q, atol=1e-4)
    else:
        p = agent.approximator.predict(s, get_distribution=True)
        assert p.shape == (x['n'], A, x['atoms'])
        assert np.all(p >= 0) and np.allclose(p.sum(-1), 1., atol=1e-4)
        assert np.allclose(p @ np.linspace(lo, hi, x['atoms']), q, rtol=1e-3, atol=1e-3)
        if x['kind'] == 'rainbow' and x['atoms'] not in (A, 4):
            # dueling decomposition of the logits: one value stream, one advantage stream per action, centred over the actions
            outs = []
            hooks = [m.register_forward_hook(lambda m_, i_, o_: outs.append(o_.detach().numpy().astype(float)))
                     for m in net.modules() if not list(m.children())]
            agent.approximator.predict(s)
            for h in hooks:
                h.remove()
            outs = [o for o in outs if o.ndim == 2 and o.shape == (x['n'], x['atoms'])]
            if len(outs) == A + 1:
                def soft(l):
                    e = np.exp(l - l.max(-1, keepdims=True))
                    return e / e.sum(-1, keepdims=True)
                ok = False
                for perm in itertools.permutations(range(A + 1)):
                    v, a = outs[perm[0]][:, None], np.stack([outs[i] for i in perm[1:]], 1)
                    if np.allclose(soft(v + a - a.mean(1, keepdims=True)), p, atol=1e-4):
                        ok = True
                        break
                assert ok, 'the distributions are not softmax(v + a - mean(a)) of the value and advantage streams'
    return x['kind']


@check.case('fresh', cases(['dqn', 'double', 'averaged', 'maxmin', 'dueling', 'noisy', 'categorical', 'quantile', 'rainbow']), quick=60)
def fresh(x):
    """A new agent starts with target networks equal to its online networks, and the two do not share storage."""
    torch.manual_seed(x['seed'])
    info, agent = build(x)
    k = x['kind']
    online = online_nets(agent, x)
    t = agent.target_approximator.model
    tnets = [t[i].network for i in range(x['n_models'])] if k in ('averaged', 'maxmin') else [t.network]
    for i, n in enumerate(tnets):
        o = online[i] if k == 'maxmin' else online[0]
        assert nets.same_params(nets.params(n), nets.params(o), 0, 0), ('initial target network', i)
    if k == 'maxmin':
        assert not nets.same_params(nets.params(online[0]), nets.params(online[1]), 0, 1e-9), 'the models of the ensemble are equal'
    before = [copy.deepcopy(n) for n in tnets]
    with torch.no_grad():
        for n in online:
            for q in n.parameters():
                q += 1.
    for n, b in zip(tnets, before):
        assert nets.same_params(nets.params(n), nets.params(b), 0, 0), 'the target network shares storage with the online one'
    if k == 'noisy':
        lay = [m for m in online[0].modules() if any('sigma' in a for a, _ in m.named_parameters(recurse=False))]
        assert lay, 'no noisy layer'
        s = torch.tensor([[.5, -.25], [.5, -.25]])
        with torch.no_grad():
            o = [online[0](s) for _ in range(4)]
        assert any(not torch.allclose(o[0], v) for v in o[1:]), 'the output of the noisy network carries no noise'
        assert all(torch.allclose(v[0], v[1], atol=1e-5) for v in o), 'the noise is drawn per forward pass, not per sample'
    return k
