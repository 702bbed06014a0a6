"""C14 - running statistics and observation preprocessors equal their batch definitions."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.core import MDPInfo
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.running_stats import RunningAveragedWindow, RunningExpWeightedAverage, RunningStandardization
from mushroom_rl.rl_utils.spaces import Box
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C14', rule='a case is a stream of observations (fed one by one or in batches), a backend and constants; the '
              'statistics are compared with the formula over the whole stream; non-trivial with at least 3 observations')

val = st.integers(-80, 80).map(lambda v: v / 8.)


@st.composite
def streams(draw, batches=True):
    dim = draw(st.integers(1, 4))
    n = draw(st.integers(1, 14))
    data = [[draw(val) for _ in range(dim)] for _ in range(n)]
    cuts, k = [], 0
    while k < n:
        m = draw(st.integers(1, 4)) if batches and draw(st.booleans()) else 1
        cuts.append(min(m, n - k))
        k += m
    return dict(dim=dim, data=data, cuts=cuts)


@st.composite
def long_streams(draw, batches=True):
    dim, n, seed = draw(st.integers(1, 14)), draw(st.integers(3, 260)), draw(st.integers(0, 10 ** 6))
    scale = draw(st.sampled_from([1., 1., .05, 100.]))
    rng = np.random.RandomState(seed)
    data = np.round(scale * (rng.randint(-80, 81, size=(n, dim)) / 8. + draw(st.sampled_from([0., 0., 3.]))), 6).tolist()
    cuts, k, big = [], 0, draw(st.sampled_from([1, 4, 60])) if batches else 1
    while k < n:
        cuts.append(min(rng.randint(1, big + 1), n - k))
        k += cuts[-1]
    return dict(dim=dim, data=data, cuts=[int(c) for c in cuts])


def feed(x, backend):
    a = np.array(x['data'])
    k = 0
    for c in x['cuts']:
        b = a[k:k + c]
        if c == 1 and k % 2 == 0:
            b = b[0]
        yield k + c, (torch.tensor(b, dtype=torch.float) if backend == 'torch' else b.copy())
        k += c


def ref_std(a):
    """Population mean and deviation of the stream together with one prior observation of mean 0 and unit variance."""
    n = len(a) + 1
    mean = a.sum(0) / n
    s = 1. + (mean ** 2) + ((a - mean) ** 2).sum(0)
    return mean, np.sqrt(s / n)


backend = st.sampled_from(['numpy', 'torch'])


@check.case('standardization', st.tuples(st.one_of(streams(), long_streams()), backend, st.integers(0, 20)), quick=400)
def standardization(x):
    x, b, reset_at = x
    r = RunningStandardization((x['dim'],), b)
    a = np.array(x['data'])
    start = 0
    amp = max(1e-2, np.abs(a).max())
    for n, v in feed(x, b):
        v0 = to_np(v).copy()
        r.update_stats(v)
        assert np.array_equal(to_np(v), v0)
        mean, std = ref_std(a[start:n])
        assert np.allclose(to_np(r.mean).ravel(), mean, rtol=1e-3, atol=1e-4 * amp), ('mean', r.mean, mean)
        assert np.allclose(to_np(r.std).ravel(), std, rtol=1e-3, atol=1e-3 * min(1., amp)), ('std', r.std, std)
        if n == reset_at:
            r.reset()
            start = n
    return b if len(a) > 2 else None


@check.case('averages', st.tuples(st.one_of(streams(), long_streams()), backend, st.sampled_from([.01, .1, .5, .9, 1.]),
                                  st.one_of(st.integers(1, 5), st.integers(6, 120)), st.one_of(st.none(), val),
                                  st.integers(0, 14)), quick=400)
def averages(x):
    x, b, alpha, window, init, reset_at = x
    iv = None
    if init is not None:
        iv = np.full(x['dim'], init)
        iv = torch.tensor(iv, dtype=torch.float) if b == 'torch' else iv
    ew = RunningExpWeightedAverage((x['dim'],), alpha, b, init_value=iv)
    win = RunningAveragedWindow((x['dim'],), window, b, init_value=iv)
    cur = np.full(x['dim'], 0. if init is None else init)
    buf = [cur.copy()]
    a = np.array(x['data'])
    k = 0
    tol = 1e-4 * max(1e-2, np.abs(a).max(), 0. if init is None else abs(init))
    for n, v in feed(x, b):
        ew.update_stats(v)
        win.update_stats(v)
        for row in a[k:n]:
            cur = (1 - alpha) * cur + alpha * row
            buf = (buf + [row])[-window:]
        k = n
        assert np.allclose(to_np(ew.mean).ravel(), cur, rtol=1e-4, atol=tol), ('exponential average', ew.mean, cur)
        assert np.allclose(to_np(win.mean).ravel(), np.mean(buf, 0), rtol=1e-4, atol=tol), ('window', win.mean, buf)
        if n == reset_at:
            ew.reset()
            win.reset()
            cur = np.zeros(x['dim'])
            buf = [cur.copy()]
    return b if len(a) > 2 else None


@check.case('minimum rate', st.tuples(long_streams(), backend, st.sampled_from([1e-3, .02, .1, .5])), quick=60)
def minimum_rate(x):
    """With a minimum learning rate the mean follows the stream at least that fast."""
    x, b, alpha = x
    r = RunningStandardization((x['dim'],), b, alpha)
    a = np.array(x['data'])
    m, k = np.zeros(x['dim']), 0
    for n, v in feed(x, b):
        r.update_stats(v)
        rate = max((n - k) / (n + 1.), alpha)
        m = (1 - rate) * m + rate * a[k:n].mean(0)
        k = n
        assert np.allclose(to_np(r.mean).ravel(), m, rtol=1e-3, atol=1e-4 * max(1e-2, np.abs(a).max())), (r.mean, m)
    return b if 1. / len(a) < alpha else None


@check.case('preprocessors', st.fixed_dictionaries(dict(stream=st.one_of(streams(batches=False), streams(batches=False),
                                                                         long_streams(batches=False)), backend=backend,
                                                        clip=st.sampled_from([.2, 1., 3., 10.]),
                                                        bounds=st.lists(st.tuples(st.sampled_from([True, True, False, 'low', 'high']), val,
                                                                                  st.integers(1, 40)),
                                                                        min_size=14, max_size=14),
                                                        probe=st.lists(val, min_size=14, max_size=14))), quick=400)
def preprocessors(x):
    d, b = x['stream']['dim'], x['backend']
    kinds = [True if i == 0 else k for i, (k, _, _) in enumerate(x['bounds'][:d])]
    bounds = [(k is True, lo, lo + w / 4.) for k, (_, lo, w) in zip(kinds, x['bounds'])]
    # a component bounded on one side only has no range to map: it is standardised like an unbounded one
    low = np.array([lo if k in (True, 'low') else -np.inf for k, (_, lo, hi) in zip(kinds, bounds)])
    high = np.array([hi if k in (True, 'high') else np.inf for k, (_, lo, hi) in zip(kinds, bounds)])
    box = Box(low, high)
    info = MDPInfo(box, Box(np.zeros(1), np.ones(1)), .9, 10)
    mm = MinMaxPreprocessor(info, b, clip_obs=x['clip'])
    sp = StandardizationPreprocessor(info, b, clip_obs=x['clip'])
    a = np.array(x['stream']['data'])

    def check_at(n, v):
        mean, std = ref_std(a[:n])
        z = np.clip((v - mean) / std, -x['clip'], x['clip'])
        m = np.array([(v[i] - (lo + hi) / 2.) / ((hi - lo) / 2.) if bd else z[i] for i, (bd, lo, hi) in enumerate(bounds)])
        for p, want, name in ((sp, z, 'standardization'), (mm, m, 'minmax')):
            obs = torch.tensor(v, dtype=torch.float) if b == 'torch' else v.copy()
            got = to_np(p(obs))
            assert np.array_equal(to_np(obs), v.astype(to_np(obs).dtype)), (name, 'the observation was overwritten')
            assert got.shape == v.shape, (name, got.shape)
            assert np.allclose(got, want, rtol=2e-3, atol=2e-3), (name, got, want)
    probe = np.array(x['probe'][:d])
    check_at(0, probe)
    for n, v in feed(x['stream'], b):
        o = v if v.ndim == 1 else v[0]
        sp.update(o)
        mm.update(o)
        check_at(n, probe)
        check_at(n, a[n - 1])
    assert np.array_equal(box.low, low) and np.array_equal(box.high, high)
    return '%s-%s' % (b, 'mixed' if not all(bd for bd, _, _ in bounds) else 'bounded') if len(a) > 2 else None
