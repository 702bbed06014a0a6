"""C05 - episode statistics of a Dataset equal the textbook definitions on every backend."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.core import Dataset
from pbt.dsgen import append, many_rows, new_dataset, row, rows, to_np
from pbt.harness import Check

check = Check('C05', rule='a case is a backend, a trajectory structure (lengths, absorbing/truncated ends, trailing '
              'incomplete episode), rewards and a discount; non-trivial when the data holds at least two episodes or '
              'an incomplete one')


def episodes(model):
    """list of (rows, complete)"""
    out, cur = [], []
    for r in model:
        cur.append(r)
        if r['last']:
            out.append((cur, True))
            cur = []
    if cur:
        out.append((cur, False))
    return out


def J(ep, gamma):
    return sum(gamma ** t * r['reward'] for t, r in enumerate(ep))


def build(x, backend):
    ds = new_dataset(backend, len(x['data']) + 5, x['stateful'], gamma=x['gamma'])
    model = []
    for i, (last, ab, rew) in enumerate(x['data']):
        r = row(i + 1, 2, last, ab, rew, x['stateful'])
        append(ds, backend, r, x['npflags'])
        model.append(r)
    return ds, model


def close(a, b, what, scale=1.):
    a, b = to_np(a).astype(float), np.asarray(b, float)
    assert a.shape == b.shape, (what, a.shape, b.shape)
    assert np.allclose(a, b, rtol=1e-4, atol=1e-4 * scale), (what, a, b)


def size(model):
    """Scale for the tolerance: returns are sums in single precision on the torch backend."""
    return max([abs(r['reward']) for r in model] + [1e-3]) * max(1., len(model) / 50.)


def check_stats(ds, model, gamma, backend):
    amp = size(model)
    eps = episodes(model)
    done = [e for e, c in eps if c]
    assert int(ds.n_episodes) == len(eps), ('n_episodes', ds.n_episodes, len(eps))
    close(ds.episodes_length, [len(e) for e in done], 'episodes_length')
    close(ds.undiscounted_return, [J(e, 1.) for e, _ in eps], 'undiscounted_return', amp)
    close(ds.compute_J(), [J(e, 1.) for e, _ in eps], 'compute_J()', amp)
    close(ds.compute_J(gamma), [J(e, gamma) for e, _ in eps], 'compute_J(gamma)', amp)
    close(np.array([to_np(s) for s in ds.get_init_states()]), [e[0]['state'] for e, _ in eps], 'init states')
    if backend == 'list':
        return
    for g in (1., gamma):
        m = ds.compute_metrics(g)
        js = [J(e, g) for e in done]
        want = (min(js), max(js), np.mean(js), np.median(js), len(js)) if js else (0, 0, 0, 0, 0)
        assert len(m) == 5
        close(np.array([float(v) for v in m]), want, 'compute_metrics(%g)' % g, amp)


@check.case('statistics', st.fixed_dictionaries(dict(
    backend=st.sampled_from(['numpy', 'torch', 'list']), stateful=st.booleans(), npflags=st.booleans(),
    gamma=st.sampled_from([0., .5, .9, .99, 1.]), data=st.one_of(rows(1, 24), rows(1, 24), many_rows(1, 220)),
    cut=st.tuples(st.integers(0, 219), st.integers(1, 220)))), quick=1500)
def statistics(x):
    ds, model = build(x, x['backend'])
    check_stats(ds, model, x['gamma'], x['backend'])
    close(ds.discounted_return, [J(e, x['gamma']) for e, _ in episodes(model)], 'discounted_return', size(model))
    # the same definitions hold on any window of the data and on concatenated data
    a, b = x['cut'][0] % len(model), x['cut'][0] % len(model) + x['cut'][1]
    check_stats(ds[a:b], model[a:b], x['gamma'], x['backend'])
    both = ds[:a + 1] + ds[a:b]
    m2 = [dict(r) for r in model[:a + 1]]
    m2[-1]['last'] = True
    check_stats(both, m2 + model[a:b], x['gamma'], x['backend'])
    close(both.discounted_return, [J(e, x['gamma']) for e, _ in episodes(m2 + model[a:b])], 'discounted_return of a sum', size(model))
    check_stats(ds, model, x['gamma'], x['backend'])
    eps = episodes(model)
    return '%s-%s' % (x['backend'], 'incomplete' if not eps[-1][1] else 'multi') if len(eps) > 1 or not eps[-1][1] else None


@check.case('from_array', st.fixed_dictionaries(dict(backend=st.sampled_from(['numpy', 'torch']), gamma=st.sampled_from(
    [0., .5, .9, 1.]), data=st.one_of(rows(1, 16), many_rows(1, 150)), flagtype=st.sampled_from(['bool', 'int', 'float']))), quick=300)
def from_array(x):
    """Data given as plain arrays (flags as bool or 0/1 numbers) has the same statistics."""
    if x['backend'] == 'numpy' and x['flagtype'] != 'bool':
        x = dict(x, flagtype='bool')
    model = [row(i + 1, 2, l, a, r, False) for i, (l, a, r) in enumerate(x['data'])]
    cols = [np.array([r[f] for r in model]) for f in ['state', 'action', 'reward', 'next_state', 'absorbing', 'last']]
    cols[4] = cols[4].astype(x['flagtype'])
    cols[5] = cols[5].astype(x['flagtype'])
    ds = Dataset.from_array(*cols, backend=x['backend'], horizon=10, gamma=x['gamma'])
    check_stats(ds, model, x['gamma'], x['backend'])
    close(ds.discounted_return, [J(e, x['gamma']) for e, _ in episodes(model)], 'discounted_return', size(model))
    return x['backend'] if len(model) > 1 else None


@check.case('backends', st.fixed_dictionaries(dict(stateful=st.just(False), npflags=st.just(False), gamma=st.sampled_from(
    [.5, .9, 1.]), data=st.one_of(rows(1, 24), many_rows(1, 150)))), quick=300)
def backends(x):
    """numpy and torch datasets holding the same data report the same statistics."""
    a, model = build(x, 'numpy')
    b, _ = build(x, 'torch')
    for f in ('episodes_length', 'undiscounted_return', 'discounted_return'):
        close(getattr(b, f), to_np(getattr(a, f)), f, size(model))
    close(b.get_init_states(), to_np(a.get_init_states()), 'init states')
    close(np.array([float(v) for v in b.compute_metrics(x['gamma'])]),
          np.array([float(v) for v in a.compute_metrics(x['gamma'])]), 'metrics', size(model))
    return 'agree' if len(episodes(model)) > 1 else None
