"""C04 - a Dataset is an ordered sequence of transitions: views, copies, concatenation and clearing never mix fields."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.core import Dataset
from mushroom_rl.core.extra_info import ExtraInfo
from pbt import dsgen
from pbt.dsgen import append, compare, many_rows, new_dataset, row, rows, to_np
from pbt.harness import Check

check = Check('C04', rule='a case is a backend, a stateless/stateful/discrete layout and a history of appends, slices, '
              'integer-array and boolean views (with and without copy), concatenations, copies and clears, mirrored on '
              'a list of rows; non-trivial when the history contains a view or a concatenation of non-empty data')

op = st.one_of(
    st.tuples(st.just('append'), st.integers(0, 5), rows(1, 6)),
    st.tuples(st.just('slice'), st.integers(0, 5), st.integers(-8, 12), st.integers(-8, 12), st.booleans(),
              st.sampled_from([1, 1, 1, 2, 3])),
    st.tuples(st.just('fancy'), st.integers(0, 5), st.lists(st.integers(0, 60), min_size=1, max_size=6), st.booleans()),
    st.tuples(st.just('mask'), st.integers(0, 5), st.lists(st.booleans(), min_size=20, max_size=20), st.booleans()),
    st.tuples(st.just('add'), st.integers(0, 5), st.integers(0, 5)),
    st.tuples(st.just('copy'), st.integers(0, 5)),
    st.tuples(st.just('clear'), st.integers(0, 5)),
    st.tuples(st.just('new'), rows(0, 6)),
)


@st.composite
def history(draw):
    return dict(backend=draw(st.sampled_from(['numpy', 'numpy', 'torch', 'torch', 'list'])), stateful=draw(st.booleans()),
                discrete=draw(st.booleans()), sdim=draw(st.integers(1, 3)), npflags=draw(st.booleans()),
                first=draw(rows(1, 10)), ops=draw(st.lists(op, max_size=8)))


@check.case('history', history(), quick=1200)
def hist(x):
    backend, stateful, discrete, sdim = x['backend'], x['stateful'], x['discrete'], x['sdim']
    serial = [0]
    CAP = x.get('cap', 40)
    dims = {k: x[k] for k in ('adim', 'pdim') if k in x}

    def fresh(rs, into=None):
        ds, model, room = into[:3] if into else (new_dataset(backend, CAP, stateful, sdim, discrete, **dims), [], CAP)
        for last, ab, rew in rs:
            if room <= 0:
                break
            serial[0] += 1
            r = row(serial[0], sdim, last, ab, rew, stateful, discrete, **dims)
            append(ds, backend, r, x['npflags'])
            model.append(r)
            room -= 1
        return [ds, model, room]

    # each entry: dataset, model rows, remaining append capacity (0: the API offers no more room), group of datasets that
    # may share memory (views)
    groups = iter(range(10 ** 6))
    pool = [fresh(x['first']) + [next(groups)]]
    label = None
    for o in x['ops']:
        tgt = pool[o[1] % len(pool)] if o[0] != 'new' else None
        if o[0] == 'new':
            pool.append(fresh(o[1]) + [next(groups)])
        elif o[0] == 'append':
            if tgt[2] > 0:
                e = fresh(o[2], tgt)
                tgt[2] = e[2]
        elif o[0] == 'slice':
            _, _, a, b, cp, stp = o
            sl = slice(a if a != 12 else None, b if b != 12 else None, stp)
            m = tgt[1][sl]
            if cp:
                v = tgt[0].get_view(sl, copy=True)
            else:
                v = tgt[0][sl]
            pool.append([v, list(m), 0, next(groups) if cp else tgt[3]])
            if m:
                label = 'view'
        elif o[0] == 'fancy':
            if not tgt[1]:
                continue
            idx = [i % len(tgt[1]) for i in o[2]]
            if o[3] and len(idx) > len(tgt[1]):
                idx = idx[:len(tgt[1])]
            index = torch.tensor(idx) if backend == 'torch' and len(idx) % 2 else np.array(idx)
            v = tgt[0].get_view(index, copy=True) if o[3] and backend != 'list' else tgt[0][index]
            pool.append([v, [tgt[1][i] for i in idx], 0, next(groups) if o[3] else tgt[3]])
            label = 'fancy'
        elif o[0] == 'mask':
            if not tgt[1] or backend == 'list':
                continue
            mk = (o[2] * (len(tgt[1]) // len(o[2]) + 1))[:len(tgt[1])]
            index = torch.tensor(mk) if backend == 'torch' else np.array(mk)
            v = tgt[0].get_view(index, copy=True) if o[3] else tgt[0][index]
            pool.append([v, [r for r, k in zip(tgt[1], mk) if k], 0, next(groups) if o[3] else tgt[3]])
            label = 'mask'
        elif o[0] == 'add':
            other = pool[o[2] % len(pool)]
            if len(tgt[1]) + len(other[1]) == 0 or len(tgt[1]) + len(other[1]) > 600:
                continue
            s = tgt[0] + other[0]
            m = [dict(r) for r in tgt[1]]
            if m:
                m[-1]['last'] = True      # joining closes the left trajectory
            pool.append([s, m + [dict(r) for r in other[1]], 0, next(groups)])
            if tgt[1] and other[1]:
                label = 'add'
        elif o[0] == 'copy':
            pool.append([tgt[0].copy(), [dict(r) for r in tgt[1]], tgt[2], next(groups)])
        elif o[0] == 'clear':
            cap = tgt[2] + len(tgt[1])
            tgt[0].clear()
            tgt[1] = []
            tgt[2] = cap if tgt[2] > 0 or backend == 'list' else 0
        pool = pool[:9]
    # only now compare everything: no operation may have disturbed any other dataset
    for k, (ds, model, _, _) in enumerate(pool):
        compare(ds, model, stateful, 'dataset %d' % k)
        for i, m in enumerate(model):
            for j in (i, i - len(model)):
                step = ds[j]
                for got, f in zip(step, ['state', 'action', 'reward', 'next_state', 'absorbing', 'last']):
                    assert np.allclose(to_np(got).astype(float).ravel(), np.asarray(m[f], float).ravel()), \
                        ('indexing', j, f, got, m[f])
        for bad in (len(model), -len(model) - 1):
            try:
                ds[bad]
            except IndexError:
                pass
            else:
                raise AssertionError('index %d out of range accepted' % bad)
        assert sum(1 for _ in ds) == len(model)
        if model:
            want = sum(r['last'] for r in model) + (not model[-1]['last'])
            assert ds.n_episodes == want, ('number of episodes', ds.n_episodes, want)
            ds.info.parse()
            tags = to_np(ds.info['tag']).ravel()
            assert np.array_equal(to_np(ds.get_info('tag')).ravel(), tags) and \
                float(ds.get_info('tag', len(model) - 1)) == tags[-1], 'get_info'
            assert np.allclose(tags, [r['tag'] for r in model]), ('step info', tags, [r['tag'] for r in model])
            for to in ('numpy', 'torch'):
                cols = ds.parse(to=to)
                for col, f in zip(cols, ['state', 'action', 'reward', 'next_state', 'absorbing', 'last']):
                    assert isinstance(col, np.ndarray if to == 'numpy' else torch.Tensor), (to, f, type(col))
                    assert np.allclose(to_np(col).astype(float).reshape(len(model), -1),
                                       np.array([np.ravel(r[f]) for r in model]).astype(float)), (to, f)
                if stateful:
                    for col, f in zip(ds.parse_policy_state(to=to), ['policy_state', 'policy_next_state']):
                        assert np.allclose(to_np(col), np.array([r[f] for r in model])), (to, f)
    if backend != 'list':
        # writing into one dataset changes neither its copies, nor its concatenations, nor what it was copied from
        for k, (ds, model, _, g) in enumerate(pool):
            if not model:
                continue
            for f in ['state', 'action', 'reward', 'next_state'] + (['policy_state', 'policy_next_state'] if stateful else []):
                getattr(ds, f)[:] = -77 - k
            ds.absorbing[:] = k % 2 == 0
            ds.last[:] = k % 2 == 1
            for j, (other, m, _, h) in enumerate(pool):
                if h != g and not any(pool[i][3] == h for i in range(k)):
                    compare(other, m, stateful, 'dataset %d after writing into dataset %d' % (j, k))
    return '%s-%s' % (backend, label) if label else None


big_op = st.one_of(
    st.tuples(st.just('append'), st.integers(0, 5), many_rows(1, 80)),
    st.tuples(st.just('slice'), st.integers(0, 5), st.integers(-90, 120), st.integers(-90, 120), st.booleans(),
              st.sampled_from([1, 1, 2, 7])),
    st.tuples(st.just('fancy'), st.integers(0, 5), st.lists(st.integers(0, 400), min_size=1, max_size=50), st.booleans()),
    st.tuples(st.just('mask'), st.integers(0, 5), st.lists(st.booleans(), min_size=20, max_size=20), st.booleans()),
    st.tuples(st.just('add'), st.integers(0, 5), st.integers(0, 5)),
    st.tuples(st.just('copy'), st.integers(0, 5)), st.tuples(st.just('clear'), st.integers(0, 5)),
    st.tuples(st.just('new'), many_rows(0, 90)))
check.case('history, long and wide', st.fixed_dictionaries(dict(
    backend=st.sampled_from(['numpy', 'torch', 'list']), stateful=st.booleans(), discrete=st.booleans(),
    sdim=st.integers(1, 16), adim=st.integers(1, 9), pdim=st.integers(1, 7), npflags=st.booleans(), cap=st.integers(60, 250),
    first=many_rows(1, 150), ops=st.lists(big_op, max_size=6))), quick=60)(hist)


@check.case('select', st.fixed_dictionaries(dict(backend=st.sampled_from(['numpy', 'torch', 'list']), stateful=st.booleans(),
                                                 data=st.one_of(rows(1, 16), many_rows(1, 150)), n=st.integers(1, 40),
                                                 k=st.one_of(st.integers(1, 30), st.integers(31, 300)))), quick=500)
def select(x):
    """Episode and sample selection return exactly the requested rows, with all their fields."""
    ds = new_dataset(x['backend'], 160, x['stateful'])
    model = []
    for i, (last, ab, rew) in enumerate(x['data']):
        r = row(i + 1, 2, last, ab, rew, x['stateful'])
        append(ds, x['backend'], r)
        model.append(r)
    ends = [i for i, r in enumerate(model) if r['last']]
    if x['n'] <= len(ends):
        sub = ds.select_first_episodes(x['n'])
        compare(sub, model[:ends[x['n'] - 1] + 1], x['stateful'], 'first episodes')
    rnd = ds.select_random_samples(x['k'])
    assert len(rnd) == x['k']
    by = {r['tag']: r for r in model}
    tags = [float(to_np(s)[0]) for s in rnd.state]
    compare(rnd, [by[t] for t in tags], x['stateful'], 'random samples')
    compare(ds, model, x['stateful'], 'source unchanged')
    if len(model) <= 8:
        # every row can be selected: the chance of a false alarm is below 8 * (7 / 8) ** 400 < 1e-22
        t = {float(to_np(s)[0]) for s in ds.select_random_samples(400).state}
        assert t == set(by), ('rows never selected', set(by) - t)
    return x['backend'] if len(ends) >= 2 else None


@check.case('from_array', st.fixed_dictionaries(dict(backend=st.sampled_from(['numpy', 'torch', 'list']), src=st.sampled_from(
    ['numpy', 'torch']), stateful=st.booleans(), parsed=st.booleans(), flags=st.sampled_from(['bool', 'int', 'float']),
    data=st.one_of(rows(1, 10), many_rows(1, 90)))), quick=300)
def from_array(x):
    model = [row(i + 1, 2, l, a, r, x['stateful']) for i, (l, a, r) in enumerate(x['data'])]
    cols = [np.array([r[f] for r in model]) for f in ['state', 'action', 'reward', 'next_state', 'absorbing', 'last']]
    if x['backend'] != 'numpy':
        cols[4], cols[5] = cols[4].astype(x['flags']), cols[5].astype(x['flags'])
    kw = {}
    if x['stateful']:
        kw = dict(policy_state=np.array([r['policy_state'] for r in model]),
                  policy_next_state=np.array([r['policy_next_state'] for r in model]))
    src = x['src'] if x['backend'] != 'list' else 'numpy'
    if src == 'torch':
        cols = [torch.from_numpy(c) for c in cols]
        kw = {k: torch.from_numpy(v) for k, v in kw.items()}
    info = ExtraInfo(1, 'numpy' if x['backend'] == 'list' else x['backend'])
    for r in model:
        info.append({'tag': r['tag']})
    if x['parsed']:
        info.parse()
    ds = Dataset.from_array(*cols, info=info, theta_list=[1, 2], backend=x['backend'], horizon=10, gamma=0.9, **kw)
    compare(ds, model, x['stateful'], 'from_array')
    for f in (ds.absorbing, ds.last):
        assert all(isinstance(v, (bool, np.bool_)) or isinstance(v, torch.Tensor) and v.dtype == torch.bool for v in f), \
            'flags are not booleans'
    other = Dataset.from_array(*cols, info=info, theta_list=[3], backend=x['backend'], horizon=10, gamma=0.9, **kw)
    both = ds + other
    assert list(both.theta_list) == [1, 2, 3] and list(ds.theta_list) == [1, 2], 'policy parameters of a concatenation'
    other.clear()
    assert len(other) == 0
    compare(ds, model, x['stateful'], 'after clearing a dataset made from the same arrays')
    for d, want in ((ds, 1), (both, 2)):
        d.info.parse()
        assert np.allclose(to_np(d.info['tag']).ravel(), [r['tag'] for r in model] * want), 'step info of from_array'
    info.parse()
    assert np.allclose(to_np(info['tag']).ravel(), [r['tag'] for r in model]), 'step info passed in was changed'
    v = ds[1:]
    compare(v, model[1:], x['stateful'], 'view of from_array')
    return x['backend'] if len(model) > 1 else None
