"""C06 - step information: every appended key/value comes back at its step, whatever the order of parses, views, sums."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.core import ExtraInfo
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C06', rule='a case is a number of environments, a backend, a layout of step dictionaries (scalars, '
              'vectors, nested dictionaries, keys that only some steps have) and a history of append, parse, view, sum, '
              'copy, flatten and clear, mirrored by a list of flat dictionaries; non-trivial when it mixes at least two '
              'kinds of operation on non-empty data')

OPT = ['opt', ]


def value(serial, env, key):
    base = serial * 16. + env
    if key in ('n_tag', 'm_p_vec'):
        return base + 1000. if key == 'n_tag' else np.array([base, 3.])
    if key in ('m_p_q', 'm_p_r', 'int', 'flag'):
        return {'m_p_q': base + .625, 'm_p_r': np.array([[base, -base]]), 'int': int(base), 'flag': bool(serial % 3)}[key]
    return {'tag': base, 'vec': np.array([base, base + .25]), 'mat': np.arange(6.).reshape(2, 3) + base,
            'n_a': base + .5, 'n_b': np.array([base + .75, 1., 2.]), 'opt': base + .125}[key]


@st.composite
def layouts(draw):
    keys = ['tag'] + [k for k in ['vec', 'mat', 'n_a', 'n_b', 'm_p_q', 'm_p_r', 'int', 'flag', 'n_tag', 'm_p_vec'] if draw(st.booleans())]
    return keys


op = st.one_of(
    st.tuples(st.just('append'), st.integers(0, 5), st.lists(st.integers(0, 8191), min_size=1, max_size=4)),
    st.tuples(st.just('append'), st.integers(0, 5), st.lists(st.integers(0, 8191), min_size=1, max_size=4)),
    st.tuples(st.just('parse'), st.integers(0, 5), st.sampled_from([None, 'numpy', 'torch'])),
    st.tuples(st.just('view'), st.integers(0, 5), st.integers(0, 8), st.integers(0, 8), st.booleans()),
    st.tuples(st.just('fancy'), st.integers(0, 5), st.lists(st.integers(0, 30), min_size=1, max_size=5), st.booleans()),
    st.tuples(st.just('add'), st.integers(0, 5), st.integers(0, 5)),
    st.tuples(st.just('copy'), st.integers(0, 5)),
    st.tuples(st.just('clear'), st.integers(0, 5)),
    st.tuples(st.just('new'), st.integers(0, 5), st.lists(st.integers(0, 8191), min_size=1, max_size=6), st.booleans()),
)


@st.composite
def history(draw):
    return dict(n_envs=draw(st.sampled_from([1, 1, 2, 3, 7])), backend=draw(st.sampled_from(['numpy', 'torch'])),
                form=draw(st.sampled_from(['list', 'dict'])), keys=draw(layouts()), optional=draw(st.booleans()),
                first=draw(st.lists(st.integers(0, 8191), min_size=1, max_size=5)) * draw(st.sampled_from([1, 1, 1, 7])),
                ops=draw(st.lists(op, max_size=8)))


def nest(d):
    out = {}
    for k, v in d.items():
        if k.startswith('m_p_'):
            out.setdefault('m', {}).setdefault('p', {})[k[4:]] = v
        elif k.startswith('n_'):
            out.setdefault('n', {})[k[2:]] = v
        else:
            out[k] = v
    return out


def conv(v, backend):
    if isinstance(v, np.ndarray):
        return torch.tensor(v, dtype=torch.float) if backend == 'torch' else v.copy()
    return v


def independent(info, index):
    """Writing into a copied view, straight after taking it, does not reach the container it was taken from."""
    view = info.get_view(index, copy=True)
    before = {k: to_np(info[k]).copy() for k in info}
    for k in view:
        view[k][:] = -9.
    for k in before:
        assert np.array_equal(to_np(info[k]), before[k], equal_nan=True), ('a copied view shares memory', k)


@check.case('history', history(), quick=1500)
def hist(x):
    n, backend = x['n_envs'], x['backend']
    serial = [0]
    kinds = set()

    def add_steps(entry, opts):
        for o in opts:
            serial[0] += 1
            # o says which of the keys this step provides (in the list form, each environment on its own)
            keys = [[k for j, k in enumerate(x['keys'] + OPT) if k == 'tag' or not x['optional'] and k not in OPT
                     or x['optional'] and (o + 37 * e * (x['form'] == 'list')) >> j & 1] for e in range(n)]
            if n > 1 and x['form'] == 'list' and x['optional']:
                # environments with nothing to report
                keys = [[] if (o * 5 + 3 * e + serial[0]) % 4 == 0 and e != o % n else k for e, k in enumerate(keys)]
            row = [{k: value(serial[0], e, k) for k in keys[e]} for e in range(n)]
            entry[3].update(k for r in row for k in r)
            # a container keeps taking arrays of the backend it was created with / last parsed to
            b = entry[2]
            if n == 1:
                entry[0].append(nest({k: conv(v, b) for k, v in row[0].items()}))
            elif x['form'] == 'list':
                entry[0].append([nest({k: conv(v, b) for k, v in r.items()}) for r in row])
            else:
                entry[0].append(nest({k: conv(np.array([r[k] for r in row]), b) for k in keys[0]}))
            entry[1].append(row)

    # container, model rows, backend, keys it was given, group of containers that may share memory (views)
    groups = iter(range(10 ** 6))
    first = [ExtraInfo(n, backend), [], backend, set(), next(groups)]
    add_steps(first, x['first'])
    pool = [first]
    for o in x['ops']:
        tgt = pool[o[1] % len(pool)]
        kinds.add(o[0])
        if o[0] == 'append':
            add_steps(tgt, o[2])
        elif o[0] == 'parse':
            # all arrays handed over so far are of backend tgt[2]
            tgt[0].parse(to=o[2])
            tgt[2] = o[2] or tgt[2]
        elif o[0] == 'view':
            a, b = o[2], o[2] + o[3]
            if not tgt[1]:
                continue
            if o[4]:
                independent(tgt[0], slice(a, b))
            pool.append([tgt[0].get_view(slice(a, b), copy=o[4]), [list(r) for r in tgt[1][a:b]], tgt[2], set(tgt[3]),
                         next(groups) if o[4] else tgt[4]])
        elif o[0] == 'fancy':
            if not tgt[1]:
                continue
            idx = [i % len(tgt[1]) for i in o[2]]
            index = torch.tensor(idx) if tgt[2] == 'torch' else np.array(idx)
            if o[3]:
                independent(tgt[0], index)
            pool.append([tgt[0].get_view(index, copy=o[3]), [tgt[1][i] for i in idx], tgt[2], set(tgt[3]),
                         next(groups) if o[3] else tgt[4]])
        elif o[0] == 'add':
            other = pool[o[2] % len(pool)]
            if other[2] != tgt[2]:
                if not tgt[1] or not other[1]:
                    continue
                # mixed backends: both sides as parsed arrays; the sum is of the backend of the left side
                tgt[0].parse()
                other[0].parse()
            pool.append([tgt[0] + other[0], tgt[1] + other[1], tgt[2], tgt[3] | other[3], tgt[4]])
        elif o[0] == 'copy':
            pool.append([tgt[0].copy(), list(tgt[1]), tgt[2], set(tgt[3]), tgt[4]])
        elif o[0] == 'new':
            e = [ExtraInfo(n, backend), [], backend, set(), next(groups)]
            add_steps(e, o[2])
            if o[3]:
                e[0].parse()
            pool.append(e)
        elif o[0] == 'clear':
            tgt[0].clear()
            tgt[1][:] = []
            tgt[3].clear()
        pool = pool[:6] if len(pool) <= 6 or o[0] != 'new' else pool[:5] + pool[-1:]
    for info, model, b, given, _ in pool:
        if not model:
            info.parse()
            for k in info:
                assert len(info[k]) == 0, ('cleared info holds data', k, info[k])
            continue
        info.parse()
        have = set().union(*[set(e) for r in model for e in r])
        assert have <= set(info.keys()) <= given, ('keys', have, set(info.keys()), given)
        assert len(info) == len(set(info.keys())) and 'no such key' not in info
        for k in have:
            col = info[k]
            assert isinstance(col, torch.Tensor if b == 'torch' else np.ndarray), (k, b, type(col))
            col = to_np(col)
            assert len(col) == len(model), ('length', k, len(col), len(model))
            for i, r in enumerate(model):
                for e in range(n):
                    got = col[i] if n == 1 else col[i][e]
                    if k in r[e]:
                        want = np.asarray(r[e][k])
                        assert got.shape == want.shape and np.allclose(got, want), ('value', k, i, e, got, want)
                    else:
                        assert np.all(np.isnan(got)), ('missing value', k, i, e, got)
        if n > 1:
            flat = info.flatten()
            mask = np.array([[(i * 7 + e * 3 + len(model) + x['first'][0]) % 3 != 0 for e in range(n)] for i in range(len(model))])
            packed = info.flatten(torch.tensor(mask) if b == 'torch' else mask)
            order = [(i, e) for e in range(n) for i in range(len(model))]
            for k in have:
                for f, sel in ((flat, order), (packed, [(i, e) for i, e in order if mask[i, e]])):
                    c = to_np(f[k])
                    assert len(c) == len(sel), ('flatten', k, c.shape, len(sel))
                    for got, (i, e) in zip(c, sel):
                        if k in model[i][e]:
                            assert np.allclose(got, model[i][e][k]), ('flatten', k, i, e)
                        else:
                            assert np.all(np.isnan(got))
        for m in (lambda: info.__setitem__('tag', 1), lambda: info.pop('tag'), lambda: info.update(tag=2)):
            try:
                m()
            except TypeError:
                pass
            else:
                raise AssertionError('step information is not read-only')
    # a view made with copy=True is independent of the original: writing into its arrays changes nothing else
    for k, (info, model, b, _, g) in enumerate(pool):
        before = [{key: to_np(o[0][key]).copy() for key in o[0]} for o in pool]
        for key in info:
            if len(info[key]):
                info[key][:] = -5.
        for o, old in zip(pool, before):
            if o[4] != g:
                for key in old:
                    assert np.array_equal(to_np(o[0][key]), old[key], equal_nan=True), 'writing into a copied view changed another'
    return '+'.join(sorted(kinds - {'append'})) if len(kinds) >= 2 else None


@check.case('sum of two runs', st.fixed_dictionaries(dict(
    n_envs=st.sampled_from([1, 2, 3]), backend=st.sampled_from(['numpy', 'torch']), left=st.sets(st.sampled_from(
        ['tag', 'vec', 'n_a', 'n_tag', 'm_p_q', 'opt']), min_size=1), right=st.sets(st.sampled_from(
            ['tag', 'vec', 'n_a', 'n_tag', 'm_p_q', 'opt']), min_size=1), nl=st.integers(1, 4), nr=st.integers(1, 4),
    parse=st.tuples(st.booleans(), st.booleans()), again=st.booleans())), quick=250)
def sums(x):
    """Two containers with different keys, parsed or not before they are joined."""
    n, b = x['n_envs'], x['backend']
    parts, model, serial = [], [], 0
    for keys, steps, parse in ((sorted(x['left']), x['nl'], x['parse'][0]), (sorted(x['right']), x['nr'], x['parse'][1])):
        info = ExtraInfo(n, b)
        for _ in range(steps):
            serial += 1
            row = [{k: value(serial, e, k) for k in keys} for e in range(n)]
            model.append(row)
            if n == 1:
                info.append(nest({k: conv(v, b) for k, v in row[0].items()}))
            else:
                info.append([nest({k: conv(v, b) for k, v in r.items()}) for r in row])
        if parse:
            info.parse()
        parts.append(info)
    total = parts[0] + parts[1]
    if x['again']:
        total = total + parts[0]
        model = model + model[:x['nl']]
    total.parse()
    assert set(total.keys()) == x['left'] | x['right'], (set(total.keys()), x)
    for k in total:
        col = to_np(total[k])
        assert len(col) == len(model), (k, len(col), len(model))
        for i, r in enumerate(model):
            for e in range(n):
                got = col[i] if n == 1 else col[i][e]
                assert np.allclose(got, r[e][k]) if k in r[e] else np.all(np.isnan(got)), (k, i, e, got)
    return 'different keys' if x['left'] != x['right'] else 'same keys'
