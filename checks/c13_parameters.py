"""C13 - parameters follow their schedules per index; tables return what was written."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.approximators.table import Table
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.rl_utils.eligibility_trace import EligibilityTrace
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter, to_parameter
from mushroom_rl.rl_utils.variance_parameters import (VarianceDecreasingParameter, VarianceIncreasingParameter,
                                                      WindowedVarianceIncreasingParameter)
from pbt.harness import Check

check = Check('C13', rule='a case is a parameter class with random constants and table size and a sequence of calls, '
              'updates and reads at random indexes, compared with the closed form per index; or a table with a sequence '
              'of writes, fits and predictions mirrored by a dictionary; non-trivial when some index is used twice')

quarter = st.integers(-40, 40).map(lambda v: v / 4.)
idx = st.tuples(st.integers(0, 2), st.integers(0, 1))
calls = st.lists(st.tuples(st.sampled_from(['call', 'call', 'call', 'get', 'update']), idx), min_size=1, max_size=25)


@check.case('schedules', st.fixed_dictionaries(dict(
    kind=st.sampled_from(['const', 'linear', 'decay']), size=st.sampled_from([(1,), (3,), (3, 2)]), v0=quarter, thr=quarter,
    n=st.integers(1, 12), exp=st.sampled_from([.25, .5, 1., 2.]), lo=st.one_of(st.none(), quarter), width=st.one_of(
        st.none(), st.integers(0, 40).map(lambda v: v / 4.)), arr=st.booleans(), calls=calls, bulk=st.sampled_from([0, 0, 40, 300]))), quick=700)
def schedules(x):
    lo = x['lo']
    hi = None if x['width'] is None else (0. if lo is None else lo) + x['width']
    if x['kind'] == 'const':
        p = Parameter(x['v0'], lo, hi, x['size'])
    elif x['kind'] == 'linear':
        p = LinearParameter(x['v0'], x['thr'], x['n'], x['size'])
    else:
        p = DecayParameter(x['v0'], x['exp'], lo, hi, x['size'])
    visits = {}

    def expected(k):
        if x['kind'] == 'linear':
            v = x['v0'] + (x['thr'] - x['v0']) * k / x['n']
            return min(v, x['thr']) if x['thr'] >= x['v0'] else max(v, x['thr'])
        v = x['v0'] if x['kind'] == 'const' else x['v0'] / max(k, 1) ** x['exp']
        if lo is not None:
            v = max(v, lo)
        if hi is not None:
            v = min(v, hi)
        return v
    assert p.initial_value == x['v0'] and tuple(p.shape) == x['size']
    for what, i in x['calls'] + [('call', x['calls'][0][1])] * x['bulk']:
        key = () if x['size'] == (1,) else i[:len(x['size'])]
        arg = tuple(np.array([k]) for k in key) if x['arr'] else key
        if x['size'] == (1,) and what == 'call' and x['arr']:
            arg = (np.array([i[0]]),)        # a scalar parameter ignores the index it is called with
        if what == 'call':
            visits[key] = visits.get(key, 0) + 1
            got = p(*arg)
        elif what == 'update':
            visits[key] = visits.get(key, 0) + 1
            p.update(*arg)
            continue
        else:
            got = p.get_value(*arg)
        want = expected(visits.get(key, 0))
        assert np.isclose(float(got), want), (x['kind'], what, key, float(got), want)
    assert to_parameter(p) is p
    assert to_parameter(x['v0'])() == x['v0']
    return '%s-%d' % (x['kind'], len(x['size'])) if max(visits.values(), default=0) > 1 else None


@check.case('variance', st.fixed_dictionaries(dict(
    kind=st.sampled_from(['inc', 'dec', 'win']), expo=st.booleans(), size=st.sampled_from([(1,), (3,), (3, 2)]),
    v0=st.sampled_from([.25, .5, 1.]), tol=st.sampled_from([.5, 1., 2.]), window=st.integers(2, 6),
    lo=st.sampled_from([None, .05, .3]),
    calls=st.lists(st.tuples(idx, quarter, st.sampled_from([1., .5, None])), min_size=1, max_size=25),
    seed=st.integers(0, 999), bulk=st.sampled_from([0, 12, 60]))), quick=300)
def variance(x):
    """The value depends on the target variance seen at that index only, with the documented monotone maps."""
    kw = dict(exponential=x['expo'], size=x['size'])
    if x['lo'] is not None:
        kw['min_value'] = x['lo']
    tol = 1. if x['kind'] == 'dec' and not x['expo'] else x['tol']
    cls = dict(inc=VarianceIncreasingParameter, dec=VarianceDecreasingParameter, win=WindowedVarianceIncreasingParameter)
    if x['kind'] == 'win':
        kw['window'] = x['window']
    p = cls[x['kind']](x['v0'], tol=tol, **kw)
    hist, w = {}, {}
    rng = np.random.RandomState(x['seed'])
    more = [((rng.randint(2), 0), rng.randint(-40, 41) / 4., [1., .5, None][rng.randint(3)]) for _ in range(x['bulk'])]
    for i, target, given in x['calls'] + more:
        factor = 1. if given is None else given
        key = () if x['size'] == (1,) else i[:len(x['size'])]
        h = hist.setdefault(key, [])
        wv = w.get(key, 0.)
        if len(h) < 2:
            v = x['v0']
        else:
            var = np.var(h[-x['window']:]) if x['kind'] == 'win' else np.var(h, ddof=1)
            s = var * wv
            if x['kind'] == 'dec':
                v = np.exp(s * np.log(.5) / tol) if x['expo'] else 1. / (s + 1.)
            else:
                v = 1 - np.exp(s * np.log(.5) / tol) if x['expo'] else s / (s + tol)
        w[key] = (1 - factor * v) ** 2 * wv + (factor * v) ** 2
        h.append(target)
        arg = tuple(np.array([k]) for k in key)
        got = p(*arg, target=target, **({} if given is None else dict(factor=factor)))
        want = v if x['lo'] is None else max(v, x['lo'])
        assert np.size(got) == 1 and np.isclose(float(np.ravel(got)[0]), want, rtol=1e-5, atol=1e-7), \
            (x['kind'], key, got, want, h)
        assert np.isclose(float(np.ravel(p.get_value(*arg))[0]), want, rtol=1e-5, atol=1e-7)
    return x['kind'] if max(len(h) for h in hist.values()) > 3 else None


@check.case('tables', st.fixed_dictionaries(dict(
    shape=st.tuples(st.integers(1, 4), st.integers(2, 3)), init=quarter, n_models=st.integers(1, 3),
    writes=st.lists(st.tuples(st.integers(0, 3), st.integers(0, 2), st.integers(0, 2), quarter), max_size=15))), quick=400)
def tables(x):
    S, A = x['shape']
    t = Table(x['shape'], initial_value=x['init'])
    e = EnsembleTable(x['n_models'], x['shape'])
    ref = np.full(x['shape'], x['init'])
    refe = np.zeros((x['n_models'],) + x['shape'])
    for s, a, m, v in x['writes']:
        s, a, m = s % S, a % A, m % x['n_models']
        ref[s, a] = v
        refe[m, s, a] = v
        if m % 2:
            t[np.array([s]), np.array([a])] = v
            e[m][s, a] = v
        else:
            t.fit((np.array([s]), np.array([a])), v)
            e.fit((np.array([s]), np.array([a])), v, idx=m)
    assert tuple(t.shape) == x['shape'] and t.n_actions == A == e.n_actions and len(e) == x['n_models']
    for s in range(S):
        st_ = np.array([s])
        assert np.allclose(t.predict(st_), ref[s])
        for m in range(x['n_models']):
            assert np.allclose(e.predict(st_, idx=m), refe[m, s])
        assert np.allclose(e.predict(st_), refe[:, s].mean(0)), ('ensemble mean', e.predict(st_), refe[:, s])
        for a in range(A):
            at = np.array([a])
            assert np.isclose(t.predict(st_, at), ref[s, a]) and np.isclose(t[st_, at], ref[s, a])
            for m in range(x['n_models']):
                assert np.isclose(e.predict(st_, at, idx=m), refe[m, s, a])
    if S > 1:
        ss = np.arange(S)[:, None]
        assert np.allclose(t.predict(ss), ref)
        aa = (np.arange(S) % A)[:, None]
        assert np.allclose(t.predict(ss, aa), ref[np.arange(S), np.arange(S) % A])
    return 'writes' if len(x['writes']) > 1 else None


@check.case('traces', st.fixed_dictionaries(dict(name=st.sampled_from(['replacing', 'accumulating']), ops=st.lists(st.tuples(
    st.sampled_from(['u', 'u', 'u', 'd', 'r']), st.integers(0, 2), st.integers(0, 1)), max_size=20))), quick=200)
def traces(x):
    e = EligibilityTrace((3, 2), x['name'])
    ref = np.zeros((3, 2))
    e.reset()
    for o, s, a in x['ops']:
        if o == 'u':
            e.update(np.array([s]), np.array([a]))
            ref[s, a] = 1. if x['name'] == 'replacing' else ref[s, a] + 1.
        elif o == 'd':
            e.table *= .5
            ref *= .5
        else:
            e.reset()
            ref *= 0.
    assert np.allclose(e.table, ref)
    return x['name'] if len(x['ops']) > 3 else None
