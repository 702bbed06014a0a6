"""C12 - the array backends compute the same values; conversions preserve contents."""
from collections import deque

import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.core import ArrayBackend
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C12', rule='a case is a random array (or list of arrays) of rank 1-4, small or large, and an operation of the backend '
              'interface, evaluated on the numpy and the torch backend and compared with plain numpy; non-trivial when '
              'the array has more than one element')

shapes = st.one_of(st.tuples(st.integers(1, 5)), st.tuples(st.integers(1, 5), st.integers(1, 4)),
                   st.tuples(st.integers(1, 4), st.integers(1, 3), st.integers(1, 3)))


@st.composite
def arrays(draw, shape=None, lo=-40, hi=40):
    shape = draw(shapes) if shape is None else shape
    n = int(np.prod(shape))
    vals = draw(st.lists(st.integers(lo, hi), min_size=n, max_size=n))
    return dict(shape=shape, vals=[v / 4. for v in vals])


@st.composite
def large(draw):
    shape = draw(st.one_of(st.tuples(st.integers(20, 700)), st.tuples(st.integers(1, 40), st.integers(1, 30)),
                           st.tuples(*[st.integers(1, 9)] * 3), st.tuples(*[st.integers(1, 5)] * 4)))
    return dict(shape=shape, seed=draw(st.integers(0, 10 ** 6)), amp=draw(st.sampled_from([2, 40, 40000])))


def mk(a):
    if 'seed' in a:
        return np.random.RandomState(a['seed']).randint(-a['amp'], a['amp'] + 1, size=a['shape']) / 4.
    return np.array(a['vals']).reshape(a['shape'])


NP, TO, LI = [ArrayBackend.get_array_backend(n) for n in ('numpy', 'torch', 'list')]


def both(fn_np, fn_to, want, what, exact_shape=True):
    for got, typ in ((fn_np, np.ndarray), (fn_to, torch.Tensor)):
        g = got()
        assert isinstance(g, typ) or np.isscalar(g) or isinstance(g, np.generic), (what, type(g))
        g = to_np(g)
        assert not exact_shape or g.shape == np.shape(want), (what, g.shape, np.shape(want))
        assert np.allclose(g, want, rtol=1e-5, atol=1e-6), (what, g, want)


def dtypes(a, t):
    """The element type asked for is the one given, whatever the template's is; defaults are floating point."""
    ints, tints = np.rint(a).astype(int), torch.tensor(np.rint(a).astype(int))
    for b, src, kinds in ((NP, (a, ints), (int, bool, np.float32, float)),
                          (LI, (a, ints), (int, bool, np.float32, float)),
                          (TO, (t, tints), (torch.int32, torch.bool, torch.float32, torch.float64))):
        for v, name in ((0, 'zeros'), (1, 'ones')):
            for y in src:
                z = getattr(b, name + '_like')(y)
                assert 'float' in str(z.dtype), (name + '_like', 'default type', z.dtype)
                assert tuple(z.shape) == a.shape and np.all(to_np(z) == v), name + '_like of integers'
                for k in kinds:
                    z = getattr(b, name + '_like')(y, dtype=k)
                    assert (z.dtype == k) and tuple(z.shape) == a.shape and np.all(to_np(z) == v), (name + '_like', k, z.dtype)
            z = getattr(b, name)(*a.shape)
            assert 'float' in str(z.dtype), (name, 'default type', z.dtype)
            for k in kinds:
                z = getattr(b, name)(*a.shape, dtype=k)
                assert z.dtype == k and tuple(z.shape) == a.shape and np.all(to_np(z) == v), (name, k, z.dtype)
    for b, k in ((NP, np.float32), (TO, torch.float32)):
        z = b.arange(0, 4, 1, dtype=k)
        assert z.dtype == k and to_np(z).tolist() == [0, 1, 2, 3]
    both(lambda: NP.abs(ints), lambda: TO.abs(tints), np.abs(ints), 'abs of integers')
    assert NP.abs(ints).dtype == ints.dtype and TO.abs(tints).dtype == tints.dtype
    both(lambda: NP.where(ints > 0, ints, -ints), lambda: TO.where(tints > 0, tints, -tints), np.abs(ints), 'where on integers')
    b, tb = a > 0, t > 0
    for y, w, k in ((ints, ints, torch.int64), (b, b, torch.bool), (a.astype(np.float32), a, torch.float32)):
        z = ArrayBackend.convert(y, to='torch')
        assert z.dtype == k and np.array_equal(to_np(z), w.astype(y.dtype)), ('conversion keeps the type', z.dtype, k)
    for y, k in ((tints, np.int64), (tb, np.bool_), (t.float(), np.float32), (t, np.float64)):
        z = ArrayBackend.convert(y, to='numpy')
        assert z.dtype == k and np.array_equal(z, y.numpy()), ('conversion keeps the type', z.dtype, k)
    z = ArrayBackend.convert(t.clone().requires_grad_(), to='numpy')
    assert isinstance(z, np.ndarray) and np.array_equal(z, t.numpy())
    z = ArrayBackend.convert(deque(a.tolist()), to='numpy')
    assert isinstance(z, np.ndarray) and np.array_equal(z, a), 'conversion of a deque'


@check.case('elementwise', st.tuples(arrays(), st.integers(-10, 10), st.integers(0, 20), st.integers(0, 3)), quick=500)
def elementwise(x):
    spec, lo, width, dim = x
    a = mk(spec)
    t = torch.tensor(a)
    a0 = a.copy()
    both(lambda: NP.abs(a), lambda: TO.abs(t), np.abs(a), 'abs')
    both(lambda: NP.clip(a, lo, lo + width), lambda: TO.clip(t, lo, lo + width), np.minimum(np.maximum(a, lo), lo + width), 'clip')
    both(lambda: NP.sqrt(np.abs(a)), lambda: TO.sqrt(t.abs()), np.abs(a) ** .5, 'sqrt')
    both(lambda: NP.where(a > lo / 4., a, -a), lambda: TO.where(t > lo / 4., t, -t), np.where(a > lo / 4., a, -a), 'where3')
    for g, w in zip(NP.where(a > 0), np.where(a > 0)):
        assert np.array_equal(g, w)
    for g, w in zip(TO.where(t > 0), np.where(a > 0)):
        assert np.array_equal(to_np(g), w)
    v = np.sort(a.ravel())
    n = len(v)
    med = v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2.
    both(lambda: NP.median(a.ravel()), lambda: TO.median(t.ravel()), med, 'median')
    both(lambda: NP.median(a), lambda: TO.median(t), med, 'median of all entries')
    assert np.allclose(LI.median(a.ravel().tolist()), med)
    assert NP.size(a) == TO.size(t) == n
    assert tuple(NP.shape(a)) == tuple(TO.shape(t)) == a.shape == tuple(LI.shape(a.tolist()))
    both(lambda: NP.expand_dims(a, dim % (a.ndim + 1)), lambda: TO.expand_dims(t, dim % (a.ndim + 1)),
         np.expand_dims(a, dim % (a.ndim + 1)), 'expand_dims')
    both(lambda: NP.squeeze(a), lambda: TO.squeeze(t), a.reshape([k for k in a.shape if k != 1]), 'squeeze')
    d = dim % a.ndim
    if a.shape[d] == 1:
        both(lambda: NP.squeeze(a, d), lambda: TO.squeeze(t, d), np.squeeze(a, axis=d), 'squeeze dim')
    both(lambda: NP.atleast_2d(a), lambda: TO.atleast_2d(t), a if a.ndim >= 2 else a[None], 'atleast_2d')
    for b, y in ((NP, a), (TO, t)):
        c = b.copy(y)
        c[...] = 77.
        assert np.array_equal(to_np(y), a0), 'copy is not independent'
    both(lambda: NP.zeros_like(a), lambda: TO.zeros_like(t), np.zeros(a.shape), 'zeros_like')
    both(lambda: NP.ones_like(a), lambda: TO.ones_like(t), np.ones(a.shape), 'ones_like')
    both(lambda: NP.zeros(*a.shape), lambda: TO.zeros(*a.shape), np.zeros(a.shape), 'zeros')
    both(lambda: NP.ones(*a.shape), lambda: TO.ones(*a.shape), np.ones(a.shape), 'ones')
    both(lambda: NP.full(a.shape, float(lo)), lambda: TO.full(a.shape, float(lo)), np.ones(a.shape) * lo, 'full')
    assert NP.empty(a.shape).shape == tuple(TO.empty(a.shape).shape) == a.shape
    for b in (NP, TO):
        r = to_np(b.randint(lo, lo + width + 1, a.shape))
        assert r.shape == a.shape and r.min() >= lo and r.max() <= lo + width and np.array_equal(r, np.round(r))
        r = to_np(b.randint(lo, lo + 3, (300,)))
        assert set(r.tolist()) == {lo, lo + 1, lo + 2}, ('randint draws every value from low to high - 1', set(r.tolist()))
    both(lambda: NP.arange(lo, lo + width), lambda: TO.arange(lo, lo + width), np.array([lo + k for k in range(width)]), 'arange')
    step = 1 + width % 4
    both(lambda: NP.arange(lo, lo + width, step), lambda: TO.arange(lo, lo + width, step),
         np.array([k for k in range(lo, lo + width, step)]), 'arange with a step')
    low = np.full(a.shape, lo / 4.) + .25 * (np.arange(a.size).reshape(a.shape) % 3)
    both(lambda: NP.clip(a, low, low + width / 4.), lambda: TO.clip(t, torch.tensor(low), torch.tensor(low + width / 4.)),
         np.where(a < low, low, np.where(a > low + width / 4., low + width / 4., a)), 'clip by arrays')
    dtypes(a, t)
    # conversions
    for backend, y in ((NP, a), (TO, t), (LI, a.tolist())):
        assert ArrayBackend.get_array_backend_from(y) is backend
        for target, typ in (('numpy', np.ndarray), ('torch', torch.Tensor)):
            z = ArrayBackend.convert(y, to=target)
            assert isinstance(z, typ) and np.allclose(to_np(z), a0) and to_np(z).shape == a0.shape, ('convert', target)
            z1, z2 = ArrayBackend.convert(y, y, to=target)
            assert np.allclose(to_np(z1), a0) and np.allclose(to_np(z2), a0)
    assert isinstance(NP.convert(t), np.ndarray) and isinstance(TO.convert(a), torch.Tensor)
    assert np.array_equal(a, a0) and np.array_equal(to_np(t), a0), 'an operation changed its argument'
    return 'rank%d' % a.ndim if n > 1 else None


check.case('elementwise, large arrays', st.tuples(large(), st.integers(-300, 300), st.integers(0, 500), st.integers(0, 4)), quick=120)(elementwise)


wide = st.one_of(shapes, st.tuples(*[st.integers(1, 12)] * 2), st.tuples(*[st.integers(1, 4)] * 4))


@check.case('lists', st.tuples(wide, st.one_of(st.integers(1, 5), st.integers(6, 60)), st.integers(0, 2 ** 31 - 1), st.integers(0, 3)),
            quick=400)
def lists(x):
    shape, k, seed, dim = x
    rng = np.random.RandomState(seed)
    arrs = [rng.randint(-40, 40, size=shape) / 4. for _ in range(k)]
    tens = [torch.tensor(a) for a in arrs]
    d = dim % len(shape)
    both(lambda: NP.concatenate(arrs, d), lambda: TO.concatenate(tens, d), np.concatenate(arrs, axis=d), 'concatenate')
    both(lambda: NP.concatenate(arrs), lambda: TO.concatenate(tens), np.concatenate(arrs), 'concatenate')
    both(lambda: NP.from_list(arrs), lambda: TO.from_list(tens), np.stack(arrs), 'from_list')
    sc = [float(a.ravel()[0]) for a in arrs]
    both(lambda: NP.from_list(sc), lambda: TO.from_list(sc), np.array(sc), 'from_list scalars')
    both(lambda: NP.from_list([int(v) for v in sc]), lambda: TO.from_list([int(v) for v in sc]), np.array([int(v) for v in sc]), 'from_list integers')
    both(lambda: NP.from_list([v > 0 for v in sc]), lambda: TO.from_list([v > 0 for v in sc]), np.array([v > 0 for v in sc]), 'from_list flags')
    # pieces of different length along the joined dimension, empty ones included
    cut = [np.take(a, range(rng.randint(0, shape[d] + 1)), axis=d) for a in arrs] + [arrs[0]]
    both(lambda: NP.concatenate(cut, d), lambda: TO.concatenate([torch.tensor(c) for c in cut], d), np.concatenate(cut, axis=d),
         'concatenate pieces of different length')
    conv = ArrayBackend.convert(*arrs, to='torch')
    conv = conv if k > 1 else (conv,)
    back = ArrayBackend.convert(*conv, to='numpy')
    back = back if k > 1 else (back,)
    assert len(conv) == len(back) == k and all(np.array_equal(p, q) for p, q in zip(arrs, back)), 'conversion of several arrays'
    # what a list holds decides the type of the array made of it
    for v, kind in (([int(i) for i in sc], 'i'), (sc, 'f'), ([i > 0 for i in sc], 'b')):
        for got in (LI.to_numpy(v), to_np(LI.to_torch(v))):
            assert got.dtype.kind == kind and np.array_equal(got, v), ('conversion of a list', got.dtype, v[:4])
    return 'k%d' % k if k > 1 else None


@check.case('packing', st.tuples(st.one_of(st.integers(1, 6), st.integers(7, 80)), st.one_of(st.integers(1, 4), st.integers(5, 20)), st.sampled_from([(), (2,), (2, 3), (1,), (3, 1, 2)]),
                                 st.integers(0, 2 ** 31 - 1)), quick=300)
def packing(x):
    """(time, environment, ...) data is flattened environment by environment, in time order, optionally masked."""
    T, E, tail, seed = x
    rng = np.random.RandomState(seed)
    a = rng.randint(-40, 40, size=(T, E) + tail) / 4.
    mask = rng.rand(T, E) < .6
    want = np.array([a[i, e] for e in range(E) for i in range(T)])
    wantm = np.array([a[i, e] for e in range(E) for i in range(T) if mask[i, e]]).reshape((-1,) + tail)
    both(lambda: NP.flatten(a), lambda: TO.flatten(torch.tensor(a)), want, 'flatten')
    both(lambda: NP.pack_padded_sequence(a, mask), lambda: TO.pack_padded_sequence(torch.tensor(a), torch.tensor(mask)),
         wantm, 'pack_padded_sequence')
    assert np.array_equal(LI.pack_padded_sequence(a, mask.tolist()), wantm)
    return 'mask' if mask.any() and not mask.all() else None
