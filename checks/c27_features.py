"""C27 - features: tilings, bases and tensors evaluate their definition, for single points, batches and split inputs."""
import itertools

import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.features import Features
from mushroom_rl.features.features import get_action_features
from mushroom_rl.features.basis import FourierBasis, GaussianRBF, PolynomialBasis
from mushroom_rl.features.tensors import ConstantTensor, GaussianRBFTensor, RandomFourierBasis, VonMisesBFTensor
from mushroom_rl.features.tiles import Tiles, VoronoiTiles
from mushroom_rl.utils.features import uniform_grid
from pbt.harness import Check

check = Check('C27', rule='a case is a feature family with generated ranges, counts, dimensions and points (inside, on and just below '
              'the bounds, outside); values are compared with the formula, and single, batch and split evaluations with each '
              'other; non-trivial when the family has more than one feature')

seeds = st.integers(0, 2 ** 31 - 1)


@st.composite
def ranges(draw, lo_d=1, hi_d=4):
    d = draw(st.integers(lo_d, hi_d))
    low = [draw(st.sampled_from([-200., -3., -1., -.1, 0., .3, 2., 50.])) for _ in range(d)]
    return d, low, [l + draw(st.sampled_from([.1, .3, 1., 2.7, 7., 300.])) for l in low]


def points(r, low, high, n):
    """Points inside, on the bounds, just below the upper bound and outside."""
    low, high = np.array(low), np.array(high)
    out = []
    for _ in range(n):
        p = low + r.rand(len(low)) * (high - low)
        for i in range(len(low)):
            k = r.randint(8)
            if k == 0:
                p[i] = low[i]
            elif k == 1:
                p[i] = np.nextafter(high[i], low[i])
            elif k == 2:
                p[i] = high[i] if r.rand() < .5 else high[i] + .5
            elif k == 3:
                p[i] = low[i] - .5 * r.rand() - 1e-9
        out.append(p)
    return out


def tile_ok(idx, x, rng, n):
    """idx is the tile of x: mixed radix digits, first dimension fastest."""
    inside = all(a <= v < b for v, (a, b) in zip(x, rng))
    if not inside:
        assert idx is None, ('a point outside of the tiling got a tile', x, rng, idx)
        return
    assert idx is not None and 0 <= idx < np.prod(n), ('tile index', idx, x, rng, n)
    for v, (a, b), k in zip(x, rng, n):
        digit, idx = idx % k, idx // k
        w = (b - a) / k
        tol = 1e-9 * max(1., abs(a), abs(b))
        assert a + digit * w - tol <= v <= a + (digit + 1) * w + tol, ('the tile does not contain the point', v, (a, b), k, digit)


@check.case('tiles', st.tuples(ranges(), st.lists(st.sampled_from([1, 2, 3, 4, 5, 9, 17]), min_size=4, max_size=4), st.booleans(), st.booleans(), seeds),
            quick=250)
def tiles(x):
    (d, low, high), n, comps, same, seed = x
    r = np.random.RandomState(seed)
    n = [n[0]] * d if same else n[:d]
    rng = [[a, b] for a, b in zip(low, high)]
    sc = [int(v) for v in r.permutation(d + 1)[:d]] if comps else None
    t = Tiles(rng if d > 1 or r.rand() < .5 else rng[0], n[0] if same else list(n), sc)
    assert t.size == np.prod(n)
    for p in points(r, low, high, 12):
        full = np.array(p)
        if comps:
            full = r.randn(d + 1)
            full[sc] = p
        tile_ok(t(full), p, rng, n)
    return 'tiles%d' % d if np.prod(n) > 1 else None


@check.case('tilings', st.tuples(ranges(), st.lists(st.sampled_from([2, 3, 4, 5, 2, 3, 9, 17]), min_size=4, max_size=4), st.sampled_from([-1, -1, 1, 2, 3, 5, 8, 16]),
                                 st.booleans(), seeds), quick=200)
def tilings(x):
    (d, low, high), n, k, uniform, seed = x
    r = np.random.RandomState(seed)
    n = n[:d] if d < 3 else [min(v, 5) for v in n[:d]]
    if np.prod(n) * abs(k) > 5000:
        k = 3
    ts = Tiles.generate(k, list(n), np.array(low), np.array(high), uniform=uniform)
    if k == -1:
        k = int(max(np.ceil(np.log2(4 * d)), np.ceil(np.log2(max(n)))) ** 2)
    assert len(ts) == k and all(t.size == np.prod(n) for t in ts), 'number and size of the tilings'
    phi = Features(tilings=ts)
    S = int(np.prod(n))
    assert phi.size == k * S
    low, high = np.array(low), np.array(high)
    width = (high - low) / (np.array(n) - (k - 1.) / k)
    rngs = []
    for i in range(k):
        sh = (i * (np.ones(d) if uniform else 2 * np.arange(d) + 1)) % k
        a = low + (-k + 1 + sh) / k * width
        rngs.append([[u, v] for u, v in zip(a, a + width * n)])
    P = [low + r.rand(d) * (high - low) * .999 for _ in range(4)] + [low + 1e-6 * (high - low)]
    rows, idxs = [], []
    for p in P:
        v = phi(p)
        assert v.shape == (k * S,) and set(np.unique(v)) <= {0., 1.} and v.sum() == k, 'one active tile per tiling'
        act = np.flatnonzero(v)
        assert list(phi.compute_indexes(p)) == list(act), 'compute_indexes'
        for i, a in enumerate(act):
            assert i * S <= a < (i + 1) * S, 'offset of the tiling'
            tile_ok(int(a - i * S), p, rngs[i], n)
            assert ts[i](p) == a - i * S
        rows.append(v)
        idxs.append(list(act))
    far = high + width * (max(n) + 1)
    assert not phi(far).any() and list(phi.compute_indexes(far)) == [], 'tiles are active far outside'
    assert np.array_equal(phi(np.array(P)), np.array(rows)) and [list(v) for v in phi.compute_indexes(np.array(P))] == idxs, 'batch'
    # points inside some of the tilings only
    E = [low + (r.rand(d) * 1.6 - .3) * (high - low) + r.choice([-1, 0, 1], size=d) * width for _ in range(5)]
    E = [p for p in E if all(abs(p[j] - b) > 1e-9 * max(1, abs(b)) for rg in rngs for j in range(d) for b in rg[j])]
    for p in E:
        inside = [all(a <= v < b for v, (a, b) in zip(p, rg)) for rg in rngs]
        want = [i * S + ts[i](p) for i in range(k) if inside[i]]
        assert [ts[i](p) is not None for i in range(k)] == inside, 'the tilings that contain the point'
        assert list(phi.compute_indexes(p)) == want and list(np.flatnonzero(phi(p))) == want, ('partly covered point', want)
    if len(E) > 1:
        assert [list(v) for v in phi.compute_indexes(np.array(E))] == [list(np.flatnonzero(phi(p))) for p in E], 'batch of partly covered points'
    if d > 2:
        assert np.array_equal(phi(P[0][:1], P[0][1:2], P[0][2:]), rows[0]), 'input split in three'
        assert np.array_equal(phi(*[P[0][j:j + 1] for j in range(d)]), rows[0]), 'input split in components'
    if d > 1:
        c = r.randint(1, d)
        assert np.array_equal(phi(P[0][:c], P[0][c:]), rows[0]), 'split input'
        B = np.array(P)
        assert np.array_equal(phi(B[:, :c], B[:, c:]), np.array(rows)), 'split batch'
    one = Features(tilings=ts[0])
    assert one.size == S and np.array_equal(one(P[0]), rows[0][:S]), 'a single tiling'
    return 'tilings'


@check.case('voronoi', st.tuples(ranges(), st.integers(1, 7), st.sampled_from([1, 2, 3, 4, 6, 15]), st.booleans(), seeds), quick=100)
def voronoi(x):
    (d, low, high), k, n, gauss, seed = x
    r = np.random.RandomState(seed)
    P = r.randn(n, d)
    t = VoronoiTiles(P.copy())
    assert t.size == n
    for _ in range(5):
        v = r.randn(d)
        dist = ((P - v) ** 2).sum(1)
        assert dist[t(v)] <= dist.min() + 1e-12, 'not the nearest prototype'
    low, high = np.array(low), np.array(high)
    ts = VoronoiTiles.generate(k, n, mu=low, sigma=high - low) if gauss else VoronoiTiles.generate(k, n, low=low, high=high)
    assert len(ts) == k and all(q.size == n for q in ts)
    phi = Features(tilings=ts)
    assert phi.size == k * n
    v = phi(low)
    assert v.sum() == k and np.array_equal(np.flatnonzero(v), [i * n + q(low) for i, q in enumerate(ts)])
    if not gauss and n > 1:
        # prototypes lie in the box: each prototype is its own nearest point, so every tile is non-empty inside of it
        seen = {ts[0](low + r.rand(d) * (high - low)) for _ in range(300)}
        assert len(seen) >= 1 and max(seen) < n
    many = VoronoiTiles.generate(1, 64, **(dict(mu=low, sigma=high - low) if gauss else dict(low=low, high=high)))[0]
    pts = low + (r.randn(400, d) if gauss else r.rand(400, d)) * (high - low)
    assert len({int(many(v)) for v in pts}) >= 12, 'the prototypes are not spread over the space'
    return 'voronoi' if n > 1 else None


def consistent(phi, ref, P, size, tol=1e-6):
    """Single, batch and split evaluation all equal the reference."""
    assert phi.size == size, ('size', phi.size, size)
    R = np.array([ref(p) for p in P])
    P0 = [p.copy() for p in P]
    for p, v in zip(P, R):
        g = phi(p)
        assert isinstance(g, np.ndarray) and g.shape == (size,) and np.allclose(g, v, rtol=1e-4, atol=tol), ('value', g, v)
    g = phi(np.array(P))
    assert isinstance(g, np.ndarray) and g.shape == (len(P), size) and np.allclose(g, R, rtol=1e-4, atol=tol), ('batch', g, R)
    d = len(P[0])
    for c in range(1, d):
        assert np.allclose(np.asarray(phi(P[0][:c], P[0][c:])), R[0], rtol=1e-4, atol=tol), 'split input'
        B = np.array(P)
        assert np.allclose(np.asarray(phi(B[:, :c], B[:, c:])), R, rtol=1e-4, atol=tol), 'split batch'
    assert np.allclose(np.asarray(phi(*[P[0][j:j + 1] for j in range(d)])), R[0], rtol=1e-4, atol=tol), 'input split in components'
    big = np.array([P[i % len(P)] for i in range(41)])
    assert np.allclose(phi(big), R[[i % len(P) for i in range(41)]], rtol=1e-4, atol=tol), 'large batch'
    assert all(np.array_equal(a, b) for a, b in zip(P, P0)), 'the input was changed'


def grid_ref(n, low, high, eta, cyclic):
    axes, w = [], []
    for k, a, b in zip(n, low, high):
        if k == 1:
            axes.append([(a + b) / 2.])
            w.append(abs(b - a) / 2.)
        else:
            e = b - abs(b - a) / k if cyclic else b
            axes.append([a + (e - a) * i / (k - 1.) for i in range(k)])
            w.append((1 + eta) * abs(e - a) / k)
    return [np.array(p[::-1]) for p in itertools.product(*axes[::-1])], np.array(w)


@check.case('rbf', st.tuples(ranges(), st.lists(st.sampled_from([1, 2, 3, 4, 2, 3, 6]), min_size=4, max_size=4), st.sampled_from([.1, .25, .7]),
                             st.booleans(), st.sampled_from(['basis', 'tensor', 'normalized', 'vonmises', 'vm_norm']), seeds), quick=250)
def rbf(x):
    (d, low, high), n, eta, dims, kind, seed = x
    r = np.random.RandomState(seed)
    n = n[:d] if d < 3 else [min(v, 3) for v in n[:d]]
    if np.prod(n) == 1:
        n[0] = 2
    low, high = np.array(low), np.array(high)
    if kind != 'basis':
        low, high = low * np.where(np.abs(low) > 9, .02, 1.), high - low * np.where(np.abs(low) > 9, .98, 0.)   # single precision
    D = d + 1 if dims else d
    sel = [int(v) for v in r.permutation(D)[:d]] if dims else None
    cyc = kind.startswith('v')
    grid, w = grid_ref(n, low, high, eta, cyc)
    g, gw = uniform_grid(n, low, high, eta, cyc)
    assert np.allclose(g, np.array(grid)) and np.allclose(gw, w), ('uniform_grid', g, grid)
    take = (lambda p: p[sel]) if dims else (lambda p: p)
    if kind == 'basis':
        phi = Features(basis_list=GaussianRBF.generate(n, low, high, sel, eta))
    else:
        cls = VonMisesBFTensor if cyc else GaussianRBFTensor
        norm = kind in ('normalized', 'vm_norm')
        phi = Features(tensor_list=cls.generate(n, low, high, sel, eta, normalized=norm))

    def ref(p):
        q = take(p)
        if cyc:
            v = np.array([np.exp((np.cos(2 * np.pi * (q - c)) / w).sum() - (1 / w).sum()) for c in grid])
        else:
            v = np.array([np.exp(-((q - c) ** 2 / (2 * (w / 3) ** 2)).sum()) for c in grid])
        return v / v.sum() if kind in ('normalized', 'vm_norm') else v
    P = []
    for _ in range(3):
        p = r.randn(D)
        q = grid[r.randint(len(grid))] + w * r.uniform(-.4, .4, d)
        if dims:
            p[sel] = q
        else:
            p = q
        P.append(p)
    consistent(phi, ref, P, len(grid), tol=2e-5 if kind != 'basis' else 1e-8)
    return kind


@check.case('polynomial', st.tuples(st.integers(0, 6), st.sampled_from([1, 2, 2, 3, 3, 4]), st.booleans(), seeds), quick=100)
def polynomial(x):
    deg, d, norm, seed = x
    r = np.random.RandomState(seed)
    if deg == 0:
        deg = 1
    if d > 2:
        deg = min(deg, 4 if d == 4 else 5)
    low, high = (np.round(r.randn(d), 1), None) if norm else (None, None)
    if norm:
        high = low + .5 + np.round(r.rand(d), 1)
    basis = PolynomialBasis.generate(deg, d, low, high)
    exps = [e for e in itertools.product(range(deg + 1), repeat=d) if sum(e) <= deg]
    assert len(basis) == len(exps), ('number of monomials', len(basis), len(exps))
    P = [r.randn(d) for _ in range(3)]
    n = (lambda p: (p - (low + high) / 2) / ((high - low) / 2)) if norm else (lambda p: p)
    phi = Features(basis_list=basis)
    # order: constant first, then by degree; identify each basis function by its values on the points
    Q = [r.uniform(.5, 2., d) for _ in range(3)]
    raw = [np.prod(n(q) ** np.array(e)) for q in Q for e in exps]
    table = np.array(raw).reshape(3, len(exps)).T
    got = np.array([[b(q) for q in Q] for b in basis])
    a = sorted(map(tuple, np.round(table, 6)))
    b = sorted(map(tuple, np.round(got, 6)))
    assert np.allclose(a, b, atol=1e-5), 'the basis is not the set of all monomials'
    total = [sum(exps[int(np.argmin(np.abs(table - row).sum(1)))]) for row in got]
    assert total == sorted(total) and total[0] == 0, 'degrees are not in increasing order'
    order = [int(np.argmin(np.abs(table - row).sum(1))) for row in got]
    consistent(phi, lambda p: np.array([np.prod(n(p) ** np.array(exps[o])) for o in order]), P, len(exps))
    k = r.randint(1, d + 1)
    dims, degs = [int(v) for v in r.permutation(d)[:k]], [int(v) for v in r.randint(1, 4, k)]
    one = PolynomialBasis(dims, degs)
    assert np.allclose(one(P[0]), np.prod([P[0][i] ** g for i, g in zip(dims, degs)]))
    return 'polynomial'


@check.case('fourier', st.tuples(ranges(), st.sampled_from([1, 2, 3, 5, 8]), st.booleans(), seeds), quick=80)
def fourier(x):
    (d, low, high), n, dims, seed = x
    n = min(n, 9 // d)
    r = np.random.RandomState(seed)
    low, high = np.array(low), np.array(high)
    D = d + 1 if dims else d
    sel = [int(v) for v in r.permutation(D)[:d]] if dims else None
    phi = Features(basis_list=FourierBasis.generate(low, high, n, sel))
    cs = [np.array(c[::-1]) for c in itertools.product(range(n + 1), repeat=d)]
    P = []
    for _ in range(3):
        p = r.randn(D)
        p[sel if dims else slice(None)] = low + r.rand(d) * (high - low)
        P.append(p)
    consistent(phi, lambda p: np.array([np.cos(np.pi * c @ (((p[sel] if dims else p) - low) / (high - low))) for c in cs]),
               P, (n + 1) ** d)
    return 'fourier'


@check.case('others', st.tuples(st.sampled_from([1, 2, 3, 6]), st.sampled_from([2, 3, 5, 12]), st.booleans(), st.sampled_from([.5, 1., 3.]), seeds), quick=100)
def others(x):
    d, n, bias, nu, seed = x
    r = np.random.RandomState(seed)
    P = [r.randn(d) for _ in range(3)]
    # random Fourier features: given matrix and phase, and the generated family
    M, ph = r.randn(d, n), r.uniform(-np.pi, np.pi, n)
    phi = Features(tensor_list=[RandomFourierBasis(M, ph, nu), ConstantTensor()])
    consistent(phi, lambda p: np.concatenate([np.sin(p @ M / nu + ph), [1.]]), P, n + 1, tol=1e-4)
    gen = Features(tensor_list=RandomFourierBasis.generate(nu, n + 1, d, use_bias=bias))
    assert gen.size == n + 1
    v = gen(np.array(P))
    assert v.shape == (3, n + 1) and np.abs(v).max() <= 1 + 1e-6 and (not bias or np.all(v[:, -1] == 1.))
    # functional features
    f = lambda z: np.stack([z[..., 0] ** 2, np.cos(z[..., -1])], axis=-1)
    consistent(Features(n_outputs=2, function=f), f, P, 2)
    ident = Features(n_outputs=d)
    consistent(ident, lambda p: p, P, d)
    # state-action features
    A = r.randint(n, size=(3, 1))
    S = np.array(P)
    ref = np.zeros((3, n * d))
    for i in range(3):
        ref[i, A[i, 0] * d:(A[i, 0] + 1) * d] = S[i]
        assert np.array_equal(get_action_features(S[i], A[i], n), ref[i]), 'action features'
    assert np.array_equal(get_action_features(S, A, n), ref), 'batch action features'
    return 'others'
