"""C25 - linear and CMAC regressors: predictions, fits, derivatives and weights, for all regressor kinds and ensembles."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import CMAC, LinearApproximator
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.features.tiles import Tiles
from pbt.harness import Check

check = Check('C25', rule='a case is a regressor (generic, Q- or action-regressor; plain or ensemble; linear with optional features, or '
              'CMAC), its dimensions and a history of fits, predictions and weight changes compared with matrix formulas '
              'on arrays kept here; non-trivial when at least one fit or weight change happened')

seeds = st.integers(0, 2 ** 31 - 1)
dims = st.sampled_from([1, 2, 3, 4, 5, 7])
amps = st.sampled_from([1., 1., .05, 20.])


class Gen(np.random.RandomState):
    """Normal draws of the given scale."""
    def __init__(self, seed, c):
        super().__init__(seed)
        self.c = c

    def randn(self, *a):
        return self.c * super().randn(*a)


def near(a, b):
    b = np.asarray(b)
    return np.allclose(a, b, rtol=1e-6, atol=1e-7 * max(1., np.abs(b).max(initial=0.)))


def feats(n, poly):
    if not poly:
        return None, n, lambda X: np.atleast_2d(X)
    phi = Features(basis_list=PolynomialBasis().generate(1, n))
    return phi, n + 1, lambda X: np.hstack([np.ones((len(np.atleast_2d(X)), 1)), np.atleast_2d(X)])


def jac(f, w):
    """Numerical derivative of the outputs of f(w), one column per output."""
    cols = []
    for i in range(len(w)):
        h = np.zeros(len(w))
        h[i] = 1e-4
        cols.append((np.ravel(f(w + h)) - np.ravel(f(w - h))) / 2e-4)
    return np.array(cols)


@check.case('generic', st.tuples(dims, dims, st.booleans(), seeds, st.lists(
    st.sampled_from(['fit', 'set', 'fit1', 'big']), min_size=1, max_size=8), amps), quick=250)
def generic(x):
    n, o, poly, seed, ops, c = x
    r = Gen(seed, c)
    phi, k, F = feats(n, poly)
    kw = dict(phi=phi) if phi else {}
    W = np.zeros((o, k))
    if seed % 3 == 0:
        W = r.randn(o, k)
        w0 = (W.ravel() if seed % 2 else W).copy()
        kw['weights'] = w0
    reg = Regressor(LinearApproximator, input_shape=(k,), output_shape=(o,), **kw)
    assert reg.weights_size == o * k and reg.input_shape == (k,) and reg.output_shape == (o,) and len(reg) == 1
    assert np.array_equal(reg.get_weights(), W.ravel()), 'initial weights'
    X = r.randn(3, n)
    assert reg.predict(X).shape == (3, o) and np.allclose(reg.predict(X), F(X) @ W.T), 'initial prediction'
    for op in ops:
        if op == 'set':
            W = r.randn(o, k)
            v = W.ravel().copy()
            reg.set_weights(v)
            assert np.array_equal(v, W.ravel())
        else:
            N = 1 if op == 'fit1' else r.randint(k, 3 * k + 3) if op == 'fit' else r.randint(40, 150)
            X, Y = r.randn(N, n), r.randn(N, o)
            X0, Y0 = X.copy(), Y.copy()
            reg.fit(X, Y)
            W = (np.linalg.pinv(F(X)) @ Y).T
            assert np.array_equal(X, X0) and np.array_equal(Y, Y0), 'fit changed its data'
        got = reg.get_weights()
        assert got.shape == (o * k,) and near(got, W.ravel()), ('weights', got, W)
        got[:] = 99.
        assert near(reg.get_weights(), W.ravel()), 'changing the returned weights changed the model'
        B = [4, 2, 1, 3, 33, 70][r.randint(6)] + 1
        X = r.randn(B, n)
        ref = F(X) @ W.T
        assert near(reg.predict(X), ref) and reg.predict(X).shape == (B, o) and near(reg(X), ref), 'batch'
        if not poly:
            one = reg.predict(X[1])
            assert one.shape == (o,) and near(one, ref[1]), ('single', one, ref[1])
        one = reg.predict(X[1:2])
        assert one.shape == (1, o) and near(one, ref[1:2])
        d = np.asarray(reg.diff(X[0]))
        J = jac(lambda w: F(X[:1]) @ w.reshape(o, k).T, W.ravel())
        assert np.allclose(d.reshape(o * k, -1), J, rtol=1e-5, atol=1e-6 * max(1, c)), ('diff', d, J)
    return ','.join(sorted(set(ops)))


@check.case('actions', st.tuples(st.booleans(), dims, st.sampled_from([2, 3, 4, 6, 9]), seeds, st.lists(
    st.sampled_from(['fit', 'set', 'fit1', 'big']), min_size=1, max_size=8), amps), quick=250)
def actions(x):
    q, n, A, seed, ops, c = x
    r = Gen(seed, c)
    reg = Regressor(LinearApproximator, input_shape=(n,), output_shape=(A,) if q else (1,), n_actions=A)
    W = np.zeros((A, n))
    assert reg.weights_size == A * n
    for op in ops:
        if op == 'set' or q:
            W = r.randn(A, n)
            reg.set_weights(W.ravel().copy())
        else:
            N = 1 if op == 'fit1' else r.randint(2, 12) if op == 'fit' else r.randint(40, 150)
            X, a, y = r.randn(N, n), r.randint(A, size=(N, 1)), r.randn(N)
            X0, a0, y0 = X.copy(), a.copy(), y.copy()
            reg.fit(X, a, y)
            assert np.array_equal(X, X0) and np.array_equal(a, a0) and np.array_equal(y, y0), 'fit changed its data'
            for i in range(A):
                m = a[:, 0] == i
                if m.any():
                    W[i] = np.linalg.pinv(X[m]) @ y[m]
        assert near(reg.get_weights(), W.ravel()), ('weights', reg.get_weights(), W)
        B = r.randint(1, 6) if r.rand() < .7 else r.randint(30, 90)
        X, a = r.randn(B, n), r.randint(A, size=(B, 1))
        Q = X @ W.T
        assert reg.predict(X).shape == (B, A) and near(reg.predict(X), Q), 'all values'
        got = reg.predict(X, a)
        assert near(np.ravel(got), Q[np.arange(B), a[:, 0]]) and np.size(got) == B, ('values of the actions', got)
        one = reg.predict(X[0])
        assert one.shape == (A,) and near(one, Q[0]), 'single state'
        got = reg.predict(X[0], a[0])
        assert np.size(got) == 1 and near(got, Q[0, a[0, 0]]), ('single state-action', got)
        d = reg.diff(X[0], a[0])
        ref = np.zeros((A, n))
        ref[a[0, 0]] = X[0]
        assert np.allclose(np.ravel(d), ref.ravel()), ('diff', d, ref)
        if q:
            d = np.asarray(reg.diff(X[0]))
            J = jac(lambda w: X[:1] @ w.reshape(A, n).T, W.ravel())
            assert np.allclose(d.reshape(A * n, -1), J, rtol=1e-5, atol=1e-6 * max(1, c)), ('diff of all the values', d, J)
    return ('q' if q else 'action') + ':' + ','.join(sorted(set(ops)))


@check.case('ensemble', st.tuples(st.sampled_from(['generic', 'q', 'action']), st.integers(1, 7), dims,
                                  st.sampled_from(['mean', 'sum', 'min', 'max']), seeds, st.sampled_from([2, 3, 5, 8]), amps), quick=200)
def ensemble(x):
    kind, M, n, pred, seed, A, c = x
    r = Gen(seed, c)
    kw = dict(generic=dict(output_shape=(2,)), q=dict(output_shape=(A,), n_actions=A), action=dict(output_shape=(1,), n_actions=A))[kind]
    reg = Regressor(LinearApproximator, input_shape=(n,), n_models=M, prediction=pred, **kw)
    assert len(reg) == M
    o = dict(generic=2, q=A, action=A)[kind]
    W = np.zeros((M, o, n))
    for step in range(3 + seed % 3):
        if kind == 'q':
            for m in range(M):
                W[m] = r.randn(o, n)
                reg[m].set_weights(W[m].ravel().copy())
        else:
            idx = None if step == 0 else r.randint(M)
            N = r.randint(2, 9) if r.rand() < .7 else r.randint(30, 80)
            X = r.randn(N, n)
            a, Y = r.randint(A, size=(N, 1)), r.randn(N, 2)
            f = {} if idx is None else dict(idx=int(idx))
            if kind == 'generic':
                reg.fit(X, Y, **f)
            else:
                reg.fit(X, a, Y[:, 0], **f)
            for m in range(M) if idx is None else [idx]:
                if kind == 'generic':
                    W[m] = (np.linalg.pinv(X) @ Y).T
                else:
                    for i in range(A):
                        s = a[:, 0] == i
                        if s.any():
                            W[m, i] = np.linalg.pinv(X[s]) @ Y[s, 0]
        B = r.randint(2, 6) if r.rand() < .8 else r.randint(30, 60)
        X = r.randn(B, n)
        P = np.array([X @ w.T for w in W])
        for p in (None, 'mean', 'sum', 'min', 'max'):
            ref = getattr(P, p or pred)(0)
            got = reg.predict(X, **({} if p is None else dict(prediction=p)))
            assert got.shape == ref.shape and near(got, ref), (p, got, ref)
            got = reg(X, **({} if p is None else dict(prediction=p)))
            assert got.shape == ref.shape and near(got, ref), ('call', p, got, ref)
        if kind != 'action':
            v = reg.predict(X, compute_variance=True) if kind == 'generic' else None
            if v is not None:
                assert near(v[0], getattr(P, pred)(0)) and near(v[1], P.var(0)), 'variance'
        m = r.randint(M)
        assert near(reg.predict(X, idx=int(m)), P[m]), 'single member'
        if kind != 'generic':
            a = r.randint(A, size=(B, 1))
            got = reg.predict(X, a)
            # each action value is combined over the members
            assert near(np.ravel(got), getattr(P, pred)(0)[np.arange(B), a[:, 0]]), ('action values', got)
            got = reg.predict(X, a, idx=int(m))
            assert near(np.ravel(got), P[m][np.arange(B), a[:, 0]])
        sub = [int(i) for i in r.permutation(M)[:r.randint(1, M + 1)]]
        assert near(reg.predict(X, idx=sub), getattr(P[sub], pred)(0)), 'subset of members'
        if kind == 'generic':
            v = reg.predict(X, idx=sub, compute_variance=True)
            assert near(v[0], getattr(P[sub], pred)(0)) and near(v[1], P[sub].var(0)), 'variance of a subset'
    return kind if M > 1 else None


@check.case('cmac', st.tuples(st.integers(1, 3), st.sampled_from([1, 2, 3, 5]), st.sampled_from([1, 2, 3, 4, 8]), st.sampled_from([1., .5, .1, None]), seeds, st.lists(
    st.sampled_from(['fit', 'fit1', 'set', 'outside', 'big', 'one', 'same']), min_size=1, max_size=8), amps,
    st.lists(st.sampled_from([1, 2, 3, 5]), min_size=3, max_size=3)), quick=200)
def cmac(x):
    n, o, nt, alpha, seed, ops, c, tiles = x
    r = Gen(seed, c)
    tl = Tiles.generate(nt, tiles[:n], np.zeros(n), np.ones(n))
    reg = Regressor(CMAC, tilings=tl, input_shape=(n,), output_shape=(o,))
    k = sum(t.size for t in tl)
    assert reg.weights_size == o * k

    def F(X):
        out = np.zeros((len(X), k))
        for i, s in enumerate(X):
            off = 0
            for t in tl:
                j = t(s)
                if j is not None:
                    out[i, off + j] = 1.
                off += t.size
        return out
    W = np.zeros((o, k))
    for op in ops:
        if op == 'set':
            W = r.randn(o, k)
            v = W.ravel().copy()
            reg.set_weights(v)
            reg.fit(r.rand(2, n), r.randn(2, o) if o > 1 else r.randn(2))
            assert np.array_equal(v, W.ravel()), 'fitting changed the vector given to set_weights'
            reg.set_weights(v)
        else:
            N = 1 if op in ('fit1', 'one') else r.randint(40, 90) if op == 'big' else r.randint(2, 10)
            X, Y = r.rand(N, n), r.randn(N, o)
            if op == 'same':
                X[:] = X[0]
            if op == 'outside':
                X[0] = 7.
            P = F(X)
            delta = Y - P @ W.T
            hits, act = P.sum(0), np.maximum(P.sum(1), 1)
            W = W + (1. if alpha is None else alpha) * (delta.T @ (P / act[:, None])) / np.where(hits == 0, 1, hits)
            y = Y if o > 1 else Y[:, 0]
            X0, Y0 = X.copy(), Y.copy()
            kw = {} if alpha is None else dict(alpha=alpha)
            if op == 'one':
                reg.fit(X[0], Y[0], **kw)
            else:
                reg.fit(X, y, **kw)
            assert np.array_equal(X, X0) and np.array_equal(Y, Y0), 'fit changed its data'
        assert near(reg.get_weights(), W.ravel()), ('weights', op)
        X = r.rand(4 if r.rand() < .7 else r.randint(3, 60), n) * 1.2
        ref = F(X) @ W.T
        got = reg.predict(X)
        assert near(got, ref if o > 1 else ref[:, 0]), ('prediction', got, ref)
        assert near(np.ravel(reg.predict(X[2])), ref[2]) and np.size(reg.predict(X[2])) == o, 'single state'
        d = np.asarray(reg.diff(X[1]))
        J = jac(lambda w: F(X[1:2]) @ w.reshape(o, k).T, W.ravel())
        assert np.allclose(d.reshape(o * k, -1), J, rtol=1e-5, atol=1e-6 * max(1, c)), 'diff'
    return ','.join(sorted(set(ops)))


class Recorder:
    """A user's approximator that only records how it is used."""
    made = []

    def __init__(self, input_shape=None, output_shape=None, tag=None):
        self.calls, self.tag, self.n = [], tag, output_shape[0]
        Recorder.made.append(self)

    def fit(self, *z, **kw):
        self.calls.append(('fit', [np.array(i) for i in z], kw))

    def predict(self, *z, **kw):
        self.calls.append(('predict', [np.array(i) for i in z], kw))
        return np.tile(z[0].sum(axis=1, keepdims=True), (1, self.n)) * (1 + Recorder.made.index(self)) + np.arange(self.n)

    def reset(self):
        self.calls.append(('reset', [], {}))


@check.case('user approximator', st.tuples(st.sampled_from(['generic', 'q', 'action']), st.sampled_from([None, None, 1, 2, 4]), dims, st.sampled_from([2, 3, 6]),
                                           seeds, st.lists(st.sampled_from(['fit', 'fit1', 'fitidx', 'predict', 'one', 'reset']), min_size=1, max_size=8)), quick=200)
def user(x):
    """Fits and resets reach exactly the concerned approximators once, with their rows and parameters; predictions combine them."""
    kind, M, n, A, seed, ops = x
    r = np.random.RandomState(seed)
    Recorder.made = made = []
    kw = dict(generic=dict(output_shape=(A,)), q=dict(output_shape=(A,), n_actions=A), action=dict(n_actions=A) if seed % 2 else dict(n_actions=A, output_shape=(1,)))[kind]
    if M is not None:
        kw['n_models'] = M
    reg = Regressor(Recorder, input_shape=(n,), tag='t', **kw)
    per = M or 1
    assert len(made) == per * (A if kind == 'action' else 1) and all(m.tag == 't' for m in made)
    assert len(reg) == per and reg.output_shape == ((1,) if kind == 'action' else (A,)), reg.output_shape
    group = lambda i: range(i * per, (i + 1) * per)
    for op in ops:
        for m in made:
            m.calls = []
        want = [[] for _ in made]
        B = 1 if op in ('fit1', 'one') else r.randint(2, 7)
        X, a, y = r.randn(B, n), r.randint(A, size=(B, 1)), r.randn(B) if kind != 'generic' else r.randn(B, A)
        extra = dict(zeta=int(seed % 7), quiet=True) if r.rand() < .5 else {}
        if op == 'reset':
            reg.reset()
            want = [[('reset', [], {})] for _ in made]
        elif op.startswith('fit'):
            z = (X, y) if kind == 'generic' else (X, a, y)
            idx = int(r.randint(per)) if op == 'fitidx' and M else None
            f = dict(extra, **({} if idx is None else dict(idx=idx)))
            reg.fit(*([i[0] for i in z] if op == 'fit1' else z), **f)
            for g in range(A if kind == 'action' else 1):
                sel = a[:, 0] == g if kind == 'action' else np.ones(B, bool)
                rows = [X[sel], y[sel]] if kind != 'q' else [X, a, y]
                for k, m in enumerate(group(g)):
                    if sel.any() and idx in (None, k):
                        want[m].append(('fit', rows, extra))
        else:
            with_a = kind != 'generic' and bool(r.randint(2))
            single = op == 'one'
            z = [X[0] if single else X] + ([a[0] if single else a] if with_a else [])
            got = np.asarray(reg.predict(*z, **extra))
            base = X.sum(1)
            table = np.empty((B, A))
            for j in range(A):
                ids = list(group(j)) if kind == 'action' else list(group(0))
                table[:, j] = np.mean([base * (1 + m) for m in ids], axis=0) + (0 if kind == 'action' else j)
            ref = table[np.arange(B), a[:, 0]] if with_a else table
            ref = ref[0] if single else ref
            assert got.shape == ref.shape and np.allclose(got, ref), (got, ref)
            assert all(c[0] == 'predict' and c[2] == extra for m in made for c in m.calls), ('parameters of the prediction', extra)
            continue
        for m, w in zip(made, want):
            assert len(m.calls) == len(w), (op, m.calls, w)
            for (n1, z1, k1), (n2, z2, k2) in zip(m.calls, w):
                assert n1 == n2 and k1 == k2 and len(z1) == len(z2), (op, n1, k1, k2)
                assert all(i.shape == j.shape and np.array_equal(i, j) for i, j in zip(z1, z2)), (op, z1, z2)
    return kind + (':ensemble' if M else '')
