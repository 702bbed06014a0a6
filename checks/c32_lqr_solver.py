"""C32 - LQR solver: gains, value functions and their gradients equal their definitions."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.environments.lqr import LQR
from mushroom_rl.solvers.lqr import (compute_lqr_feedback_gain, compute_lqr_P, compute_lqr_Q, compute_lqr_Q_gaussian_policy,
                                     compute_lqr_Q_gaussian_policy_gradient_K, compute_lqr_V, compute_lqr_V_gaussian_policy,
                                     compute_lqr_V_gaussian_policy_gradient_K)
from pbt.harness import Check

check = Check('C32', rule='a case is a random linear system with quadratic reward, discount, stabilizing gain, covariance and a batch '
              'of states and actions; non-trivial when state or action have at least two dimensions')

u = st.integers(-16, 16).map(lambda v: v / 16)


@st.composite
def systems(draw):
    top = draw(st.sampled_from([3, 3, 3, 6]))
    n, m = draw(st.integers(1, top)), draw(st.integers(1, top))
    mat = lambda a, b: [[draw(u) for _ in range(b)] for _ in range(a)]
    k = draw(st.sampled_from([1, 2, 3, 8]))
    return dict(A=mat(n, n), B=mat(n, m), Q=mat(n, n), R=mat(m, m), K=mat(m, n), S=mat(m, m), s=mat(k, n), a=mat(k, m),
                amp=draw(st.sampled_from([1., 1., 20.])), gamma=draw(st.sampled_from([.1, .5, .9, .99])), flat=draw(st.booleans()), sym=draw(st.booleans()))


def rho(m):
    return np.abs(np.linalg.eigvals(m)).max()


class System(object):
    def __init__(self, x, positive=False):
        self.A, self.B, self.K = (np.array(x[k]) for k in 'ABK')
        g = self.g = x['gamma']
        Q, R, S = (np.array(x[k]) for k in 'QRS')
        self.Q = Q @ Q.T + .1 * np.eye(len(Q)) if x['sym'] or positive else Q + np.eye(len(Q))
        self.R = R @ R.T + .1 * np.eye(len(R)) if x['sym'] or positive else R + np.eye(len(R))
        self.S = S @ S.T
        c = np.sqrt(g) * (self.A - self.B @ self.K)
        if rho(c) > .9:
            f = .9 / rho(c)
            self.A, self.B = self.A * f, self.B * f
        self.s, self.a = x['amp'] * np.array(x['s']), x['amp'] * np.array(x['a'])
        self.env = LQR(self.A, self.B, self.Q, self.R, gamma=g, horizon=10)
        self.label = 'dims' if len(self.A) > 1 or self.B.shape[1] > 1 else None

    def r(self, s, a):
        return -(s @ self.Q @ s + a @ self.R @ a)

    def V(self, s, K=None, S=None):
        """Expected discounted return of a ~ N(-Ks, S), by propagating the second moment of the state."""
        K = self.K if K is None else K
        S = np.zeros_like(self.S) if S is None else S
        X = np.outer(s, s)
        C = self.A - self.B @ K
        W = self.Q + K.T @ self.R @ K
        tot, d = 0., 1.
        for _ in range(60):
            tot -= d * (np.sum(W * X) + np.sum(self.R * S))
            X = C @ X @ C.T + self.B @ S @ self.B.T
            d *= self.g
            if d * (1 + np.abs(X).max()) < 1e-13:
                return tot
        # the tail: stationary moment of the noise, geometric weights
        n = len(s)
        M = np.eye(n * n) - self.g * np.kron(C, C)
        b = (X + self.g / (1 - self.g) * self.B @ S @ self.B.T).ravel()
        Y = np.linalg.solve(M, b).reshape(n, n)
        return tot - d * (np.sum(W * Y) + np.sum(self.R * S) / (1 - self.g))


def batch(x, v):
    return v[0] if x['flat'] and len(v) == 1 else v


def same(got, want, what, tol=1e-6):
    got = np.asarray(got)
    want = np.array(want).reshape(-1, 1)
    assert got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol * (1 + np.abs(want).max())), (what, got, want)


@check.case('values', systems(), quick=350)
def values(x):
    y = System(x)
    keep = [m.copy() for m in (y.A, y.B, y.Q, y.R, y.K)]
    P = compute_lqr_P(y.env, y.K)
    same(np.array([s @ P @ s for s in y.s]).reshape(-1, 1), [-y.V(s) for s in y.s], 'P')
    same(compute_lqr_V(batch(x, y.s), y.env, y.K), [y.V(s) for s in y.s], 'V')
    same(compute_lqr_V_gaussian_policy(batch(x, y.s), y.env, y.K, y.S), [y.V(s, S=y.S) for s in y.s], 'V of a gaussian policy')
    q = [y.r(s, a) + y.g * y.V(y.A @ s + y.B @ a) for s, a in zip(y.s, y.a)]
    same(compute_lqr_Q(batch(x, y.s), batch(x, y.a), y.env, y.K), q, 'Q')
    q = [y.r(s, a) + y.g * y.V(y.A @ s + y.B @ a, S=y.S) for s, a in zip(y.s, y.a)]
    same(compute_lqr_Q_gaussian_policy(batch(x, y.s), batch(x, y.a), y.env, y.K, y.S), q, 'Q of a gaussian policy')
    assert all(np.array_equal(a, b) for a, b in zip(keep, (y.A, y.B, y.Q, y.R, y.K))), 'inputs were changed'
    return y.label


@check.case('simulation', systems(), quick=120)
def simulation(x):
    y = System(x)
    for s in y.s:
        y.env.reset(s.copy())
        tot, d, cur = 0., 1., s
        for _ in range(250):
            cur, r, _, _ = y.env.step(-y.K @ cur)
            tot += d * r
            d *= y.g
        same(compute_lqr_V(s, y.env, y.K), [tot], 'return in the environment', 1e-5)
    return y.label


@check.case('gradients', systems(), quick=250)
def gradients(x):
    y = System(x)
    h = 1e-5

    def diff(f):
        out = []
        for i in range(y.K.size):
            d = np.zeros(y.K.size)
            d[i] = h
            d = d.reshape(y.K.shape)
            out.append((f(y.K + d) - f(y.K - d)) / (2 * h))
        return np.array(out)
    got = compute_lqr_V_gaussian_policy_gradient_K(batch(x, y.s), y.env, y.K, y.S)
    want = np.array([diff(lambda K: y.V(s, K, y.S)) for s in y.s])
    assert got.shape == want.shape and np.allclose(got, want, rtol=1e-3, atol=1e-3 * (1 + np.abs(want).max())), ('dV', got, want)
    got = compute_lqr_Q_gaussian_policy_gradient_K(batch(x, y.s), batch(x, y.a), y.env, y.K, y.S)
    want = np.array([diff(lambda K: y.g * y.V(y.A @ s + y.B @ a, K, y.S)) for s, a in zip(y.s, y.a)])
    assert got.shape == want.shape and np.allclose(got, want, rtol=1e-3, atol=1e-3 * (1 + np.abs(want).max())), ('dQ', got, want)
    return y.label


@check.case('optimal_gain', systems(), quick=200)
def optimal_gain(x):
    y = System(x, positive=True)
    K = compute_lqr_feedback_gain(y.env, max_iterations=600)
    g = y.g
    # reference: value iteration on the Riccati equation in another form
    P = np.zeros_like(y.Q)
    for _ in range(900):
        P = y.Q + g * y.A.T @ P @ y.A - g * g * y.A.T @ P @ y.B @ np.linalg.solve(y.R + g * y.B.T @ P @ y.B, y.B.T @ P @ y.A)
    want = g * np.linalg.solve(y.R + g * y.B.T @ P @ y.B, y.B.T @ P @ y.A)
    assert K.shape == want.shape and np.allclose(K, want, rtol=1e-5, atol=1e-6), (K, want)
    for s in y.s:
        v = compute_lqr_V(s, y.env, K)[0, 0]
        assert v >= y.V(s) - 1e-6 * (1 + abs(v)), ('a given gain does better than the optimal one', v, y.V(s))
        same(np.reshape(-s @ P @ s, (1, 1)), [v], 'optimal value', 1e-5)
    return y.label

