"""C22 - parametric policies: densities, draws, log-gradients and weights follow the definition of the policy."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, TorchApproximator
from mushroom_rl.approximators.parametric.networks import LinearNetwork
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.policy import (ClippedGaussianPolicy, DeterministicPolicy, DiagonalGaussianPolicy, GaussianPolicy,
                                OrnsteinUhlenbeckPolicy, StateLogStdGaussianPolicy, StateStdGaussianPolicy)
from pbt.harness import Check
from pbt.stat import standard_normal

check = Check('C22', rule='a case is a policy class, state and action dimensions (1-3), optional polynomial features, random weights '
              'and a history of weight/covariance changes and draws; densities and log-gradients are compared with formulas and '
              'central differences written out here, draws with the distribution; non-trivial when the action depends on the state')

seeds = st.integers(0, 2 ** 31 - 1)
dims = st.sampled_from([1, 2, 3, 3, 4, 6])


def spd(r, n):
    A = r.randn(n, n)
    return A @ A.T + .3 * np.eye(n)


def logpdf(x, mu, S):
    d = x - mu
    return -.5 * d @ np.linalg.solve(S, d) - .5 * np.linalg.slogdet(2 * np.pi * S)[1]


def regressor(n_s, n_a, poly):
    if poly:
        phi = Features(basis_list=PolynomialBasis().generate(1, n_s))
        return Regressor(LinearApproximator, input_shape=(n_s + 1,), output_shape=(n_a,), phi=phi), n_s + 1, \
            lambda s: np.concatenate([[1.], s])
    return Regressor(LinearApproximator, input_shape=(n_s,), output_shape=(n_a,)), n_s, lambda s: s


def moments(kind, w, n_a, n_phi, f, extra):
    k = n_a * n_phi
    mu = w[:k].reshape(n_a, n_phi) @ f
    if kind == 'fixed':
        return mu, extra
    if kind == 'diag':
        return mu, np.diag(w[k:] ** 2)
    v = w[k:].reshape(n_a, n_phi) @ f
    if kind == 'std':
        return mu, np.diag(v ** 2 + extra)
    return mu, np.diag(np.exp(2 * v))


def samples_ok(X, mu, S, what):
    standard_normal(np.linalg.solve(np.linalg.cholesky(S), (X - mu).T).T, what)


@check.case('gaussian', st.tuples(st.sampled_from(['fixed', 'diag', 'std', 'logstd']), dims, dims,
                                 st.booleans(), seeds, st.lists(st.sampled_from(['weights', 'sigma', 'draw']), max_size=6), st.sampled_from([1., 1., .2, 5.])),
            quick=350)
def gaussian(x):
    kind, n_s, n_a, poly, seed, ops, amp = x
    r = np.random.RandomState(seed)
    mu, n_phi, f = regressor(n_s, n_a, poly)
    extra = None
    if kind == 'fixed':
        extra = spd(r, n_a)
        pi = GaussianPolicy(mu, extra.copy())
        w = np.zeros(n_a * n_phi)
    elif kind == 'diag':
        std = r.rand(n_a) + .3
        pi = DiagonalGaussianPolicy(mu, std.copy())
        w = np.concatenate([np.zeros(n_a * n_phi), std])
    elif kind == 'std':
        extra = r.choice([1e-6, .1])
        pi = StateStdGaussianPolicy(mu, regressor(n_s, n_a, poly)[0], eps=extra)
        w = np.zeros(2 * n_a * n_phi)
    else:
        pi = StateLogStdGaussianPolicy(mu, regressor(n_s, n_a, poly)[0])
        w = np.zeros(2 * n_a * n_phi)
    assert not pi.is_stateful
    assert pi.weights_size == len(w) and np.array_equal(np.ravel(pi.get_weights()), w), 'initial weights'
    for op in ['weights'] + ops:
        if op == 'weights':
            w = r.randn(len(w)) * amp
            if kind == 'diag':
                w[-n_a:] = (np.abs(w[-n_a:]) + r.choice([.01, .3])) * r.choice([-1, 1], size=n_a)   # the variance is its square
            elif kind == 'std':
                w[len(w) // 2:] += np.sign(w[len(w) // 2:]) * .3
            elif kind == 'logstd' and amp > 1:
                w[len(w) // 2:] /= 2 * amp
            given = w.copy()
            pi.set_weights(given)
            assert np.array_equal(given, w), 'set_weights changed its argument'
        elif op == 'sigma' and kind == 'fixed':
            extra = spd(r, n_a) * amp ** 2
            pi.set_sigma(extra.copy())
        elif op == 'sigma' and kind == 'diag':
            w = w.copy()
            w[-n_a:] = (r.rand(n_a) + .3) * amp
            pi.set_std(w[-n_a:].copy())
        assert np.allclose(np.ravel(pi.get_weights()), w), 'weights'
        for _ in range(2):
            s = r.randn(n_s) * r.choice([1., 1., 4.])
            if kind == 'std' and np.any(np.abs(w[n_a * n_phi:].reshape(n_a, n_phi) @ f(s)) < .05):
                continue
            m, S = moments(kind, w, n_a, n_phi, f(s), extra)
            if kind == 'logstd' and np.any(np.abs(np.log(np.diag(S))) > 14) or np.linalg.cond(S) > 1e7:
                continue
            if op == 'draw':
                X = np.array([pi.draw_action(s)[0] for _ in range(300)])
                assert X.shape == (300, n_a), X.shape
                samples_ok(X, m, S, kind)
            s0 = s.copy()
            a = m + np.linalg.cholesky(S) @ r.randn(n_a) * r.choice([1., 1., 3.])
            lp = logpdf(a, m, S)
            assert np.allclose(pi(s, a), np.exp(lp), rtol=1e-5, atol=1e-9 * min(1., np.exp(-.5 * np.linalg.slogdet(2 * np.pi * S)[1]))), ('density', pi(s, a), np.exp(lp))
            g = np.zeros(len(w))
            for i in range(len(w)):
                h = 1e-5 * (min(1., abs(w[i])) if kind == 'diag' and i >= n_a * n_phi else 1.)
                hi, lo = w.copy(), w.copy()
                hi[i] += h
                lo[i] -= h
                g[i] = (logpdf(a, *moments(kind, hi, n_a, n_phi, f(s), extra))
                        - logpdf(a, *moments(kind, lo, n_a, n_phi, f(s), extra))) / (2 * h)
            got = pi.diff_log(s, a)
            tol = 1e-4 * (1 + np.abs(g).max())
            assert got.shape == g.shape and np.allclose(got, g, rtol=1e-3, atol=tol), ('diff_log', got, g)
            assert np.allclose(pi.diff(s, a), np.exp(lp) * g, rtol=1e-3, atol=tol * np.exp(lp)), 'diff'
            assert np.array_equal(s, s0) and np.allclose(np.ravel(pi.get_weights()), w), 'evaluating changed the policy'
    return kind + ('+phi' if poly else '')


@check.case('deterministic', st.tuples(dims, dims, st.booleans(), seeds), quick=100)
def deterministic(x):
    n_s, n_a, poly, seed = x
    r = np.random.RandomState(seed)
    mu, n_phi, f = regressor(n_s, n_a, poly)
    pi = DeterministicPolicy(mu)
    for _ in range(3):
        w = r.randn(n_a * n_phi)
        pi.set_weights(w.copy())
        assert pi.weights_size == len(w) and np.array_equal(pi.get_weights(), w) and pi.get_regressor() is mu
        s = r.randn(n_s)
        a, ps = pi.draw_action(s)
        ref = w.reshape(n_a, n_phi) @ f(s)
        assert ps is None and a.shape == (n_a,) and np.allclose(a, ref), ('action', a, ref)
        assert pi(s, a) == 1. and pi(s, a + .5) == 0.
        for i in range(n_a):
            b = a.copy()
            for d in (.25, -7., 1e-3, -1e-6):
                b[i] = a[i] + d
                assert pi(s, b) == 0., 'another action has probability one'
    return 'deterministic'


def torch_regressor(n_s, n_a, r):
    mu = Regressor(TorchApproximator, network=LinearNetwork, input_shape=(n_s,), output_shape=(n_a,))
    return mu


def tmean(w, n_s, n_a, s):
    return w.reshape(n_a, n_s) @ s


@check.case('ou', st.tuples(dims, dims, st.sampled_from([None, 'x0']), st.sampled_from([.05, .15, .5, 1.5]),
                            st.sampled_from([.01, .25, 1., 4.]), seeds), quick=80)
def ou(x):
    n_s, n_a, x0, theta, dt, seed = x
    r = np.random.RandomState(seed)
    T = lambda a: torch.tensor(a, dtype=torch.float32)
    mu = torch_regressor(n_s, n_a, r)
    sigma = (r.rand() + .1) * r.choice([1., 1., 8.])
    if theta * dt > 1.5:
        theta = .1
    start = r.randn(n_a) if x0 else np.zeros(n_a)
    pi = OrnsteinUhlenbeckPolicy(mu, sigma=T([sigma]), theta=theta, dt=dt, x0=T(start) if x0 else None)
    w = r.randn(pi.weights_size)
    pi.set_weights(T(w))
    assert np.allclose(pi.get_weights().numpy(), w, atol=1e-6)
    assert pi.is_stateful and tuple(pi.policy_state_shape) == (n_a,)
    noise = []
    for ep in range(3):
        z = pi.reset()
        assert np.allclose(z.numpy(), start, atol=1e-6), ('the noise does not start from x0', z, start)
        for t in range(80 if ep < 2 else 250):
            s = T(r.randn(n_s))
            prev = z.clone()
            a, nz = pi.draw_action(s, z)
            assert torch.equal(z, prev), 'the policy state given was changed'
            assert np.allclose((a - nz).numpy(), tmean(w, n_s, n_a, s.numpy()), atol=1e-4 * (1 + sigma)), 'action is not mean plus noise'
            noise.append((nz - prev * (1 - theta * dt)).numpy() / (sigma * np.sqrt(dt)))
            z = nz
    N = np.array(noise)
    samples_ok(N, np.zeros(n_a), np.eye(n_a), 'noise')
    return 'ou'


@check.case('clipped', st.tuples(dims, dims, seeds, st.sampled_from(['tight', 'wide', 'shifted'])), quick=100)
def clipped(x):
    n_s, n_a, seed, span = x
    r = np.random.RandomState(seed)
    T = lambda a: torch.tensor(a, dtype=torch.float32)
    mu = torch_regressor(n_s, n_a, r)
    S = spd(r, n_a)
    low, high = -r.rand(n_a) * 2 - .1, r.rand(n_a) * 2 + .1
    if span == 'wide':
        low, high = low - 1e4, high + 1e4
    elif span == 'shifted':
        low, high = low + 2.5, high + 2.5
    pi = ClippedGaussianPolicy(mu, T(S), T(low), T(high))
    w = r.randn(pi.weights_size)
    pi.set_weights(T(w))
    assert np.allclose(pi.get_weights().numpy(), w, atol=1e-6)
    s = r.randn(n_s)
    m = tmean(w, n_s, n_a, s)
    X = np.array([pi.draw_action(T(s))[0].numpy() for _ in range(150)])
    assert X.shape == (150, n_a)
    assert np.all(X >= low - 1e-6) and np.all(X <= high + 1e-6), 'an action is outside its range'
    if span == 'wide':
        samples_ok(np.array([pi.draw_action(T(s))[0].numpy() for _ in range(300)]), m, S, 'clipped')
    # compare with clipped draws of the same Gaussian: fractions at the bounds and mean inside
    ref = np.clip(r.multivariate_normal(m, S, 20000), low, high)
    for i in range(n_a):
        for b in (low[i], high[i]):
            p = np.isclose(ref[:, i], b, atol=1e-5).mean()
            q = np.isclose(X[:, i], b, atol=1e-5).mean()
            assert abs(p - q) < 6 * np.sqrt(max(p * (1 - p), .002) / 150) + .02, ('fraction at the bound', p, q)
        assert abs(ref[:, i].mean() - X[:, i].mean()) < 6 * ref[:, i].std() / np.sqrt(150) + .02, 'mean'
    return 'clipped'
