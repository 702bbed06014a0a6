"""C24 - search distributions: densities, samples, entropies, gradients and (constrained) weighted fits."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.distributions import (CholeskyGaussianTorchDistribution, DiagonalGaussianTorchDistribution,
                                       GaussianCholeskyDistribution, GaussianDiagonalDistribution, GaussianDistribution)
from pbt.harness import Check
from pbt.stat import standard_normal

check = Check('C24', rule='a case is a Gaussian (1-4 dimensions, fixed, diagonal or full covariance, numpy or torch) and a history '
              'of parameter changes, (weighted, constrained) fits and evaluations compared with formulas written out here; '
              'non-trivial when the dimension is above 1 or the covariance is not the identity')

seeds = st.integers(0, 2 ** 31 - 1)


def spd(r, n):
    A = r.randn(n, n)
    return A @ A.T + .3 * np.eye(n)


def logpdf(x, mu, S):
    L = np.linalg.cholesky(S)
    z = np.linalg.solve(L, x - mu)
    return -.5 * z @ z - np.log(np.diag(L)).sum() - .5 * len(mu) * np.log(2 * np.pi)


def entropy(S):
    return .5 * np.linalg.slogdet(2 * np.pi * np.e * S)[1]


def kl(m0, S0, m1, S1):
    i = np.linalg.inv(S1)
    return .5 * (np.trace(i @ S0) - len(m0) + np.linalg.slogdet(S1)[1] - np.linalg.slogdet(S0)[1] + (m1 - m0) @ i @ (m1 - m0))


class Twin(object):
    """Parameter vector of a distribution and what it stands for."""
    def __init__(self, kind, mu, S):
        self.kind, self.n = kind, len(mu)
        self.mu = np.array(mu)
        self.S = np.array(S) if kind != 'diag' else np.diag(np.diag(S))
        self.raw = None

    def make(self):
        if self.kind == 'fixed':
            return GaussianDistribution(self.mu.copy(), self.S.copy())
        if self.kind == 'diag':
            return GaussianDiagonalDistribution(self.mu.copy(), np.sqrt(np.diag(self.S)))
        return GaussianCholeskyDistribution(self.mu.copy(), self.S.copy())

    def rho(self):
        if self.raw is not None:
            return self.raw.copy()
        if self.kind == 'fixed':
            return self.mu.copy()
        if self.kind == 'diag':
            return np.concatenate([self.mu, np.sqrt(np.diag(self.S))])
        L = np.linalg.cholesky(self.S)
        return np.concatenate([self.mu, [L[i, j] for i in range(self.n) for j in range(i + 1)]])

    def at(self, rho):
        t = Twin(self.kind, rho[:self.n], self.S)
        t.raw = np.array(rho)
        if self.kind == 'diag':
            t.S = np.diag(rho[self.n:] ** 2)
        elif self.kind == 'chol':
            L = np.zeros((self.n, self.n))
            k = self.n
            for i in range(self.n):
                for j in range(i + 1):
                    L[i, j] = rho[k]
                    k += 1
            t.S = L @ L.T
        return t


def observe(d, t, r, scale=1.):
    """Everything observable about the distribution agrees with the twin."""
    assert d.parameters_size == len(t.rho())
    assert np.allclose(d.get_parameters(), t.rho(), rtol=1e-6, atol=1e-8), ('parameters', d.get_parameters(), t.rho())
    assert np.allclose(d.mean(), t.mu), 'mean'
    assert np.allclose(d.entropy(), entropy(t.S)), ('entropy', d.entropy(), entropy(t.S))
    L = np.linalg.cholesky(t.S)
    for k in range(3):
        x = t.mu + L @ r.randn(t.n) * (1, 2, 30)[k]
        lp = logpdf(x, t.mu, t.S)
        assert np.allclose(d.log_pdf(x), lp), ('log_pdf', d.log_pdf(x), lp)
        if k == 2:
            continue
        assert np.allclose(d(x), np.exp(lp)), ('pdf', d(x), np.exp(lp))
        rho = t.rho()
        g = np.zeros(len(rho))
        for i in range(len(rho)):
            h = 1e-5 * max(scale, abs(rho[i]))
            a, b = rho.copy(), rho.copy()
            a[i] += h
            b[i] -= h
            g[i] = (logpdf(x, *_ms(t.at(a))) - logpdf(x, *_ms(t.at(b)))) / (2 * h)
        tol = 1e-4 * max(1. / scale, np.abs(g).max())
        assert np.allclose(d.diff_log(x), g, rtol=1e-4, atol=tol), ('diff_log', d.diff_log(x), g)
        assert np.allclose(d.diff(x), np.exp(lp) * g, rtol=1e-4, atol=tol * np.exp(lp)), ('diff', d.diff(x))


def _ms(t):
    return t.mu, t.S


def check_samples(draw, mu, S, n, what):
    X = np.array([draw() for _ in range(n)])
    assert X.shape == (n, len(mu)), (what, X.shape)
    L = np.linalg.cholesky(S)
    Z = np.linalg.solve(L, (X - mu).T).T
    standard_normal(Z, what)


kinds = st.sampled_from(['fixed', 'diag', 'chol'])


@check.case('numpy', st.tuples(kinds, st.integers(1, 4), seeds, st.lists(st.sampled_from(
    ['set', 'flip', 'mle', 'wmle', 'sample', 'con']), max_size=4), st.sampled_from([1., 1., 1., .05, 20.])), quick=350)
def numpy_gaussians(x):
    kind, n, seed, ops, scale = x
    r = np.random.RandomState(seed)
    t = Twin(kind, r.randn(n) * 2 * scale, spd(r, n) * scale ** 2)
    d = t.make()
    assert not d.is_contextual
    observe(d, t, r, scale)
    for op in ops:
        if op == 'set':
            u = Twin(kind, r.randn(n) * scale, spd(r, n) * scale ** 2 if kind != 'fixed' else t.S)
            d.set_parameters(u.rho())
            t = u
        elif op == 'flip':       # a gradient step may well make a standard deviation negative: it stays what was set
            rho = t.rho()
            rho[n:] *= r.choice([-1., 1.], len(rho) - n)
            given = rho.copy()
            d.set_parameters(given)
            t = t.at(rho)
        elif op == 'sample':
            check_samples(d.sample, t.mu, t.S, 300, kind)
        else:
            N = r.choice([n + 2 if kind == 'chol' else 2, 2 * n + 4, r.randint(2 * n + 4, 30), 100]) if op != 'con' \
                else r.randint(2 * n + 4, 40)
            theta = r.multivariate_normal(t.mu + .3 * r.randn(n) * scale, t.S, N)
            w = np.exp(r.randn(N) * r.choice([0., .5, 1.5]))
            th0, w0 = theta.copy(), w.copy()
            if op == 'mle':
                d.mle(theta)
                mu = theta.mean(0)
                C = (theta - mu).T @ (theta - mu) / (N - (1 if kind == 'chol' else 0))
                t = t.at(Twin(kind, mu, t.S if kind == 'fixed' else C).rho())
            elif op == 'wmle':
                d.mle(theta, w)
                mu = w @ theta / w.sum()
                Z = w.sum() - (w ** 2).sum() / w.sum()
                C = (theta - mu).T @ np.diag(w) @ (theta - mu) / Z
                t = t.at(Twin(kind, mu, t.S if kind == 'fixed' else C).rho())
            else:
                w = w / w.max()
                w0 = w.copy()
                eps, kappa = r.choice([.05, .5, 2.]), r.choice([.05, .5, 2.])
                h0, old = float(d.entropy()), t
                if kind == 'fixed':
                    d.con_wmle(theta, w, eps)
                else:
                    d.con_wmle(theta, w, eps, kappa)
                t = t.at(np.array(d.get_parameters()))
                constrained(old, t, theta, w, eps, kappa if kind != 'fixed' else None)
            assert np.array_equal(theta, th0) and np.array_equal(w, w0), 'the data were changed'
        observe(d, t, r, scale)
    return kind + ':' + ','.join(sorted(set(ops))) if n > 1 or ops else None


def constrained(old, new, theta, w, eps, kappa):
    def ll(t):
        return sum(wi * logpdf(th, t.mu, t.S) for wi, th in zip(w, theta)) / w.sum()

    def feasible(t, slack):
        ok = kl(old.mu, old.S, t.mu, t.S) <= eps * (1 + slack) + slack * .02
        return ok and (kappa is None or entropy(old.S) - entropy(t.S) <= kappa * (1 + slack) + slack * .2)
    assert feasible(new, .1), ('the constrained fit leaves the trust region', kl(old.mu, old.S, new.mu, new.S), eps,
                               entropy(old.S) - entropy(new.S), kappa)
    # no feasible distribution on the way to the unconstrained fit is better
    mu = w @ theta / w.sum()
    C = (theta - mu).T @ np.diag(w) @ (theta - mu) / w.sum()
    best = ll(old)
    for a in np.linspace(0, 1, 21):
        for b in (0., a, 1.) if old.kind != 'fixed' else (0.,):
            m = old.mu + a * (mu - old.mu)
            S = (1 - b) * old.S + b * (C if old.kind == 'chol' else np.diag(np.diag(C))) if old.kind != 'fixed' else old.S
            try:
                c = Twin(old.kind, m, S)
                if feasible(c, -.05):
                    best = max(best, ll(c))
            except np.linalg.LinAlgError:
                pass
    assert ll(new) >= best - .01 * max(1., abs(best)), ('the constrained fit is not the best one', ll(new), best)


@check.case('torch', st.tuples(st.booleans(), st.integers(1, 4), seeds, st.lists(st.sampled_from(['set', 'sample', 'grad']),
                                                                              max_size=4)), quick=200)
def torch_gaussians(x):
    diag, n, seed, ops = x
    r = np.random.RandomState(seed)
    mu, S = r.randn(n), spd(r, n)
    T = lambda a: torch.tensor(a, dtype=torch.float32)
    if diag:
        S = np.diag(np.diag(S))
        d = DiagonalGaussianTorchDistribution(T(mu), T(np.sqrt(np.diag(S))))
    else:
        d = CholeskyGaussianTorchDistribution(T(mu), T(S))

    def rho(mu, S):
        L = np.linalg.cholesky(S)
        return np.concatenate([mu, np.log(np.diag(L)) if diag else [L[i, j] for i in range(n) for j in range(i + 1)]])

    def look():
        assert d.parameters_size == len(rho(mu, S))
        assert np.allclose(d.get_parameters().detach().numpy(), rho(mu, S), atol=1e-4), ('parameters', d.get_parameters(), rho(mu, S))
        assert np.allclose(d.mean().detach().numpy(), mu, atol=1e-5)
        assert np.allclose(float(d.entropy()), entropy(S), atol=1e-3), ('entropy', d.entropy(), entropy(S))
        xs = mu + np.linalg.cholesky(S) @ r.randn(n)
        lp = logpdf(xs, mu, S)
        assert np.allclose(float(d.log_pdf(T(xs))), lp, rtol=1e-3, atol=1e-3), ('log_pdf', d.log_pdf(T(xs)), lp)
        assert np.allclose(float(d(T(xs))), np.exp(lp), rtol=5e-3, atol=1e-5), 'pdf'
        X = mu + (np.linalg.cholesky(S) @ r.randn(n, 3)).T
        assert np.allclose(d.log_pdf(T(X)).detach().numpy(), [logpdf(v, mu, S) for v in X], rtol=1e-3, atol=1e-3), 'batch log_pdf'
    look()
    for op in ops:
        if op == 'set':
            mu, S = r.randn(n), spd(r, n)
            if diag:
                S = np.diag(np.diag(S))
            d.set_parameters(T(rho(mu, S)))
        elif op == 'sample':
            check_samples(lambda: d.sample().detach().numpy(), mu, S, 300, 'torch')
        else:
            xs = mu + np.linalg.cholesky(S) @ r.randn(n)
            loss = d.log_pdf(T(xs))
            ps = list(d.parameters())
            g = torch.autograd.grad(loss, ps)
            got = g[0].detach().numpy()
            ref = np.linalg.solve(S, xs - mu)
            assert np.allclose(got, ref, rtol=1e-2, atol=1e-3), ('gradient', got, ref)
            L = np.linalg.cholesky(S)
            y = np.linalg.solve(L, xs - mu)
            if diag:
                assert np.allclose(g[1].numpy(), y ** 2 - 1, rtol=1e-2, atol=1e-2)
            else:
                G = np.outer(np.linalg.solve(L.T, y), y) - np.diag(1 / np.diag(L))
                assert np.allclose(g[1].numpy(), np.tril(G), rtol=1e-2, atol=1e-2)
        look()
    return ('diag' if diag else 'chol') if n > 1 or ops else None
