"""C33 - black-box policy search: one parameter vector per episode, and the documented update of the search distribution."""
import numpy as np
import torch
from hypothesis import strategies as st
from scipy.optimize import minimize, minimize_scalar

from mushroom_rl.algorithms.policy_search import MORE, PGPE, REPS, RWR, ConstrainedREPS, ePPO
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator, TorchApproximator
from mushroom_rl.core import Core, Environment, MDPInfo
from mushroom_rl.distributions import (CholeskyGaussianTorchDistribution, DiagonalGaussianTorchDistribution,
                                       GaussianCholeskyDistribution, GaussianDiagonalDistribution, GaussianDistribution)
from mushroom_rl.policy import DeterministicPolicy
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.spaces import Box
from checks import c15_primitives as parallel
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C33', rule='a case is an algorithm, a search distribution, policy size, discount and one to three batches of episodes of '
              'varied lengths and rewards collected through Core; the distribution after every fit is compared with the reference '
              'update computed from the parameter vectors and rewards the environment saw; non-trivial when the distribution moved')


class Line(torch.nn.Module):
    def __init__(self, input_shape, output_shape, **kw):
        super().__init__()
        self.h = torch.nn.Linear(input_shape[0], output_shape[0], bias=False)

    def forward(self, state, **kw):
        return self.h(state.float())


class Task(Environment):
    """Episodes of given lengths; remembers the weights the policy used, the actions and the rewards."""

    def __init__(self, d, lengths, gamma, noise, scale=1.):
        super().__init__(MDPInfo(Box(-10 * np.ones(d), 10 * np.ones(d)), Box(-1e6 * np.ones(1), 1e6 * np.ones(1)), gamma, 50))
        self.lengths, self.gamma = lengths, gamma
        self.noise, self.scale = noise, scale
        self.k = -1
        self.agent = None
        self.episodes = []

    def obs(self):
        d = self.info.observation_space.shape[0]
        return np.cos(np.arange(1, d + 1) * (1 + self.t) + .3 * self.k)

    def reset(self, state=None):
        self.k += 1
        self.t = 0
        self.episodes.append(dict(theta=None, J=0.))
        return self.obs(), {}

    def step(self, action):
        e = self.episodes[-1]
        w = to_np(self.agent.policy.get_weights()).copy()
        if e['theta'] is None:
            e['theta'] = w
        assert np.array_equal(e['theta'], w), 'the policy parameters changed during an episode'
        assert np.allclose(action, w @ self.obs(), rtol=1e-4, atol=1e-5), 'the action does not follow the drawn parameters'
        r = -float(np.sum((w - np.linspace(-.5, .7, len(w))) ** 2)) * (1 + .1 * self.t) + self.noise[self.k % len(self.noise)]
        r *= self.scale
        e['J'] += self.gamma ** self.t * r
        self.t += 1
        return self.obs(), r, self.t >= self.lengths[self.k % len(self.lengths)], {}


@st.composite
def runs(draw, names):
    name = draw(st.sampled_from(names))
    return dict(name=name, d=draw(st.integers(1, 3)), dist=draw(st.integers(0, 2)), k=draw(st.integers(0, 5)),
                n=draw(st.sampled_from([0, 1, 2, 3, 4, 6, 50])), fits=draw(st.integers(1, 3)),
                lengths=draw(st.lists(st.integers(1, 4), min_size=1, max_size=5)) + draw(st.sampled_from([[], [], [], [20], [45]])),
                scale=draw(st.sampled_from([1., 1., 1., 60.])), gamma=draw(st.sampled_from([1., .9, .5])),
                noise=draw(st.lists(st.integers(-8, 8).map(lambda v: v / 8), min_size=3, max_size=7)))


def size(x):
    return dict(x, n=x['n'] + 6 + 4 * x['d'] + (6 if x['name'] == 'more' else 0))


def build(x):
    d = x['d']
    mdp = Task(d, x['lengths'], x['gamma'], x['noise'], x['scale'])
    tor = x['name'] == 'eppo'
    if tor:
        reg = Regressor(TorchApproximator, input_shape=(d,), output_shape=(1,), network=Line)
    else:
        reg = Regressor(LinearApproximator, input_shape=(d,), output_shape=(1,))
    pol = DeterministicPolicy(reg)
    assert pol.weights_size == d
    mu = .3 * np.arange(d) - .2
    c = np.tril(.2 * np.ones((d, d))) + .6 * np.eye(d)
    if tor:
        dist = DiagonalGaussianTorchDistribution(torch.tensor(mu, dtype=torch.float32), .8 * torch.ones(d)) if x['dist'] % 2 else \
            CholeskyGaussianTorchDistribution(torch.tensor(mu, dtype=torch.float32), torch.tensor(c @ c.T, dtype=torch.float32))
    elif x['name'] == 'more' or x['dist'] == 0:
        dist = GaussianCholeskyDistribution(mu, c @ c.T)
    elif x['dist'] == 1:
        dist = GaussianDiagonalDistribution(mu, .5 + .1 * np.arange(d))
    else:
        dist = GaussianDistribution(mu, c @ c.T)
    return mdp, pol, dist


def drive(x, mdp, agent, check_update):
    """Runs the learning and calls ``check_update(before, episodes, after)`` at each fit."""
    mdp.agent = agent
    state = dict(before=agent.distribution.copy(), done=0)
    moved = []

    def on_fit(dataset):
        eps = mdp.episodes[state['done']:]
        thetas = [to_np(t) for t in dataset.theta_list]
        assert len(thetas) == len(eps) == x['n'], ('one parameter vector per episode', len(thetas), len(eps))
        for e, t in zip(eps, thetas):
            assert np.allclose(e['theta'], t, rtol=1e-5, atol=1e-6), ('recorded and used parameters differ', e['theta'], t)
        assert len({tuple(t) for t in map(np.ravel, thetas)}) == len(thetas), 'the same parameters were used by two episodes'
        check_update(state['before'].copy(), np.array([e['theta'] for e in eps]), np.array([e['J'] for e in eps]), agent.distribution)
        moved.append(not np.allclose(to_np(state['before'].get_parameters()), to_np(agent.distribution.get_parameters())))
        state['before'] = agent.distribution.copy()
        state['done'] = len(mdp.episodes)
    core = Core(agent, mdp, callbacks_fit=[on_fit])
    core.learn(n_episodes=x['n'] * x['fits'], n_episodes_per_fit=x['n'], quiet=True)
    assert len(moved) == x['fits']
    return '%s' % x['name'] if any(moved) else None


def same(got, want, what, tol=1e-6):
    got, want = to_np(got.get_parameters()), to_np(want.get_parameters())
    assert np.allclose(got, want, rtol=tol, atol=tol * (1 + np.abs(want).max())), (what, got, want)


@check.case('rwr_pgpe', runs(['rwr', 'pgpe']), quick=200)
def rwr_pgpe(x):
    x = size(x)
    if x['name'] == 'rwr' and x['scale'] != 1.:
        x = dict(x, dist=2)          # a few dominating weights: only the mean is well determined
    mdp, pol, dist = build(x)
    if x['name'] == 'rwr':
        beta = [.02, .1, .3][x['k'] % 3]
        agent = RWR(mdp.info, dist, pol, beta)

        def update(before, theta, J, after):
            w = np.exp(beta * (J - J.max()))
            before.mle(theta, w)
            same(after, before, 'reward-weighted maximum likelihood', 1e-5)
    else:
        adam = x['k'] % 2
        opt = AdamOptimizer(lr=.05) if adam else SGDOptimizer(lr=.02)
        agent = PGPE(mdp.info, dist, pol, opt)
        ref = AdamOptimizer(lr=.05) if adam else SGDOptimizer(lr=.02)

        def update(before, theta, J, after):
            g = np.array([before.diff_log(t) for t in theta])
            den = (g ** 2).mean(0)
            b = np.where(den > 0, (J[:, None] * g ** 2).mean(0) / np.where(den > 0, den, 1.), 0.)
            grad = (g * (J[:, None] - b)).mean(0)
            before.set_parameters(ref(before.get_parameters(), grad))
            same(after, before, 'gradient step with the optimal baseline', 1e-5)
    return drive(x, mdp, agent, update)


@check.case('reps', runs(['reps', 'creps']), quick=150)
def reps(x):
    x = size(x)
    if x['name'] == 'creps' and x['dist'] == 2:
        x = dict(x, dist=1)
    mdp, pol, dist = build(x)
    eps, kappa = [.05, .2, .4][x['k'] % 3], [.05, .3][x['k'] % 2]
    agent = REPS(mdp.info, dist, pol, eps) if x['name'] == 'reps' else ConstrainedREPS(mdp.info, dist, pol, eps, kappa)

    def update(before, theta, J, after):
        r = J - J.max()

        def dual(eta):
            return eta * eps + eta * np.log(np.mean(np.exp(r / eta)))
        grid = np.exp(np.linspace(np.log(1e-6), np.log(1e5), 400))
        i = int(np.argmin([dual(e) for e in grid]))
        best = minimize_scalar(dual, bounds=(grid[max(i - 1, 0)], grid[min(i + 1, 399)]), method='bounded',
                               options=dict(xatol=1e-10))
        eta = best.x
        con = x['name'] == 'creps'
        if eta > 1e-3:
            # compare the weighted maximum likelihood estimates obtained from temperatures around the optimal one
            fits = []
            for f in (.95, 1., 1.05):
                d = before.copy()
                if con:
                    d.con_wmle(theta, np.exp(r / (eta * f)), eps, kappa)
                else:
                    d.mle(theta, np.exp(r / (eta * f)))
                fits.append(to_np(d.get_parameters()))
            got = to_np(after.get_parameters())
            slack = 1.5 * np.abs(np.array(fits) - fits[1]).max(0) + (1e-2 if con else 1e-5) * (1 + np.abs(fits[1]))
            assert np.all(np.abs(got - fits[1]) <= slack), ('weighted estimate at the optimum of the dual', eta, got, fits)
        if con:
            d = x['d']
            m0, s0 = moments(before, d)
            m1, s1 = moments(after, d)
            k, h = kl(m0, s0, m1, s1), .5 * (np.linalg.slogdet(s0)[1] - np.linalg.slogdet(s1)[1])
            assert k <= 1.1 * eps + 1e-3, ('divergence bound', k, eps)
            assert h <= 1.1 * kappa + 1e-2, ('entropy decrease bound', h, kappa)
    return drive(x, mdp, agent, update)


@check.case('eppo', runs(['eppo']), quick=80)
def eppo(x):
    x = size(x)
    mdp, pol, dist = build(x)
    clip, ent, n_ep = [.05, .2][x['k'] % 2], [0., .05][x['k'] // 2 % 2], 1 + x['k'] % 3
    o = [dict({'class': torch.optim.Adam, 'params': dict(lr=.1)}), {'class': torch.optim.SGD, 'params': dict(lr=.05)}][x['k'] % 2]
    agent = ePPO(mdp.info, dist, pol, o, n_epochs_policy=n_ep, batch_size=x['n'], eps_ppo=clip, ent_coeff=ent)
    ref = dist.copy()
    opt = o['class'](ref.parameters(), **o['params'])

    def update(before, theta, J, after):
        same(ref, before, 'reference and agent in step', 1e-4)
        J = torch.tensor(J)
        A = (J - J.mean()) / (J.std() + 1e-8)
        t = torch.tensor(theta, dtype=torch.float32)
        old = before.log_pdf(t).detach()
        for _ in range(n_ep):
            opt.zero_grad()
            ratio = torch.exp(ref.log_pdf(t) - old)
            gain = torch.where(A >= 0, torch.minimum(ratio, torch.tensor(1 + clip)), torch.maximum(ratio, torch.tensor(1 - clip))) * A
            (-(gain.mean()) - ent * ref.entropy()).backward()
            opt.step()
        same(after, ref, 'clipped surrogate steps', 2e-3)
    return drive(x, mdp, agent, update)


def kl(m1, s1, m0, s0):
    i0 = np.linalg.inv(s0)
    return .5 * (np.trace(i0 @ s1) + (m0 - m1) @ i0 @ (m0 - m1) - len(m0) + np.linalg.slogdet(s0)[1] - np.linalg.slogdet(s1)[1])


def moments(dist, d):
    p = dist.get_parameters()
    if len(p) == 2 * d:
        return p[:d], np.diag(p[d:] ** 2)
    c = np.zeros((d, d))
    c[np.tril_indices(d)] = p[d:]
    return p[:d], c @ c.T


def reference_more(theta, J, m0, s0, eps, beta):
    d = len(m0)
    y = (J - J.mean()) / J.std()
    iu = [(i, j) for i in range(d) for j in range(i, d)]
    F = np.array([[1.] + list(t) + [t[i] * t[j] for i, j in iu] for t in theta])
    w = np.linalg.lstsq(F, y, rcond=None)[0]
    R = np.zeros((d, d))
    for (i, j), v in zip(iu, w[1 + d:]):
        R[i, j] = R[j, i] = v
    e, v = np.linalg.eigh(R)
    R = v @ np.diag(np.where(e >= 0, -1e-12, e)) @ v.T
    L = np.array([[1.] + list(t) for t in theta])
    w = np.linalg.lstsq(L, y - np.einsum('ni,ij,nj->n', theta, R, theta), rcond=None)[0]
    r = w[1:]
    qi = np.linalg.inv(s0)

    def sol(eta, om):
        F = np.linalg.inv(eta * qi - 2 * R)
        return F @ (eta * qi @ m0 + r), F * (eta + om), F

    def dual(z):
        eta, om = np.exp(z)
        f = eta * qi @ m0 + r
        F = np.linalg.inv(eta * qi - 2 * R)
        return eta * eps - om * beta + .5 * (f @ F @ f - eta * m0 @ qi @ m0 - eta * np.linalg.slogdet(2 * np.pi * s0)[1]
                                             + (eta + om) * np.linalg.slogdet(2 * np.pi * (eta + om) * F)[1])
    best = min((minimize(dual, z0, method='Nelder-Mead', options=dict(xatol=1e-8, fatol=1e-12, maxiter=4000))
                for z0 in ([0., 0.], [0., -10.], [-2., -2.])), key=lambda b: b.fun)
    m, S, _ = sol(*np.exp(best.x))
    return m, S, R, r


@check.case('more', runs(['more']), quick=80)
def more(x):
    x = size(x)
    d = x['d']
    mdp, pol, dist = build(x)
    eps = [.1, .5, 1.][x['k'] % 3]
    agent = MORE(mdp.info, dist, pol, eps, h0=-75, kappa=.99)

    def update(before, theta, J, after):
        m0, s0 = moments(before, d)
        m1, s1 = moments(after, d)
        assert np.all(np.isfinite(m1)) and np.all(np.linalg.eigvalsh(s1) > 0), ('covariance', s1)
        k = kl(m1, s1, m0, s0)
        beta = .99 * (before.entropy() + 75) - 75
        m, S, R, r = reference_more(theta, J, m0, s0, eps, beta)
        val = lambda mm, SS: np.trace(R @ SS) + mm @ R @ mm + r @ mm
        assert k <= 1.1 * eps + 1e-3, ('divergence bound', k, eps)
        assert after.entropy() >= beta - 2e-2 * (1 + abs(beta)), ('entropy bound', after.entropy(), beta)
        gain, best = val(m1, s1) - val(m0, s0), val(m, S) - val(m0, s0)
        assert gain >= .6 * best - .05, ('expected surrogate reward', gain, best)
    return drive(x, mdp, agent, update)


@check.case('deterministic', runs(['rwr', 'pgpe', 'eppo']), quick=60)
def deterministic(x):
    x = size(x)
    mdp, pol, dist = build(x)
    o = {'class': torch.optim.Adam, 'params': dict(lr=.1)}
    agent = ePPO(mdp.info, dist, pol, o, 1, 4, .2) if x['name'] == 'eppo' else RWR(mdp.info, dist, pol, .5)
    mdp.agent = agent
    core = Core(agent, mdp)
    before = to_np(dist.get_parameters()).copy()
    core.evaluate(n_episodes=3, quiet=True)
    assert len({tuple(e['theta']) for e in mdp.episodes}) == 3, 'exploration: each episode draws its own parameters'
    agent.set_deterministic(True)
    mdp.episodes.clear()
    core.evaluate(n_episodes=3, quiet=True)
    for e in mdp.episodes:
        assert np.allclose(e['theta'], to_np(dist.mean()), atol=1e-6), ('the mean parameters', e['theta'])
    agent.set_deterministic(False)
    mdp.episodes.clear()
    core.evaluate(n_episodes=3, quiet=True)
    assert len({tuple(e['theta']) for e in mdp.episodes}) == 3, 'exploration again'
    assert np.array_equal(before, to_np(dist.get_parameters())), 'evaluating changed the distribution'
    return x['name']


# the same per-episode exploration with many environments at once
check.case('parallel', parallel.SEARCH, quick=40)(parallel.search)
