"""C15 - movement primitives, vectorised policies and black-box search over parallel environments."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import multivariate_normal

from mushroom_rl.algorithms.policy_search import PGPE, REPS, RWR
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Core, Environment, MDPInfo, VectorCore, VectorizedEnvironment
from mushroom_rl.distributions import GaussianCholeskyDistribution, GaussianDiagonalDistribution
from mushroom_rl.features import Features
from mushroom_rl.features.basis import GaussianRBF, PolynomialBasis
from mushroom_rl.policy import DMP, DeterministicPolicy, ParametricPolicy, ProMP, VectorPolicy
from mushroom_rl.rl_utils.optimizers import SGDOptimizer
from mushroom_rl.rl_utils.spaces import Box
from mushroom_rl.utils.callbacks import CollectDataset
from pbt.harness import Check

check = Check('C15', rule='a case is a movement primitive (basis, duration, covariance, weights, system constants) driven over several '
              'episodes, a vector of policies under resizing, reweighting and masked resets, or a black-box agent run over parallel '
              'environments with independent episode ends; non-trivial when several steps, several copies or several episodes are involved')

seeds = st.integers(0, 2 ** 31 - 1)


def time_basis(kind, k):
    if kind == 'poly':
        return Features(basis_list=PolynomialBasis.generate(k, 1)), k + 1, lambda z: np.array([z ** i for i in range(k + 1)])
    c = np.linspace(0, 1, k + 1)
    return (Features(basis_list=[GaussianRBF(np.array([m]), np.array([.3])) for m in c]), k + 1,
            lambda z: np.exp(-(z - c) ** 2 / .3))


# ------------------------------------------------------------------------------------------------------------------- ProMP
@check.case('promp', st.fixed_dictionaries(dict(
    basis=st.sampled_from(['poly', 'rbf']), k=st.sampled_from([1, 2, 3, 6]), d=st.sampled_from([1, 2, 3, 6]), duration=st.one_of(st.integers(1, 8), st.sampled_from([20, 50])),
    periodic=st.booleans(), sigma=st.sampled_from([None, None, 'diag', 'full']), seed=seeds, change=st.one_of(st.none(), st.integers(2, 9), st.just(31)),
    episodes=st.lists(st.one_of(st.integers(0, 14), st.just(70)), min_size=1, max_size=4))), quick=250)
def promp(x):
    r = np.random.RandomState(x['seed'])
    phi, n, ref = time_basis(x['basis'], x['k'])
    d = x['d']
    reg = Regressor(LinearApproximator, input_shape=(n,), output_shape=(d,))
    S = None
    if x['sigma']:
        L = np.tril(.2 * r.rand(d, d), -1) * (x['sigma'] == 'full') + np.diag(.2 + r.rand(d))
        S = L @ L.T
    pol = ProMP(reg, phi, x['duration'], sigma=None if S is None else S.copy(), periodic=x['periodic'])
    assert pol.is_stateful and tuple(pol.policy_state_shape) == (1,) and pol.weights_size == n * d
    W = r.randn(d, n)
    pol.set_weights(W.ravel().copy())
    assert np.array_equal(pol.get_weights(), W.ravel())
    dur, steps = x['duration'], 0
    for e, length in enumerate(x['episodes']):
        if e == 1 and x['change']:
            pol.set_duration(x['change'])
            dur = x['change'] - 1
        ps = pol.reset()
        assert np.shape(ps) == (1,) and np.all(np.asarray(ps) == 0), ('initial policy state', ps)
        for t in range(length):
            z = (t if x['periodic'] else min(t, dur)) / dur
            mu = W @ ref(z)
            given = np.array(ps)
            s = r.randn(2)
            np.random.seed(t)
            a, nxt = pol.draw_action(s, given)
            assert np.array_equal(given, ps), 'draw_action changed the policy state it was given'
            assert np.shape(a) == (d,) and np.shape(nxt) == (1,)
            if S is None:
                assert np.allclose(a, mu), ('action', t, a, mu)
                assert pol(s, a, given) == 1. and pol(s, a + 1., given) == 0.
            else:
                np.random.seed(t)
                assert np.allclose(a, np.random.multivariate_normal(mu, S)), ('action', t, a, mu)
                b = mu + .3 * r.randn(d)
                assert np.allclose(pol(s, b, given), multivariate_normal.pdf(b, mu, S)), 'density'
            ps = nxt
            steps += 1
            assert np.array_equal(given, [float(t if x['periodic'] else min(t, dur))])
    return '%s-%s' % (x['basis'], 'periodic' if x['periodic'] else 'once') if steps > 2 else None


# --------------------------------------------------------------------------------------------------------------------- DMP
class DmpModel(object):
    def __init__(self, W, g, c):
        self.W, self.g, self.c = W, g, c
        self.reset()

    def reset(self):
        self.v, self.x, self.z, self.y = (np.zeros(len(self.g)) for _ in range(4))

    def step(self):
        c = self.c
        f = self.W @ np.concatenate([[1.], self.x / self.g]) * self.v
        vd = c['av'] * (c['bv'] * (self.g - self.y) - self.v) / c['tau']
        xd = self.v / c['tau']
        zd = c['az'] * (c['bz'] * (self.g - self.y) - self.z) / c['tau']
        yd = (self.z + f) / c['tau']
        self.v, self.x, self.z, self.y = (a + c['dt'] * b for a, b in ((self.v, vd), (self.x, xd), (self.z, zd), (self.y, yd)))
        return self.y.copy()


def make_dmp(d, c, g):
    phi = Features(basis_list=PolynomialBasis.generate(1, d))
    reg = Regressor(LinearApproximator, input_shape=(d + 1,), output_shape=(d,))
    return DMP(reg, phi, np.array(g), c['dt'], c['tau'], c['av'], c['bv'], c['az'], c['bz'])


consts = st.fixed_dictionaries(dict(dt=st.sampled_from([.01, .05, .1]), tau=st.sampled_from([.5, 1., 2.]), av=st.sampled_from([1., 4.]),
                                    bv=st.sampled_from([1., .25]), az=st.sampled_from([2., 5.]), bz=st.sampled_from([1., .5])))


@check.case('dmp', st.fixed_dictionaries(dict(d=st.sampled_from([1, 2, 3, 5]), c=consts, seed=seeds, ops=st.lists(st.sampled_from(
    ['step', 'step', 'run', 'run', 'reset', 'goal', 'weights']), min_size=1, max_size=25))), quick=200)
def dmp(x):
    """Actions follow the integrated dynamical system; nothing given out is changed later."""
    r = np.random.RandomState(x['seed'])
    d = x['d']
    g = r.uniform(.5, 2., d) * r.choice([-1, 1], size=d)
    pol = make_dmp(d, x['c'], g)
    assert not pol.is_stateful and pol.weights_size == d * (d + 1)
    W = r.randn(d, d + 1)
    pol.set_weights(W.ravel().copy())
    m = DmpModel(W, g, x['c'])
    out = []
    for o in x['ops']:
        if o == 'reset':
            assert pol.reset() is None
            m.reset()
        elif o == 'goal':
            m.g = r.uniform(.5, 2., d) * r.choice([-1, 1], size=d)
            pol.set_goal(m.g.copy())
        elif o == 'weights':
            m.W = r.randn(d, d + 1)
            pol.set_weights(m.W.ravel().copy())
            assert np.array_equal(pol.get_weights(), m.W.ravel())
        else:
            for _ in range(r.randint(1, 12) if o == 'run' else 0):
                out.append((pol.draw_action(r.randn(2), None)[0], m.step()))
            a, nps = pol.draw_action(r.randn(2), None)
            want = m.step()
            assert nps is None and np.shape(a) == (d,) and np.allclose(a, want, rtol=1e-7, atol=1e-9), ('action', a, want)
            assert pol(np.zeros(2), a) == 1. and pol(np.zeros(2), a + 1. + .1 * np.abs(a)) == 0.
            out.append((a, want))
    for a, want in out:
        assert np.allclose(a, want, rtol=1e-7, atol=1e-9), 'an action returned earlier changed'
    return 'steps' if len(out) > 3 else None


# ------------------------------------------------------------------------------------------------------------- VectorPolicy
def base_policy(kind, d, r):
    """Returns the policy and a factory of reference models with set(w), reset() and act(state)."""
    if kind == 'det':
        class Model(object):
            def set(self, w):
                self.w = w

            def reset(self):
                pass

            def act(self, s):
                return self.w.reshape(1, d) @ s
        return DeterministicPolicy(Regressor(LinearApproximator, input_shape=(d,), output_shape=(1,))), Model
    if kind == 'promp':
        phi, n, ref = time_basis('poly', 2)
        dur = 4

        class Model(object):
            t = 0

            def set(self, w):
                self.w = w

            def reset(self):
                self.t = 0

            def act(self, s):
                a = self.w.reshape(1, n) @ ref(min(self.t, dur) / dur)
                self.t += 1
                return a
        return ProMP(Regressor(LinearApproximator, input_shape=(n,), output_shape=(1,)), phi, dur), Model
    if kind == 'dmp':
        c = dict(dt=.1, tau=1., av=4., bv=1., az=2., bz=1.)

        class Model(object):
            def __init__(self):
                self.m = DmpModel(None, np.array([1.5]), c)

            def set(self, w):
                self.m.W = w.reshape(1, 2)

            def reset(self):
                self.m.reset()

            def act(self, s):
                return self.m.step()
        return make_dmp(1, c, [1.5]), Model
    if kind == 'user':
        class Model(object):
            c = 0

            def set(self, w):
                self.w = w

            def reset(self):
                self.c = 0

            def act(self, s):
                a = np.array([self.w[0] * s[0] + self.w[1] * self.c])
                self.c = (self.c + 1) % 3
                return a
        return Cycle(), Model
    raise ValueError(kind)


class Cycle(ParametricPolicy):
    """A user's policy whose state counts 0, 1, 2, 0, 1, ..."""
    def __init__(self):
        super().__init__(policy_state_shape=(1,))
        self.w = np.zeros(2)

    def draw_action(self, state, policy_state):
        return np.array([self.w[0] * state[0] + self.w[1] * policy_state[0]]), (policy_state + 1) % 3

    def set_weights(self, weights):
        self.w = weights

    def get_weights(self):
        return self.w

    @property
    def weights_size(self):
        return 2

    def reset(self):
        return np.zeros(1)


@check.case('vector', st.fixed_dictionaries(dict(
    kind=st.sampled_from(['det', 'promp', 'dmp', 'user']), d=st.integers(1, 3), n=st.sampled_from([1, 2, 3, 4, 9]), seed=seeds,
    ops=st.lists(st.one_of(st.just(('step',)), st.just(('step',)), st.just(('weights',)), st.tuples(st.just('resize'), st.sampled_from([1, 2, 3, 4, 5, 10])),
                           st.tuples(st.just('reset'), st.one_of(st.none(), st.lists(st.booleans(), min_size=10, max_size=10)))),
                 min_size=1, max_size=25))), quick=250)
def vector(x):
    """Every copy acts on its own row, with its own weights and its own state."""
    r = np.random.RandomState(x['seed'])
    pol, Model = base_policy(x['kind'], x['d'], r)
    w0 = r.randn(pol.weights_size)
    pol.set_weights(w0.copy())
    n = x['n']
    vec = VectorPolicy(pol, n)
    models = [Model() for _ in range(n)]
    for m in models:
        m.set(w0)
    ps = vec.reset()
    steps = 0
    for o in x['ops']:
        if o[0] == 'weights':
            w = r.randn(n, pol.weights_size)
            vec.set_weights(w.copy())
            for m, wi in zip(models, w):
                m.set(wi)
            assert np.array_equal(vec.get_weights(), w)
        elif o[0] == 'resize':
            old, n = n, o[1]
            kept = np.array(vec.get_weights())
            vec.set_n(n)
            got = np.array(vec.get_weights())
            assert got.shape == (n, pol.weights_size) and np.array_equal(got[:min(n, old)], kept[:n]), 'weights after resizing'
            w = r.randn(n, pol.weights_size)
            vec.set_weights(w.copy())
            ps = vec.reset()
            models = [Model() for _ in range(n)]
            for m, wi in zip(models, w):
                m.set(wi)
        elif o[0] == 'reset':
            mask = None if o[1] is None else np.array(o[1][:n])
            new = vec.reset() if mask is None else vec.reset(mask)
            for i, m in enumerate(models):
                if mask is None or mask[i]:
                    m.reset()
            if new is None:
                ps = None
            else:
                keep = np.ones(n, bool) if mask is None else mask
                ps = np.where(keep[:, None], new, ps)
        else:
            s = r.randn(n, x['d'])
            a, ps = vec.draw_action(s, ps)
            want = np.array([m.act(si) for m, si in zip(models, s)])
            assert a.shape == want.shape and np.allclose(a, want, atol=1e-9), ('actions of the copies', a, want)
            assert (ps is None) == (not pol.is_stateful) and (ps is None or np.shape(ps) == (n, 1))
            steps += 1
        assert len(vec) == n and vec.is_stateful == pol.is_stateful
        assert tuple(vec.weights_size) == (n, pol.weights_size)
    assert np.array_equal(pol.get_weights(), w0), 'the policy given to the constructor was changed'
    flat = vec.get_flat_policy()
    assert type(flat) is type(pol)
    return x['kind'] if steps and n > 1 else None


# ------------------------------------------------------------------------------------------ black-box search, many environments
class Many(VectorizedEnvironment):
    def __init__(self, d, lengths, gamma, horizon):
        n = len(lengths)
        super().__init__(MDPInfo(Box(-10 * np.ones(d), 10 * np.ones(d)), Box(-1e6 * np.ones(1), 1e6 * np.ones(1)), gamma, horizon), n)
        self.lengths, self.d = lengths, d
        self.models, self.agent = None, None
        self.ep, self.t = [-1] * n, [0] * n
        self.episodes = [[] for _ in range(n)]
        self.drawn = []
        self.cur = np.zeros((n, d))

    def obs(self, i):
        return np.cos(np.arange(1, self.d + 1) * (1 + self.t[i]) + .3 * self.ep[i] + i)

    def reset_all(self, env_mask, state=None):
        for i in range(self.number):
            if env_mask[i]:
                self.ep[i] += 1
                self.t[i] = 0
                self.cur[i] = self.obs(i)
                self.episodes[i].append(dict(theta=None, J=0., ended=False))
        return self.cur.copy(), [{} for _ in range(self.number)]

    def step_all(self, env_mask, action):
        w = np.array(self.agent.policy.get_weights())
        assert len(w) == self.number
        rew, ab = np.zeros(self.number), np.zeros(self.number, bool)
        for i in range(self.number):
            if not env_mask[i]:
                continue
            e = self.episodes[i][-1]
            if e['theta'] is None:
                e['theta'] = w[i].copy()
                self.models[i].set(e['theta'])
                self.models[i].reset()
            assert np.array_equal(e['theta'], w[i]), 'the parameters of an environment changed during its episode'
            want = self.models[i].act(self.cur[i])
            assert np.allclose(action[i], want, atol=1e-9), ('the action does not follow the parameters of the episode', i, action[i], want)
            rew[i] = -float(np.sum((w[i] - np.linspace(-.5, .7, w.shape[1])) ** 2)) * (1 + .1 * self.t[i]) + .3 * i
            e['J'] += self.info.gamma ** self.t[i] * rew[i]
            self.t[i] += 1
            ab[i] = self.t[i] >= self.lengths[i][self.ep[i] % len(self.lengths[i])]
            e['ended'] = bool(ab[i]) or self.t[i] >= self.info.horizon
            self.cur[i] = self.obs(i)
        return self.cur.copy(), rew, ab, [{} for _ in range(self.number)]

    def stop(self):
        pass


class One(Environment):
    """One environment, to go back from parallel to ordinary runs."""
    def __init__(self, info, d):
        super().__init__(info)
        self.d, self.log = d, []

    def reset(self, state=None):
        self.t = 0
        return np.cos(np.arange(1, self.d + 1)), {}

    def step(self, action):
        self.t += 1
        self.log.append((self.t, np.array(action), np.array(self.agent.policy.get_weights())))
        return np.cos(np.arange(1, self.d + 1) * (1 + self.t)), 0., self.t >= 3, {}


class Draws(object):
    """Records what the search distribution hands out."""
    def __init__(self, dist):
        self.dist, self.samples, self.means = dist, [], []
        self.orig = dist.sample, dist.mean
        dist.sample = self._wrap(dist.sample, self.samples)

    def _wrap(self, f, log):
        def g(*a, **k):
            out = f(*a, **k)
            log.append(np.array(out))
            return out
        return g

    def close(self):
        del self.dist.sample


SEARCH = st.fixed_dictionaries(dict(
    alg=st.sampled_from(['rwr', 'rwr', 'reps', 'pgpe']), kind=st.sampled_from(['det', 'promp', 'dmp', 'user']), d=st.integers(1, 2),
    chol=st.booleans(), gamma=st.sampled_from([1., .9]), horizon=st.sampled_from([2, 3, 4, 5, 6, 30]), seed=seeds,
    runs=st.lists(st.tuples(st.lists(st.lists(st.integers(1, 6), min_size=1, max_size=3), min_size=2, max_size=6),
                            st.one_of(st.integers(5, 9), st.just(25)), st.integers(1, 3), st.sampled_from(['learn', 'learn', 'eval', 'mean', 'core'])),
                  min_size=1, max_size=3)))


@check.case('search', SEARCH, quick=100)
def search(x):
    r = np.random.RandomState(x['seed'])
    pol, Model = base_policy(x['kind'], x['d'], r)
    k = pol.weights_size
    mu = .3 * np.arange(k) - .2
    dist = GaussianCholeskyDistribution(mu, .5 * np.eye(k) + .1) if x['chol'] else GaussianDiagonalDistribution(mu, .5 + .1 * np.arange(k))
    info = Many(x['d'], [[1]], x['gamma'], x['horizon']).info
    if x['alg'] == 'rwr':
        agent = RWR(info, dist, pol, beta=.4)
    elif x['alg'] == 'reps':
        agent = REPS(info, dist, pol, eps=.5)
    else:
        agent = PGPE(info, dist, pol, SGDOptimizer(.01))
    np.random.seed(x['seed'] % 1000)
    fits, sizes = 0, set()
    for lengths, per_fit, n_fits, mode in x['runs']:
        if mode == 'core':
            env = One(info, x['d'])
            env.agent = agent
            Core(agent, env).evaluate(n_episodes=2, quiet=True)
            m = Model()
            theta = None
            for t, a, w in env.log:
                if t == 1:
                    m.set(w)
                    m.reset()
                    assert theta is None or not np.array_equal(theta, w), 'two episodes ran with the same parameters'
                    theta = w
                assert w.shape == (k,) and np.array_equal(theta, w)
                want = m.act(np.cos(np.arange(1, x['d'] + 1) * t))
                assert np.allclose(a, want, atol=1e-9), ('single environment after parallel ones', a, want)
            continue
        env = Many(x['d'], lengths, x['gamma'], x['horizon'])
        env.models = [Model() for _ in lengths]
        env.agent = agent
        sizes.add(len(lengths))
        state = dict(done=[0] * len(lengths), before=dist.copy())
        cd = CollectDataset()

        def compare(dataset, n):
            """The parameters of the dataset belong to its episodes, in its order; returns them with the returns."""
            eps = [e for i, es in enumerate(env.episodes) for e in es[state['done'][i]:]]
            assert all(e['ended'] for e in eps) and len(eps) == n, ('number of complete episodes', len(eps), n)
            th = [np.array(t) for t in dataset.theta_list]
            J = np.ravel(dataset.discounted_return)
            assert len(th) == len(J) == n, ('one parameter vector per episode', len(th), len(J), n)
            for e, t, j in zip(eps, th, J):
                assert np.array_equal(e['theta'], t), ('parameters attached to another episode', e['theta'], t)
                assert np.isclose(e['J'], j, rtol=1e-6, atol=1e-8), ('return of the episode', e['J'], j)
            state['done'] = [len(es) for es in env.episodes]
            return np.array(th), np.array([e['J'] for e in eps])

        seen = []

        def on_fit(dataset):
            flat = dataset.flatten()
            th, J = compare(flat, per_fit)
            seen.append(len(th))
            assert len({tuple(t) for t in th}) == len(th), 'two episodes ran with the same parameters'
            if x['alg'] == 'rwr':
                ref = state['before'].copy()
                wt = np.exp(.4 * (J - J.max()))
                ref.mle(th, wt)
                got = dist.get_parameters()
                if np.all(np.isfinite(ref.get_parameters())):
                    assert np.allclose(got, ref.get_parameters(), rtol=1e-5, atol=1e-7), ('update', got, ref.get_parameters())
            state['before'] = dist.copy()
        core = VectorCore(agent, env, callbacks_fit=[on_fit, cd])
        draws = Draws(dist)
        try:
            if mode == 'learn':
                p0 = dist.get_parameters().copy()
                per_fit += 4 + 2 * k
                core.learn(n_episodes=per_fit * n_fits, n_episodes_per_fit=per_fit, quiet=True)
                assert len(seen) == n_fits
                fits += n_fits
                assert not np.allclose(p0, dist.get_parameters()), 'the distribution was not updated'
                assert len(cd.get().theta_list) == per_fit * n_fits == len(np.ravel(cd.get().discounted_return)), 'collected datasets'
            else:
                agent.set_deterministic(mode == 'mean')
                p0 = dist.get_parameters().copy()
                data = core.evaluate(n_episodes=per_fit, quiet=True)
                agent.set_deterministic(False)
                th, _ = compare(data, per_fit)
                if mode == 'mean':
                    assert np.allclose(th, np.ravel(dist.mean())), 'deterministic episodes do not run with the mean parameters'
                    assert not draws.samples
                else:
                    assert len({tuple(t) for t in th}) == len(th)
                assert np.array_equal(p0, dist.get_parameters()), 'an evaluation changed the distribution'
            if mode != 'mean':
                pool = {tuple(s) for s in draws.samples}
                for es in env.episodes:
                    for e in es:
                        if e['theta'] is not None:
                            assert tuple(e['theta']) in pool, 'parameters that the distribution never drew'
        finally:
            draws.close()
    return '%s-%s' % (x['alg'], x['kind']) if sizes and max(sizes) > 1 else None
