"""C21 - value-based policies: probabilities, sampling and exploration schedules follow the action values."""
import numpy as np
from hypothesis import strategies as st
from scipy.special import logsumexp

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.approximators.table import Table
from mushroom_rl.policy import Boltzmann, EpsGreedy, Mellowmax
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from pbt.harness import Check

check = Check('C21', rule='a case is a table or linear action-value function (with ties), a policy with constant or '
              'scheduled (per state) exploration and a sequence of draws, evaluations and updates; probabilities are compared '
              'with the definition at the exploration value of that moment and draws with the probabilities; non-trivial '
              'when action values differ')

half = st.integers(-8, 8).map(lambda v: v / 2.)


@st.composite
def qs(draw):
    S, A = draw(st.sampled_from([2, 3, 4, 7])), draw(st.sampled_from([2, 3, 4, 9]))
    return dict(S=S, A=A, q=[[draw(half) for _ in range(A)] for _ in range(S)], linear=draw(st.booleans()))


def approximator(x):
    """(approximator, state builder)"""
    q = np.array(x['q'])
    if not x['linear']:
        t = Table((x['S'], x['A']))
        t.table[:] = q
        return t, (lambda s: np.array([s]))
    r = Regressor(LinearApproximator, input_shape=(x['S'],), output_shape=(x['A'],), n_actions=x['A'])
    r.set_weights(q.T.ravel().copy())
    return r, (lambda s: np.eye(x['S'])[s])


class Eps(object):
    """Exploration parameter and its twin."""
    def __init__(self, spec, S):
        self.kind, self.v = spec
        self.per_state = self.kind in ('linear_s', 'decay_s')
        self.S, self.n = S, {}

    def make(self):
        if self.kind == 'const':
            return Parameter(self.v)
        size = (self.S,) if self.per_state else (1,)
        if self.kind.startswith('linear'):
            return LinearParameter(self.v, .125, 10, size=size)
        return DecayParameter(self.v, exp=1., size=size)

    def at(self, s):
        k = self.n.get(s if self.per_state else 0, 0)
        if self.kind == 'const':
            return self.v
        if self.kind.startswith('linear'):
            w = self.v + (.125 - self.v) * k / 10.
            return max(w, .125) if self.v > .125 else min(w, .125)
        return self.v / max(k, 1)

    def bump(self, s):
        s = s if self.per_state else 0
        self.n[s] = self.n.get(s, 0) + 1


def close_counts(counts, p, n, what):
    for a in range(len(p)):
        sd = np.sqrt(n * p[a] * (1 - p[a]))
        assert abs(counts[a] - n * p[a]) <= 6.5 * sd + 1e-9 + 2 * (1e-9 < p[a] < .01), (what, counts, n * p)


OPS = ['draw', 'draw', 'prob', 'action', 'update', 'learn', 'set']
kinds = st.sampled_from(['const', 'const', 'linear', 'decay', 'linear_s', 'decay_s'])


@check.case('eps_greedy', st.tuples(qs(), st.tuples(kinds, st.sampled_from([0., .25, .5, 1.])), st.lists(st.tuples(
    st.sampled_from(OPS), st.integers(0, 6), st.integers(0, 8)), max_size=15),
    st.booleans(), st.sampled_from([0, 0, 0, 40, 150]), st.integers(0, 10 ** 6)), quick=300)
def eps_greedy(x):
    x, spec, ops, as_float, more, seed = x
    q = np.array(x['q'])
    rng = np.random.RandomState(seed)
    ops = ops + [(OPS[rng.randint(len(OPS) - 1)], int(rng.randint(9)), int(rng.randint(9))) for _ in range(more)]
    if x['linear'] and spec[0].endswith('_s'):
        spec = (spec[0][:-2], spec[1])
    app, mk = approximator(x)
    tw = Eps(spec, x['S'])
    pi = EpsGreedy(spec[1] if as_float and spec[0] == 'const' else tw.make())
    pi.set_q(app)
    assert pi.get_q() is app

    def idx(s):
        return () if not tw.per_state else (mk(s),)

    def expected(s):
        e = tw.at(s)
        best = q[s] == q[s].max()
        return e / x['A'] + (1 - e) * best / best.sum()
    for op, s, a in ops:
        s, a = s % x['S'], a % x['A']
        if op == 'draw':
            tw.bump(s)
            p = expected(s)
            act, ps = pi.draw_action(mk(s))
            assert act.shape == (1,) and 0 <= int(act[0]) < x['A'] and ps is None
            assert p[int(act[0])] > 0, ('an action of probability zero was drawn', act, p)
        elif op == 'update':
            tw.bump(s)
            pi.update(*idx(s))
        elif op == 'learn':      # the action values change under the policy
            q[s, a] += [1., -.5][seed % 2]
            if x['linear']:
                app.set_weights(q.T.ravel().copy())
            else:
                app[mk(s), np.array([a])] = q[s, a]
        elif op == 'set':
            tw = Eps(('const', [0., .5, 1.][a % 3]), x['S'])
            pi.set_epsilon(tw.make())
        elif tw.kind in ('const', 'linear_s', 'decay_s') or not x['linear']:
            if op == 'prob':
                assert np.allclose(pi(mk(s)), expected(s)), ('probabilities', pi(mk(s)), expected(s))
            else:
                assert np.allclose(pi(mk(s), np.array([a])), expected(s)[a]), ('probability', a)
    s = len(ops) % x['S']
    n = 300
    tw = Eps(('const', spec[1]), x['S'])
    pi.set_epsilon(spec[1])
    counts = np.bincount([int(pi.draw_action(mk(s))[0][0]) for _ in range(n)], minlength=x['A'])
    close_counts(counts, expected(s), n, 'draws')
    return spec[0] if np.ptp(q) > 0 and ops else None


@check.case('boltzmann', st.tuples(qs(), st.sampled_from([0., .5, 1., 4., 400.]), st.booleans(), st.integers(0, 3)), quick=200)
def boltzmann(x):
    x, beta, as_float, s = x
    q, s = np.array(x['q']), s % x['S']
    app, mk = approximator(x)
    pi = Boltzmann(beta if as_float else Parameter(beta))
    pi.set_q(app)
    for b in (beta, .5):
        want = np.exp(b * q[s] - logsumexp(b * q[s]))
        got = pi(mk(s))
        assert np.allclose(got, want, atol=1e-10) and np.isclose(np.sum(got), 1.), (got, want)
        for a in range(x['A']):
            assert np.allclose(pi(mk(s), np.array([a])), want[a], atol=1e-10)
        assert np.allclose(app.predict(mk(s)), q[s]), 'evaluating the policy changed the action values'
        n = 300
        counts = np.bincount([int(pi.draw_action(mk(s))[0][0]) for _ in range(n)], minlength=x['A'])
        close_counts(counts, want, n, 'draws')
        pi.set_beta(.5)
    # the inverse temperature follows its schedule: one update per evaluation
    pi.set_beta(DecayParameter(2., exp=1., size=(x['S'],) if not x['linear'] else (1,)))
    for k in range(1, 4):
        b = 2. / k
        assert np.allclose(pi(mk(s)), np.exp(b * q[s] - logsumexp(b * q[s]))), ('scheduled beta', k)
    return 'b%g' % beta if np.ptp(q[s]) > 0 else None


@check.case('mellowmax', st.tuples(qs(), st.sampled_from([.5, 1., 3., 5.]), st.integers(0, 3)), quick=150)
def mellowmax(x):
    """The Boltzmann policy whose expected action value equals the mellowmax of the action values."""
    x, omega, s = x
    q, s = np.array(x['q']), s % x['S']
    app, mk = approximator(x)
    pi = Mellowmax(Parameter(omega), beta_min=-60., beta_max=60.)
    pi.set_q(app)
    p = pi(mk(s))
    assert np.isclose(p.sum(), 1.) and np.all(p >= 0)
    mm = (logsumexp(omega * q[s]) - np.log(x['A'])) / omega
    assert np.isclose(p @ q[s], mm, atol=1e-6), ('expected value', p @ q[s], mm)
    lq = np.log(np.maximum(p, 1e-300))
    # softmax form: log-probabilities are affine in the action values
    vals = np.unique(q[s])
    if len(vals) > 2 and p.min() > 1e-12:
        b = (lq[q[s] == vals[-1]][0] - lq[q[s] == vals[0]][0]) / (vals[-1] - vals[0])
        assert np.allclose(lq - lq[0], b * (q[s] - q[s][0]), atol=1e-6)
    assert np.allclose(app.predict(mk(s)), q[s])
    n = 200
    counts = np.bincount([int(pi.draw_action(mk(s))[0][0]) for _ in range(n)], minlength=x['A'])
    close_counts(counts, p, n, 'draws')
    for f in (lambda: pi.set_beta(1.), lambda: pi.update()):
        try:
            f()
        except RuntimeError:
            pass
        else:
            raise AssertionError('the beta of Mellowmax must not be changed')
    return 'w%g' % omega if np.ptp(q[s]) > 0 else None
