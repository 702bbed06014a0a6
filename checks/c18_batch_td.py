"""C18 - fitted Q-iteration (plain, double, boosted) and LSPI compute exactly their fixed-data iterations."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.algorithms.value import FQI, BoostedFQI, DoubleFQI, LSPI
from mushroom_rl.core import Dataset, MDPInfo, Serializable
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete
from pbt.harness import Check

check = Check('C18', rule='a case is a batch of transitions (absorbing and truncated ends, repeated state-action pairs), an '
              'algorithm and a number of iterations over one or two fits; the resulting action values are compared with the '
              'iteration computed on plain tables; non-trivial when a bootstrap value is non-zero at the last iteration')

quarter = st.integers(-16, 16).map(lambda v: v / 4.)


class Averager(Serializable):
    """Exact averaging regressor on states that are used as keys; 0 where it has no data."""
    def __init__(self, input_shape, output_shape, **kw):
        self.table = {}
        self._add_save_attr(table='pickle')

    def fit(self, x, y, **kw):
        acc = {}
        for s, t in zip(np.asarray(x)[:, 0], np.ravel(y)):
            acc.setdefault(float(s), []).append(float(t))
        self.table = {s: float(np.mean(v)) for s, v in acc.items()}

    def predict(self, x, **kw):
        return np.array([[self.table.get(float(s), 0.)] for s in np.asarray(x)[:, 0]])


def info(A, gamma, d=1):
    return MDPInfo(Box(-100 * np.ones(d), 100 * np.ones(d)), Discrete(A), gamma, 1000)


@st.composite
def batches(draw, min_size=2, unique=False):
    A, S = draw(st.sampled_from([2, 2, 3, 3, 5])), draw(st.sampled_from([2, 3, 4, 4, 8]))
    rows = draw(st.lists(st.tuples(st.integers(0, S - 1), st.integers(0, A - 1), quarter, st.integers(0, S - 1),
                                   st.sampled_from(['', '', '', 'abs', 'trunc'])), min_size=min_size, max_size=14,
                         unique_by=(lambda r: (r[0], r[1])) if unique else None))
    more = draw(st.sampled_from([0, 0, 0, 30, 80]))
    if more:
        rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
        ends = ['', '', '', '', 'abs', 'trunc']
        rows = rows + [(int(rng.randint(S)), int(rng.randint(A)), rng.randint(-64, 65) / 16., int(rng.randint(S)), ends[rng.randint(6)])
                       for _ in range(more)]
        if unique:
            rows = list({(r[0], r[1]): r for r in rows}.values())
    return dict(A=A, S=S, rows=rows, gamma=draw(st.sampled_from([1., .5, .75])), iters=draw(st.sampled_from([1, 2, 3, 4, 12])),
                fits=draw(st.integers(1, 3)), param=draw(st.booleans()))


def dataset(x, mdp_info, agent, rows=None):
    rows = x['rows'] if rows is None else rows
    d = Dataset.generate(mdp_info, agent.info, n_steps=len(rows))
    for s, a, r, ns, end in rows:
        d.append((np.array([float(s)]), np.array([a]), r, np.array([float(ns)]), end == 'abs', end != '', None, None), {})
    return d


def fit_table(S, A, rows, targets):
    Q = np.zeros((S, A))
    for s in range(S):
        for a in range(A):
            v = [t for (rs, ra, *_), t in zip(rows, targets) if rs == s and ra == a]
            if v:
                Q[s, a] = np.mean(v)
    return Q


def keep_untrained(Q, new, rows):
    """An action regressor without data in a fit keeps its previous model."""
    for a in range(Q.shape[1]):
        if not any(r[1] == a for r in rows):
            new[:, a] = Q[:, a]
    return new


def snapshot(d):
    return [np.array(c, dtype=float).copy() for c in d.parse(to='numpy')]


def make(cls, x, n=None, prediction=None):
    mi = info(x['A'], x['gamma'])
    params = dict(input_shape=(1,), n_actions=x['A'])
    if n:
        params.update(n_models=n, prediction=prediction)
    it = Parameter(x['iters']) if x['param'] else x['iters']
    if cls is BoostedFQI:
        it = x['iters']
    return mi, cls(mi, EpsGreedy(0.), Averager, it, approximator_params=params, quiet=True)


def states(S):
    return np.arange(S, dtype=float)[:, None]


@check.case('fqi', batches(), quick=500)
def fqi(x):
    S, A, g = x['S'], x['A'], x['gamma']
    mi, agent = make(FQI, x)
    Q, first, boot = np.zeros((S, A)), True, False
    for f in range(x['fits']):
        rows = x['rows'] if f % 2 == 0 else x['rows'][::2]
        d = dataset(x, mi, agent, rows)
        before = snapshot(d)
        agent.fit(d)
        for p, q in zip(before, snapshot(d)):
            assert np.array_equal(p, q), 'the dataset was changed by the fit'
        for _ in range(x['iters']):
            t = [r if first else r + g * (0. if e == 'abs' else Q[ns].max()) for _, _, r, ns, e in rows]
            boot = boot or (not first and any(Q[ns].max() != 0 for _, _, _, ns, e in rows if e != 'abs'))
            first = False
            Q = keep_untrained(Q, fit_table(S, A, rows, t), rows)
        got = agent.approximator.predict(states(S))
        assert np.allclose(got, Q, rtol=1e-9, atol=1e-9), ('fitted Q', f, got, Q)
    assert agent.policy.get_q() is agent.approximator
    return 'fqi' if boot else None


@check.case('double', batches(), quick=400)
def double(x):
    S, A, g = x['S'], x['A'], x['gamma']
    mi, agent = make(DoubleFQI, x)
    d = dataset(x, mi, agent)
    before = snapshot(d)
    agent.fit(d)
    for p, q in zip(before, snapshot(d)):
        assert np.array_equal(p, q), 'the dataset was changed by the fit'
    half = len(x['rows']) // 2
    parts = [x['rows'][:half], x['rows'][half:2 * half]]
    Q, boot = [np.zeros((S, A)), np.zeros((S, A))], False
    for k in range(x['iters']):
        new = []
        for i in range(2):
            t = []
            for _, _, r, ns, e in parts[i]:
                if k == 0 or e == 'abs':
                    t.append(r)
                else:
                    best = np.flatnonzero(Q[i][ns] >= Q[i][ns].max() - 1e-9)
                    vals = Q[1 - i][ns][best]
                    if np.ptp(vals) > 1e-9:
                        return None            # the choice among tied actions is not specified
                    boot = boot or vals[0] != 0
                    t.append(r + g * vals[0])
            new.append(keep_untrained(Q[i], fit_table(S, A, parts[i], t), parts[i]))
        Q = new
    for i in range(2):
        got = agent.approximator.predict(states(S), idx=i)
        assert np.allclose(got, Q[i], rtol=1e-9, atol=1e-9), ('model', i, got, Q[i])
    return 'double' if boot else None


@check.case('boosted', batches(unique=True), quick=400)
def boosted(x):
    """With a regressor that fits its data exactly, the sum of the boosted models is the FQI solution."""
    x = dict(x, fits=1)
    S, A, g = x['S'], x['A'], x['gamma']
    mi, agent = make(BoostedFQI, x, n=x['iters'], prediction='sum')
    d = dataset(x, mi, agent)
    before = snapshot(d)
    agent.fit(d)
    for p, q in zip(before, snapshot(d)):
        assert np.array_equal(p, q), 'the dataset was changed by the fit'
    Q, boot = np.zeros((S, A)), False
    for k in range(x['iters']):
        t = [r if k == 0 else r + g * (0. if e == 'abs' else Q[ns].max()) for _, _, r, ns, e in x['rows']]
        boot = boot or (k > 0 and any(Q[ns].max() != 0 for _, _, _, ns, e in x['rows'] if e != 'abs'))
        Q = fit_table(S, A, x['rows'], t)
    got = agent.approximator.predict(states(S))
    assert np.allclose(got, Q, rtol=1e-9, atol=1e-9), ('sum of the models', got, Q)
    return 'boosted' if boot else None


def run_lspi(A, gamma, S, acts, R, NS, ab, w0, eps=1e-6):
    mi = info(A, gamma, S.shape[1])
    agent = LSPI(mi, EpsGreedy(0.), approximator_params=dict(input_shape=(S.shape[1],), output_shape=(A,), n_actions=A),
                 epsilon=Parameter(eps) if A == 2 else eps)
    agent.approximator.set_weights(w0.copy())
    d = Dataset.generate(mi, agent.info, n_steps=len(S))
    for i in range(len(S)):
        d.append((S[i], acts[i:i + 1], float(R[i]), NS[i], bool(ab[i]), bool(ab[i]), None, None), {})
    agent.fit(d)
    return agent


def lspi_reference(A, gamma, S, acts, R, NS, ab, w, eps, masked=True):
    """masked=False is the recorded defect: absorbing steps bootstrap from action 0 of their next state."""
    d = S.shape[1]

    def feats(s, a):
        f = np.zeros((len(s), A, d))
        f[np.arange(len(s)), a] = s
        return f.reshape(len(s), -1)
    F = feats(S, acts)
    for _ in range(60):
        na = (NS @ w.reshape(A, d).T).argmax(1)
        if not masked:
            na[ab > 0] = 0
        M = F.T @ (F - gamma * feats(NS, na) * (1 - ab * masked)[:, None])
        sv = np.linalg.svd(M, compute_uv=False) / max(np.linalg.norm(M, 2), 1e-12)
        if np.any((sv > 1e-13) & (sv < 1e-6)):
            return None
        # the least-squares solution of least norm, where some weights are not determined by the data
        new = np.linalg.pinv(M, rcond=1e-9) @ (F.T @ R)
        if np.linalg.norm(new - w) <= eps:
            return new
        w = new
    return None


@check.case('lspi', st.tuples(st.integers(0, 2 ** 31 - 1), st.integers(2, 4), st.integers(12, 120), st.sampled_from([0., .3, .6, .9]),
                               st.sampled_from([0, 0, 3, 5]), st.integers(1, 4), st.sampled_from([1e-6, 1e-6, .3]), st.sampled_from([0, 0, 0, 1])), quick=300)
def lspi(x):
    seed, A, n, gamma, every, dim, eps, unused = x
    rng = np.random.RandomState(seed)
    S, NS, R = rng.randn(n, dim), rng.randn(n, dim), rng.randn(n)
    acts, ab = rng.randint(0, A - unused, n), np.zeros(n)
    if every:
        ab[::every] = 1.
    w0 = rng.randn(A * dim)
    want = lspi_reference(A, gamma, S, acts, R, NS, ab, w0, eps)
    known = lspi_reference(A, gamma, S, acts, R, NS, ab, w0, eps, masked=False) if every else want
    if want is None or known is None:
        return None
    agent = run_lspi(A, gamma, S, acts, R, NS, ab, w0, eps)
    got = agent.approximator.get_weights()
    # batches with absorbing steps: the recorded defect (see lspi_absorbing) is tolerated, any other result is not
    assert any(np.allclose(got, v, rtol=1e-5, atol=1e-5) for v in (want, known)), ('LSPI weights', got, want, known)
    return 'A%d-%s%s' % (A, 'absorbing' if every else 'plain', '-undetermined' * unused)


@check.known('lspi-absorbing', 'LSPI bootstraps from the next state of absorbing transitions (its A matrix does not mask '
             'them; tests/algorithms/test_lspi.py pins the resulting weights)')
def lspi_absorbing():
    rng = np.random.RandomState(3)
    n, A, gamma = 30, 2, .9
    S, NS, R, acts = rng.randn(n, 2), rng.randn(n, 2), rng.randn(n), rng.randint(0, A, n)
    ab = (np.arange(n) % 3 == 0).astype(float)
    w0 = rng.randn(4)
    want = lspi_reference(A, gamma, S, acts, R, NS, ab, w0, 1e-6)
    assert want is not None
    agent = run_lspi(A, gamma, S, acts, R, NS, ab, w0)
    assert np.allclose(agent.approximator.get_weights(), want, rtol=1e-4, atol=1e-4)
