"""C16 - tabular temporal-difference algorithms apply exactly their published update at every step."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.algorithms.value import (DoubleQLearning, ExpectedSARSA, MaxminQLearning, QLearning, RLearning, RQLearning,
                                          SARSA, SpeedyQLearning, WeightedQLearning)
from mushroom_rl.policy import Boltzmann, EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from pbt import tdgen
from pbt.harness import Check

check = Check('C16', rule='a case is a finite problem, a learning-rate schedule and a scripted interaction (episodes with '
              'absorbing and truncated ends); after every step the whole Q-table is compared with the reference update; '
              'non-trivial when some state-action pair is updated twice with a non-zero bootstrap value')


def qtable(Q, S):
    return np.array([np.ravel(Q.predict(np.array([s]))) for s in range(S)])


def run(x, agent, ref, probe=None):
    """ref(s, a, r, ns, absorbing) returns the expected Q after the step; also checks planned actions are executed."""
    S = x['S']
    pol = agent.policy
    seen, boot = {}, [False]

    def observe(s, a, r, ns, absorbing, last, start):
        want = ref(s, a, r, ns, absorbing)
        got = qtable(agent.Q, S)
        assert np.allclose(got, want, rtol=1e-9, atol=1e-9), ('Q after the step', (s, a, r, ns, absorbing), got, want)
        seen[s, a] = seen.get((s, a), 0) + 1
        boot[0] = boot[0] or (not absorbing and np.any(got[ns] != 0.))
    tdgen.interact(x, agent.mdp_info, agent, observe)
    return boot[0] and max(seen.values()) > 1


def build(x, cls, **kw):
    info = tdgen.info(x['S'], x['A'], x['gamma'])
    pol = tdgen.ScriptPolicy(x['script'], x['A'], x['probs'])
    al = tdgen.Alpha(x['alpha'], info.size)
    return cls(info, pol, al.make(), **kw), al, pol


@check.case('onestep', st.tuples(tdgen.scripts(), st.sampled_from(['q', 'expected', 'speedy', 'sarsa'])), quick=700)
def onestep(x):
    x, kind = x
    cls = dict(q=QLearning, expected=ExpectedSARSA, speedy=SpeedyQLearning, sarsa=SARSA)[kind]
    agent, al, pol = build(x, cls)
    g = x['gamma']
    Q = np.zeros((x['S'], x['A']))
    st_ = dict(Q=Q, old=Q.copy(), planned=None)

    def ref(s, a, r, ns, absorbing):
        Q, new = st_['Q'], st_['Q'].copy()
        alpha = al(s, a)
        if st_['planned'] is not None:
            assert st_['planned'] == (s, a), ('the planned action was not executed', st_['planned'], (s, a))
        st_['planned'] = None
        if kind == 'q':
            nxt = Q[ns].max()
        elif kind == 'expected':
            nxt = float(np.dot(Q[ns], x['probs'][ns]))
        elif kind == 'sarsa':
            na = None
            if not absorbing:
                na = int(np.ravel(agent.next_action)[0])
                ds, da = pol.drawn_in[-1]
                assert int(ds[0]) == ns and da == na, 'the next action was not drawn from the policy in the next state'
                nxt = Q[ns, na]
            st_['planned'] = (ns, na) if not absorbing else None
        if kind == 'speedy':
            cur = r + g * (0. if absorbing else Q[ns].max())
            old = r + g * (0. if absorbing else st_['old'][ns].max())
            new[s, a] = Q[s, a] + alpha * (old - Q[s, a]) + (1 - alpha) * (cur - old)
            st_['old'] = Q
        else:
            new[s, a] = Q[s, a] + alpha * (r + g * (0. if absorbing else nxt) - Q[s, a])
        st_['Q'] = new
        return new

    # a planned action belongs to its episode only
    inner = ref

    def ref2(s, a, r, ns, absorbing):
        return inner(s, a, r, ns, absorbing)
    S = x['S']
    seen, boot = {}, [False]

    def observe(s, a, r, ns, absorbing, last, start):
        if start:
            st_['planned'] = None
        want = ref2(s, a, r, ns, absorbing)
        got = qtable(agent.Q, S)
        assert np.allclose(got, want, rtol=1e-9, atol=1e-9), ('Q after the step', (s, a, r, ns, absorbing), got, want)
        seen[s, a] = seen.get((s, a), 0) + 1
        boot[0] = boot[0] or (not absorbing and np.any(got[ns] != 0.))
    tdgen.interact(x, agent.mdp_info, agent, observe)
    assert agent.policy.get_q() is agent.Q
    return kind if boot[0] and max(seen.values()) > 1 else None


@check.case('policies', st.tuples(tdgen.scripts(), st.sampled_from([0., .25, 1.]), st.sampled_from([0., 1., 3.]),
                                  st.booleans()), quick=250)
def policies(x):
    """Expected SARSA bootstraps with the action probabilities of the actual (eps-greedy or Boltzmann) policy."""
    x, eps, beta, greedy = x
    info = tdgen.info(x['S'], x['A'], x['gamma'])
    pol = EpsGreedy(eps) if greedy else Boltzmann(Parameter(beta))
    al = tdgen.Alpha(x['alpha'], info.size)
    agent = ExpectedSARSA(info, pol, al.make())
    st_ = dict(Q=np.zeros((x['S'], x['A'])))

    def ref(s, a, r, ns, absorbing):
        Q, new = st_['Q'], st_['Q'].copy()
        if greedy:
            best = Q[ns] == Q[ns].max()
            p = eps / x['A'] + (1 - eps) * best / best.sum()
        else:
            e = np.exp(beta * (Q[ns] - Q[ns].max()))
            p = e / e.sum()
        new[s, a] += al(s, a) * (r + x['gamma'] * (0. if absorbing else float(p @ Q[ns])) - Q[s, a])
        st_['Q'] = new
        return new
    return ('eps' if greedy else 'boltzmann') if run(x, agent, ref) else None


@check.case('ensembles', st.tuples(tdgen.scripts(), st.sampled_from([0, 1, 2, 3])), quick=500)
def ensembles(x):
    """Double and Maxmin Q-learning: exactly one table is updated, towards the target built from the others."""
    x, n = x
    double = n == 0
    agent, al, pol = build(x, DoubleQLearning) if double else build(x, MaxminQLearning, n_tables=n)
    n = 2 if double else n
    S, A, g = x['S'], x['A'], x['gamma']
    al = None
    # hypotheses: the histories of table choices that are still consistent with what was observed
    import copy
    hyps = [dict(tables=np.zeros((n, S, A)), als=[tdgen.Alpha(x['alpha'], (S, A)) for _ in range(n)])]
    label = [None]
    changed = set()

    def observe(s, a, r, ns, absorbing, last, start):
        got = np.array([[np.ravel(agent.Q.predict(np.array([i]), idx=k)) for i in range(S)] for k in range(n)])
        out = []
        for h in hyps:
            T = h['tables']
            for k in range(n):
                if absorbing:
                    targets = [r]
                elif double:
                    best = np.flatnonzero(T[k][ns] == T[k][ns].max())
                    targets = [r + g * T[1 - k][ns, b] for b in best]
                else:
                    targets = [r + g * T[:, ns].min(0).max()]
                for t in targets:
                    als = copy.deepcopy(h['als'])
                    new = T.copy()
                    new[k, s, a] += als[k](s, a) * (t - T[k, s, a])
                    if np.allclose(new, got, rtol=1e-9, atol=1e-9):
                        key = [sorted(q.n.items()) for q in als]
                        if not any(key == o['key'] for o in out):
                            out.append(dict(tables=got, als=als, key=key, k=k))
        assert out, ('no single-table update explains the step', (s, a, r, ns, absorbing), got, hyps[0]['tables'])
        changed.update(k for k in range(n) if not np.allclose(got[k], hyps[0]['tables'][k]))
        mean = got.mean(0) if double else got.min(0)
        assert np.allclose(qtable(agent.Q, S), mean), 'prediction of the ensemble'
        hyps[:] = out[:64]
        if len(changed) == n:
            label[0] = 'double' if double else 'maxmin%d' % n
    tdgen.interact(x, agent.mdp_info, agent, observe)
    assert agent.policy.get_q() is agent.Q
    return label[0]


@check.case('choice', st.tuples(st.sampled_from([0, 2, 3]), st.integers(0, 10 ** 6)), quick=12)
def choice(x):
    """Every table of the ensemble is chosen (about equally often)."""
    n, _ = x
    steps = [(1, 1., '')] * 300
    y = dict(S=2, A=2, gamma=0., steps=steps, script=[0], probs=[[.5, .5]] * 2, s0=1, alpha=('const', .5))
    agent, al, pol = build(y, DoubleQLearning) if n == 0 else build(y, MaxminQLearning, n_tables=n)
    m = n or 2
    counts = np.zeros(m)
    prev = [[0.] * m]

    def observe(s, a, r, ns, absorbing, last, start):
        got = [float(np.ravel(agent.Q.predict(np.array([1]), idx=k))[0]) for k in range(m)]
        for k in range(m):
            if got[k] != prev[0][k]:
                counts[k] += 1
        prev[0] = got
        if max(got) > .9:
            for k in range(m):
                agent.Q[k][np.array([1]), np.array([0])] = 0.
            prev[0] = [0.] * m
    tdgen.interact(y, agent.mdp_info, agent, observe)
    p = 1. / m
    assert np.all(np.abs(counts - 300 * p) <= 6.5 * np.sqrt(300 * p * (1 - p))), ('table choice', counts)
    return 'n%d' % m


@check.case('rlearning', st.tuples(tdgen.scripts(16), st.tuples(st.sampled_from(['const', 'const', 'table', 'linear']),
                                                             st.sampled_from([.5, .25, 1.]))), quick=400)
def rlearning(x):
    x, bspec = x
    x = dict(x, alpha=('const', x['alpha'][1]))
    bet = tdgen.Alpha(bspec, (x['S'], x['A']))
    agent, al, pol = build(x, RLearning, beta=bspec[1] if bspec[0] == 'const' else bet.make())
    st_ = dict(Q=np.zeros((x['S'], x['A'])), rho=0.)

    def ref(s, a, r, ns, absorbing):
        Q, new = st_['Q'], st_['Q'].copy()
        nxt = 0. if absorbing else Q[ns].max()
        new[s, a] = Q[s, a] + al(s, a) * (r - st_['rho'] + nxt - Q[s, a])
        if new[s, a] == new[s].max():
            st_['rho'] += bet(s, a) * (r + nxt - new[s].max() - st_['rho'])
        st_['Q'] = new
        return new
    return 'r' if run(x, agent, ref) else None


@check.case('rqlearning', st.tuples(tdgen.scripts(), st.booleans(), st.booleans(),
                                    st.tuples(st.sampled_from(['const', 'decay', 'table']), st.sampled_from([1., .5, .25]))),
            quick=400)
def rqlearning(x):
    x, off, use_delta, bspec = x
    bet = tdgen.Alpha(bspec, (x['S'], x['A']))
    agent, al, pol = build(x, RQLearning, off_policy=off, **{'delta' if use_delta else 'beta': bet.make()})
    S, A = x['S'], x['A']
    st_ = dict(Q=np.zeros((S, A)), R=np.zeros((S, A)), T=np.zeros((S, A)))

    def ref(s, a, r, ns, absorbing):
        Q, R, T = st_['Q'], st_['R'], st_['T']
        alpha = al(s, a)
        R[s, a] += alpha * (r - R[s, a])
        if not absorbing:
            if off:
                nxt = Q[ns].max()
            else:
                na = int(np.ravel(agent.next_action)[0])
                assert pol.drawn_in[-1][1] == na and int(pol.drawn_in[-1][0][0]) == ns
                nxt = Q[ns, na]
            b = bet(s, a) * (alpha if use_delta else 1.)
            T[s, a] += b * (nxt - T[s, a])
        st_['Q'] = Q.copy()
        st_['Q'][s, a] = R[s, a] + x['gamma'] * T[s, a]
        return st_['Q']
    return '%s-%s' % ('off' if off else 'on', 'delta' if use_delta else 'beta') if run(x, agent, ref) else None


@check.case('weighted', tdgen.scripts(40), quick=150)
def weighted(x):
    """The bootstrap value is the mean of the action values weighted by the probability of each being the maximum."""
    agent, al, pol = build(x, WeightedQLearning)
    S, A, g = x['S'], x['A'], x['gamma']
    Q, Q2, n, sig = np.zeros((S, A)), np.zeros((S, A)), np.zeros((S, A)), np.full((S, A), 1e10)
    w1, w2 = np.zeros((S, A)), np.zeros((S, A))
    rng = np.random.RandomState(0)
    label = [None]

    def observe(s, a, r, ns, absorbing, last, start):
        got = qtable(agent.Q, S)
        alpha = al(s, a)
        q = got[s, a]
        rest = np.ones((S, A), bool)
        rest[s, a] = False
        assert np.allclose(got[rest], Q[rest]), 'an entry that was not visited changed'
        target = Q[s, a] + (q - Q[s, a]) / alpha
        if absorbing:
            assert np.isclose(target, r, atol=1e-6), ('target of an absorbing step', target, r)
        else:
            m, sd = Q[ns], sig[ns]
            draws = m + sd * rng.randn(8000, A)
            w = np.bincount(draws.argmax(1), minlength=A) / 8000.
            v = r + g * float(w @ m)
            spread = g * (m.max() - m.min())
            tol = spread * 6 * (np.sqrt(.25 / 1000) + np.sqrt(.25 / 8000)) + 1e-6
            assert abs(target - v) <= tol, ('weighted target', target, v, tol, m, sd)
            if spread > 0 and sd.max() < 1e9:
                label[0] = 'estimated'
            elif spread > 0:
                label[0] = label[0] or 'prior'
        Q2[s, a] += alpha * (target ** 2 - Q2[s, a])
        Q[s, a] = q
        n[s, a] += 1
        w2[s, a] = (1 - alpha) ** 2 * w2[s, a] + alpha ** 2
        w1[s, a] = (1 - alpha) * w1[s, a] + alpha
        if n[s, a] > 1:
            sig[s, a] = np.sqrt(max((Q2[s, a] - q ** 2) * w2[s, a] / (w1[s, a] * 2 + 1e-10), 1e-10))
    tdgen.interact(x, agent.mdp_info, agent, observe)
    return label[0]
