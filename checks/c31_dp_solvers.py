"""C31 - the solvers of finite MDPs and of Car-On-Hill return the optimal values."""
import itertools

import numpy as np
from hypothesis import strategies as st

from mushroom_rl.environments.car_on_hill import CarOnHill
from mushroom_rl.solvers.car_on_hill import solve_car_on_hill
from mushroom_rl.solvers.dynamic_programming import policy_iteration, value_iteration
from pbt.harness import Check

check = Check('C31', rule='a case is a random finite MDP (absorbing states, ties, deterministic and random transitions) solved and '
              'compared with exhaustive enumeration of its deterministic policies, or a set of Car-On-Hill states; non-trivial '
              'when at least two policies have different values, or a goal is reached')


@st.composite
def mdps(draw):
    S = draw(st.integers(1, 4))
    A = draw(st.integers(1, 3 if S < 4 else 2))
    p = [None if S > 1 and draw(st.integers(0, 5)) == 0 else
         [draw(st.lists(st.integers(0, 3), min_size=S, max_size=S).filter(any)) for _ in range(A)] for _ in range(S)]
    r = [[[draw(st.integers(-6, 6)) for _ in range(S)] for _ in range(A)] for _ in range(S)]
    return dict(p=p, r=r, S=S, A=A, gamma=draw(st.sampled_from([0., .3, .7, .9, .97])),
                eps=draw(st.sampled_from([1e-1, 1e-3, 1e-7])))


def arrays(x):
    p = np.zeros((x['S'], x['A'], x['S']))
    for s, rows in enumerate(x['p']):
        if rows is not None:
            p[s] = np.array([np.array(w, float) / sum(w) for w in rows])
    return p, np.array(x['r'], float)


def evaluate(p, r, pi, gamma):
    S = len(p)
    P = np.array([p[s, pi[s]] for s in range(S)])
    R = np.array([p[s, pi[s]] @ r[s, pi[s]] for s in range(S)])
    return np.linalg.solve(np.eye(S) - gamma * P, R)


def optimum(p, r, gamma):
    vs = [evaluate(p, r, pi, gamma) for pi in itertools.product(range(p.shape[1]), repeat=len(p))]
    return np.max(vs, 0), len({tuple(np.round(v, 6)) for v in vs}) > 1


@check.case('value_iteration', mdps(), quick=300)
def vi(x):
    p, r = arrays(x)
    p0, r0 = p.copy(), r.copy()
    v = value_iteration(p, r, x['gamma'], x['eps'])
    best, diff = optimum(p0, r0, x['gamma'])
    tol = x['eps'] * x['gamma'] / (1 - x['gamma']) + 1e-8 * (1 + np.abs(best).max())
    assert v.shape == best.shape and np.all(np.abs(v - best) <= tol), ('value', v, best, tol)
    assert np.array_equal(p, p0) and np.array_equal(r, r0), 'the model was changed'
    return 'vi' if diff else None


@check.case('policy_iteration', mdps(), quick=300)
def pi(x):
    p, r = arrays(x)
    p0, r0 = p.copy(), r.copy()
    v, policy = policy_iteration(p, r, x['gamma'])
    best, diff = optimum(p0, r0, x['gamma'])
    policy = np.asarray(policy)
    assert policy.shape == (x['S'],) and all(int(a) == a and 0 <= a < x['A'] for a in policy), ('policy', policy)
    own = evaluate(p0, r0, policy.astype(int), x['gamma'])
    tol = 1e-4 * (1 + np.abs(best).max()) / (1 - x['gamma'])
    assert np.allclose(v, own, atol=1e-6, rtol=1e-6), ('the value is not the one of the policy', v, own, policy)
    assert np.all(np.abs(v - best) <= tol), ('not optimal', v, best, policy)
    assert np.array_equal(p, p0) and np.array_equal(r, r0), 'the model was changed'
    return 'pi' if diff else None


@st.composite
def large_mdps(draw):
    S, A = draw(st.integers(1, 24)), draw(st.integers(1, 7))
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    sparse, scale = draw(st.sampled_from([.2, .6, 1.])), draw(st.sampled_from([1., 1., 1e-2, 1e3]))
    p, r = [], []
    for s in range(S):
        if S > 1 and rng.rand() < .1:
            p.append(None)
        else:
            p.append([])
            for _ in range(A):
                w = rng.randint(1, 9, size=S) * (rng.rand(S) < sparse)
                w[rng.randint(S)] += 1
                p[-1].append([int(v) for v in w])
        r.append((scale * rng.randint(-6, 7, size=(A, S))).tolist())
    return dict(p=p, r=r, S=S, A=A, gamma=draw(st.sampled_from([0., .3, .7, .9, .99])),
                eps=scale * draw(st.sampled_from([1., 1e-1, 1e-3, 1e-6])))


def fixpoint(p, r, gamma):
    """Optimal values by policy improvement from exact evaluations, certified by the optimality equation."""
    R = np.einsum('ijk,ijk->ij', p, r)
    pi, scale = np.zeros(len(p), int), 1e-9 * (1 + np.abs(R).max())
    for _ in range(500):
        v = evaluate(p, r, pi, gamma)
        q = R + gamma * p @ v
        if np.all(q.max(1) - v <= scale):
            return v, bool(np.ptp(q, axis=1).max() > 1e-6)
        pi = np.where(q.max(1) > q[np.arange(len(p)), pi] + scale / 10, q.argmax(1), pi)
    raise RuntimeError('reference did not converge')


@check.case('large models', large_mdps(), quick=120)
def large(x):
    p, r = arrays(x)
    p0, r0 = p.copy(), r.copy()
    best, diff = fixpoint(p0, r0, x['gamma'])
    amp = 1e-2 + np.abs(best).max() + np.abs(r).max()
    v = value_iteration(p, r, x['gamma'], x['eps'])
    tol = x['eps'] * x['gamma'] / (1 - x['gamma']) + 1e-7 * amp
    assert v.shape == best.shape and np.all(np.abs(v - best) <= tol), ('value iteration', v, best, tol)
    v, policy = policy_iteration(p, r, x['gamma'])
    own = evaluate(p0, r0, np.asarray(policy).astype(int), x['gamma'])
    assert np.allclose(v, own, atol=1e-6 * amp, rtol=1e-6), ('the value is not the one of the policy', v, own, policy)
    assert np.all(np.abs(v - best) <= 1e-4 * amp / (1 - x['gamma'])), ('policy iteration is not optimal', v, best)
    assert np.array_equal(p, p0) and np.array_equal(r, r0), 'the model was changed'
    return 'S%d' % x['S'] if diff else None


@st.composite
def cars(draw):
    u = st.integers(-32, 32).map(lambda v: v / 32)
    near = st.tuples(st.integers(8, 31).map(lambda v: v / 32), st.integers(0, 31).map(lambda v: 3 * v / 32))
    any_ = st.tuples(u, u.map(lambda v: 2.9 * v))
    n = draw(st.sampled_from([1, 2, 3, 9]))
    return dict(s=[draw(st.one_of(near, any_)) for _ in range(n)], a=[draw(st.integers(0, 1)) for _ in range(n)],
                gamma=draw(st.sampled_from([.95, .5])), max_k=draw(st.integers(2, 7)))


def steps_to_goal(env, s, a, limit):
    """Smallest number of steps (the first being ``a``) reaching the top, or None if more than ``limit``; and first reward."""
    env.reset(np.array(s))
    o, r, _, _ = env.step(np.array([a]))
    first = r
    if r != 0:
        return (1 if r == 1 else None), first
    front = [np.array(o)]
    for k in range(2, limit + 1):
        new = []
        for f in front:
            for b in (0, 1):
                env.reset(f.copy())
                o, r, _, _ = env.step(np.array([b]))
                if r == 1:
                    return k, first
                if r == 0:
                    new.append(np.array(o))
        front = new
    return None, first


@check.case('car_on_hill', cars(), quick=60)
def car(x):
    states = np.array(x['s'])
    actions = np.array(x['a']).reshape(-1, 1)
    q = solve_car_on_hill(CarOnHill(), states, actions, x['gamma'], max_k=x['max_k'])
    assert len(q) == len(states)
    assert np.array_equal(states, np.array(x['s']))
    env = CarOnHill()
    hit = False
    for v, s, a in zip(q, x['s'], x['a']):
        k, first = steps_to_goal(env, s, a, x['max_k'] - 1)
        if k is not None:
            assert np.isclose(v, x['gamma'] ** (k - 1)), ('goal in %d steps' % k, s, a, v)
            hit = True
        else:
            assert v < 0, ('no goal within max_k', s, a, v)
            if first == -1:
                assert v == -1, ('immediate failure', s, a, v)
    return 'goal' if hit else None
