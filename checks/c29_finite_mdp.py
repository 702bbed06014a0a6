"""C29 - finite MDPs follow their transition model, and the generators build the documented model."""
import os

import numpy as np
from hypothesis import strategies as st

from mushroom_rl.environments.finite_mdp import FiniteMDP
from mushroom_rl.environments.generators import generate_grid_world, generate_simple_chain, generate_taxi
from pbt.harness import Check

check = Check('C29', rule='a case is a random finite MDP (with absorbing states) and a history of resets and steps, or a random '
              'chain, grid or taxi map with its parameters; non-trivial when the walk makes at least 3 steps or the map has a '
              'wall, a border and a goal reachable from the start')

q = st.integers(-8, 8).map(lambda v: v / 2.)


@st.composite
def mdps(draw):
    S, A = draw(st.integers(1, 5)), draw(st.integers(1, 3))
    p = []
    for s in range(S):
        if S > 1 and draw(st.integers(0, 4)) == 0:
            p.append(None)
        else:
            p.append([draw(st.lists(st.integers(0, 4), min_size=S, max_size=S).filter(any)) for _ in range(A)])
    if all(v is None for v in p):
        p[0] = [[1] * S] * A
    big = draw(st.sampled_from([0, 0, 0, 0, 30]))
    if big:         # a larger model, expanded from a seed; some states offer only some of the actions
        rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
        S, A = S + int(rng.randint(6, big)), A + int(rng.randint(3))
        p = [None if s and rng.randint(6) == 0 else [[int(v) for v in rng.randint(0, 5, S) * (rng.rand(S) < .3)] for _ in range(A)]
             for s in range(S)]
        for s in range(S):
            if p[s] is not None:
                p[s][rng.randint(A)][rng.randint(S)] += 1
    elif draw(st.integers(0, 3)) == 0:
        for s in range(S):
            if p[s] is not None and A > 1:
                p[s][draw(st.integers(0, A - 1))] = [0] * S
                if not any(map(any, p[s])):
                    p[s][-1][0] = 1
    ops = draw(st.lists(st.one_of(st.just(('reset',)), st.tuples(st.just('reset_to'), st.integers(0, S - 1)),
                                  st.tuples(st.just('step'), st.integers(0, A - 1))), min_size=1, max_size=25))
    if draw(st.booleans()):
        ops = ops + [('step', k) for k in draw(st.lists(st.integers(0, A - 1), min_size=10, max_size=40))]
    mu = draw(st.one_of(st.none(), st.lists(st.integers(0, 3), min_size=S, max_size=S).filter(any)))
    return dict(S=S, A=A, p=p, mu=mu, ops=ops, many=draw(st.tuples(st.integers(0, S - 1), st.integers(0, A - 1))),
                gamma=draw(st.sampled_from([.5, .9, 1.])), horizon=draw(st.sampled_from([3, 100, float('inf')])))


def arrays(x):
    S, A = x['S'], x['A']
    p = np.zeros((S, A, S))
    for s in range(S):
        if x['p'][s] is not None:
            for a in range(A):
                w = np.array(x['p'][s][a], float)
                p[s, a] = w / max(w.sum(), 1.)
    # the reward identifies the transition: it tells which state and action the environment really used
    r = 1. + np.arange(S * A * S).reshape(S, A, S)
    mu = None if x['mu'] is None else np.array(x['mu'], float) / sum(x['mu'])
    return p, r, mu


def one(v):
    v = np.asarray(v)
    assert v.shape == (1,), ('a state is an array with one integer', v)
    assert v[0] == int(v[0])
    return int(v[0])


def frequencies(counts, prob, what):
    n = sum(counts)
    bound = np.sqrt(np.log(2e11) / (2 * n))
    f = np.array(counts) / n
    assert not np.any((f > 0) & (prob == 0)), (what, 'an impossible outcome happened', f, prob)
    assert np.all(np.abs(f - prob) <= bound), (what, f, prob)


@check.case('walk', mdps(), quick=350)
def walk(x):
    p, r, mu = arrays(x)
    p0, r0 = p.copy(), r.copy()
    S, A = x['S'], x['A']
    env = FiniteMDP(p, r, mu, x['gamma'], x['horizon'])
    assert env.info.observation_space.n == S and env.info.action_space.n == A
    assert env.info.gamma == x['gamma'] and env.info.horizon == x['horizon']
    start = np.full(S, 1. / S) if mu is None else mu
    seen = []
    steps = 0
    obs, _ = env.reset()
    cur = one(obs)
    assert start[cur] > 0, ('initial state', cur, start)
    for op in x['ops']:
        if op[0] == 'reset':
            obs, _ = env.reset()
            cur = one(obs)
            assert start[cur] > 0, ('initial state', cur, start)
        elif op[0] == 'reset_to':
            given = np.array([op[1]])
            obs, _ = env.reset(given)
            cur = one(obs)
            assert cur == op[1] and given[0] == op[1], ('reset to a given state', obs, given, op)
        else:
            if not p0[cur].any():
                obs, _ = env.reset()
                cur = one(obs)
                continue
            if not p0[cur, op[1]].any():
                continue
            obs, rew, absorbing, info = env.step(np.array([op[1]]))
            nxt = one(obs)
            assert p0[cur, op[1], nxt] > 0, ('impossible transition', cur, op[1], nxt)
            assert rew == r0[cur, op[1], nxt], ('reward', cur, op[1], nxt, rew)
            assert bool(absorbing) == (not p0[nxt].any()), ('absorbing', nxt, absorbing)
            cur = nxt
            steps += 1
        seen.append((obs, cur))
    assert all(one(o) == c for o, c in seen), 'an observation already returned was changed later'
    assert np.array_equal(p, p0) and np.array_equal(r, r0), 'the model was changed'
    s, a = x['many']
    if p0[s, a].any():
        counts = [0] * S
        for _ in range(250):
            env.reset(np.array([s]))
            o, rew, _, _ = env.step(np.array([a]))
            assert rew == r0[s, a, one(o)]
            counts[one(o)] += 1
        frequencies(counts, p0[s, a], ('transition', s, a))
    counts = [0] * S
    for _ in range(250):
        counts[one(env.reset()[0])] += 1
    frequencies(counts, start, 'initial')
    return 'walk' if steps >= 3 else None


@st.composite
def chains(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 7, 25]))
    return dict(n=n, goals=draw(st.lists(st.integers(0, n - 1), unique=True, max_size=6)),
                prob=draw(st.sampled_from([0., .3, .8, 1.])), rew=draw(q), gamma=draw(st.sampled_from([.5, .9])),
                horizon=draw(st.sampled_from([5, 100])), mu=draw(st.booleans()))


def match(env, model_p, model_r):
    assert env.p.shape == model_p.shape and np.allclose(env.p, model_p, atol=1e-12), ('transition model', env.p, model_p)
    pos = model_p > 0
    assert np.allclose(env.r[pos], model_r[pos], atol=1e-12), ('reward model', np.argwhere(pos & (env.r != model_r)))


@check.case('chain', chains(), quick=200)
def chain(x):
    n, goals, prob = x['n'], x['goals'], x['prob']
    mu = None
    if x['mu']:
        mu = np.zeros(n)
        mu[n // 2] = 1.
    env = generate_simple_chain(n, list(goals), prob, x['rew'], mu=mu, gamma=x['gamma'], horizon=x['horizon'])
    p, r = np.zeros((n, 2, n)), np.zeros((n, 2, n))
    for s in range(n):
        for a, d in enumerate((1, -1)):
            t = s + d
            if 0 <= t < n:
                p[s, a, t] += prob
                p[s, a, s] += 1 - prob
                if t in goals:
                    r[s, a, t] = x['rew']
            else:
                p[s, a, s] = 1.
    match(env, p, r)
    assert env.info.gamma == x['gamma'] and env.info.horizon == x['horizon']
    assert (env.mu is None) == (mu is None) and (mu is None or np.array_equal(env.mu, mu))
    return 'chain' if goals and n > 2 else None


def cells(rows):
    return [(i, j) for i, row in enumerate(rows) for j, c in enumerate(row) if c != '#']


@st.composite
def maps(draw, chars, extra=()):
    h, w = draw(st.sampled_from([1, 2, 3, 4, 5, 9])), draw(st.sampled_from([1, 2, 3, 4, 5, 8]))
    rows = [[draw(st.sampled_from(chars)) for _ in range(w)] for _ in range(h)]
    pos = draw(st.permutations([(i, j) for i in range(h) for j in range(w)]))
    must = ['S', 'G'] + list(extra)
    while len(pos) < len(must):
        rows.append([draw(st.sampled_from(chars)) for _ in range(w)])
        pos = [(i, j) for i in range(len(rows)) for j in range(w)]
    for c, (i, j) in zip(must, pos):
        rows[i][j] = c
    return dict(rows=[''.join(r) for r in rows], newline=draw(st.booleans()), prob=draw(st.sampled_from([.2, .5, .9, 1.])),
                pos=draw(q), neg=draw(q), gamma=draw(st.sampled_from([.5, .9])), horizon=draw(st.sampled_from([5, 100])))


def write(x):
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'grid.txt')
    with open(path, 'w') as f:
        f.write('\n'.join(x['rows']) + ('\n' if x['newline'] else ''))
    return path


DIRS = [(-1, 0), (1, 0), (0, -1), (0, 1)]


@check.case('grid', maps('..#SG*'), quick=250)
def grid(x):
    rows = x['rows']
    env = generate_grid_world(write(x), x['prob'], x['pos'], x['neg'], gamma=x['gamma'], horizon=x['horizon'])
    cs = cells(rows)
    n = len(cs)
    p, r, mu = np.zeros((n, 4, n)), np.zeros((n, 4, n)), np.zeros(n)
    for s, (i, j) in enumerate(cs):
        if rows[i][j] == 'S':
            mu[s] = 1.
        if rows[i][j] in 'G*':
            continue
        for a, (di, dj) in enumerate(DIRS):
            if (i + di, j + dj) in cs:
                t = cs.index((i + di, j + dj))
                p[s, a, t] += x['prob']
                p[s, a, s] += 1 - x['prob']
                r[s, a, t] = {'G': x['pos'], '*': x['neg']}.get(rows[i + di][j + dj], 0.)
            else:
                p[s, a, s] = 1.
    match(env, p, r)
    assert np.allclose(env.mu, mu / mu.sum()), ('initial distribution', env.mu, mu)
    assert env.info.gamma == x['gamma'] and env.info.horizon == x['horizon']
    return 'grid' if len(rows) > 1 and any('#' in r for r in rows) else None


@st.composite
def taxis(draw):
    k = draw(st.sampled_from([1, 2, 2, 3]))
    x = draw(maps(draw(st.sampled_from(['...#G', '...#GS'])), ['F'] * k))
    k = sum(r.count('F') for r in x['rows'])
    x['rew'] = [draw(st.integers(0, 20)) for _ in range(k + 1)]
    return x


@check.case('taxi', taxis(), quick=150)
def taxi(x):
    rows = x['rows']
    env = generate_taxi(write(x), prob=x['prob'], rew=tuple(x['rew']), gamma=x['gamma'], horizon=x['horizon'])
    cs = cells(rows)
    fs = [c for c in cs if rows[c[0]][c[1]] == 'F']
    n, k = len(cs), len(fs)

    def index(cell, got):
        return cs.index(cell) + n * sum(2 ** (k - 1 - b) for b in range(k) if got[b])

    def move(cell, got, d):
        t = (cell[0] + d[0], cell[1] + d[1])
        if t not in cs:
            return cell, got
        return t, tuple(g or fs[b] == t for b, g in enumerate(got))

    assert env.p.shape == (n * 2 ** k, 4, n * 2 ** k), env.p.shape
    starts = [c for c in cs if rows[c[0]][c[1]] == 'S']
    mu = np.zeros(n * 2 ** k)
    todo = []
    for c in starts:
        mu[index(c, (False,) * k)] = 1. / len(starts)
        todo.append((c, (False,) * k))
    assert np.allclose(env.mu, mu), ('initial distribution', env.mu)
    seen = set(todo)
    goals = 0
    while todo:
        cell, got = todo.pop()
        s = index(cell, got)
        if rows[cell[0]][cell[1]] == 'G':
            goals += 1
            assert not env.p[s].any(), ('the goal is absorbing', s)
            continue
        for a, d in enumerate(DIRS):
            want = np.zeros(len(mu))
            perp = [(0, 1), (0, -1)] if d[0] else [(1, 0), (-1, 0)]
            for dd, pr in [(d, x['prob'])] + [(e, (1 - x['prob']) / 2) for e in perp]:
                t, g = move(cell, got, dd)
                want[index(t, g)] += pr
                if pr > 0:
                    rew = x['rew'][sum(g)] if rows[t[0]][t[1]] == 'G' else 0.
                    assert env.r[s, a, index(t, g)] == rew, ('reward', (cell, got), a, (t, g), env.r[s, a, index(t, g)], rew)
                    if (t, g) not in seen:
                        seen.add((t, g))
                        todo.append((t, g))
            assert np.allclose(env.p[s, a], want, atol=1e-12), ('transition', (cell, got), a)
    assert env.info.gamma == x['gamma'] and env.info.horizon == x['horizon']
    return 'taxi' if goals else None
