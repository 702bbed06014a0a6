"""C30 - the built-in control environments follow their documented dynamics, rewards, bounds and termination."""
import numpy as np
from hypothesis import strategies as st
from scipy.integrate import solve_ivp

from mushroom_rl.environments.car_on_hill import CarOnHill
from mushroom_rl.environments.cart_pole import CartPole
from mushroom_rl.environments.grid_world import GridWorld, GridWorldVanHasselt
from mushroom_rl.environments.inverted_pendulum import InvertedPendulum
from mushroom_rl.environments.lqr import LQR
from mushroom_rl.environments.puddle_world import PuddleWorld
from mushroom_rl.environments.segway import Segway
from mushroom_rl.environments.ship_steering import ShipSteering
from pbt.harness import Check

check = Check('C30', rule='a case is an environment with generated parameters and a history of resets (random or to a given state) '
              'and steps; every observation, reward and flag is compared with an independent reference model; non-trivial with '
              'at least two steps')

PI = np.pi


def unit(n=16):
    return st.integers(-n, n).map(lambda v: v / n)


def close(a, b, tol=1e-5):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def wrap(a):
    return (a + PI) % (2 * PI) - PI


def angle_close(a, b, tol=1e-5):
    return abs(wrap(a - b)) <= tol


def integrate(f, y, dt):
    return solve_ivp(f, (0., dt), np.asarray(y, float), rtol=1e-9, atol=1e-11, method='RK45').y[:, -1]


class Walk(object):
    """Drives an environment through a history and checks that nothing already handed out changes."""

    def __init__(self, env):
        self.env = env
        self.kept = []
        self.n = 0

    def keep(self, obs):
        assert isinstance(obs, np.ndarray) and obs.shape == self.env.info.observation_space.shape, ('observation', obs)
        self.kept.append((obs, obs.copy()))
        return obs.copy()

    def reset(self, state=None):
        if state is None:
            obs, info = self.env.reset()
        else:
            mine = np.array(state)
            obs, info = self.env.reset(mine)
            assert np.array_equal(mine, state), ('the state given to reset was changed', mine, state)
        assert isinstance(info, dict)
        return self.keep(obs)

    def step(self, action):
        a = np.array(action)
        obs, rew, absorbing, info = self.env.step(a)
        assert np.array_equal(a, action), 'the action was changed'
        assert isinstance(info, dict) and np.isscalar(rew) or np.asarray(rew).shape == (), ('reward', rew)
        self.n += 1
        return self.keep(obs), float(rew), bool(absorbing)

    def done(self, label):
        for obs, was in self.kept:
            assert np.array_equal(obs, was), ('an observation already returned changed later', obs, was)
        return label if self.n > 1 else None


# ---------------------------------------------------------------------------------------------------------------- grid worlds
@st.composite
def grids(draw):
    top = draw(st.sampled_from([5, 5, 14]))
    h, w = draw(st.integers(1, top)), draw(st.integers(1, top))
    if h * w == 1:
        w = 2
    n = h * w
    goal = draw(st.integers(0, n - 1))
    start = draw(st.integers(0, n - 1).filter(lambda s: s != goal))
    ops = draw(st.lists(st.one_of(st.integers(0, 3), st.integers(0, 3), st.integers(0, 3), st.just('reset'),
                                  st.integers(0, n - 1).map(lambda s: ('to', s))), min_size=2, max_size=40)) * draw(st.sampled_from([1, 1, 4]))
    return dict(h=h, w=w, goal=goal, start=start, ops=ops)


def grid_move(s, a, h, w):
    i, j = divmod(s, w)
    if a == 0:
        i = max(i - 1, 0)
    elif a == 1:
        i = min(i + 1, h - 1)
    elif a == 2:
        j = max(j - 1, 0)
    else:
        j = min(j + 1, w - 1)
    return i * w + j


@check.case('grid', grids(), quick=300)
def grid(x):
    h, w = x['h'], x['w']
    env = GridWorld(h, w, divmod(x['goal'], w), divmod(x['start'], w))
    assert env.info.observation_space.n == h * w and env.info.action_space.n == 4
    run = Walk(env)
    s = int(run.reset()[0])
    assert s == x['start'], ('start', s)
    for op in x['ops']:
        if op == 'reset':
            s = int(run.reset()[0])
            assert s == x['start'], ('start', s)
        elif isinstance(op, tuple):
            s = int(run.reset([op[1]])[0])
            assert s == op[1], ('given state', s, op)
        else:
            o, r, ab = run.step([op])
            s = grid_move(s, op, h, w)
            assert int(o[0]) == s, ('moved to', o, 'expected', s)
            assert r == (10 if s == x['goal'] else 0) and ab == (s == x['goal']), ('goal', s, r, ab)
    return run.done('grid')


@check.case('van_hasselt', grids(), quick=150)
def van_hasselt(x):
    h, w = x['h'], x['w']
    env = GridWorldVanHasselt(h, w, divmod(x['goal'], w), divmod(x['start'], w))
    run = Walk(env)
    s = int(run.reset()[0])
    assert s == x['start'], ('start', s)
    for op in x['ops']:
        if op == 'reset':
            s = int(run.reset()[0])
        elif isinstance(op, tuple):
            s = int(run.reset([op[1]])[0])
            assert s == op[1], ('given state', s, op)
        else:
            o, r, ab = run.step([op])
            if s == x['goal']:
                assert int(o[0]) == s and r == 5 and ab, ('acting in the goal', o, r, ab)
                s = int(run.reset()[0])
            else:
                s = grid_move(s, op, h, w)
                assert int(o[0]) == s and r in (-12, 10) and not ab, ('moved', o, s, r, ab)
    good = 0
    for _ in range(200):
        env.reset(np.array([x['start']]))
        good += env.step(np.array([0]))[1] == 10
    assert 40 <= good <= 160, ('the two rewards are equally likely', good)
    return run.done('van_hasselt')


# ------------------------------------------------------------------------------------------------------------------------ LQR
@st.composite
def lqrs(draw):
    top = draw(st.sampled_from([3, 3, 8]))
    n, m = draw(st.integers(1, top)), draw(st.integers(1, top))
    mat = lambda a, b: [[draw(unit(4)) for _ in range(b)] for _ in range(a)]
    gen = draw(st.booleans())
    x = dict(n=n, m=m, A=mat(n, n), B=mat(n, m), Q=mat(n, n), R=mat(m, m), gen=gen,
             max_pos=draw(st.sampled_from([float('inf'), 1., 5., 40.])), max_action=draw(st.sampled_from([float('inf'), .5, 2., 2.7])),
             random=draw(st.booleans()), episodic=draw(st.booleans()), init=draw(st.one_of(st.none(), st.just([.25] * n))),
             eps=draw(st.sampled_from([.1, .3])), index=draw(st.integers(0, min(n, m) - 1)), scale=draw(st.sampled_from([1., 2.])),
             gamma=draw(st.sampled_from([.9, .5, 1.])), horizon=draw(st.sampled_from([10, 50])))
    x['ops'] = draw(st.lists(st.one_of(st.just('reset'), st.lists(unit(4), min_size=n, max_size=n).map(lambda v: ('to', v)),
                                       st.lists(unit(4).map(lambda v: 3 * v), min_size=m, max_size=m)),
                             min_size=2, max_size=15)) * draw(st.sampled_from([1, 1, 4]))
    return x


@check.case('lqr', lqrs(), quick=350)
def lqr(x):
    n, m = x['n'], x['m']
    if x['gen']:
        env = LQR.generate(s_dim=n, a_dim=m, max_pos=x['max_pos'], max_action=x['max_action'], eps=x['eps'], index=x['index'],
                           scale=x['scale'], random_init=x['random'], episodic=x['episodic'], gamma=x['gamma'],
                           horizon=x['horizon'], initial_state=None if x['init'] is None else np.array(x['init']))
        A, B = np.eye(n), np.eye(n, m)
        i = x['index']
        Q = np.diag([(1 - x['eps'] if j == i else x['eps']) * x['scale'] for j in range(n)])
        R = np.diag([(x['eps'] if j == i else 1 - x['eps']) * x['scale'] for j in range(m)])
    else:
        A, B, Q, R = (np.array(x[k]) for k in 'ABQR')
        env = LQR(A, B, Q, R, x['max_pos'], x['max_action'], x['random'], x['episodic'], x['gamma'], x['horizon'],
                  None if x['init'] is None else np.array(x['init']))
    assert env.info.gamma == x['gamma'] and env.info.horizon == x['horizon']
    assert np.all(env.info.action_space.high == x['max_action']) and np.all(env.info.observation_space.low == -x['max_pos'])
    mp = x['max_pos']
    run = Walk(env)

    def fresh():
        o = run.reset()
        if x['random']:
            assert np.all(np.abs(o) <= min(3., mp)), ('random initial state', o)
            assert np.shape(o) == (n,) and (mp < 3 or len(set(np.ravel(o))) == n), 'the components are not drawn independently'
        else:
            want = np.array(x['init']) if x['init'] is not None else np.full(n, .9 * mp if np.isfinite(mp) else 10.)
            assert close(o, want, 1e-12), ('initial state', o, want)
        return o
    s = fresh()
    for op in x['ops']:
        if op == 'reset':
            s = fresh()
        elif isinstance(op, tuple):
            s = run.reset(op[1])
            assert np.array_equal(s, op[1])
        else:
            u = np.clip(op, -x['max_action'], x['max_action'])
            r = -(s @ Q @ s + u @ R @ u)
            t = A @ s + B @ u
            ab = False
            if np.any(np.abs(t) > mp):
                if x['episodic']:
                    r, ab = -10 * mp ** 2, True
                else:
                    t = np.clip(t, -mp, mp)
            o, rew, a = run.step(op)
            assert close(o, t, 1e-9) and close(rew, r, 1e-9) and a == ab, ('step', op, (o, rew, a), (t, r, ab))
            s = o
            if ab:
                s = fresh()
    return run.done('generated' if x['gen'] else 'lqr')


# --------------------------------------------------------------------------------------------------------- continuous dynamics
def histories(dim, act, scale=1.):
    state = st.lists(unit(64), min_size=dim, max_size=dim).map(lambda v: ('to', v))
    edge = st.lists(st.sampled_from([-1., -.99, -.96, -.9, .9, .96, .99, 1.]), min_size=dim, max_size=dim).map(lambda v: ('to', v))
    chunk = st.tuples(st.one_of(st.just('reset'), state, edge, edge), st.lists(act, min_size=1, max_size=6))
    flat = lambda v: [o for c in v for o in [c[0]] + c[1]]
    return st.tuples(st.lists(chunk, min_size=2, max_size=6), st.sampled_from([1, 1, 1, 5])).map(lambda v: flat(v[0]) * v[1])


disc = lambda k: st.integers(0, k - 1)
cont = st.one_of(unit(32).map(lambda v: 1.5 * v), unit(32).map(lambda v: 9. * v))


info = st.tuples(st.sampled_from([.9, .99, 1.]), st.integers(1, 400))


def documented(env, gamma, horizon, dt):
    assert env.info.gamma == gamma and env.info.horizon == horizon and np.isclose(env.info.dt, dt), (
        env.info.gamma, env.info.horizon, env.info.dt)


def spread(draw, lo, hi):
    """A uniform draw on [lo, hi]: in 100 draws each quarter of the range is visited (miss: 4 * .75 ** 100 < 2e-12)."""
    v = np.array([draw() for _ in range(100)])
    q = np.floor((v - lo) / (hi - lo) * 4)
    assert np.all((v >= lo) & (v <= hi)), ('out of range', v.min(), v.max())
    assert set(np.clip(q, 0, 3)) == {0, 1, 2, 3}, ('the random start does not cover its range', sorted(v))


@check.case('car_on_hill', st.fixed_dictionaries(dict(ops=histories(2, disc(2)), info=info)), quick=240)
def car(x):
    env = CarOnHill(gamma=x['info'][0], horizon=x['info'][1])
    documented(env, *x['info'], .1)
    assert close(env.info.observation_space.high, [1, 3]) and close(env.info.observation_space.low, [-1, -3])
    assert env.info.action_space.n == 2
    run = Walk(env)

    def f(t, y):
        p, v = y[:2]
        if p < 0:
            d1, d2 = 2 * p + 1, 2.
        else:
            d1, d2 = (1 + 5 * p * p) ** -1.5, -15 * p * (1 + 5 * p * p) ** -2.5
        return [v, (u - 9.81 * d1 - v * v * d1 * d2) / (1 + d1 * d1)]
    s = run.reset()
    assert close(s, [-.5, 0.], 1e-12), ('initial state', s)
    for op in x['ops']:
        if op == 'reset':
            s = run.reset()
            assert close(s, [-.5, 0.], 1e-12), ('initial state', s)
        elif isinstance(op, tuple):
            s = run.reset([op[1][0], 3 * op[1][1]])
            assert np.array_equal(s, [op[1][0], 3 * op[1][1]]), ('given state', op, s)
        else:
            u = (-4., 4.)[op]
            want = integrate(f, s, .1)
            o, r, ab = run.step([op])
            assert close(o, want, 1e-4), ('dynamics', s, u, o, want)
            bad = o[0] < -1 or abs(o[1]) > 3
            top = o[0] > 1 and abs(o[1]) <= 3
            assert (r, ab) == ((-1., True) if bad else (1., True) if top else (0., False)), ('reward', o, r, ab)
            s = run.reset() if ab else o
    return run.done('car')


@st.composite
def poles(draw):
    c = st.sampled_from
    return dict(m=draw(c([2., 1., .3])), M=draw(c([8., 5., 20.])), l=draw(c([.5, .8, 2.])), g=draw(c([9.8, 5., 1.])),
                max_u=draw(c([50., 20., 5.])), info=draw(info), vel=draw(c([3., 3., 8.])),
                noise=draw(c([0., 0., 10.])), ops=draw(histories(2, disc(3))))


@check.case('cart_pole', poles(), quick=120)
def cart_pole(x):
    m, M, l, g = x['m'], x['M'], x['l'], x['g']
    env = CartPole(m=m, M=M, l=l, g=g, max_u=x['max_u'], noise_u=x['noise'], gamma=x['info'][0], horizon=x['info'][1])
    documented(env, *x['info'], .1)
    assert env.info.action_space.n == 3
    alpha = 1 / (m + M)
    run = Walk(env)

    def f(u):
        def d(t, y):
            th, om = y
            return [om, (g * np.sin(th) - alpha * m * l * om ** 2 * np.sin(2 * th) / 4 - alpha * np.cos(th) * u)
                    / (2 * l / 3 - alpha * m * l * np.cos(th) ** 2 / 2)]
        return d

    def fresh():
        o = run.reset()
        assert abs(o[0]) <= PI / 8 and o[1] == 0, ('initial state', o)
        return o
    s = fresh()
    for op in x['ops']:
        if op == 'reset':
            s = fresh()
        elif isinstance(op, tuple):
            y = [4 * op[1][0], x['vel'] * op[1][1]]
            s = run.reset(y)
            assert angle_close(s[0], y[0], 1e-9) and abs(s[0]) <= PI and s[1] == y[1], ('given state', y, s)
        else:
            u = (-x['max_u'], 0., x['max_u'])[op]
            o, r, ab = run.step([op])
            if x['noise'] == 0:
                want = integrate(f(u), s, .1)
                assert angle_close(o[0], want[0], 1e-4) and close(o[1], want[1], 1e-4), ('dynamics', s, u, o, want)
            elif abs(s[0]) < 1.2 and abs(s[1]) < 2:
                lo, hi = sorted(integrate(f(u + k), s, .1)[1] for k in (-x['noise'], x['noise']))
                slack = .02 * (hi - lo) + 1e-6
                assert lo - slack <= o[1] <= hi + slack, ('noise bound', s, u, o, lo, hi)
            assert abs(o[0]) <= PI
            fallen = abs(o[0]) > PI / 2
            assert ab == fallen and r == (-1. if fallen else 0.), ('reward', o, r, ab)
            s = fresh() if ab else o
    spread(lambda: env.reset()[0][0], -PI / 8, PI / 8)
    if x['noise']:
        # the noise on the input is symmetric: it moves the velocity on both sides of the noiseless one
        def kick():
            env.reset(np.zeros(2))
            return env.step(np.array([1]))[0][1]
        v = [kick() for _ in range(60)]
        assert min(v) < 0 < max(v), ('the noise is not symmetric', min(v), max(v))
    return run.done('cart_pole')


@st.composite
def pendulums(draw):
    c = st.sampled_from
    return dict(random=draw(st.booleans()), m=draw(c([1., 2., .4])), l=draw(c([1., .5, 2.5])), g=draw(c([9.8, 3., 20.])),
                mu=draw(c([1e-2, .5, 2., 0.])), max_u=draw(c([5., 2., 30.])), info=draw(info), ops=draw(histories(2, cont)))


@check.case('pendulum', pendulums(), quick=120)
def pendulum(x):
    m, l, g, mu, mx = x['m'], x['l'], x['g'], x['mu'], x['max_u']
    env = InvertedPendulum(random_start=x['random'], m=m, l=l, g=g, mu=mu, max_u=mx, gamma=x['info'][0],
                           horizon=x['info'][1])
    documented(env, *x['info'], .01)
    assert close(env.info.action_space.low, [-mx])
    W = 5 / 2 * PI
    assert close(env.info.observation_space.high, [PI, W], 1e-9) and close(env.info.action_space.high, [mx], 1e-9)
    run = Walk(env)

    def fresh():
        o = run.reset()
        assert (abs(o[0]) <= PI if x['random'] else close(o[0], PI / 2, 1e-12)) and o[1] == 0, ('initial state', o)
        return o
    s = fresh()
    for op in x['ops']:
        if op == 'reset':
            s = fresh()
        elif isinstance(op, tuple):
            y = [7 * op[1][0], 9 * op[1][1]]
            s = run.reset(y)
            assert angle_close(s[0], y[0], 1e-9) and abs(s[0]) <= PI and close(s[1], np.clip(y[1], -W, W), 1e-9), ('given', y, s)
        else:
            u = np.clip(op * mx, -mx, mx)

            def f(t, y):
                om = np.clip(y[1], -W, W)
                return [om, (-mu * om + m * g * l * np.sin(y[0]) + u) / (m * l ** 2)]
            want = integrate(f, s, .01)
            o, r, ab = run.step([op * mx])
            assert angle_close(o[0], want[0], 1e-4) and close(o[1], np.clip(want[1], -W, W), 1e-4), ('dynamics', s, u, o, want)
            assert abs(o[0]) <= PI and abs(o[1]) <= W and not ab and close(r, np.cos(o[0]), 1e-9), ('reward', o, r, ab)
            s = o
    if x['random']:
        spread(lambda: env.reset()[0][0], -PI, PI)
    return run.done('pendulum')


@check.case('segway', st.fixed_dictionaries(dict(random=st.booleans(), ops=histories(3, cont))), quick=120)
def segway(x):
    env = Segway(random_start=x['random'])
    sp = env.info.observation_space
    assert np.all(sp.low < sp.high) and close(sp.high, [PI / 2, 15, 75], 1e-9), ('observation space', sp.low, sp.high)
    run = Walk(env)
    Mr, Mp, Ip, Ir, l, r_, g = .6, 2.55, 2.6e-2, 9.08e-4, .138, .055, 9.81

    def fresh():
        o = run.reset()
        assert (abs(o[0]) <= PI / 2 if x['random'] else close(o[0], -PI / 8, 1e-12)) and not o[1:].any(), ('initial state', o)
        return o
    s = fresh()
    for op in x['ops']:
        if op == 'reset':
            s = fresh()
        elif isinstance(op, tuple):
            y = [4 * op[1][0], 14 * op[1][1], 70 * op[1][2]]
            s = run.reset(y)
            assert angle_close(s[0], y[0], 1e-9) and abs(s[0]) <= PI and close(s[1:], y[1:], 1e-12), ('given state', y, s)
        else:
            u = np.clip(op * 5, -5, 5)

            def f(t, y):
                al, om, _ = y
                h1 = (Mr + Mp) * r_ ** 2 + Ir
                h2 = Mp * r_ * l * np.cos(al)
                h3 = l ** 2 * Mp + Ip
                den = h1 * h3 - h2 ** 2
                return [om, -(h2 * l * Mp * r_ * np.sin(al) * om ** 2 - g * h1 * l * Mp * np.sin(al) + (h2 + h1) * u) / den,
                        (h3 * l * Mp * r_ * np.sin(al) * om ** 2 - g * h2 * l * Mp * np.sin(al) + (h3 + h2) * u) / den]
            want = integrate(f, s, .01)
            o, r, ab = run.step([op * 5])
            assert angle_close(o[0], want[0], 1e-4) and close(o[1:], want[1:], 1e-4), ('dynamics', s, u, o, want)
            fallen = abs(o[0]) > PI / 2
            assert ab == fallen and close(r, -10000 if fallen else -(3 * o[0] ** 2 + .1 * o[1] ** 2 + .1 * o[2] ** 2), 1e-6), (
                'reward', o, r, ab)
            s = fresh() if ab else o
    if x['random']:
        spread(lambda: env.reset()[0][0], -PI / 2, PI / 2)
    return run.done('segway')


@st.composite
def ships(draw):
    near = st.booleans()
    return dict(small=draw(st.booleans()), k=draw(st.one_of(st.integers(1, 5), st.integers(6, 15))),
                ops=draw(st.lists(st.one_of(st.just('reset'), st.tuples(st.just('to'), near, unit(64), unit(64), unit(64), unit(64)),
                                            cont, cont), min_size=2, max_size=25)) * draw(st.sampled_from([1, 1, 4])))


def crosses(p, q, a, b):
    """Do the segments p-q and a-b intersect, None when too close to call."""
    d = lambda o, u, v: (u[0] - o[0]) * (v[1] - o[1]) - (u[1] - o[1]) * (v[0] - o[0])
    v = [d(p, q, a), d(p, q, b), d(a, b, p), d(a, b, q)]
    if min(map(abs, v)) < 1e-9:
        return None
    return (v[0] > 0) != (v[1] > 0) and (v[2] > 0) != (v[3] > 0)


@check.case('ship', ships(), quick=200)
def ship(x):
    env = ShipSteering(small=x['small'], n_steps_action=x['k'])
    F = 150 if x['small'] else 1000
    g1, g2 = ((100, 120), (120, 100)) if x['small'] else ((350, 400), (450, 400))
    om = PI / 12
    run = Walk(env)
    assert close(env.info.observation_space.high, [F, F, PI, om], 1e-9)

    def fresh():
        o = run.reset()
        if x['small']:
            assert close(o, [0, 0, PI / 2, 0], 1e-12), ('initial state', o)
        else:
            assert np.all(o >= env.info.observation_space.low) and np.all(o <= env.info.observation_space.high), ('initial', o)
        return o
    s = fresh()
    through = False
    for op in x['ops']:
        if op == 'reset':
            s = fresh()
        elif isinstance(op, tuple):
            _, near, a, b, c, d = op
            if near:
                y = [(g1[0] + g2[0]) / 2 + 2 * a, (g1[1] + g2[1]) / 2 + 2 * b, PI * c, om * d]
            else:
                y = [(1 + a) / 2 * F, (1 + b) / 2 * F, PI * c, om * d]
            s = run.reset(y)
            assert np.array_equal(s, y)
        else:
            r = np.clip(op * om, -om, om)
            t = np.array(s)
            rew, ab, skip = -1, False, False
            for _ in range(x['k']):
                n = np.array([t[0] + 3 * np.cos(t[2]) * .2, t[1] + 3 * np.sin(t[2]) * .2, wrap(t[2] + t[3] * .2),
                              t[3] + (r - t[3]) * .2 / 5])
                if min(abs(n[0]), abs(n[1]), abs(n[0] - F), abs(n[1] - F)) < 1e-9:
                    skip = True
                if n[0] < 0 or n[1] < 0 or n[0] > F or n[1] > F:
                    n[:2] = np.clip(n[:2], 0, F)
                    rew, ab = -100, True
                    t = n
                    break
                hit = crosses(t[:2], n[:2], g1, g2)
                skip = skip or hit is None
                t = n
                if hit:
                    rew, ab, through = 0, True, True
                    break
            o, w, a_ = run.step([op * om])
            if skip:
                s = fresh()
                continue
            assert close(o[[0, 1, 3]], t[[0, 1, 3]], 1e-9) and angle_close(o[2], t[2], 1e-9), ('dynamics', s, r, o, t)
            assert w == rew and a_ == ab, ('reward', o, w, a_, rew, ab)
            s = fresh() if ab else o
    if not x['small']:
        for i in range(4):
            spread(lambda: env.reset()[0][i], env.info.observation_space.low[i], env.info.observation_space.high[i])
    return run.done('through-gate' if through else 'ship')


@st.composite
def puddles(draw):
    u = st.integers(0, 16).map(lambda v: v / 16)
    two = st.tuples(u, u).map(list)
    k = draw(st.integers(0, 6))
    return dict(start=draw(st.one_of(st.none(), two)), goal=draw(st.one_of(st.none(), two)), thr=draw(st.sampled_from([.1, .3, .02])), info=draw(info),
                noise=draw(st.sampled_from([0., 0., .025, .1, .4])), rg=draw(st.sampled_from([0., 5., -3.])),
                thrust=draw(st.sampled_from([.05, .2, .7])), nr=draw(st.sampled_from([0., 0., .5])),
                pud=draw(st.one_of(st.none(), st.lists(st.tuples(two, st.tuples(st.sampled_from([.03, .1]),
                                                                               st.sampled_from([.03, .1])).map(list)),
                                                       min_size=k, max_size=k))),
                ops=draw(st.lists(st.one_of(st.just('reset'), two.map(lambda v: ('to', v)), disc(5), disc(5), disc(5)), min_size=2,
                                  max_size=20)) * draw(st.sampled_from([1, 1, 4])))


@check.case('puddle', puddles(), quick=200)
def puddle(x):
    arr = lambda v: None if v is None else np.array(v)
    pud = x['pud']
    env = PuddleWorld(start=arr(x['start']), goal=arr(x['goal']), goal_threshold=x['thr'], noise_step=x['noise'],
                      noise_reward=x['nr'], reward_goal=x['rg'], thrust=x['thrust'], gamma=x['info'][0], horizon=x['info'][1],
                      puddle_center=None if pud is None else [p[0] for p in pud],
                      puddle_width=None if pud is None else [p[1] for p in pud])
    start = np.array(x['start'] if x['start'] is not None else [.2, .4])
    goal = np.array(x['goal'] if x['goal'] is not None else [1., 1.])
    if pud is None:
        pud = [([.3, .6], [.1, .03]), ([.4, .5], [.03, .1]), ([.8, .9], [.03, .1])]
    moves = x['thrust'] * np.array([[-1, 0], [1, 0], [0, -1], [0, 1], [0, 0]])
    documented(env, *x['info'], .1)
    g = lambda v, c, w: np.exp(-(v - c) ** 2 / (2 * w * w)) / (w * np.sqrt(2 * PI))
    run = Walk(env)
    s = run.reset()
    assert close(s, start, 1e-12), ('initial state', s)
    for op in x['ops']:
        if op == 'reset':
            s = run.reset()
            assert close(s, start, 1e-12), ('initial state', s, start)
        elif isinstance(op, tuple):
            s = run.reset(op[1])
            assert np.array_equal(s, op[1])
        else:
            o, r, ab = run.step([op])
            lo, hi = (np.clip(s + moves[op] + k * x['noise'], 0, 1) for k in (-1, 1))
            assert np.all(o >= lo - 1e-9) and np.all(o <= hi + 1e-9), ('dynamics', s, op, o, lo, hi)
            d = np.abs(o - goal).sum()
            if abs(d - x['thr']) > 1e-9:
                assert ab == (d < x['thr']), ('goal', o, d, ab)
            if ab:
                assert r == x['rg'], ('goal reward', r)
                s = run.reset()
            else:
                want = -1. - 2 * sum(g(o[0], c[0], w[0]) * g(o[1], c[1], w[1]) for c, w in pud)
                assert abs(r - want) <= 1e-6 * (1 + abs(want)) + 8 * x['nr'], ('reward', o, r, want)
                s = o
    if x['noise']:
        mid = np.array([.5, .5])
        for i in range(2):
            def jump():
                env.reset(mid.copy())
                return env.step(np.array([4]))[0][i]
            spread(jump, .5 - x['noise'], .5 + x['noise'])
    if x['nr']:
        # noise on the reward: standard deviation as given, around the noiseless reward
        env.reset(np.zeros(2))
        if np.abs(goal).sum() > x['thr'] + 2 * x['noise'] + .1 and not x['noise']:
            rs = []
            for _ in range(60):
                env.reset(np.zeros(2))
                rs.append(env.step(np.array([4]))[1])
            assert .4 * x['nr'] < np.std(rs) < 1.8 * x['nr'], ('noise on the reward', np.std(rs), x['nr'])
    return run.done('puddle')
