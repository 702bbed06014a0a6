"""C41 - wrapped environments (Gym, Atari games, dm_control) behave exactly as the environment they wrap."""
import os
import warnings

os.environ.setdefault('MUJOCO_GL', 'disable')

import gym
import numpy as np
from gym import spaces
from hypothesis import strategies as st

from mushroom_rl.core import Core
from mushroom_rl.core.agent import Agent
from mushroom_rl.environments.atari import Atari
from mushroom_rl.environments.gym_env import Gym
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.utils.frames import LazyFrames, preprocess_frame
from pbt.harness import Check

check = Check('C41', rule='a case is a generated environment (spaces, episode lengths, time limits, lives, pictures) driven through the '
              'wrapper by a history of resets and steps, compared with the same environment driven directly; non-trivial when '
              'an episode ended, the time limit of the wrapped environment was passed, or lives were lost')

warnings.filterwarnings('ignore')
CFG = {}


class Fake(gym.Env):
    metadata = {'render_modes': ['human', 'rgb_array']}

    def __init__(self, cfg='main', scale=1.):
        c = CFG[cfg]
        self.c, self.scale = c, scale
        if c['obs'] == 'discrete':
            self.observation_space = spaces.Discrete(c['n'])
        else:
            sh = c['shape']
            self.observation_space = spaces.Box(-8. - np.arange(np.prod(sh)).reshape(sh).astype(np.float32),
                                                1e3 * np.ones(sh, dtype=np.float32), dtype=np.float32)
        self.action_space = spaces.Discrete(3) if c['act'] == 'discrete' else \
            spaces.Box(np.array([-2., -1.], dtype=np.float32), np.array([1., 3.], dtype=np.float32))
        if c['dt']:
            self.dt = c['dt']
        self.state = None
        self.resets = self.t = self.seeded = self.closed = 0
        self.modes = []

    def obs(self):
        if self.c['obs'] == 'discrete':
            return int(self.state) % self.c['n']
        return (np.ones(self.c['shape']) * self.state).astype(np.float32)

    def seed(self, seed=None):
        self.seeded = seed

    def reset(self, *, seed=None, return_info=False, options=None):
        self.resets += 1
        self.t = 0
        self.state = float((self.resets + self.seeded) % 5)
        return (self.obs(), {}) if return_info else self.obs()

    def step(self, a):
        self.t += 1
        if self.c['act'] == 'discrete':
            assert np.ndim(a) == 0, 'discrete actions are scalars'
            v = float(a)
        else:
            v = float(a[0]) + 2 * float(a[1])
        s = self.state if np.ndim(self.state) == 0 else np.asarray(self.state)
        self.state = s * .5 + v * self.scale
        return self.obs(), float(v - self.t), self.t >= self.c['length'], {'t': self.t, 'v': v}

    def render(self, mode='human'):
        self.modes.append(mode)
        return np.full((2, 2, 3), self.t % 256, dtype=np.uint8) if mode == 'rgb_array' else None

    def close(self):
        self.closed += 1


class AddReward(gym.Wrapper):
    def __init__(self, env, bonus=1., factor=1.):
        super().__init__(env)
        self.bonus, self.factor = bonus, factor

    def step(self, a):
        o, r, d, i = self.env.step(a)
        return o, r * self.factor + self.bonus, d, i


for lim in (2, 7, None):
    gym.register('PbtFake%s-v0' % lim, entry_point=Fake, max_episode_steps=lim)

act_value = st.integers(-8, 12).map(lambda v: v / 4.)


@st.composite
def gym_cases(draw, big=False):
    act = draw(st.sampled_from(['discrete', 'box']))
    one = st.integers(0, 2) if act == 'discrete' else st.tuples(st.sampled_from([-2., -.5, 0., 1.]), st.sampled_from([-1., .25, 3.]))
    obs = draw(st.sampled_from(['discrete', 'box', 'box']))
    shape = draw(st.sampled_from([(1,), (3,), (2, 2), (17,), (4, 3, 2), (1, 1)]))
    ops = [('reset',)]
    for _ in range(draw(st.integers(40, 120) if big else st.integers(1, 16))):
        k = draw(st.sampled_from(['step'] * 6 + ['reset', 'given', 'seed', 'render']))
        ops.append((k, draw(one)) if k == 'step' else (k, draw(st.integers(0, 6))) if k in ('given', 'seed') else
                   (k, draw(st.booleans())))
    return dict(obs=obs, shape=shape, n=draw(st.one_of(st.integers(2, 6), st.integers(7, 60))), act=act, dt=draw(st.sampled_from([None, .05])),
                length=draw(st.integers(1, 60 if big else 12)), ops=ops, limit=draw(st.sampled_from([2, 7, None])), horizon=draw(st.sampled_from([None, 4, 9, 1, 1000])),
                scale=draw(st.sampled_from([None, .5])), gamma=draw(st.sampled_from([.99, .5, 1., .9])),
                wrappers=draw(st.sampled_from([None, 'plain', 'args', 'tuple', 'two'])))


def make(x):
    CFG['main'] = x
    kw = {} if x['scale'] is None else dict(scale=x['scale'])
    w = x['wrappers']
    if w == 'plain' and not kw:
        kw.update(wrappers=[AddReward])
    elif w == 'args' and not kw:
        kw.update(wrappers=[AddReward], wrappers_args=[dict(bonus=3.)])
    elif w == 'tuple':
        kw.update(wrappers=[(AddReward, dict(bonus=2., factor=-1.))])
    elif w == 'two':
        kw.update(wrappers=[(AddReward, dict(bonus=2.)), (AddReward, dict(factor=3.))], wrappers_args=[dict(factor=.5), dict(bonus=0.)])
    else:
        w = None
    name = 'PbtFake%s-v0' % x['limit']
    return Gym(name, horizon=x['horizon'], gamma=x['gamma'], **kw), w


def shape_reward(w, r):
    return {None: r, 'plain': r + 1., 'args': r + 3., 'tuple': -r + 2., 'two': (r * .5 + 2.) * 3.}[w]


@check.case('gym', gym_cases(), quick=250)
def gym_case(x):
    CFG['main'] = x
    if x['limit'] is None and x['horizon'] is None:
        try:
            Gym('PbtFakeNone-v0')
        except RuntimeError:
            return None
        raise AssertionError('no horizon at all is accepted')
    env, w = make(x)
    ref = Fake('main', **({} if x['scale'] is None else dict(scale=x['scale'])))
    info = env.info
    assert info.horizon == (x['horizon'] if x['horizon'] is not None else x['limit']), 'horizon'
    assert info.gamma == x['gamma'] and info.dt == (x['dt'] or .1)
    if x['obs'] == 'discrete':
        assert isinstance(info.observation_space, Discrete) and info.observation_space.n == x['n']
    else:
        assert isinstance(info.observation_space, Box) and info.observation_space.shape == x['shape']
        assert np.array_equal(info.observation_space.low, ref.observation_space.low)
        assert np.array_equal(info.observation_space.high, ref.observation_space.high)
    if x['act'] == 'discrete':
        assert isinstance(info.action_space, Discrete) and info.action_space.n == 3
    else:
        assert np.array_equal(info.action_space.low, [-2., -1.]) and np.array_equal(info.action_space.high, [1., 3.])
    label = None
    for op in x['ops']:
        if op[0] == 'reset':
            s, i = env.reset()
            want = ref.reset()
            assert i == {} and np.array_equal(s, np.atleast_1d(want)), ('reset', s, want)
        elif op[0] == 'given':
            if x['obs'] == 'discrete':
                given = np.array([op[1] % x['n']])
            else:
                given = np.full(x['shape'], float(op[1]), dtype=np.float32)
            s, _ = env.reset(given)
            assert np.array_equal(s, given)
            ref.reset()
            ref.state = float(np.ravel(given)[0])
        elif op[0] == 'step':
            a = np.array([op[1]]) if x['act'] == 'discrete' else np.array(op[1])
            before = a.copy()
            s, r, ab, i = env.step(a)
            o, rr, d, ii = ref.step(op[1])
            assert np.array_equal(a, before)
            same = np.array_equal(s, np.atleast_1d(o)) if x['obs'] == 'discrete' else \
                np.shape(s) == np.shape(o) and np.allclose(s, o, rtol=1e-4, atol=1e-5)
            assert np.ndim(s) >= 1 and same, ('observation', s, o)
            assert abs(r - shape_reward(w, rr)) < 1e-9, ('reward', r, rr, w)
            assert bool(ab) == bool(d), ('absorbing', ab, d, ref.t)
            assert i['t'] == ii['t'] and i['v'] == ii['v'] and len(i) == len(ii), ('info', i, ii)
            label = 'ended' if d else ('past limit' if x['limit'] and ref.t > x['limit'] else label)
            if d:
                env.reset()
                ref.reset()
        elif op[0] == 'seed':
            env.seed(op[1])
            ref.seed(op[1])
        elif op[0] == 'render':
            n = len(env.env.unwrapped.modes)
            import mushroom_rl.environments.gym_env as ge
            sleep, ge.time.sleep = ge.time.sleep, lambda t: None
            try:
                f = env.render(record=op[1])
            finally:
                ge.time.sleep = sleep
            assert (f is None) == (not op[1])
            if op[1]:
                assert np.array_equal(np.asarray(f).reshape(2, 2, 3), np.full((2, 2, 3), ref.t)), 'frame'
    env.stop()
    assert env.env.unwrapped.closed == 1
    return label


check.case('gym, long', gym_cases(True), quick=30)(gym_case)


class Constant(Policy):
    def draw_action(self, state, policy_state=None):
        return np.array([1]), None

    def reset(self):
        return None


class Idle(Agent):
    def fit(self, dataset):
        pass


@check.case('horizon', st.tuples(st.integers(1, 9), st.integers(1, 9), st.integers(1, 20)), quick=60)
def horizon(x):
    """The episodes seen by the run loop last until the environment ends or the horizon, whatever the limit of the environment."""
    length, hor, n = x
    CFG['main'] = dict(obs='box', shape=(1,), n=2, act='discrete', dt=None, length=length)
    env = Gym('PbtFake2-v0', horizon=hor)
    d = Core(Idle(env.info, Constant()), env).evaluate(n_steps=n, quiet=True)
    _, _, _, _, ab, last = d.parse()
    t = 0
    for i in range(n):
        t += 1
        assert bool(ab[i]) == (t >= length), ('absorbing', i, t)
        assert bool(last[i]) == (t >= length or t >= hor), ('last', i, t)
        if last[i]:
            t = 0
    return 'past limit' if hor > 2 and length > 2 and n > 2 else None


class Ale(object):
    def __init__(self, game):
        self.game = game

    def lives(self):
        return self.game.lives


class Game(gym.Env):
    """A picture game: frame k of the game is split in two halves with known intensities; lives drop at given ticks."""
    metadata = {'render_modes': []}

    def __init__(self, cfg='game'):
        self.c = CFG[cfg]
        self.observation_space = spaces.Box(0, 255, shape=(20, 12, 3), dtype=np.uint8)
        self.action_space = spaces.Discrete(4)
        self.lives = self.c['lives']
        self.ale = Ale(self)
        self.t = -1
        self.games = 0
        self.calls = []

    def get_action_meanings(self):
        return ['NOOP', 'FIRE' if self.c['fire'] else 'UP', 'LEFT', 'RIGHT']

    def frame(self):
        return picture(self.games, self.t)

    def reset(self, *, seed=None, return_info=False, options=None):
        self.calls.append('reset')
        self.t = 0
        self.games += 1
        self.lives = self.c['lives']
        return (self.frame(), {}) if return_info else self.frame()

    def step(self, a):
        self.calls.append(int(a))
        self.t += 1
        if self.t in self.c['losses'] and self.lives > 0:
            self.lives -= 1
        done = self.lives == 0 or self.t >= self.c['end']
        return self.frame(), float(a) + self.t / 8., done, {'lives': self.lives}


def picture(games, t):
    f = np.zeros((20, 12, 3), dtype=np.uint8)
    f[:10] = (games * 40 + 7 * t) % 200 + 20
    f[10:] = (t * 13) % 90 + 5
    return f


def shrunk(pic, w, h):
    """Halves survive any resize of the picture; the exact picture is left to OpenCV."""
    out = preprocess_frame(pic, (w, h))
    assert out.shape == (h, w) and out.dtype == np.uint8, 'size of a picture'
    assert abs(int(out[0, 0]) - int(pic[0, 0, 0])) <= 1 and abs(int(out[-1, -1]) - int(pic[-1, -1, 0])) <= 1, 'grey levels'
    return out


for n in ('PbtNoFrameskip-v0', 'PbtGame-v0'):
    gym.register(n, entry_point=Game)


@st.composite
def games(draw, top=24):
    ops = []
    for _ in range(draw(st.integers(4, top))):
        k = draw(st.integers(0, 19))
        ops.append('stop' if k == 19 else draw(st.sampled_from(['life', 'nolife'])) if k == 18 else k % 4)
    x = dict(ops=ops, lives=draw(st.integers(1, 3 if top < 30 else 6)), fire=draw(st.booleans()), history=draw(st.integers(2, 4)),
             losses=draw(st.lists(st.integers(2, 40 if top < 30 else 200), min_size=1, max_size=3 if top < 30 else 6)), end=draw(st.integers(12, 90 if top < 30 else 400)), skip=draw(st.booleans()),
             pool=draw(st.booleans()), noop=draw(st.sampled_from([0, 0, 1, 4])), ends=draw(st.booleans()),
             size=draw(st.sampled_from([(8, 10), (12, 20), (6, 4)])))
    if x['noop']:                    # a game that may end while no-op actions are played cannot be told apart from outside
        x.update(lives=len(set(x['losses'])) + 1, end=100000)
    return x


@check.case('no-op actions', st.tuples(st.integers(1, 5), st.booleans(), st.integers(0, 999)), quick=8)
def noop_actions(x):
    """Every number of no-op actions up to the maximum is played at the beginning of some episode, and none beyond."""
    top, skip, seed = x
    CFG['game'] = dict(ops=[], lives=1, fire=False, history=2, losses=[], end=10 ** 6, skip=skip, pool=False, noop=top, ends=False, size=(6, 4))
    env = Atari('PbtNoFrameskip-v0' if skip else 'PbtGame-v0', width=6, height=4, max_pooling=False, history_length=2, max_no_op_actions=top)
    game = env.env.unwrapped
    np.random.seed(seed)
    seen = set()
    for _ in range(30 * (top + 1)):
        env.stop()
        env.reset()
        n = len(game.calls)
        env.step(np.array([2]))
        seen.add(len(game.calls) - n - (2 if skip else 1))
    assert seen == set(range(top + 1)), ('numbers of no-op actions played', sorted(seen), top)
    return 'several' if top > 1 else None


@check.case('atari', games(), quick=250)
def atari(x):
    CFG['game'] = x
    w, h = x['size']
    env = Atari('PbtNoFrameskip-v0' if x['skip'] else 'PbtGame-v0', width=w, height=h, ends_at_life=x['ends'],
                max_pooling=x['pool'], history_length=x['history'], max_no_op_actions=x['noop'])
    H = x['history']
    assert env.info.observation_space.shape == (H, h, w) and env.info.action_space.n == 4 and env.info.horizon == np.inf
    assert np.all(env.info.observation_space.low == 0) and np.all(env.info.observation_space.high == 255)
    game = env.env.unwrapped
    ends = x['ends']
    real, t, lives, gamesplayed, label = True, 0, x['lives'], 0, None
    frames = None
    old = []

    def as_list(s):
        return [np.asarray(f) for f in np.array(s)]

    def reset():
        nonlocal real, t, lives, gamesplayed, frames
        n = len(game.calls)
        s, info = env.reset()
        assert info == {} and isinstance(s, LazyFrames) and s.shape == (H, h, w)
        if real:
            gamesplayed += 1
            t, lives = 0, x['lives']
            frames = [shrunk(picture(gamesplayed, 0), w, h)] * H
            assert game.calls[n:] == ['reset'], ('a new game', game.calls[n:])
        else:
            assert game.calls[n:] == [], ('the game goes on', game.calls[n:])
        got = as_list(s)
        assert len(got) == H and all(np.array_equal(p, q) for p, q in zip(got, frames)), 'frames after reset'
        return s

    s = reset()
    fresh, fire = True, x['fire']
    for op in x['ops']:
        if op == 'stop':
            env.stop()
            real = True
            s = reset()
            fresh, fire = True, x['fire']
            continue
        if op in ('life', 'nolife'):
            ends = op == 'life'
            env.set_episode_end(ends)
            continue
        n = len(game.calls)
        old.append((s, as_list(s)))
        s, r, ab, info = env.step(np.array([op]))
        calls = game.calls[n:]
        # what the game was asked to do
        k = 0
        if fire:
            assert calls[:1] == [1], ('fire first', calls)
            k = 1
        main = calls[k:]
        skip = H if x['skip'] else 1
        noops = len(main) - skip
        if t + k + len(main) < x['end'] and not any(t < l <= t + k + len(main) + 1 for l in x['losses']):
            assert main[noops:] == [op] * skip and set(main[:max(noops, 0)]) <= {0}, ('no-op actions, then the action', calls, op)
            assert 0 <= noops <= (x['noop'] if fresh else 0), ('number of no-op actions', noops)
        # replay the game
        total, pics, done, tick, left = 0., [], False, t, lives
        cut = len(calls) - len([c for c in main])
        lead = k + (noops if noops > 0 else 0)
        for j, c in enumerate(calls):
            tick += 1
            if tick in x['losses'] and left > 0:
                left -= 1
            d = left == 0 or tick >= x['end']
            if j >= lead:
                total += c + tick / 8.
                pics.append(picture(gamesplayed, tick))
                assert not done, ('the game went on after its end', calls)
                done = d
        t = tick
        assert abs(r - total) < 1e-9, ('reward', r, total)
        if len(pics) == skip:
            if x['skip']:
                last2 = np.stack(pics[-2:]).astype(float)
                pic = last2.max(0) if x['pool'] else None
                if pic is not None:
                    frames = frames[1:] + [shrunk(pic.astype(np.uint8), w, h)]
                else:
                    mean = shrunk(last2.mean(0).astype(np.uint8), w, h).astype(int)
                    frames = frames[1:] + [as_list(s)[-1]]
                    assert np.abs(frames[-1].astype(int) - mean).max() <= 1, 'average of the last two frames'
            else:
                frames = frames[1:] + [shrunk(pics[-1], w, h)]
            got = as_list(s)
            assert len(got) == H and all(np.array_equal(p, q) for p, q in zip(got, frames)), ('frames', t)
        else:
            frames = frames[1:] + [as_list(s)[-1]]       # the game ended while frames were skipped
        assert info['lives'] == left == game.lives
        lost = left != lives
        assert bool(ab) == bool(done or (lost and ends)), ('absorbing', ab, done, lost, ends)
        fire = x['fire'] and lost
        fresh = False
        if lost and not done:
            label = 'life lost'
        lives = left
        real = done
        for so, fo in old[-3:]:
            assert all(np.array_equal(p, q) for p, q in zip(as_list(so), fo)), 'earlier states do not change'
        if ab:
            s = reset()
            fresh, fire = True, x['fire']
            label = label or 'ended'
    return label


check.case('atari, long', games(120), quick=40)(atari)


@check.case('dm_control', st.tuples(st.sampled_from([('pendulum', 'swingup'), ('cartpole', 'balance'), ('reacher', 'easy'), ('acrobot', 'swingup'),
                                                     ('point_mass', 'easy')]),
                                    st.integers(0, 9), st.sampled_from([None, 5, 40]), st.lists(st.integers(-4, 4), min_size=1, max_size=30),
                                    st.sampled_from([None, None, .1]), st.sampled_from([None, None, (6, 4), (5, 9)]), st.sampled_from([.99, .8])),
            quick=40, thorough=200)
def dm_control(x):
    """Observations, rewards and ends are those of the task; its own time limit gives the default horizon and never ends an episode."""
    from dm_control import suite
    from dm_control.mujoco.engine import Physics
    from mushroom_rl.environments.dm_control_env import DMControl
    (dom, task), seed, hor, acts, limit, pixels, gamma = x

    def render(self, height=240, width=320, camera_id=-1, **kw):
        v = np.ravel(self.data.qpos)
        f = np.zeros((height, width, 3), dtype=np.uint8)
        f[..., 0] = np.arange(height)[:, None] * 10 + int(abs(v[0]) * 50) % 40
        f[..., 1] = np.arange(width) * 12
        f[..., 2] = int(abs(v[-1]) * 900) % 250
        return f
    real, Physics.render = Physics.render, render
    try:
        kw = {} if pixels is None else dict(use_pixels=True, pixels_width=pixels[0], pixels_height=pixels[1])
        tk = dict(random=seed) if limit is None else dict(random=seed, time_limit=limit)
        env = DMControl(dom, task, horizon=hor, gamma=gamma, task_kwargs=tk, dt=.05, **kw)
        ref = suite.load(dom, task, task_kwargs=dict(random=seed))
        spec = ref.action_spec()
        default = ref._step_limit if limit is None else limit / ref.control_timestep()
        assert abs(env.info.horizon - (hor if hor is not None else default)) < 1e-6, ('horizon', env.info.horizon, default)
        assert env.info.gamma == gamma and env.info.dt == .05
        assert np.array_equal(env.info.action_space.low, spec.minimum) and np.array_equal(env.info.action_space.high, spec.maximum)

        def seen(obs):
            return flat(obs) if pixels is None else np.moveaxis(ref.physics.render(pixels[1], pixels[0]), 2, 0)
        old = None
        for ep in range(2):
            s, i = env.reset()
            want = seen(ref.reset().observation)
            assert np.array_equal(s, want) and s.shape == env.info.observation_space.shape and i == {}
            for a in acts:
                act = np.full(spec.shape, a / 4.)
                s, r, ab, i = env.step(act)
                step = ref.step(act)
                assert np.array_equal(s, seen(step.observation)), ('observation', s, seen(step.observation))
                assert r == step.reward and bool(ab) == step.last() and i == {}, ('reward and end', r, step.reward, ab)
                assert old is None or np.array_equal(old[0], old[1]), 'an observation given earlier changed'
                old = (s, s.copy())
        if pixels is not None:
            b = env.info.observation_space
            assert b.shape == (3, pixels[1], pixels[0]) and np.all(b.low == 0) and np.all(b.high == 255)
    finally:
        Physics.render = real
    return ('pixels' if pixels else 'limit' if limit else dom)


def flat(obs):
    return np.concatenate([np.ravel(v) for v in obs.values()])
