"""C44 - the air hockey and ball-in-a-cup tasks: observation, flags, termination, reward and constraints are those of the physical situation."""
import contextlib
import copy
import ctypes
import os
import sys

import mujoco
import numpy as np
import pybullet
from hypothesis import strategies as st

import mushroom_rl.environments.mujoco_envs as mujoco_envs
from mushroom_rl.environments.mujoco_envs.air_hockey import AirHockeyDefend, AirHockeyHit, AirHockeyPrepare, AirHockeyRepel
from mushroom_rl.environments.mujoco_envs.air_hockey.double import AirHockeyDouble
from mushroom_rl.environments.mujoco_envs.ball_in_a_cup import BallInACup
from mushroom_rl.environments.pybullet_envs.air_hockey import (AirHockeyDefendBullet, AirHockeyHitBullet, AirHockeyPrepareBullet,
                                                               AirHockeyRepelBullet)
from mushroom_rl.environments.pybullet_envs.air_hockey.double import AirHockeyDoubleBullet
from pbt.harness import Check

check = Check('C44', rule='a case is a task with its options, an initial placement and speed of the puck and a sequence of torques, over '
              'one or more episodes, compared with the simulator driven directly and with the formulas of the task; non-trivial when '
              'the puck was hit, bounced or left the table, or an episode was restarted')

DATA = os.path.join(os.path.dirname(os.path.abspath(mujoco_envs.__file__)), 'data')
Q0 = np.array([-.9273, .9273, np.pi / 2])
BASE = 1.51
LENGTH, WIDTH, GOAL, MALLET, PUCK = 1.96, 1.02, .25, .05, .03165
QLIM = np.array([2.9670597283903604, 2.0943951023931953, 2.0943951023931953])
VLIM = np.array([np.pi / 2, np.pi / 2, np.pi * 2 / 3])


def hand(q):
    """Position of the end effector in the frame of the robot."""
    a = np.cumsum(q)
    return np.array([np.cos(a) @ [.5, .4, .4], np.sin(a) @ [.5, .4, .4]])


def bell(d, sig):
    return np.exp(-(d / sig) ** 2 / 2) / (np.sqrt(2 * np.pi) * sig)


def angle_to(u, v):
    return min(max(u @ v, 0.), 1.)


def reward_of(task, x, start, puck, vel, ee, action, absorbing, hit, bounce, out=False):
    """The reward of the task, from the situation at the end of the step."""
    n = np.linalg.norm
    cost = x['penalty'] * n(action)
    d = n(puck - ee)
    to = (puck - ee) / d
    if task == 'hit':
        if absorbing:
            r = 200 if puck[0] > LENGTH / 2 and abs(puck[1]) < GOAL else 0
            if out:
                r = -10
        elif not hit:
            goal = np.array([LENGTH / 2, 0.])
            eff = WIDTH / 2 - PUCK
            # the point of the side wall from which the puck is reflected into the goal
            h, g = eff - abs(start[1]), eff
            side = np.array([start[0] + (goal[0] - start[0]) * h / (h + g), np.copysign(eff, start[1])])
            c = max(angle_to((w - start) / n(w - start), to) for w in (goal, side))
            r = np.exp(-8 * (d - .08)) * c ** 2
        else:
            r = 2 * (.25 + min(1, .25 * vel[0] ** 4)) + (10 * bell(puck[1], .1) if puck[0] > .7 else 0)
        return r - cost
    if task in ('defend', 'repel'):
        far = .3 * np.exp(-3 * abs(-.6 - ee[0])) + .35 * bell(abs(puck[1] - ee[1]) - .08, .2)
        if absorbing:
            r = -50 if puck[0] < -LENGTH / 2 and abs(puck[1]) < GOAL else 0
        elif task == 'defend':
            if bounce:
                r = -1
            elif hit:
                r = 0
                if -.8 < puck[0] < -.4:
                    r = np.exp(-5 * abs(puck[0] + .6)) + 3 * np.exp(-3 * abs(puck[1])) + 5 * np.exp(-(5 * n(vel)) ** 2) + 1
            else:
                r = far
        elif hit:
            r = puck[0] + .98 + min(vel[0] ** 3, 5) + 1 + (100 * np.exp(-3 * abs(puck[1])) if puck[0] > .9 else 0)
        else:
            r = far
        return r - cost
    home = n(ee - np.array([-8.10001913e-01, -1.43459494e-06]))
    vel = vel[:2]
    if task == 'side':
        if absorbing and abs(puck[1]) < .47:
            return 100 * np.exp(-2 * n(vel))
        if hit:
            r = max(0, 1 - 10 * (np.exp(abs(vel[0])) - 1)) + .5 - home + 1 if puck[0] < -.35 and abs(puck[1]) < .47 else 0
        else:
            r = np.exp(-8 * (d - .08)) * angle_to(np.array([0, np.copysign(1, puck[1])]), to) ** 2
    else:
        if absorbing and puck[0] >= -.6:
            return 100 * np.exp(-2 * n(vel))
        if hit:
            r = bell(puck[0] + .75, .1) + 2 - abs(vel[1]) + .5 * np.exp(-3 * home) + 1 if -.9 < puck[0] < -.6 and abs(puck[1]) < .47 else 0
        else:
            c = max(angle_to(np.array([.2, np.copysign(.8, puck[1])]), to), angle_to(np.array([-1., 0.]), to))
            r = np.exp(-8 * (d - .08)) * c ** 2
    return r - cost


def absorbing_of(task, puck, vel, hit, bounce, bullet=False, spin=0.):
    """Termination from the situation; None close to a threshold."""
    near = False

    def over(v, t):
        nonlocal near
        near |= abs(v - t) < 1e-7
        return v > t
    done = over(abs(puck[0]), LENGTH / 2) | over(abs(puck[1]), WIDTH / 2) | over(np.linalg.norm(np.append(vel, spin)), 100.)
    if task == 'defend':
        done |= (hit or bounce) and over(puck[0], -.3 if bullet else 0.)
    elif task == 'repel':
        done |= bounce
    elif task in ('side', 'bottom'):
        if hit:
            done |= over(puck[0], 0.) | (not over(abs(puck[1]), .01))
        if task == 'side':
            done |= bounce
    elif task == 'hit' and bullet:
        if hit:
            done |= not over(np.linalg.norm(vel[:2]), .01)
        done |= bounce
    return None if near else bool(done)


RANGES = dict(hit=[[-.65, -.25], [-.4, .4]], defend=[[.25, .65], [-.4, .4]], repel=[[.25, .65], [-.4, .4]],
              side=[[-.8, -.4], [.25, .46]], bottom=[[-.9, -.8], [.125, .46]])
torque = st.tuples(*[st.integers(-8, 8).map(lambda v, s=s: v / 8. * s) for s in (40., 15., 5.)])


@st.composite
def tasks(draw, task):
    double = task == 'double'
    kind = draw(st.sampled_from(['near', 'near', 'shot', 'shot', 'after', 'after', 'far', 'far', 'wall', 'start', 'start push']))
    reps = inter = None
    place = push = None
    ang = draw(st.floats(-3.1, 3.1))
    table = st.tuples(st.floats(-.9, .9), st.floats(-.45, .45))
    away = draw(st.sampled_from([1, 1, -1])) if double else 1      # whose mallet is aimed at
    if kind in ('near', 'after'):    # where the arm can reach it at once, or touches it already
        dist = draw(st.sampled_from([.082, .0825, .09, .12])) if kind == 'near' else .0812
        place = [(-.81 + dist * np.cos(ang)) * away, dist * np.sin(ang) * away]
        if kind == 'after' or draw(st.booleans()):
            speed = draw(st.sampled_from([.02, .3, 1., 2., 4., 7.]))
            aim = draw(st.sampled_from(['out', 'table']))
            to = np.array([np.cos(ang), np.sin(ang)]) if aim == 'out' else np.array(draw(table)) * away - place
            to = to / (np.linalg.norm(to) + 1e-9) * speed * (away if aim == 'out' else 1)
            push = [float(to[0]), float(to[1]), draw(st.integers(-8, 8)) / 8.]
    elif kind == 'shot':             # anywhere, towards a mallet, a goal or a wall
        place = list(draw(table))
        to = np.array(draw(st.sampled_from([(-.81, 0.), (-.81, 0.), (1.1, 0.), (-1.1, 0.), (.95, .4), (.95, -.4), (-.95, .4), (-.95, -.4),
                                            (0., .55), (0., -.55), (-.6, .5), (.81, 0.)]))) - place
        to = to / (np.linalg.norm(to) + 1e-9) * draw(st.sampled_from([.5, 1.5, 3., 6.]))
        push = [float(to[0]), float(to[1]), draw(st.integers(-8, 8)) / 8.]
    elif kind == 'far':              # just hit, on the way to the other side
        t = np.array([draw(st.sampled_from([.72, .93, .97, 1.2, .3])), draw(st.sampled_from([-.4, -.2, 0., 0., .1, .4]))])
        u = t - [-.81, 0.]
        u, speed = u / np.linalg.norm(u), draw(st.sampled_from([4., 6.]))
        place = [float((-.81 + .0812 * u[0]) * away), float(.0812 * u[1] * away)]
        push = [float(u[0] * speed * away), float(u[1] * speed * away), 0.]
        inter = draw(st.sampled_from([1, 2, 5]))
        reps = int(np.linalg.norm(t - place) / speed * 240 / inter * 1.2) + 2
    elif kind == 'wall':             # about to bounce besides a goal
        sx, sy = draw(st.sampled_from([-1, 1])), draw(st.sampled_from([-1, 1]))
        place = [sx * .88, sy * draw(st.floats(.2, .42))]
        push = [sx * draw(st.sampled_from([1., 2., 4.])), 0., 0.]
        inter, reps = draw(st.sampled_from([1, 2, 5])), 30
    elif kind == 'start push':
        push = [draw(st.integers(-24, 24)) / 8., draw(st.integers(-16, 16)) / 8., draw(st.integers(-8, 8)) / 8.]
    if double and place is None:
        place = [draw(st.floats(-.5, .5)), draw(st.floats(-.4, .4))]
    k = draw(st.integers(1, 4))
    still = st.just((0., 0., 0.))
    arms = list(draw(st.sampled_from([(torque, torque), (still, torque), (torque, still), (still, still)])))[:2 if double else 1]
    if reps:
        arms, k = [still] * len(arms), 1
    acts = [(sum([draw(t) for t in arms], ()), reps or draw(st.integers(1, 18))) for _ in range(k)]
    eps = draw(st.sampled_from([1, 1, 2, 3]))
    return dict(task=task, place=place, push=push, acts=acts, eps=eps, inter=inter or draw(st.sampled_from([1, 1, 2, 5, 10])),
                random=place is not None or draw(st.booleans()), lift=draw(st.integers(0, 9)) == 0, penalty=draw(st.sampled_from([1e-3, 0., .05])), arm=draw(st.sampled_from(['right', 'left'])),
                speeds=draw(st.sampled_from([(1, 2.2), (2., 5.)])), noise=draw(st.integers(0, 4)) == 0, seed=draw(st.integers(0, 9999)),
                boundary=draw(st.booleans()), torque=draw(st.integers(0, 3)) > 0, delay=draw(st.integers(0, 3)) == 0,
                wrap=draw(st.integers(0, 3)) == 0)


def options(x):
    o = dict(n_intermediate_steps=x['inter'])
    if x['task'] != 'double':
        o.update(random_init=x['random'], action_penalty=x['penalty'])
    if x['task'] == 'hit':
        o['init_robot_state'] = x['arm']
    elif x['task'] in ('side', 'bottom'):
        o['sub_problem'] = x['task']
    elif x['task'] in ('defend', 'repel'):
        o['init_velocity_range'] = x['speeds']
    return o


def placed(env, x):
    """A single puck position in the range from which the initial positions are drawn."""
    if x['place'] is not None:
        p = np.array([[x['place'][0]] * 2, [x['place'][1]] * 2])
        if x['task'] == 'hit':
            env.hit_range = p
        else:
            env.start_range = p


def initial(x, puck, vel, spin, q):
    """The documented initial situations."""
    t = x['task']
    lo, hi = np.array(RANGES[t] if x['place'] is None else [[v, v] for v in x['place']]).T
    sign = 1 if t in ('side', 'bottom') else 0
    if x['random']:
        cand = [puck] + ([puck * [1, -1]] if sign else [])
        assert any(np.all(c >= lo - 1e-9) and np.all(c <= hi + 1e-9) for c in cand), ('initial position of the puck', puck, lo, hi)
    else:
        want = (lo + hi) / 2
        if t in ('defend', 'repel'):
            want[1] = 0.
        assert np.allclose(puck, want), ('initial position of the puck', puck, want)
    if x['push'] is not None:
        assert np.allclose(vel, x['push'][:2]) and np.allclose(spin, x['push'][2])
    elif t in ('defend', 'repel'):
        if x['random']:
            s = np.linalg.norm(vel)
            assert spin != 0 and x['speeds'][0] - 1e-9 <= s <= x['speeds'][1] + 1e-9 and vel[0] < 0 and abs(np.arctan2(vel[1], -vel[0])) <= .5 + 1e-9 \
                and abs(spin) <= 1, ('initial speed of the puck', vel, spin)
        else:
            assert np.allclose(vel, [-1, 0]) and spin == 0, ('initial speed of the puck', vel, spin)
    else:
        assert np.allclose(vel, 0) and spin == 0, ('the puck is at rest', vel, spin)
    assert np.allclose(q, -Q0 if t == 'hit' and x['arm'] == 'left' else Q0), ('initial configuration', q)


MODELS = {}
CLASSES = dict(hit=AirHockeyHit, defend=AirHockeyDefend, repel=AirHockeyRepel, side=AirHockeyPrepare, bottom=AirHockeyPrepare,
               double=AirHockeyDouble)


def pushed(cls):
    class Pushed(cls):
        push = place = None

        def setup(self, obs):
            if self.place is not None:
                self._write_data('puck_pos', np.concatenate([self.place, [0, 0, 0, 0, 1]]))
            super().setup(obs)
            if self.push is not None:
                self._write_data('puck_vel', np.array([self.push[0], self.push[1], 0, 0, 0, self.push[2]]))
            self.begun = np.array(self._read_data('puck_pos'))[:2]      # exactly: contacts amplify rounding errors
    return Pushed


PUSHED = {k: pushed(c) for k, c in CLASSES.items()}


class Sim(object):
    """The MuJoCo model of the table, driven directly."""
    def __init__(self, n):
        if n not in MODELS:
            MODELS[n] = mujoco.MjModel.from_xml_path(os.path.join(DATA, 'air_hockey', ('single', 'double')[n - 1] + '.xml'))
            MODELS[n].opt.timestep = 1 / 240.
        self.n, self.m = n, MODELS[n]
        self.d = mujoco.MjData(self.m)
        self.hit, self.bounce = [False] * n, False

    def start(self, puck, vel, spin, qs):
        mujoco.mj_resetData(self.m, self.d)
        self.d.joint('puck').qpos = [puck[0], puck[1], 0, 0, 0, 0, 1]
        self.d.joint('puck').qvel = [vel[0], vel[1], 0, 0, 0, spin]
        for i in range(self.n):
            for j in range(3):
                self.d.joint('planar_robot_%d/joint_%d' % (i + 1, j + 1)).qpos = qs[i][j]
        mujoco.mj_fwdPosition(self.m, self.d)
        self.hit, self.bounce = [False] * self.n, False

    def step(self, action, inter):
        for i in range(self.n):
            for j in range(3):
                self.d.actuator('planar_robot_%d/joint_%d' % (i + 1, j + 1)).ctrl = action[3 * i + j]
        for _ in range(inter):
            mujoco.mj_step(self.m, self.d)
            for c in self.d.contact:
                names = {self.m.geom(c.geom1).name, self.m.geom(c.geom2).name}
                if 'puck' in names:
                    for i in range(self.n):
                        self.hit[i] |= 'planar_robot_%d/ee' % (i + 1) in names
                    self.bounce |= bool(names & {'rim_home_l', 'rim_home_r', 'rim_away_l', 'rim_away_r'})

    @property
    def puck(self):
        return self.d.joint('puck').qpos[:2].copy()

    @property
    def vel(self):
        return self.d.joint('puck').qvel[:2].copy()

    @property
    def spin(self):
        return float(self.d.joint('puck').qvel[5])

    def q(self, i=0):
        return np.array([self.d.joint('planar_robot_%d/joint_%d' % (i + 1, j + 1)).qpos[0] for j in range(3)])

    def qd(self, i=0):
        return np.array([self.d.joint('planar_robot_%d/joint_%d' % (i + 1, j + 1)).qvel[0] for j in range(3)])

    def ee(self, i=0):
        return self.d.body('planar_robot_%d/body_ee' % (i + 1)).xpos.copy()


def view(i, puck, vel, spin):
    """What robot i sees of the puck: its own base is the origin, its own side points to the table."""
    s = 1 - 2 * i
    return np.concatenate([[s * puck[0] + BASE, s * puck[1]], [s * vel[0], s * vel[1], spin]])


def constraints_of(q, qd):
    e = hand(q) + [-BASE, 0]
    return dict(ee_constraints=np.array([-(LENGTH / 2 + MALLET) - e[0], -(WIDTH / 2 - MALLET) - e[1], e[1] - (WIDTH / 2 - MALLET)]),
                joint_pos_constraints=np.concatenate([q - QLIM, -QLIM - q]), joint_vel_constraints=np.concatenate([qd - VLIM, -VLIM - qd]))


def same_info(got, q, qd, who):
    want = constraints_of(q, qd)
    assert set(got) == set(want), ('constraints', sorted(got))
    for k, v in want.items():
        assert np.allclose(got[k], v, atol=1e-6), ('constraints', who, k, got[k], v)


def air_hockey(x):
    np.random.seed(x['seed'])
    env = PUSHED[x['task']](obs_noise=x['noise'], **options(x))
    placed(env, x)
    env.push = x['push']
    assert abs(env.info.dt - x['inter'] / 240.) < 1e-12 and env.info.observation_space.shape == (13,) and env.info.action_space.shape == (3,)
    lo, hi = env.info.observation_space.low, env.info.observation_space.high
    assert np.allclose(hi[5:], np.concatenate([QLIM, VLIM, [1, 1]])) and np.allclose(lo[5:], np.concatenate([-QLIM, -VLIM, [0, 0]])), 'limits'
    assert np.allclose(env.info.action_space.high, [40, 15, 5]) and np.allclose(env.info.action_space.low, [-40, -15, -5]), 'limits of the torques'
    sim = Sim(1)
    errs, label = [], None

    def seen(o):
        want = np.concatenate([view(0, sim.puck, sim.vel, sim.spin), sim.q(), sim.qd(), [sim.hit[0], sim.bounce]])
        if x['noise']:
            errs.extend(o[:2] - want[:2])
            assert np.all(np.abs(o[:2] - want[:2]) < .008), ('noise of the observed position', o[:2], want[:2])
        else:
            assert np.allclose(o[:2], want[:2], atol=1e-6), ('observed position of the puck', o[:2], want[:2])
        assert np.allclose(o[2:], want[2:], atol=1e-5), ('observation', o, want)
        pos, vel, spin = env.get_puck(want)
        assert np.allclose(pos, want[:2]) and np.allclose(vel, want[2:4]) and np.allclose(spin, want[4]), 'puck of an observation'

    for ep in range(x['eps']):
        o, info = env.reset()
        assert o.shape == (13,)
        start = env.begun
        initial(x, start, o[2:4], o[4], o[5:8])
        assert np.allclose(o[8:11], 0) and not np.any(o[11:]), 'a new episode starts with the arm at rest and without contacts'
        sim.start(start, o[2:4], o[4], [o[5:8]])
        seen(o)
        if ep:
            label = label or 'restarted'
        for a, reps in x['acts']:
            stop = False
            for _ in range(reps):
                o, r, ab, info = env.step(np.array(a))
                sim.step(a, x['inter'])
                hit, bounce = sim.hit[0], sim.bounce
                seen(o)
                same_info(info, sim.q(), sim.qd(), 1)
                ee, ev = env.get_ee()
                assert np.allclose(ee, sim.ee(), atol=1e-5) and len(ev) == 6, 'end effector'
                want = absorbing_of(x['task'], sim.puck, sim.vel, hit, bounce, spin=sim.spin)
                assert want is None or bool(ab) == want, ('absorbing', ab, want, sim.puck, hit, bounce)
                rr = reward_of(x['task'], x, start, sim.puck, sim.vel, sim.ee()[:2], a, bool(ab), hit, bounce)
                assert abs(r - rr) < 1e-4 + 1e-4 * abs(rr), ('reward', r, rr, sim.puck, sim.vel, hit, bounce, ab)
                if hit or bounce or ab:
                    label = 'contact'
                if ab:
                    stop = True
                    break
            if stop:
                break
    if len(errs) >= 80:
        s = np.sqrt(np.mean(np.square(errs)))
        assert .0004 < s < .0025, ('size of the noise of the observed position', s)
    return label


@check.case('two agents', tasks('double'), quick=60)
def two_agents(x):
    env = PUSHED['double'](**options(x))
    env.push, env.place = x['push'] or [0, 0, 0], x['place']
    assert abs(env.info.dt - x['inter'] / 240.) < 1e-12 and env.info.observation_space.shape == (25,) and env.info.action_space.shape == (6,)
    sim = Sim(2)
    label = None

    def seen(o):
        rows = [np.concatenate([view(i, sim.puck, sim.vel, sim.spin), sim.q(i), sim.qd(i)]) for i in range(2)]
        want = np.concatenate(rows + [sim.hit, [sim.bounce]])
        assert o.shape == (25,) and np.allclose(o, want, atol=1e-5), ('observation', o, want)

    for ep in range(x['eps']):
        o, info = env.reset()
        sim.start(x['place'], env.push[:2], env.push[2], [Q0, Q0])
        seen(o)
        if ep:
            label = label or 'restarted'
        for a, reps in x['acts']:
            stop = False
            for _ in range(reps):
                o, r, ab, info = env.step(np.array(a))
                sim.step(a, x['inter'])
                seen(o)
                want = absorbing_of('double', sim.puck, sim.vel, False, False, spin=sim.spin)
                assert r == 0 and (want is None or bool(ab) == want), ('reward and absorbing', r, ab, want)
                assert set(info) == {'agent-1', 'agent-2'}
                for i in range(2):
                    same_info(info['agent-%d' % (i + 1)], sim.q(i), sim.qd(i), i + 1)
                    ee, ev = env.get_ee(i + 1)
                    assert np.allclose(ee, sim.ee(i), atol=1e-5) and len(ev) == 6, 'end effector'
                if any(sim.hit) or sim.bounce:
                    label = 'contact'
                if ab:
                    stop = True
                    break
            if stop:
                break
    return label


@check.case('noisy air', st.tuples(st.sampled_from(['hit', 'side']), st.sampled_from([1, 4]), st.integers(0, 999)), quick=4)
def noisy_air(x):
    """Air noise pushes the puck, by as much as forces of the documented size do, and nothing else."""
    task, inter, seed = x
    np.random.seed(seed)
    env = CLASSES[task](env_noise=True, n_intermediate_steps=inter)
    still = Sim(1)
    n, vels = 120, []
    for _ in range(10):
        o, _ = env.reset()
        still.start(o[:2] - [BASE, 0], o[2:4], o[4], [o[5:8]])
        for _ in range(n // inter):
            o, _, ab, _ = env.step(np.zeros(3))
            still.step(np.zeros(3), inter)
        assert np.allclose(o[5:11], np.concatenate([still.q(), still.qd()]), atol=1e-6), 'the arm feels no air'
        vels.append(o[2:4])
    scale = .0005 / .01 / 240. * np.sqrt(n)
    s = np.sqrt(np.mean(np.square(vels)))
    assert .3 * scale < s < 2 * scale, ('speed of the puck in noisy air', s, scale)
    return 'noise'


CUP = {}


def cup():
    """The settled robot, reached by the documented controller, and an environment."""
    if not CUP:
        m = mujoco.MjModel.from_xml_path(os.path.join(DATA, 'ball_in_a_cup', 'model.xml'))
        d = mujoco.MjData(m)
        mujoco.mj_resetData(m, d)
        names = ['base_yaw', 'shoulder_pitch', 'shoulder_yaw', 'elbow_pitch', 'wrist_yaw', 'wrist_pitch', 'palm_yaw']
        act = [m.actuator('act/wam/%s_joint' % n).id for n in names]
        goal = np.array([0.0, 0.58760536, 0.0, 1.36004913, 0.0, -0.32072943, -1.57])
        P, D = np.array([200, 400, 100, 100, 10, 10, 5]), np.array([7, 15, 5, 2.5, .3, .3, .05])
        q0 = d.qpos[:7].copy()
        for i in range(5000):
            want = q0 + (goal - q0) * min(1., i / 250.)
            d.ctrl[act] = d.qfrc_bias[:7] + (P * (want - d.qpos[:7]) + D * (0. - d.qvel[:7]))
            mujoco.mj_step(m, d)
        CUP.update(m=m, d=d, act=act, env=BallInACup(), names=names)
    return CUP


torques7 = st.tuples(*[st.integers(-8, 8).map(lambda v, s=s: v / 8. * s) for s in (30., 30., 15., 15., 5., 5., 2.)])


SWINGS = [[47.0, 55.6, -7.0, 17.5, 0.6, 1.4, 4.3], [23.7, -52.8, 10.0, 10.2, -5.8, -7.4, -1.8], [-16.4, 8.4, -3.7, 29.3, -8.0, -5.8, -3.4],
          [-43.4, -36.4, -7.9, 19.3, -8.1, 6.8, -4.0]]        # torques that throw the ball into the cup or at the arm
swing = st.tuples(st.sampled_from(SWINGS), st.integers(90, 110)).map(lambda t: [(tuple(v * t[1] / 100. for v in t[0]), 105)])


@check.case('swings', st.fixed_dictionaries(dict(eps=st.lists(swing, min_size=1, max_size=2), fresh=st.just(0))), quick=12)
@check.case('ball in a cup', st.fixed_dictionaries(dict(
    eps=st.lists(st.lists(st.tuples(torques7, st.integers(1, 12)), min_size=1, max_size=2), min_size=1, max_size=3),
    fresh=st.integers(0, 29))), quick=14)
def ball_in_a_cup(x):
    c = cup()
    m, env = c['m'], BallInACup() if x['fresh'] == 29 else c['env']
    assert env.info.horizon == 2000 and env.info.gamma == .9999 and abs(env.info.dt - 4 * m.opt.timestep) < 1e-12
    label = None
    for ep, acts in enumerate(x['eps']):
        d = copy.copy(c['d'])

        def seen(o):
            want = []
            for n in c['names']:
                j = d.joint('wam/%s_joint' % n)
                want += [j.qpos[0], j.qvel[0]]
            v = np.empty(6)
            mujoco.mj_objectVelocity(m, d, mujoco.mjtObj.mjOBJ_XBODY, m.body('ball').id, v, False)
            want = np.concatenate([want, d.body('ball').xpos, v])
            assert o.shape == want.shape, 'shape of the observation'
            # the string is chaotic: rounding errors may grow slowly, a difference never appears at once
            e = np.max(np.abs(o - want) / (1. + np.abs(want)))
            assert e < 1e-5 or err[0] > 1e-9, ('observation', o, want)
            err[0] = max(err[0], e)
            return e < 1e-6
        err = [0.]
        o, _ = env.reset()
        seen(o)
        label = 'restarted' if ep else label
        for a, reps in acts:
            stop = False
            for _ in range(reps):
                o, r, ab, _ = env.step(np.array(a))
                d.ctrl[c['act']] = a
                for _ in range(4):
                    mujoco.mj_step(m, d)
                if not seen(o):
                    stop = True
                    break
                inside = np.linalg.norm(d.site('cup_goal_final').xpos - d.body('ball').xpos) < .05
                touch = False
                for k in d.contact:
                    names = [m.geom(k.geom1).name, m.geom(k.geom2).name]
                    if 'ball_geom' in names:
                        other = names[1 - names.index('ball_geom')]
                        touch |= other in ('cup_geom1', 'cup_geom2') or other.startswith(('wrist_', 'forearm_link'))
                assert r == float(inside), ('reward', r, inside)
                assert bool(ab) == (inside or touch), ('absorbing', ab, inside, touch)
                if ab:
                    label, stop = 'caught or touched', True
                    break
            if stop:
                break
    return label


# ---------------------------------------------------------------------------------------------------------------- PyBullet
BULLET = dict(hit=AirHockeyHitBullet, defend=AirHockeyDefendBullet, repel=AirHockeyRepelBullet, side=AirHockeyPrepareBullet,
              bottom=AirHockeyPrepareBullet, double=AirHockeyDoubleBullet)


def ids(c):
    out = {}
    for i in range(c.getNumBodies()):
        u = c.getBodyUniqueId(i)
        info = c.getBodyInfo(u)
        out[info[1].decode()] = u
    return out


def links(c, body):
    return {c.getJointInfo(body, j)[12].decode(): j for j in range(c.getNumJoints(body))}


def pushed_bullet(cls):
    class Pushed(cls):
        push = place = None
        lift = 0.

        def setup(self, state):
            super().setup(state)
            puck = ids(self.client)['puck']
            if self.place is not None:
                self.client.resetBasePositionAndOrientation(puck, [self.place[0], self.place[1], -.189], [0, 0, 0, 1.])
            if self.push is not None:
                self.client.resetBaseVelocity(puck, [self.push[0], self.push[1], self.lift], [0., 0., self.push[2]])
            if cls is AirHockeyDoubleBullet:
                for n in ('planar_robot_1', 'planar_robot_2'):
                    b = ids(self.client)[n]
                    k = 0
                    for j in range(self.client.getNumJoints(b)):
                        if self.client.getJointInfo(b, j)[2] == pybullet.JOINT_REVOLUTE:
                            self.client.resetJointState(b, j, Q0[k])
                            k += 1

        def reward(self, state, action, next_state, absorbing):
            return 0. if cls is AirHockeyDoubleBullet else super().reward(state, action, next_state, absorbing)
    return Pushed


PUSHED_BULLET = {k: pushed_bullet(c) for k, c in BULLET.items()}


class World(object):
    """Reads the simulation of an environment through its public client."""
    def __init__(self, env, n):
        self.c, self.n = env.client, n
        b = ids(self.c)
        self.b = b
        self.puckid = b['puck']
        self.robots = [b['planar_robot_%d' % (i + 1)] for i in range(n)]
        self.links = [links(self.c, r) for r in self.robots]
        self.joints = [[j for j in range(self.c.getNumJoints(r)) if self.c.getJointInfo(r, j)[2] == pybullet.JOINT_REVOLUTE] for r in self.robots]
        self.eel = [next(v for k, v in l.items() if k.endswith('link_striker_ee')) for l in self.links]
        self.table = next(u for k, u in b.items() if u != self.puckid and u not in self.robots)
        self.rims = links(self.c, self.table)
        self.hit = self.up = self.down = False
        self.touch = 0
        self.speeds = []
        step = self.c.stepSimulation

        def stepped(*a, **k):
            r = step(*a, **k)
            self.look()
            return r
        self.c.stepSimulation = stepped

    def begin(self):
        self.hit = self.up = self.down = False

    def look(self):
        c = self.c
        self.touch += 1
        self.hit |= bool(c.getContactPoints(self.puckid, self.robots[0], -1, self.eel[0]))
        self.up |= any(c.getContactPoints(self.puckid, self.table, -1, self.rims[k]) for k in ('t_up_rim_l', 't_up_rim_r'))
        self.down |= any(c.getContactPoints(self.puckid, self.table, -1, self.rims[k]) for k in ('t_down_rim_l', 't_down_rim_r'))
        for r in self.robots:
            assert not c.getContactPoints(r, self.table), 'the arm does not touch the table'
        assert not any(c.getContactPoints(self.puckid, self.table, -1, self.rims[k]) for k in ('t_up_rim_top', 't_down_rim_top'))

    def read(self):
        p = np.array(self.c.getBasePositionAndOrientation(self.puckid)[0])
        v, w = [np.array(k) for k in self.c.getBaseVelocity(self.puckid)]
        q = [np.array([self.c.getJointState(r, j)[0] for j in js]) for r, js in zip(self.robots, self.joints)]
        qd = [np.array([self.c.getJointState(r, j)[1] for j in js]) for r, js in zip(self.robots, self.joints)]
        ee = [np.array(self.c.getLinkState(r, e)[0]) for r, e in zip(self.robots, self.eel)]
        return p, v, w, q, qd, ee


def bullet_obs(i, t):
    p, v, w, q, qd, _ = t
    return np.concatenate([view(i, p[:2], v[:2], w[2]), q[i], qd[i]])


@contextlib.contextmanager
def hush():
    """The importer of PyBullet writes to the standard output of the process."""
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        yield
    finally:
        ctypes.CDLL(None).fflush(None)
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def play(x, n):
    kw = options(x)
    wrap = (lambda s, a: -.5 * np.asarray(a)) if x['wrap'] else None
    kw.update(table_boundary_terminate=x['boundary'], torque_control=x['torque'], obs_delay=x['delay'], obs_noise=x['noise'],
              step_action_function=wrap)
    with hush():
        env = PUSHED_BULLET[x['task']](**kw)
    try:
        placed(env, x)
        env.push, env.lift = x['push'], 2. if x['lift'] else 0.
        if n == 2:
            env.place = x['place']
        return env, World(env, n)
    except BaseException:
        env.client.disconnect()
        raise


def bullet(x):
    np.random.seed(x['seed'])
    flags = 2 if x['task'] == 'defend' else 1
    env, w = play(x, 1)
    try:
        assert env.info.observation_space.shape == (11 + flags,) and abs(env.info.dt - x['inter'] / 240.) < 1e-12, ('interval between actions', env.info.dt)
        label = None
        for ep in range(x['eps']):
            o, _ = env.reset()
            w.begin()
            t = w.read()
            start = t[0][:2]
            initial(x, start, t[1][:2], t[2][2], t[3][0])
            assert np.allclose(t[4][0], 0) and not np.any(o[11:]), 'a new episode starts with the arm at rest and without contacts'
            low = bullet_obs(0, t)
            # without a past there is nothing to filter: an observed velocity may be the true one or its half
            assert np.allclose(o[2:5], low[2:5], atol=1e-6) or (x['delay'] and np.allclose(o[2:5], low[2:5] / 2, atol=1e-6)), ('first velocity', o, low)
            prev = o
            moving, maybe = False, False
            label = 'restarted' if ep and not label else label
            for a, reps in x['acts']:
                stop = False
                for _ in range(reps):
                    moved = np.linalg.norm(t[1][:2]) > .1
                    moving |= moved
                    k = w.touch
                    a = np.array(a) * (.05 if not x['torque'] else 1.)
                    o, r, ab, _ = env.step(a)
                    assert w.touch - k == x['inter'], ('simulation steps per action', w.touch - k)
                    t = w.read()
                    want = bullet_obs(0, t)
                    if x['delay']:
                        want[2:5] = (want[2:5] + prev[2:5]) / 2
                        want[8:11] = (want[8:11] + prev[8:11]) / 2
                    prev = o
                    tol = .008 if x['noise'] else 1e-6
                    assert np.allclose(o[:2], want[:2], atol=tol), ('observed position', o, want)
                    assert np.allclose(o[2:11], want[2:11], atol=1e-6), ('observation', o, want)
                    if x['task'] == 'hit':
                        hit, bounce = bool(o[11]), w.down
                        maybe |= np.linalg.norm(t[1][:2]) > .1 or w.touch - k > 1
                        assert hit or not moving, ('the puck moved', hit)
                        assert not hit or moving or maybe, 'a hit without motion'
                    else:
                        hit, bounce = w.hit, w.up or w.down
                        assert bool(o[11]) == hit, ('hit', o[11:], hit)
                        if flags == 2:
                            assert bool(o[12]) == bounce, ('bounce', o[11:], bounce)
                    out = x['boundary'] and (abs(t[5][0][0]) > LENGTH / 2 or abs(t[5][0][1]) > WIDTH / 2)
                    want = absorbing_of(x['task'], t[0][:2], t[1], hit, bounce, bullet=True)
                    if want is not None:
                        want = want or out or abs(t[0][2] + .189) > .05
                        assert bool(ab) == want, ('absorbing', ab, want, t[0], t[1], hit, bounce, out)
                    rr = reward_of(x['task'], x, start, t[0][:2], t[1][:3], t[5][0][:2], a, bool(ab), hit, bounce, out)
                    assert abs(r - rr) < 1e-6 + 1e-6 * abs(rr), ('reward', r, rr, t, hit, bounce, ab)
                    if hit or bounce or ab:
                        label = 'contact'
                    if ab:
                        stop = True
                        break
                if stop:
                    break
        return label
    finally:
        env.client.disconnect()


@check.case('bullet two agents', tasks('double'), quick=80)
def bullet_two(x):
    np.random.seed(x['seed'])
    env, w = play(x, 2)
    try:
        assert env.info.observation_space.shape == (22,) and env.info.action_space.shape == (6,) and abs(env.info.dt - x['inter'] / 240.) < 1e-12
        label = None
        for ep in range(x['eps']):
            o, _ = env.reset()
            w.begin()
            prev = o
            label = 'restarted' if ep and not label else label
            for a, reps in x['acts']:
                stop = False
                for _ in range(reps):
                    a = np.array(a) * (.05 if not x['torque'] else 1.)
                    o, r, ab, _ = env.step(a)
                    t = w.read()
                    want = np.concatenate([bullet_obs(i, t) for i in range(2)])
                    if x['delay']:
                        for i in (2, 3, 4, 8, 9, 10):
                            for k in (0, 11):
                                want[i + k] = (want[i + k] + prev[i + k]) / 2
                    prev = o
                    for i in range(2):
                        s = 11 * i
                        assert np.allclose(o[s:s + 2], want[s:s + 2], atol=.008 if x['noise'] else 1e-6), ('observed position', o, want)
                        assert np.allclose(o[s + 2:s + 11], want[s + 2:s + 11], atol=1e-6), ('observation', o, want)
                    out = x['boundary'] and any(abs(e[0]) > LENGTH / 2 or abs(e[1]) > WIDTH / 2 for e in t[5])
                    want = absorbing_of('double', t[0][:2], t[1], False, False)
                    if want is not None:
                        want = want or out or abs(t[0][2] + .189) > .05
                        assert bool(ab) == want, ('absorbing', ab, want, t[0], out)
                    if w.hit or w.up or w.down or ab:
                        label = 'contact'
                    if ab:
                        stop = True
                        break
                if stop:
                    break
        return label
    finally:
        env.client.disconnect()


@check.case('bullet noisy air', st.tuples(st.sampled_from(['hit', 'side', 'double']), st.sampled_from([1, 4]), st.integers(0, 999)), quick=3)
def bullet_noisy(x):
    task, inter, seed = x
    np.random.seed(seed)
    with hush():
        env = PUSHED_BULLET[task](env_noise=True, n_intermediate_steps=inter)
    try:
        n, vels = 120, []
        for _ in range(10):
            env.reset()
            for _ in range(n // inter):
                o, _, ab, _ = env.step(np.zeros(6 if task == 'double' else 3))
            vels.append(o[2:4])
        s = np.sqrt(np.mean(np.square(vels)))
        assert 1e-4 < s < .5, ('speed of the puck in noisy air', s)
        return 'noise'
    finally:
        env.client.disconnect()


@check.known('hit-random-arm', 'AirHockeyHit(init_robot_state="random") of MuJoCo always starts the arm in the "right" configuration')
def hit_random_arm():
    env = AirHockeyHit(init_robot_state='random')
    starts = np.array([env.reset()[0][5:8] for _ in range(20)])
    assert np.ptp(starts, axis=0).max() > 1e-3, 'the arm starts in random configurations'


for t in RANGES:
    check.case('air hockey ' + t, tasks(t), quick=80)(air_hockey)
    check.case('bullet air hockey ' + t, tasks(t), quick=80)(bullet)
