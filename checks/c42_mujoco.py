"""C42 - MuJoCo environments: what the agent sees, does and is rewarded for is exactly the simulation of the given model."""
import os
import tempfile

os.environ.setdefault('MUJOCO_GL', 'disable')

import mujoco
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.environments.mujoco import MuJoCo, MultiMuJoCo, ObservationType as O
from pbt.harness import Check

check = Check('C42', rule='a case is a generated model (joints, limits, actuators), observation and actuation specification, numbers of '
              'substeps and intermediate steps, and a history of resets (also to given observations) and steps, compared with the '
              'simulator driven directly; non-trivial when observations were removed or added, the actuation is a reordered subset, '
              'or a state was given')

XML = '''<mujoco>
<compiler angle="radian"/><option timestep="{timestep}" gravity="0 0 -9.81"/>
<worldbody>
 <geom name="floor" type="plane" size="5 5 .1"/>
 <body name="arm" pos="0 0 1"><joint name="j1" type="hinge" axis="0 1 0" damping=".5" {lim1}/>
  <geom name="g1" type="capsule" fromto="0 0 0 .3 0 0" size=".04" contype="0" conaffinity="0" mass="{mass}"/>
  <body name="hand" pos=".3 0 0"><joint name="j2" type="slide" axis="1 0 0" damping="2" range="-.2 .2" {lim2}/>
   <geom name="g2" type="sphere" size=".05" contype="0" conaffinity="0" mass=".5"/><site name="tip" pos=".05 0 0"/></body></body>
 <body name="post" pos="1 1 .5"><joint name="j3" type="hinge" axis="0 0 1" damping=".2"/>
  <geom name="g3" type="box" size=".1 .1 .1" contype="0" conaffinity="0" mass="1"/></body>
 <body name="ball" pos="0 -1 {height}"><freejoint name="free"/><geom name="ball" type="sphere" size=".1" mass=".2"/></body>
 <body name="ball2" pos="0 -1.{gap} {height2}"><freejoint name="free2"/><geom name="ball2" type="sphere" size=".1" mass=".3" margin="{margin}"/></body>
</worldbody>
<actuator><motor name="m1" joint="j1" {c1}/><motor name="m2" joint="j2" ctrllimited="true" ctrlrange="-3 2"/><motor name="m3" joint="j3"/></actuator>
</mujoco>'''

ENTRIES = [('q1', 'j1', O.JOINT_POS), ('v1', 'j1', O.JOINT_VEL), ('q2', 'j2', O.JOINT_POS), ('v2', 'j2', O.JOINT_VEL),
           ('q3', 'j3', O.JOINT_POS), ('v3', 'j3', O.JOINT_VEL), ('free_q', 'free', O.JOINT_POS), ('free_v', 'free', O.JOINT_VEL),
           ('hand', 'hand', O.BODY_POS), ('rot', 'arm', O.BODY_ROT), ('bvel', 'ball', O.BODY_VEL), ('bvelw', 'ball', O.BODY_VEL_WORLD),
           ('tip', 'tip', O.SITE_POS), ('tiprot', 'tip', O.SITE_ROT)]
SIZE = dict(q1=1, v1=1, q2=1, v2=1, q3=1, v3=1, free_q=7, free_v=6, hand=3, rot=4, bvel=6, bvelw=6, tip=3, tiprot=9)


def read(model, data, name, t):
    if t is O.BODY_POS:
        return data.xpos[mujoco.mj_name2id(model, mujoco.mjtObj.mjOBJ_BODY, name)].copy()
    if t is O.BODY_ROT:
        return data.xquat[mujoco.mj_name2id(model, mujoco.mjtObj.mjOBJ_BODY, name)].copy()
    if t in (O.BODY_VEL, O.BODY_VEL_WORLD):
        v = np.zeros(6)
        mujoco.mj_objectVelocity(model, data, mujoco.mjtObj.mjOBJ_XBODY, mujoco.mj_name2id(model, mujoco.mjtObj.mjOBJ_BODY, name), v,
                                 1 if t is O.BODY_VEL else 0)
        return v
    if t in (O.SITE_POS, O.SITE_ROT):
        i = mujoco.mj_name2id(model, mujoco.mjtObj.mjOBJ_SITE, name)
        return (data.site_xpos if t is O.SITE_POS else data.site_xmat)[i].copy()
    j = mujoco.mj_name2id(model, mujoco.mjtObj.mjOBJ_JOINT, name)
    free = model.jnt_type[j] == mujoco.mjtJoint.mjJNT_FREE
    if t is O.JOINT_POS:
        a = model.jnt_qposadr[j]
        return data.qpos[a:a + (7 if free else 1)].copy()
    a = model.jnt_dofadr[j]
    return data.qvel[a:a + (6 if free else 1)].copy()


def write_xml(x, k=0):
    f = os.path.join(os.environ['VERIF_SCRATCH'], 'model%d.xml' % k)
    with open(f, 'w') as h:
        h.write(XML.format(timestep=x['ts'], lim1='limited="true" range="-1.5 1"' if x['lim1'] else 'limited="false"',
                           lim2='limited="%s"' % ('true' if x['lim2'] else 'false'), mass=1. + k + x['mass'], height=x['height'], height2=x['height2'], gap=x['gap'], margin=x['margin'],
                           c1='ctrllimited="true" ctrlrange="-1 1.5"' if x['c1'] else 'ctrllimited="false"'))
    return f


@st.composite
def setups(draw, multi=False, long=False):
    entries = draw(st.permutations(range(len(ENTRIES))))[:draw(st.integers(1, len(ENTRIES) if long else 7))]
    keys = [ENTRIES[i][0] for i in entries]
    removed = []
    for k in keys:
        if SIZE[k] > 1 and draw(st.booleans()):
            rm = draw(st.permutations(range(SIZE[k])))[:draw(st.integers(1, SIZE[k] - 1))]
            removed.append((k, list(rm)))
    ops = []
    n_act = draw(st.permutations([1, 2, 3]))[:draw(st.integers(0, 3))]
    val = st.integers(-6, 6).map(lambda v: v / 4.)
    for _ in range(draw(st.integers(8, 40) if long else st.integers(1, 8))):
        if draw(st.integers(0, 12 if long else 4)) == 0:
            ops.append(('reset', draw(st.one_of(st.none(), st.lists(val, min_size=8, max_size=8)))))
        else:
            ops.append(('step', draw(st.lists(val, min_size=3, max_size=3))))
    return dict(entries=list(entries), removed=removed, act=list(n_act), ops=ops, ts=draw(st.sampled_from([.002, .004])),
                over=draw(st.sampled_from([None, None, .003])), lim1=draw(st.booleans()), lim2=draw(st.booleans()), c1=draw(st.booleans()),
                sub=draw(st.integers(1, 12 if long else 3)), inter=draw(st.integers(1, 12 if long else 3)),
                height2=draw(st.sampled_from([.09, .095, .3])), margin=draw(st.sampled_from([0, 0, .05, .5])), gap=draw(st.sampled_from(['15', '6'])), height=draw(st.sampled_from([.09, .5])), mass=draw(st.integers(0, 2)),
                maxvel=draw(st.booleans()), added=draw(st.sampled_from([0, 0, 2])), control=draw(st.booleans()),
                models=draw(st.integers(2, 3)) if multi else 1)


class Env(MuJoCo):
    def __init__(self, xml, x, **kw):
        self.x = x
        self.hooks = []
        self.rewards = []
        cls_init(self, xml, x, **kw)

    def _modify_mdp_info(self, info):
        for k, rm in self.x['removed']:
            for i in rm:
                self.obs_helper.remove_obs(k, i)
        if self.x['added']:
            self.obs_helper.add_obs('extra', self.x['added'], min_value=-7., max_value=[8. + i for i in range(self.x['added'])])
        info.observation_space = type(info.observation_space)(*self.obs_helper.get_obs_limits())
        return info

    def _create_observation(self, obs):
        return np.append(obs, [5.] * self.x['added'])

    def _modify_observation(self, obs):
        return np.append(obs, -1.)

    def _preprocess_action(self, action):
        self.hooks.append('action')
        return action * 2.

    def _step_init(self, obs, action):
        self.hooks.append('init')

    def _simulation_pre_step(self):
        self.hooks.append('pre')

    def _simulation_post_step(self):
        self.hooks.append('post')

    def _step_finalize(self):
        self.hooks.append('final')

    def reward(self, obs, action, next_obs, absorbing):
        self.rewards.append((np.array(obs), np.array(action), np.array(next_obs), absorbing))
        return float(np.sum(action)) + 3. * absorbing

    def is_absorbing(self, obs):
        return bool(obs[0] > .3)

    def _create_info_dictionary(self, obs):
        return {'first': float(obs[0])}


class Controlled(Env):
    """Recomputes the control at every intermediate step from the current observation."""
    def _compute_action(self, obs, action):
        return action - .3 * float(obs[0])


def cls_init(self, xml, x, **kw):
    spec = [ENTRIES[i] for i in x['entries']]
    n = sum(1 for _, _, t in spec if t is O.JOINT_VEL and True)
    MuJoCo.__init__(self, xml, ['m%d' % i for i in x['act']], spec, .9, 50, timestep=x['over'], n_substeps=x['sub'],
                    n_intermediate_steps=x['inter'], max_joint_vel=[2. + i for i in range(n)] if x['maxvel'] else None,
                    additional_data_spec=[('hand', 'hand', O.BODY_POS), ('ball_q', 'free', O.JOINT_POS), ('j2v', 'j2', O.JOINT_VEL),
                                          ('tipp', 'tip', O.SITE_POS), ('bv', 'ball', O.BODY_VEL_WORLD)],
                    collision_groups=[('floor', ['floor']), ('ball', ['ball']), ('other', ['g1', 'g3']),
                                      ('ball2', ['ball2']), ('balls', ['ball', 'ball2']), ('scene', ['ball2', 'g2', 'floor'])])


class Ref(object):
    """The simulator, driven directly."""
    def __init__(self, xml, x):
        self.x = x
        self.m = mujoco.MjModel.from_xml_path(xml)
        if x['over'] is not None:
            self.m.opt.timestep = x['over']
        self.d = mujoco.MjData(self.m)
        self.spec = [ENTRIES[i] for i in x['entries']]
        self.rm = dict((k, set(v)) for k, v in x['removed'])

    def raw(self):
        out = []
        for k, n, t in self.spec:
            v = read(self.m, self.d, n, t)
            out += [v[i] for i in range(len(v)) if i not in self.rm.get(k, ())]
        return np.array(out + [5.] * self.x['added'])

    def layout(self):
        out = []
        for k, n, t in self.spec:
            out += [(k, i) for i in range(SIZE[k]) if i not in self.rm.get(k, ())]
        return out

    def reset(self, obs=None):
        mujoco.mj_resetData(self.m, self.d)
        if obs is not None:
            for (k, i), v in zip(self.layout(), obs):
                n, t = [(n, t) for kk, n, t in self.spec if kk == k][0]
                if t is O.JOINT_POS:
                    self.d.qpos[self.m.joint(n).qposadr[0] + i] = v
                elif t is O.JOINT_VEL:
                    self.d.qvel[self.m.joint(n).dofadr[0] + i] = v
        mujoco.mj_fwdPosition(self.m, self.d)
        mujoco.mj_fwdVelocity(self.m, self.d)

    def step(self, u, controlled):
        ids = [mujoco.mj_name2id(self.m, mujoco.mjtObj.mjOBJ_ACTUATOR, 'm%d' % i) for i in (self.x['act'] or [1, 2, 3])]
        obs = self.raw()
        for _ in range(self.x['inter']):
            self.d.ctrl[ids] = u - .3 * obs[0] if controlled else u
            for _ in range(self.x['sub']):
                mujoco.mj_step(self.m, self.d)
            obs = self.raw()
        return obs


def limits(ref, x):
    lo, hi = [], []
    n = 0
    for k, name, t in ref.spec:
        a, b = [-np.inf] * SIZE[k], [np.inf] * SIZE[k]
        if name == 'j1' and t is O.JOINT_POS and x['lim1']:
            a, b = [-1.5], [1.]
        if name == 'j2' and t is O.JOINT_POS and x['lim2']:
            a, b = [-.2], [.2]
        if t is O.JOINT_VEL and SIZE[k] == 1 and x['maxvel']:
            a, b = [-2. - n], [2. + n]
            n += 1
        keep = [i for i in range(SIZE[k]) if i not in ref.rm.get(k, ())]
        lo += [a[i] for i in keep]
        hi += [b[i] for i in keep]
    return np.array(lo + [-7.] * x['added']), np.array(hi + [8. + i for i in range(x['added'])])


def given_obs(ref, vals):
    """A full observation with small joint values (unit quaternion where complete)."""
    out = []
    for n, (k, i) in enumerate(ref.layout()):
        v = vals[n % len(vals)] * .1
        if k == 'free_q' and i >= 3:
            v = 1. if i == 3 else 0.
        out.append(v)
    return np.array(out + [5.] * ref.x['added'])


@check.case('long', setups(long=True), quick=60)
@check.case('simulation', setups(), quick=130)
def simulation(x):
    xml = write_xml(x)
    env = (Controlled if x['control'] else Env)(xml, x)
    ref = Ref(xml, x)
    step = x['over'] or x['ts']
    assert abs(env.dt - step * x['sub'] * x['inter']) < 1e-12 and env.info.dt == env.dt and env.info.horizon == 50
    lo, hi = limits(ref, x)
    assert np.array_equal(env.info.observation_space.low, lo) and np.array_equal(env.info.observation_space.high, hi), \
        ('limits', env.info.observation_space.low, lo, env.info.observation_space.high, hi)
    order = x['act'] or [1, 2, 3]
    alo = {1: -1. if x['c1'] else -np.inf, 2: -3., 3: -np.inf}
    ahi = {1: 1.5 if x['c1'] else np.inf, 2: 2., 3: np.inf}
    assert np.array_equal(env.info.action_space.low, [alo[i] for i in order]), 'action limits'
    assert np.array_equal(env.info.action_space.high, [ahi[i] for i in order]), 'action limits'
    label = 'removed' if x['removed'] or x['added'] else ('subset' if x['act'] and x['act'] != sorted(x['act']) else None)

    def lookup(obs):
        h = env.obs_helper
        lay = ref.layout()
        for k, _, t in ref.spec:
            idx = [n for n, (kk, _) in enumerate(lay) if kk == k]
            assert np.array_equal(h.get_from_obs(obs, k), obs[idx]), ('entry of the observation', k)
        if x['added']:
            assert np.array_equal(h.get_from_obs(obs, 'extra'), [5.] * x['added'])
        for t, f in ((O.JOINT_POS, h.get_joint_pos_from_obs), (O.JOINT_VEL, h.get_joint_vel_from_obs)):
            ks = [k for k, _, tt in ref.spec if tt is t and SIZE[k] == 1]
            assert np.array_equal(f(obs), [obs[lay.index((k, 0))] for k in ks]), 'joints of the observation'
    ref.reset()
    obs, _ = env.reset()
    last = ref.raw()
    assert np.allclose(obs, np.append(last, -1.), atol=1e-10), ('first observation', obs, last)
    for op in x['ops']:
        if op[0] == 'reset':
            g = None if op[1] is None else given_obs(ref, op[1])
            copy = None if g is None else g.copy()
            obs, info = env.reset(g)
            ref.reset(g)
            last = ref.raw()
            assert info == {} and np.allclose(obs, np.append(last, -1.), atol=1e-10), ('observation after reset', obs, last)
            assert g is None or np.array_equal(g, copy)
            label = label if g is None else 'given'
        else:
            a = np.array(op[1][:len(order)])
            env.hooks, env.rewards = [], []
            obs, r, ab, info = env.step(a)
            nxt = ref.step(2. * a, x['control'])
            assert np.allclose(obs, np.append(nxt, -1.), atol=1e-9, rtol=1e-7), ('observation', obs, nxt)
            assert env.hooks == ['action', 'init'] + ['pre', 'post'] * x['inter'] + ['final'], ('hooks', env.hooks)
            assert ab == bool(nxt[0] > .3)
            assert abs(r - (2. * a.sum() + 3. * ab)) < 1e-9 and info == {'first': nxt[0]} or np.isclose(info['first'], nxt[0])
            o, aa, n, absorbing = env.rewards[0]
            assert len(env.rewards) == 1 and np.allclose(o, last, atol=1e-9) and np.allclose(n, nxt, atol=1e-9), 'reward of this transition'
            assert np.array_equal(aa, 2. * a) and absorbing == ab
            last = nxt
            assert np.allclose(env._read_data('hand'), read(ref.m, ref.d, 'hand', O.BODY_POS), atol=1e-9), 'additional data'
            groups = {'floor': ['floor'], 'ball': ['ball'], 'other': ['g1', 'g3'], 'ball2': ['ball2'], 'balls': ['ball', 'ball2'],
                      'scene': ['ball2', 'g2', 'floor']}
            ids = {g: {ref.m.geom(n).id for n in v} for g, v in groups.items()}
            for g1 in ids:
                for g2 in ids:
                    cons = [i for i in range(ref.d.ncon) for c in [ref.d.contact[i]] if c.geom1 in ids[g1] and c.geom2 in ids[g2] or
                            c.geom1 in ids[g2] and c.geom2 in ids[g1]]
                    assert env._check_collision(g1, g2) == bool(cons), ('collision', g1, g2, cons)
                    f = env._get_collision_force(g1, g2)
                    want = []
                    for i in cons or [None]:
                        w = np.zeros(6)
                        if i is not None:
                            mujoco.mj_contactForce(ref.m, ref.d, i, w)
                        want.append(w)
                    assert any(np.allclose(f, w, atol=1e-6) for w in want), ('contact force', g1, g2, f, want)
                    if len(cons) and g1 != g2 and label is None:
                        label = 'contact'
        lookup(np.array(obs[:-1]))
    assert np.allclose(env._read_data('ball_q'), read(ref.m, ref.d, 'free', O.JOINT_POS), atol=1e-9), 'additional data'
    assert np.allclose(env._read_data('j2v'), read(ref.m, ref.d, 'j2', O.JOINT_VEL), atol=1e-9), 'additional data'
    assert np.allclose(env._read_data('tipp'), read(ref.m, ref.d, 'tip', O.SITE_POS), atol=1e-9), 'additional data'
    assert np.allclose(env._read_data('bv'), read(ref.m, ref.d, 'ball', O.BODY_VEL_WORLD), atol=1e-9), 'additional data'
    env._write_data('ball_q', np.array([.1, .2, .8, 1., 0., 0., 0.]))
    env._write_data('j2v', .25)
    assert np.allclose(env._read_data('ball_q')[:3], [.1, .2, .8]) and np.allclose(env._read_data('j2v'), .25), 'written data'
    assert env.get_all_observation_keys() == [k for k, _, _ in ref.spec] + (['extra'] if x['added'] else [])
    return label


class Multi(MultiMuJoCo):
    def __init__(self, xmls, x, random):
        spec = [ENTRIES[i] for i in x['entries']]
        super().__init__(xmls, ['m%d' % i for i in x['act']], spec, .9, 50, timestep=x['over'], n_substeps=x['sub'],
                         n_intermediate_steps=x['inter'], random_env_reset=random)

    def reward(self, obs, action, next_obs, absorbing):
        return float(next_obs[0])

    def is_absorbing(self, obs):
        return False


@check.case('several', st.tuples(setups(multi=True), st.booleans()), quick=50)
def several(xx):
    """Every episode runs one of the models, in turn or at random, and follows exactly that model."""
    x, rand = xx
    x = dict(x, removed=[], added=0)
    xmls = [write_xml(x, k) for k in range(x['models'])]
    env = Multi(xmls, x, rand)
    refs = [Ref(f, x) for f in xmls]
    cur = 0
    used = set()
    for ep in range(2 * x['models']):
        obs, info = env.reset()
        assert info == {}
        cur = (cur + 1) % x['models']
        left = list(range(x['models'])) if rand else [cur]
        for k in left:
            refs[k].reset()
            assert np.allclose(obs, refs[k].raw(), atol=1e-10), ('first observation', ep, obs, refs[k].raw())
        for op in x['ops']:
            if op[0] == 'step':
                a = np.array(op[1][:len(x['act'] or [1, 2, 3])])
                obs, r, ab, _ = env.step(a)
                nxt = {k: refs[k].step(a, False) for k in left}
                left = [k for k in left if np.allclose(obs, nxt[k], atol=1e-9, rtol=1e-7)]
                assert left, ('observation', ep, obs, nxt)
                assert np.isclose(r, obs[0])
        if len(left) == 1:
            used.add(left[0])
    if 0 in x['entries']:
        other = write_xml(dict(x, lim1=not x['lim1']), 9)
        try:
            Multi([xmls[0], other], x, rand)
        except ValueError:
            pass
        else:
            raise AssertionError('models with different observation limits are accepted')
    if 1 in (x['act'] or [1]):
        other = write_xml(dict(x, c1=not x['c1']), 9)
        try:
            Multi([xmls[0], other], x, rand)
        except ValueError:
            pass
        else:
            raise AssertionError('models with different action limits are accepted')
    if rand and hasattr(env, '_model'):
        seen = set()
        for _ in range(40 * x['models']):
            env.reset()
            seen.add(float(np.sum(env._model.body_mass)))
            if len(seen) == x['models']:
                break
        assert len(seen) == x['models'], 'some models are never used'
    for n in range(2, 10):
        seen = set()
        for k in range(n):
            v = MultiMuJoCo._get_env_id_map(k, n)
            assert set(v) <= {0., 1.} and int(''.join(str(int(b)) for b in v), 2) == k, ('identifier', k, n, v)
            seen.add(tuple(v))
        assert len(seen) == n
    return 'models'


BOX = '<body name="b{i}" pos="{x} {y} {z}"><joint name="f{i}" type="free"/><geom name="box{i}" type="box" size=".1 .1 .05" mass="1"/></body>'


class Pile(MuJoCo):
    def reward(self, obs, action, next_obs, absorbing):
        return 0.

    def is_absorbing(self, obs):
        return False


@check.case('many contacts', st.fixed_dictionaries(dict(heights=st.lists(st.sampled_from([.049, .049, .4]), min_size=1, max_size=9),
                                                         steps=st.integers(0, 3))), quick=40)
def pile(x):
    """Collision queries see every contact of the scene, however many there are."""
    f = os.path.join(os.environ['VERIF_SCRATCH'], 'pile.xml')
    n = len(x['heights'])
    with open(f, 'w') as h:
        h.write('<mujoco><worldbody><geom name="floor" type="plane" size="9 9 .1"/>' +
                ''.join(BOX.format(i=i, x=i * .5, y=0, z=z) for i, z in enumerate(x['heights'])) + '</worldbody></mujoco>')
    env = Pile(f, [], [('p', 'f0', O.JOINT_POS)], .9, 50, collision_groups=[('floor', ['floor'])] + [
        ('box%d' % i, ['box%d' % i]) for i in range(n)] + [('all', ['box%d' % i for i in range(n)])])
    env.reset()
    m = mujoco.MjModel.from_xml_path(f)
    d = mujoco.MjData(m)
    mujoco.mj_forward(m, d)
    for _ in range(x['steps']):
        env.step(np.zeros(0))
        mujoco.mj_step(m, d)
    if x['steps']:
        floor = m.geom('floor').id
        touching = set()
        for c in range(d.ncon):
            pair = {int(d.contact[c].geom1), int(d.contact[c].geom2)}
            if floor in pair:
                touching |= pair - {floor}
        for i in range(n):
            hit = m.geom('box%d' % i).id in touching
            for g1, g2 in (('floor', 'box%d' % i), ('box%d' % i, 'floor')):
                assert env._check_collision(g1, g2) == hit, ('collision', i, hit)
                assert (np.linalg.norm(env._get_collision_force(g1, g2)) > 0) <= hit, 'contact force without contact'
        assert env._check_collision('all', 'floor') == bool(touching)
    return 'contacts' if x['steps'] and d.ncon > 4 else None
