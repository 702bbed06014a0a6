"""C43 - PyBullet environments: what the agent sees, does and is rewarded for is exactly the simulation of the given models."""
import os

import numpy as np
import pybullet
import pybullet_data
from hypothesis import strategies as st
from pybullet_utils.bullet_client import BulletClient

from mushroom_rl.environments.pybullet import PyBullet, PyBulletObservationType as O
from pbt.harness import Check

check = Check('C43', rule='a case is a generated observation and actuation specification (order, control modes), timestep, number of '
              'intermediate steps and a history of resets and steps, compared with the simulator driven directly; non-trivial when '
              'several control modes are mixed, a contact was observed or an episode was restarted')

ROBOT = '''<robot name="robot">
<link name="base"><inertial><mass value="1"/><inertia ixx="1" ixy="0" ixz="0" iyy="1" iyz="0" izz="1"/></inertial></link>
<joint name="ja" type="revolute"><parent link="base"/><child link="la"/><axis xyz="0 0 1"/><origin xyz="0 0 .5"/>
 <limit lower="-1.5" upper="2" effort="20" velocity="3"/></joint>
<link name="la"><inertial><origin xyz=".1 0 0"/><mass value="1"/><inertia ixx=".1" ixy="0" ixz="0" iyy=".1" iyz="0" izz=".1"/></inertial></link>
<joint name="fix" type="fixed"><parent link="la"/><child link="lf"/><origin xyz=".1 0 0"/></joint>
<link name="lf"><inertial><mass value=".2"/><inertia ixx=".1" ixy="0" ixz="0" iyy=".1" iyz="0" izz=".1"/></inertial></link>
<joint name="jb" type="revolute"><parent link="lf"/><child link="lb"/><axis xyz="0 1 0"/><origin xyz=".2 0 0"/>
 <limit lower="-1" upper="1" effort="10" velocity="5"/></joint>
<link name="lb"><inertial><origin xyz=".1 0 0"/><mass value=".5"/><inertia ixx=".05" ixy="0" ixz="0" iyy=".05" iyz="0" izz=".05"/></inertial>
 <collision><geometry><sphere radius=".02"/></geometry></collision></link>
<joint name="jc" type="prismatic"><parent link="lb"/><child link="lc"/><axis xyz="1 0 0"/><origin xyz=".2 0 0"/>
 <limit lower="-.3" upper=".3" effort="15" velocity="2"/></joint>
<link name="lc"><inertial><mass value=".3"/><inertia ixx=".05" ixy="0" ixz="0" iyy=".05" iyz="0" izz=".05"/></inertial>
 <collision><geometry><sphere radius=".03"/></geometry></collision></link>
</robot>'''
BOX = '''<robot name="box"><link name="box_base"><inertial><mass value=".5"/><inertia ixx=".01" ixy="0" ixz="0" iyy=".01" iyz="0" izz=".01"/>
</inertial><collision><geometry><box size=".2 .2 .2"/></geometry></collision></link></robot>'''

LIM = dict(ja=(-1.5, 2., 20., 3.), jb=(-1., 1., 10., 5.), jc=(-.3, .3, 15., 2.))
ENTRIES = [('ja', O.JOINT_POS), ('ja', O.JOINT_VEL), ('jb', O.JOINT_POS), ('jb', O.JOINT_VEL), ('jc', O.JOINT_POS), ('jc', O.JOINT_VEL),
           ('box', O.BODY_POS), ('box', O.BODY_LIN_VEL), ('box', O.BODY_ANG_VEL), ('lb', O.LINK_POS), ('lc', O.LINK_LIN_VEL),
           ('la', O.LINK_ANG_VEL), ('box<->plane', O.CONTACT_FLAG), ('plane<->box', O.CONTACT_FLAG), ('lb<->box', O.CONTACT_FLAG),
           ('lc<->plane', O.CONTACT_FLAG), ('box<->lc', O.CONTACT_FLAG), ('lc<->box', O.CONTACT_FLAG), ('box<->lb', O.CONTACT_FLAG),
           ('robot', O.BODY_POS), ('lf', O.LINK_POS), ('lb', O.LINK_ANG_VEL), ('lb', O.LINK_LIN_VEL), ('lc', O.LINK_POS)]
SIZE = {O.JOINT_POS: 1, O.JOINT_VEL: 1, O.BODY_POS: 7, O.BODY_LIN_VEL: 3, O.BODY_ANG_VEL: 3, O.LINK_POS: 7, O.LINK_LIN_VEL: 3,
        O.LINK_ANG_VEL: 3, O.CONTACT_FLAG: 1}
MODES = dict(pos=pybullet.POSITION_CONTROL, vel=pybullet.VELOCITY_CONTROL, tor=pybullet.TORQUE_CONTROL)


def files():
    d = os.environ['VERIF_SCRATCH']
    out = []
    for n, t in (('robot', ROBOT), ('box', BOX)):
        f = os.path.join(d, n + '.urdf')
        if not os.path.exists(f):
            with open(f, 'w') as h:
                h.write(t)
        out.append(f)
    return out


@st.composite
def setups(draw, long=False):
    entries = list(draw(st.permutations(range(len(ENTRIES))))[:draw(st.integers(1, len(ENTRIES) if long else 8))])
    joints = draw(st.permutations(['ja', 'jb', 'jc']))[:draw(st.integers(1, 3))]
    act = [(j, draw(st.sampled_from(sorted(MODES)))) for j in joints]
    val = st.integers(-6, 6).map(lambda v: v / 4.)
    ops = []
    for _ in range(draw(st.integers(8, 40) if long else st.integers(1, 8))):
        ops.append(('reset', draw(st.one_of(st.none(), val))) if draw(st.integers(0, 12 if long else 4)) == 0 else
                   ('step', draw(st.lists(val, min_size=3, max_size=3))))
    return dict(entries=entries, act=act, ops=ops, ts=draw(st.sampled_from([1 / 240, 1 / 100])), inter=draw(st.integers(1, 15 if long else 4)),
                height=draw(st.sampled_from([.1, .4, .405])), place=draw(st.sampled_from([(.3, -1.), (.3, 0.), (.42, 0.), (.55, 0.)])), enforce=draw(st.booleans()), order=draw(st.booleans()))


def load_args(x):
    robot, box = files()
    pairs = [(robot, dict(useFixedBase=True)), ('plane.urdf', dict(basePosition=[0, 0, 0])),
             (box, dict(basePosition=list(x['place']) + [x['height']]))]
    return pairs if x['order'] else pairs[::-1]


class Env(PyBullet):
    def __init__(self, x):
        self.hooks, self.rewards = [], []
        super().__init__(dict(load_args(x)), [(j, MODES[m]) for j, m in x['act']], [ENTRIES[i] for i in x['entries']], .95, 40,
                         timestep=x['ts'], n_intermediate_steps=x['inter'], enforce_joint_velocity_limits=x['enforce'], size=(32, 32))

    def setup(self, state):
        if state is not None:
            model, joint = self._indexer.joint_map['jb']
            self.client.resetJointState(model, joint, .1 * float(state))

    def _preprocess_action(self, action):
        self.hooks.append('action')
        return action * 2.

    def _compute_action(self, state, action):
        self.hooks.append('compute')
        return action - .1 * float(state[0])

    def _step_init(self, state, action):
        self.hooks.append('init')

    def _simulation_pre_step(self):
        self.hooks.append('pre')

    def _simulation_post_step(self):
        self.hooks.append('post')

    def _step_finalize(self):
        self.hooks.append('final')

    def _create_observation(self, state):
        return np.append(state, 9.)

    def reward(self, state, action, next_state, absorbing):
        self.rewards.append((np.array(state), np.array(action), np.array(next_state), absorbing))
        return float(np.sum(action)) - 2. * absorbing

    def is_absorbing(self, state):
        return bool(state[0] > .2)


class Ref(object):
    def __init__(self, x):
        self.x = x
        c = self.c = BulletClient(connection_mode=pybullet.DIRECT)
        c.setTimeStep(x['ts'])
        c.setGravity(0, 0, -9.81)
        c.setAdditionalSearchPath(pybullet_data.getDataPath())
        self.models = {}
        for f, kw in load_args(x):
            i = c.loadURDF(f, **kw)
            for j in range(c.getNumJoints(i)):
                c.setJointMotorControl2(i, j, pybullet.POSITION_CONTROL, force=0)
            self.models[c.getBodyInfo(i)[1].decode()] = i
        r = self.models['robot']
        self.links = {c.getJointInfo(r, j)[12].decode(): j for j in range(c.getNumJoints(r))}
        self.joints = {c.getJointInfo(r, j)[1].decode(): j for j in range(c.getNumJoints(r))}
        if x['enforce']:
            for i in self.models.values():
                for j in range(c.getNumJoints(i)):
                    c.changeDynamics(i, j, maxJointVelocity=c.getJointInfo(i, j)[11])
        self.start = c.saveState()

    def one(self, name, t):
        c, r = self.c, self.models['robot']
        if t is O.JOINT_POS:
            return [c.getJointState(r, self.joints[name])[0]]
        if t is O.JOINT_VEL:
            return [c.getJointState(r, self.joints[name])[1]]
        if t is O.BODY_POS:
            p, q = c.getBasePositionAndOrientation(self.models[name])
            return list(p) + list(q)
        if t in (O.BODY_LIN_VEL, O.BODY_ANG_VEL):
            return list(c.getBaseVelocity(self.models[name])[0 if t is O.BODY_LIN_VEL else 1])
        if t is O.LINK_POS:
            s = c.getLinkState(r, self.links[name])
            return list(s[0]) + list(s[1])
        if t in (O.LINK_LIN_VEL, O.LINK_ANG_VEL):
            return list(c.getLinkState(r, self.links[name], computeLinkVelocity=1)[6 if t is O.LINK_LIN_VEL else 7])
        a, b = [(r, self.links[n]) if n in self.links else (self.models[n], -1) for n in name.split('<->')]
        return [float(any(True for _ in c.getContactPoints(a[0], b[0], a[1], b[1])))]

    def state(self):
        return np.array([v for i in self.x['entries'] for v in self.one(*ENTRIES[i])])

    def reset(self, v=None):
        self.c.restoreState(self.start)
        if v is not None:
            self.c.resetJointState(self.models['robot'], self.joints['jb'], .1 * v)
        return self.state()

    def step(self, u):
        s = self.state()
        for _ in range(self.x['inter']):
            for k, (j, m) in enumerate(self.x['act']):
                lo, hi, eff, vel = LIM[j]
                v = u[k] - .1 * s[0]
                kw = dict(pos=dict(targetPosition=v, maxVelocity=vel, force=eff), vel=dict(targetVelocity=v, maxVelocity=vel, force=eff),
                          tor=dict(force=v))[m]
                self.c.setJointMotorControl2(self.models['robot'], self.joints[j], MODES[m], **kw)
            self.c.stepSimulation()
            s = self.state()
        return s


@check.case('long', setups(long=True), quick=50)
@check.case('simulation', setups(), quick=120)
def simulation(x):
    env, ref = Env(x), Ref(x)
    label = None
    try:
        assert abs(env.info.dt - x['ts'] * x['inter']) < 1e-12 and env.dt == env.info.dt and env.info.horizon == 40 and env.info.gamma == .95
        low = {'pos': lambda j: LIM[j][0], 'vel': lambda j: -LIM[j][3], 'tor': lambda j: -LIM[j][2]}
        high = {'pos': lambda j: LIM[j][1], 'vel': lambda j: LIM[j][3], 'tor': lambda j: LIM[j][2]}
        assert np.allclose(env.info.action_space.low, [low[m](j) for j, m in x['act']]), 'action limits'
        assert np.allclose(env.info.action_space.high, [high[m](j) for j, m in x['act']]), 'action limits'
        lo, hi = [], []
        index = {}
        for i in x['entries']:
            n, t = ENTRIES[i]
            index[i] = list(range(len(lo), len(lo) + SIZE[t]))
            a, b = [-np.inf] * SIZE[t], [np.inf] * SIZE[t]
            if t is O.JOINT_POS:
                a, b = [LIM[n][0]], [LIM[n][1]]
            elif t is O.JOINT_VEL:
                a, b = [-LIM[n][3]], [LIM[n][3]]
            elif t is O.CONTACT_FLAG:
                a, b = [0.], [1.]
            lo += a
            hi += b
        assert np.allclose(env.info.observation_space.low, lo) and np.allclose(env.info.observation_space.high, hi), 'observation limits'
        pj = [ENTRIES[i][0] for i in x['entries'] if ENTRIES[i][1] is O.JOINT_POS]
        vj = [ENTRIES[i][0] for i in x['entries'] if ENTRIES[i][1] is O.JOINT_VEL]
        assert np.allclose(env.joints.limits()[0], [LIM[j][0] for j in pj]) and np.allclose(env.joints.limits()[1], [LIM[j][1] for j in pj])
        assert np.allclose(env.joints.velocity_limits(), [LIM[j][3] for j in vj]), 'velocity limits'

        obs, info = env.reset()
        last = ref.reset()
        assert info == {} and np.allclose(obs, np.append(last, 9.), atol=1e-9), ('first observation', obs, last)
        for op in x['ops']:
            if op[0] == 'reset':
                obs, _ = env.reset(op[1])
                last = ref.reset(op[1])
                assert np.allclose(obs, np.append(last, 9.), atol=1e-9), ('observation after reset', obs, last)
                label = 'restarted'
            else:
                a = np.array(op[1][:len(x['act'])])
                env.hooks, env.rewards = [], []
                obs, r, ab, info = env.step(a)
                nxt = ref.step(2. * a)
                assert np.allclose(obs, np.append(nxt, 9.), atol=1e-7), ('observation', obs, nxt)
                assert env.hooks == ['action', 'init'] + ['compute', 'pre', 'post'] * x['inter'] + ['final'], ('hooks', env.hooks)
                assert ab == bool(nxt[0] > .2) and abs(r - (2. * a.sum() - 2. * ab)) < 1e-9 and info == {}
                s, aa, n, absorbing = env.rewards[0]
                assert len(env.rewards) == 1 and np.allclose(s, last, atol=1e-7) and np.allclose(n, nxt, atol=1e-7), 'reward of the transition'
                assert np.array_equal(aa, 2. * a) and absorbing == ab
                last = nxt
                if any(ENTRIES[i][1] is O.CONTACT_FLAG and nxt[index[i][0]] for i in x['entries']):
                    label = label or 'contact'
            state = np.array(obs[:-1])
            for i in x['entries']:
                assert np.array_equal(env.get_sim_state(state, *ENTRIES[i]), state[index[i]]), ('entry', ENTRIES[i])
            assert np.array_equal(env.joints.positions(state), [state[index[i][0]] for i in x['entries'] if ENTRIES[i][1] is O.JOINT_POS])
            assert np.array_equal(env.joints.velocities(state), [state[index[i][0]] for i in x['entries'] if ENTRIES[i][1] is O.JOINT_VEL])
    finally:
        ref.c.disconnect()
        env.client.disconnect()
    return label or ('modes' if len({m for _, m in x['act']}) > 1 else None)
