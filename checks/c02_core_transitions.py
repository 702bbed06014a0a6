"""C02 - every recorded transition is exactly what happened between the agent and the environment."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.core import Agent, Core, Environment, MDPInfo
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box, Discrete
from pbt.harness import Check
from pbt.spies import Runaway, SpyAgent, arr, snapshot, to_np

check = Check('C02', rule='a case is a random environment (continuous or discrete spaces, random dynamics that depend on '
              'the executed action, random absorbing pattern, finite or infinite horizon), a stateless or stateful '
              'policy, backends and a run; non-trivial when the run contains at least two episodes or a truncated one')


class RandEnv(Environment):
    """Dynamics are a fixed hash of (state, action); returns the *same* buffer objects it keeps internally, as the
    bundled environments do."""
    def __init__(self, seed, horizon, backend, discrete, p_abs, limit=20000, sdim=3, adim=2, n_actions=4):
        self.sdim = sdim
        self.rng = np.random.RandomState(seed)
        self.backend = backend
        tdt = (torch.float if backend == 'torch' else float)
        obs = Box(-1e9 * np.ones(sdim), 1e9 * np.ones(sdim), data_type=tdt)
        act = Discrete(n_actions) if discrete else Box(-1e9 * np.ones(adim), 1e9 * np.ones(adim), data_type=tdt)
        super().__init__(MDPInfo(obs, act, 0.95, horizon, backend=backend))
        self.p_abs = p_abs
        self.log = []
        self.limit = limit
        self.resets = 0
        self.w = self.rng.randint(1, 7, size=4)

    def _mk(self, v):
        return torch.tensor(v, dtype=torch.float) if self.backend == 'torch' else np.array(v, dtype=float)

    def reset(self, state=None):
        if len(self.log) > self.limit:
            raise Runaway()
        self.resets += 1
        self._s = [float(self.rng.randint(100)) if state is None else float(state[0]), 0., float(self.resets)]
        self._s += [float(j) for j in range(3, self.sdim)]
        self._state = self._mk(self._s)
        self.log.append(('reset', None if state is None else float(state[0]), list(self._s), self.resets))
        return self._state, {'ctx': self.resets}

    def step(self, action):
        if len(self.log) > self.limit:
            raise Runaway()
        a = to_np(action).astype(float).ravel()
        h = (self._s[0] * self.w[0] + a.sum() * self.w[1] + self.w[2]) % 97.
        s = list(self._s)
        self._s = [h, self._s[1] + 1., self._s[2]] + [v * 2. % 31. + self._s[1] for v in self._s[3:]]
        self._state = self._mk(self._s)
        absorbing = bool(self.rng.rand() < self.p_abs)
        reward = round(h / 4., 3) - 3.
        self.log.append(('step', a.copy(), s, list(self._s), reward, absorbing))
        return self._state, reward, absorbing, {'h': h, 'n': {'steps': self._s[1]}}

    def stop(self):
        self.log.append(('stop',))


class RandPolicy(Policy):
    def __init__(self, seed, backend, discrete, stateful, adim=2, n_actions=4, pdim=3):
        super().__init__(policy_state_shape=(pdim,) if stateful else None)
        self.adim, self.n_actions, self.pdim = adim, n_actions, pdim
        self.rng = np.random.RandomState(seed)
        self.backend, self.discrete, self.stateful = backend, discrete, stateful
        self.log, self.n_resets = [], 0

    def reset(self):
        self.n_resets += 1
        if self.stateful:
            return arr(self.backend, [float(self.n_resets), 0., -1.] + [5.] * (self.pdim - 3), torch.float)

    def draw_action(self, state, policy_state=None):
        if self.discrete:
            a = arr(self.backend, [self.rng.randint(self.n_actions)], torch.int64)
        else:
            a = arr(self.backend, self.rng.randint(-50, 50, size=self.adim) / 4., torch.float)
        nxt = None
        if self.stateful:
            p = to_np(policy_state)
            nxt = arr(self.backend, [p[0], p[1] + 1., float(to_np(a).ravel()[0])] + [float(v) + p[1] for v in p[3:]],
                      torch.float)
        self.log.append((to_np(state).copy(), None if policy_state is None else to_np(policy_state).copy(),
                         to_np(a).copy(), None if nxt is None else to_np(nxt).copy()))
        return a, nxt


class OverrideAgent(SpyAgent):
    """Sets ``next_action`` from fit, the way on-policy algorithms such as SARSA do."""
    def fit(self, dataset):
        super().fit(dataset)
        self.planned.append(len(self.policy.log))
        if self.use_override and not bool(dataset.last[-1]):
            self.next_action = self.policy.draw_action(dataset.next_state[-1], None)[0]


cfg = st.fixed_dictionaries(dict(
    seed=st.integers(0, 10 ** 6), horizon=st.sampled_from([1, 2, 3, 4, 5, 8, 'inf']),
    env_backend=st.sampled_from(['numpy', 'torch']), agent_backend=st.sampled_from(['numpy', 'torch']),
    discrete=st.booleans(), stateful=st.booleans(), p_abs=st.sampled_from([0., .1, .3, .7, 1.]),
    quota=st.sampled_from(['steps', 'episodes', 'states']), n=st.integers(1, 20)))

big = st.fixed_dictionaries(dict(
    seed=st.integers(0, 10 ** 6), horizon=st.one_of(st.integers(1, 12), st.integers(13, 130), st.just('inf')),
    env_backend=st.sampled_from(['numpy', 'torch']), agent_backend=st.sampled_from(['numpy', 'torch']),
    discrete=st.booleans(), stateful=st.booleans(), p_abs=st.sampled_from([0., .01, .04, .1, .5]),
    quota=st.sampled_from(['steps', 'episodes', 'states']), n=st.integers(1, 60), sdim=st.integers(3, 20),
    adim=st.integers(1, 12), n_actions=st.integers(2, 40), pdim=st.integers(3, 12), kmax=st.integers(1, 60)))


def env_dims(x):
    return {k: x[k] for k in ('sdim', 'adim', 'n_actions') if k in x}


def pol_dims(x):
    return {k: x[k] for k in ('adim', 'n_actions', 'pdim') if k in x}


def close(a, b):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-5, atol=1e-5)


def trace(env, horizon):
    """Rebuild the transitions from the environment's own log."""
    out, t, start = [], 0, None
    for e in env.log:
        if e[0] == 'reset':
            t = 0
            start = e
        elif e[0] == 'step':
            t += 1
            out.append(dict(state=e[2], action=e[1], next_state=e[3], reward=e[4], absorbing=e[5],
                            last=bool(e[5] or t >= horizon), t=t, reset=start))
    return out


def verify(snap, tr, pol, stateful, check_policy=True):
    assert snap['n'] == len(tr), (snap['n'], len(tr))
    for i, e in enumerate(tr):
        assert close(snap['state'][i], e['state']), ('state', i, snap['state'][i], e['state'])
        assert close(np.ravel(snap['action'][i]), e['action']), ('action', i)
        assert close(snap['next_state'][i], e['next_state']), ('next_state', i)
        assert close(snap['reward'][i], e['reward']), ('reward', i)
        assert snap['absorbing'][i] == e['absorbing'], ('absorbing', i)
        assert snap['last'][i] == e['last'], ('last', i, e)
        if i + 1 < len(tr):
            if e['last']:
                assert tr[i + 1]['t'] == 1, 'no reset after a last step'
            else:
                assert close(snap['next_state'][i], snap['state'][i + 1]), 'chain broken inside an episode'
                assert tr[i + 1]['t'] == e['t'] + 1, 'reset in the middle of an episode'
        if check_policy:
            lg = pol.log[i]
            assert close(lg[0], e['state']), ('policy saw another state', i)
            assert close(np.ravel(lg[2]), e['action']), ('environment got another action', i)
            if stateful:
                assert close(snap['policy_state'][i], lg[1]), ('policy_state', i)
                assert close(snap['policy_next_state'][i], lg[3]), ('policy_next_state', i)
                if e['t'] == 1:
                    assert float(lg[1][1]) == 0., 'policy state not reset at episode start'
                else:
                    assert close(lg[1], pol.log[i - 1][3]), 'policy state not threaded through the episode'


@check.case('evaluate', cfg, quick=700)
def evaluate(x):
    horizon = float('inf') if x['horizon'] == 'inf' else x['horizon']
    quota = x['quota']
    if horizon == float('inf') and (x['p_abs'] == 0. or quota != 'steps'):
        quota = 'steps'       # episode quotas need a finite horizon to bound the dataset
    env = RandEnv(x['seed'], horizon, x['env_backend'], x['discrete'], x['p_abs'], **env_dims(x))
    pol = RandPolicy(x['seed'] + 1, x['agent_backend'], x['discrete'], x['stateful'], **pol_dims(x))
    agent = SpyAgent(env.info, pol, backend=x['agent_backend'])
    core = Core(agent, env)
    for rep in range(2):
        del env.log[:], pol.log[:], agent.episodes[:]
        init = None
        if quota == 'states':
            init = arr(x['env_backend'], [[200. + 3 * i] + [0.] * (env.sdim - 1) for i in range(x['n'])], torch.float)
            d = core.evaluate(initial_states=init, quiet=True)
        else:
            n_run = x['n'] * 5 if quota == 'steps' and 'sdim' in x else x['n']
            d = core.evaluate(quiet=True, **{'n_' + quota: n_run})
        tr = trace(env, horizon)
        verify(snapshot(d), tr, pol, x['stateful'])
        n_ep = sum(e['last'] for e in tr)
        assert close(to_np(d.info['h']).ravel(), [e['next_state'][0] for e in tr]), 'step info not that of its step'
        assert close(to_np(d.info['n_steps']).ravel(), [e['t'] for e in tr]), 'nested step info not that of its step'
        if quota == 'steps':
            assert len(tr) == n_run
        else:
            assert n_ep == x['n'] and tr[-1]['last']
        resets = [e for e in env.log if e[0] == 'reset']
        if quota == 'states':
            assert [r[1] for r in resets] == [200. + 3 * i for i in range(x['n'])], 'initial states not used in order'
        else:
            assert all(r[1] is None for r in resets)
        assert len(resets) == sum(e['t'] == 1 for e in tr)
        assert env.log[0][0] == 'reset', 'a run starts with a reset'
        # the agent is told about each episode start, with its initial state and reset info
        assert len(agent.episodes) == len(resets)
        for (s0, info), r in zip(agent.episodes, resets):
            assert close(s0, r[2]) and info == {'ctx': r[3]}
    trunc = any(e['last'] and not e['absorbing'] for e in tr)
    return ('trunc' if trunc else 'abs') if n_ep > 1 or trunc else None


check.case('evaluate, long and wide', big, quick=70)(evaluate)


@check.case('learn', cfg, quick=500)
def learn(x):
    horizon = float('inf') if x['horizon'] == 'inf' else x['horizon']
    env = RandEnv(x['seed'], horizon, x['env_backend'], x['discrete'], x['p_abs'], **env_dims(x))
    pol = RandPolicy(x['seed'] + 1, x['agent_backend'], x['discrete'], x['stateful'], **pol_dims(x))
    agent = SpyAgent(env.info, pol, backend=x['agent_backend'])
    core = Core(agent, env)
    k = 1 + x['seed'] % x.get('kmax', 5)
    per_ep = x['seed'] % 2 == 0 and horizon != float('inf')
    if per_ep:
        core.learn(n_episodes=x['n'], n_episodes_per_fit=k, quiet=True)
    else:
        core.learn(n_steps=x['n'] * (5 if 'sdim' in x else 1), n_steps_per_fit=k, quiet=True)
    tr = trace(env, horizon)
    merged = dict(n=0)
    for f in agent.fits:
        for kk, v in f.items():
            if kk == 'n':
                merged['n'] += v
            else:
                merged.setdefault(kk, []).extend(v)
    if merged['n']:
        verify(merged, tr[:merged['n']], pol, x['stateful'])
    return 'ep' if per_ep else 'steps' if len(agent.fits) > 1 else None


check.case('learn, long and wide', big, quick=70)(learn)


@check.case('next_action', cfg, quick=300)
def next_action(x):
    """An action planned by the learning algorithm is executed exactly once, and dropped when an episode starts."""
    horizon = 6 if x['horizon'] == 'inf' else x['horizon']
    env = RandEnv(x['seed'], horizon, x['env_backend'], x['discrete'], x['p_abs'], **env_dims(x))
    pol = RandPolicy(x['seed'] + 1, x['agent_backend'], x['discrete'], False, **pol_dims(x))
    agent = OverrideAgent(env.info, pol, backend=x['agent_backend'])
    agent.planned, agent.use_override = [], True
    core = Core(agent, env)
    core.learn(n_steps=x['n'], n_steps_per_fit=1, quiet=True)
    tr = trace(env, horizon)
    assert len(agent.fits) == len(tr) == x['n']
    # every drawn action is executed once and in order (a plan is only made for a state the episode continues from);
    # the plan made by the very last fit is not executed
    drawn = [lg[2].ravel() for lg in pol.log]
    executed = [e['action'] for e in tr]
    assert len(drawn) - len(executed) in (0, 1)
    for i, e in enumerate(executed):
        assert close(drawn[i], e), ('executed action differs from the planned one', i)
    # planned while learning, stale at the next run: a new run must not execute it
    del env.log[:]
    n0 = len(pol.log)
    core.evaluate(n_steps=1, quiet=True)
    tr = trace(env, horizon)
    assert close(pol.log[n0][2].ravel(), tr[0]['action']), 'a stale planned action leaked into a new episode'
    return 'n>1' if x['n'] > 1 else None


check.case('next_action, long and wide', big, quick=40)(next_action)


class AddPre(object):
    def __init__(self, amount):
        self.amount, self.seen = amount, []

    def update(self, obs):
        self.seen.append(to_np(obs).copy())

    def __call__(self, obs):
        return obs * 2. + self.amount


@check.case('preprocessors', st.tuples(cfg, st.lists(st.integers(0, 9), max_size=3), st.lists(st.integers(0, 9), max_size=3)),
            quick=300)
def preprocessors(x):
    """Core preprocessors rewrite what is recorded and acted upon; agent preprocessors only what the policy sees."""
    x, core_p, agent_p = x
    horizon = 6 if x['horizon'] == 'inf' else x['horizon']
    env = RandEnv(x['seed'], horizon, x['env_backend'], x['discrete'], x['p_abs'], **env_dims(x))
    pol = RandPolicy(x['seed'] + 1, x['agent_backend'], x['discrete'], x['stateful'], **pol_dims(x))
    agent = SpyAgent(env.info, pol, backend=x['agent_backend'])
    cps = [AddPre(float(c)) for c in core_p]
    aps = [AddPre(float(c)) for c in agent_p]
    for p in cps:
        agent.add_core_preprocessor(p)
    for p in aps:
        agent.add_agent_preprocessor(p)

    def cpre(s):
        for p in cps:
            s = np.asarray(s) * 2. + p.amount
        return s

    def apre(s):
        for p in aps:
            s = np.asarray(s) * 2. + p.amount
        return s
    d = Core(agent, env).evaluate(n_steps=x['n'], quiet=True)
    snap = snapshot(d)
    tr = trace(env, horizon)
    raw = []
    for e in env.log:
        if e[0] == 'reset':
            raw.append(e[2])
        elif e[0] == 'step':
            raw.append(e[3])
    for p in cps:
        assert len(p.seen) == len(raw), 'each observation updates each core preprocessor exactly once'
    cur = [np.asarray(r) for r in raw]
    for p in cps:
        for a, b in zip(p.seen, cur):
            assert close(a, b), 'preprocessors chained in the wrong order'
        cur = [c * 2. + p.amount for c in cur]
    firsts = [e for e in env.log if e[0] == 'reset']
    assert len(agent.episodes) == len(firsts)
    for (s0, info), r in zip(agent.episodes, firsts):
        assert close(s0, r[2]) and info == {'ctx': r[3]}, 'episode_start not given the initial state of the environment'
    for i, e in enumerate(tr):
        assert close(snap['state'][i], cpre(e['state'])) and close(snap['next_state'][i], cpre(e['next_state']))
        assert close(pol.log[i][0], apre(cpre(e['state'])))
        assert close(np.ravel(snap['action'][i]), e['action'])
    return 'c%d a%d' % (len(cps), len(aps)) if (cps or aps) and len(tr) > 1 else None
