"""Instrumented environments, policies and agents used to observe the run loop through its public interface."""
import numpy as np
import torch

from mushroom_rl.core import Agent, Environment, MDPInfo
from mushroom_rl.core.vectorized_env import VectorizedEnvironment
from mushroom_rl.policy import Policy
from mushroom_rl.rl_utils.spaces import Box, Discrete


class Runaway(Exception):
    """The run loop kept going past every bound the scenario allows."""


def to_np(x):
    if x is None:
        return None
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy()
    return np.asarray(x)


def arr(backend, x, dtype=None):
    if backend == 'torch':
        return torch.tensor(np.asarray(x), dtype=dtype)
    return np.array(x)


class ScriptedEnv(Environment):
    """Episode k lasts ``lengths[k % len]`` steps before the environment itself reports absorbing.

    States are unique labels (run, episode, step) so that any sample can be traced to the call that produced it.
    A requested initial state (evaluate with initial_states) is remembered in the third component.
    """
    def __init__(self, lengths, horizon, backend='numpy', limit=100000, discrete_action=True, gamma=0.9):
        self.lengths = list(lengths)
        self.backend = backend
        dt = torch.float if backend == 'torch' else float
        adt = torch.float if backend == 'torch' else float
        obs = Box(-1e9 * np.ones(4), 1e9 * np.ones(4), data_type=dt)
        act = Box(-1e9 * np.ones(2), 1e9 * np.ones(2), data_type=adt)
        super().__init__(MDPInfo(obs, act, gamma, horizon, backend=backend))
        self.episode = -1
        self.t = 0
        self.calls = []          # ('reset', state) / ('step', action) / ('stop',)
        self.limit = limit
        self.n_calls = 0
        self.start = 0.

    def _obs(self):
        o = [float(self.episode), float(self.t), self.start, float(self.n_calls)]
        return torch.tensor(o) if self.backend == 'torch' else np.array(o)

    def _tick(self):
        self.n_calls += 1
        if self.n_calls > self.limit:
            raise Runaway('more than %d environment calls' % self.limit)

    def reset(self, state=None):
        self._tick()
        self.episode += 1
        self.t = 0
        self.start = -1. if state is None else float(state[0])
        o = self._obs()
        self.calls.append(('reset', None if state is None else to_np(state).copy(), to_np(o).copy()))
        return o, {'ep': float(self.episode)}

    def step(self, action):
        self._tick()
        self.t += 1
        o = self._obs()
        absorbing = self.t >= self.lengths[self.episode % len(self.lengths)]
        reward = float(self.episode) * 16. + self.t + 0.5
        self.calls.append(('step', to_np(action).copy(), to_np(o).copy(), reward, absorbing))
        return o, reward, absorbing, {'tag': arr(self.backend, [self.episode * 1000. + self.t], torch.float)}

    def stop(self):
        self.calls.append(('stop',))


class SpyPolicy(Policy):
    """Actions are serial numbers; optionally carries a policy state counting steps since the last reset."""
    def __init__(self, backend='numpy', stateful=False):
        super().__init__(policy_state_shape=(2,) if stateful else None)
        self.backend = backend
        self.stateful = stateful
        self.serial = 0
        self.resets = 0
        self.log = []

    def reset(self):
        self.resets += 1
        if self.stateful:
            return arr(self.backend, [float(self.resets), 0.], torch.float)
        return None

    def draw_action(self, state, policy_state=None):
        self.serial += 1
        a = arr(self.backend, [float(self.serial), 1.], torch.float)
        self.log.append((to_np(state).copy(), None if policy_state is None else to_np(policy_state).copy(),
                         to_np(a).copy()))
        if self.stateful:
            nxt = arr(self.backend, [float(to_np(policy_state)[0]), float(to_np(policy_state)[1]) + 1.], torch.float)
            return a, nxt
        return a, None


def snapshot(dataset):
    """Field-by-field copy of a dataset through its public interface."""
    out = dict(state=[to_np(x).copy() for x in dataset.state], action=[to_np(x).copy() for x in dataset.action],
               reward=[float(x) for x in dataset.reward], next_state=[to_np(x).copy() for x in dataset.next_state],
               absorbing=[bool(x) for x in dataset.absorbing], last=[bool(x) for x in dataset.last], n=len(dataset))
    if dataset.is_stateful:
        out['policy_state'] = [to_np(x).copy() for x in dataset.policy_state]
        out['policy_next_state'] = [to_np(x).copy() for x in dataset.policy_next_state]
    if dataset.theta_list is not None:
        out['theta'] = list(dataset.theta_list)
    return out


class SpyAgent(Agent):
    """Records every fit; an episodic spy also issues one theta per episode."""
    def __init__(self, mdp_info, policy, episodic=False, backend='numpy'):
        super().__init__(mdp_info, policy, is_episodic=episodic, backend=backend)
        self.fits = []
        self.episodes = []
        self.events = []
        self.stops = 0
        self.on_fit = None

    def fit(self, dataset):
        self.fits.append(snapshot(dataset))
        self.events.append('fit')
        if self.on_fit:
            self.on_fit(dataset)

    def episode_start(self, initial_state, episode_info):
        self.episodes.append((to_np(initial_state).copy(), dict(episode_info)))
        ps, _ = super().episode_start(initial_state, episode_info)
        return ps, (1000 + len(self.episodes)) if self.info.is_episodic else None

    def stop(self):
        self.stops += 1
        super().stop()


class ScriptedVecEnv(VectorizedEnvironment):
    """n independent scripted environments; state = (env, episode of that env, step, run-wide call number)."""
    def __init__(self, lengths, horizon, backend='numpy', limit=3000, gamma=0.9):
        self.lengths = [list(l) for l in lengths]
        n = len(lengths)
        self.backend = backend
        dt = torch.float if backend == 'torch' else float
        obs = Box(-1e9 * np.ones(4), 1e9 * np.ones(4), data_type=dt)
        act = Box(-1e9 * np.ones(2), 1e9 * np.ones(2), data_type=dt)
        super().__init__(MDPInfo(obs, act, gamma, horizon, backend=backend), n)
        self.ep = [-1] * n
        self.t = [0] * n
        self.calls = [[] for _ in range(n)]
        self.masks = []
        self.n_calls = 0
        self.limit = limit
        self.cur = np.full((n, 4), -7.)

    def _out(self, x, dtype=None):
        if self.backend == 'torch':
            return torch.tensor(np.asarray(x), dtype=dtype)
        return np.array(x)

    def _tick(self):
        self.n_calls += 1
        if self.n_calls > self.limit:
            raise Runaway('more than %d vectorized calls' % self.limit)

    def reset_all(self, env_mask, state=None):
        self._tick()
        m = to_np(env_mask)
        infos = []
        for i in range(self.number):
            if m[i]:
                self.ep[i] += 1
                self.t[i] = 0
                self.cur[i] = [i, self.ep[i], 0, self.n_calls]
                self.calls[i].append(('reset', self.cur[i].copy()))
                infos.append({'ep': float(self.ep[i])})
            else:
                infos.append({})
        return self._out(self.cur.copy(), torch.float), infos

    def step_all(self, env_mask, action):
        self._tick()
        m = to_np(env_mask)
        self.masks.append(m.copy())
        a = to_np(action)
        rew = np.full(self.number, -999.)
        ab = np.zeros(self.number, dtype=bool)
        for i in range(self.number):
            if m[i]:
                prev = self.cur[i].copy()
                self.t[i] += 1
                self.cur[i] = [i, self.ep[i], self.t[i], self.n_calls]
                rew[i] = i * 256 + self.ep[i] * 16. + self.t[i] + .5
                ls = self.lengths[i]
                ab[i] = self.t[i] >= ls[self.ep[i] % len(ls)]
                self.calls[i].append(('step', prev, a[i].copy(), rew[i], self.cur[i].copy(), bool(ab[i]),
                                      self.t[i], len(self.masks)))
        infos = {'tag': self._out(rew.copy(), torch.float)}
        return self._out(self.cur.copy(), torch.float), self._out(rew, torch.float), self._out(ab, torch.bool), infos

    def stop(self):
        pass


class SpyVecPolicy(Policy):
    def __init__(self, n, backend='numpy', stateful=False):
        super().__init__(policy_state_shape=(2,) if stateful else None)
        self.n, self.backend, self.stateful = n, backend, stateful
        self.serial = 0
        self.log = []
        self.resets = 0

    def reset(self):
        self.resets += 1
        if self.stateful:
            return arr(self.backend, [[float(self.resets), 0.]] * self.n, torch.float)

    def draw_action(self, state, policy_state=None):
        self.serial += 1
        a = arr(self.backend, [[float(self.serial), float(i)] for i in range(self.n)], torch.float)
        ps = to_np(policy_state)
        self.log.append((to_np(state).copy(), None if ps is None else ps.copy()))
        nxt = None
        if self.stateful:
            nxt = arr(self.backend, np.stack([ps[:, 0], ps[:, 1] + 1.], axis=1), torch.float)
        return a, nxt


class SpyVecAgent(SpyAgent):
    def episode_start_vectorized(self, initial_states, episode_info, start_mask):
        m = to_np(start_mask)
        self.episodes.append((to_np(initial_states).copy(), m.copy()))
        ps, _ = Agent.episode_start(self, initial_states, episode_info)
        theta = None
        if self.info.is_episodic:
            theta = arr(self.info.backend, to_np(initial_states).copy())
        return ps, theta

    def fit(self, dataset):
        super().fit(dataset)
        self.fits[-1]['tag'] = None if 'tag' not in dataset.info else to_np(dataset.info['tag']).copy()
