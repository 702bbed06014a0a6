"""A deterministic environment whose behaviour depends on its whole private history (for process-parallel runs)."""
import time

import numpy as np

from mushroom_rl.core import Environment, MDPInfo
from mushroom_rl.rl_utils.spaces import Box


class HistoryEnv(Environment):
    def __init__(self, tag, length, horizon=6, how='constructor', slow=0.):
        obs = Box(-1e6 * np.ones(4), 1e6 * np.ones(4))
        act = Box(-1e6 * np.ones(2), 1e6 * np.ones(2))
        super().__init__(MDPInfo(obs, act, .9, horizon))
        self.tag, self.length = float(tag), length
        self.how, self.slow = how, slow
        self.resets = self.t = self.rng = self.stops = 0
        self.acc = 0.

    def _obs(self):
        return np.array([self.tag + 1000. * self.stops, self.resets, self.acc, self.rng])

    def seed(self, seed):
        self.rng = seed

    def _wait(self):
        """A delay that depends on the private history: answers come back in any order."""
        if self.slow:
            time.sleep(self.slow * (int(abs(self.acc * 8)) % 4))

    def reset(self, state=None):
        self.resets += 1
        self.t = 0
        self.acc = 0. if state is None else float(state[0] + 10 * state[1] - state[2] + state[3] / 4.)
        self._wait()
        return self._obs(), {'episode': self.resets, 'how': self.how}

    def step(self, action):
        self.t += 1
        self.acc = self.acc / 2 + float(action[0]) + 3 * float(action[1])
        self.rng = (self.rng * 5 + 3) % 64
        self._wait()
        return self._obs(), self.acc - self.rng, self.t >= self.length or self.acc > 6, {'t': self.t, 'acc': self.acc}

    def render(self, record=False):
        return np.full((2, 3), self.acc) if record else None

    def stop(self):
        self.stops += 1


class GeneratedEnv(HistoryEnv):
    @staticmethod
    def generate(tag, length, horizon=6, slow=0.):
        return GeneratedEnv(tag, length + 1, horizon, how='generator', slow=slow)
