"""Generated datasets for the replay memories, and the reference n-step transitions."""
import numpy as np

from mushroom_rl.core.agent import AgentInfo
from . import dsgen


def infos(env_backend, agent_backend, stateful, discrete=False, sdim=2, gamma=.9, adim=1, pdim=2):
    return (dsgen.mdp_info(env_backend, sdim, discrete, gamma=gamma, adim=adim),
            AgentInfo(is_episodic=False, policy_state_shape=(pdim,) if stateful else None, backend=agent_backend))


def dataset(env_backend, stateful, rows, serial, discrete=False, sdim=2, adim=1, pdim=2):
    ds = dsgen.new_dataset(env_backend, max(len(rows), 1), stateful, sdim, discrete, adim=adim, pdim=pdim)
    model = []
    for last, ab, rew in rows:
        serial[0] += 1
        r = dsgen.row(serial[0], sdim, last, ab, rew, stateful, discrete, adim=adim, pdim=pdim)
        dsgen.append(ds, env_backend, r)
        model.append(r)
    return ds, model


def dims(x):
    return {k: x[k] for k in ('sdim', 'adim', 'pdim') if k in x}


def nstep(model, n, gamma):
    out = []
    for i in range(len(model) - n + 1):
        w = model[i:i + n]
        if any(r['last'] for r in w[:-1]):
            continue
        t = dict(w[0])
        t['reward'] = sum(gamma ** j * r['reward'] for j, r in enumerate(w))
        for f in ('next_state', 'absorbing', 'last', 'policy_next_state'):
            if f in w[-1]:
                t[f] = w[-1][f]
        t['start'] = i
        out.append(t)
    return out


class Ring(object):
    def __init__(self, size):
        self.size, self.slots, self.idx = size, [], 0

    def add(self, t):
        """returns the slot written"""
        slot = self.idx
        if len(self.slots) < self.size:
            self.slots.append(t)
        else:
            self.slots[slot] = t
        self.idx = (self.idx + 1) % self.size
        return slot


def same_row(batch, i, t, stateful, what):
    fields = ['state', 'action', 'reward', 'next_state', 'absorbing', 'last']
    if stateful:
        fields += ['policy_state', 'policy_next_state']
    for col, f in zip(batch, fields):
        got = dsgen.to_np(col[i]).astype(float).ravel()
        want = np.asarray(t[f], float).ravel()
        assert np.allclose(got, want, rtol=1e-5, atol=1e-5 * max(1., abs(t['reward']))), (what, f, got, want)
