"""Generated datasets plus their list-of-rows reference model."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.core import Dataset
from mushroom_rl.core.agent import AgentInfo
from mushroom_rl.core import MDPInfo
from mushroom_rl.rl_utils.spaces import Box, Discrete


def to_np(x):
    if isinstance(x, torch.Tensor):
        return x.detach().cpu().numpy()
    return np.asarray(x)


def mdp_info(backend, sdim=2, discrete=False, horizon=50, gamma=0.9, adim=1):
    tdt = torch.float if backend == 'torch' else float
    obs = Box(-1e9 * np.ones(sdim), 1e9 * np.ones(sdim), data_type=tdt)
    act = Discrete(50) if discrete else Box(-1e9 * np.ones(adim), 1e9 * np.ones(adim), data_type=tdt)
    return MDPInfo(obs, act, gamma, horizon, backend=backend)


def new_dataset(backend, capacity, stateful=False, sdim=2, discrete=False, gamma=0.9, horizon=50, adim=1, pdim=2,
                **kw):
    info = mdp_info(backend, sdim, discrete, horizon, gamma, adim)
    ainfo = AgentInfo(is_episodic=False, policy_state_shape=(pdim,) if stateful else None, backend='numpy')
    if kw:
        return Dataset.generate(info, ainfo, **kw)
    return Dataset.generate(info, ainfo, n_steps=capacity)


def row(serial, sdim, last, absorbing, reward, stateful, discrete=False, adim=1, pdim=2):
    """Row content is a function of a serial number, so that any mix-up is visible."""
    s = [float(serial)] + [0.25 * serial] * (sdim - 1)
    n = [float(serial) + .5] + [0.25 * serial + .5] * (sdim - 1)
    r = dict(state=np.array(s), action=np.array([serial % 50] if discrete else [serial * 2. + j for j in range(adim)]), reward=float(reward),
             next_state=np.array(n), absorbing=bool(absorbing), last=bool(last), tag=float(serial))
    if stateful:
        r['policy_state'] = np.array([serial + .125] + [1.] * (pdim - 1))
        r['policy_next_state'] = np.array([serial + .25] + [2.] * (pdim - 1))
    return r


def mk(backend, v):
    return torch.tensor(v, dtype=torch.int64 if v.dtype.kind == 'i' else torch.float) if backend == 'torch' else v.copy()


def append(ds, backend, r, numpy_flags=False):
    flag = (torch.tensor if backend == 'torch' else np.bool_) if numpy_flags else bool
    ab, la = flag(r['absorbing']), flag(r['last'])
    step = [mk(backend, r['state']), mk(backend, r['action']), r['reward'], mk(backend, r['next_state']), ab, la]
    if 'policy_state' in r:
        step += [mk(backend, r['policy_state']), mk(backend, r['policy_next_state'])]
    elif backend != 'list':
        step += [None, None]
    ds.append(tuple(step), {'tag': r['tag']})
    # what was recorded belongs to the dataset: the caller goes on to reuse its arrays
    for v in step:
        if getattr(v, 'ndim', 0):
            v[...] = -77


def compare(ds, model, stateful, what=''):
    assert len(ds) == len(model), (what, 'len', len(ds), len(model))
    fields = ['state', 'action', 'reward', 'next_state', 'absorbing', 'last']
    if stateful:
        fields += ['policy_state', 'policy_next_state']
    assert bool(ds.is_stateful) == stateful, (what, 'is_stateful')
    for f in fields:
        col = getattr(ds, f)
        assert len(col) == len(model), (what, f, 'length', len(col), len(model))
        for i, m in enumerate(model):
            assert np.allclose(to_np(col[i]).astype(float).ravel(), np.asarray(m[f], float).ravel()), \
                (what, f, i, col[i], m[f])


@st.composite
def rows(draw, min_size=0, max_size=12):
    """(last, absorbing, reward) triples; absorbing implies last, as the run loop guarantees."""
    out = []
    for _ in range(draw(st.integers(min_size, max_size))):
        kind = draw(st.sampled_from(['mid', 'mid', 'mid', 'abs', 'trunc']))
        out.append((kind != 'mid', kind == 'abs', draw(st.integers(-40, 40)) / 8.))
    return out


@st.composite
def many_rows(draw, min_size=0, max_size=200, amplitude=True):
    """Long data from a compact description: size, seed, mean episode length, reward scale."""
    n, seed = draw(st.integers(min_size, max_size)), draw(st.integers(0, 10 ** 6))
    p = draw(st.sampled_from([.02, .1, .3, .7]))
    scale = draw(st.sampled_from([1., 1., 1e-3, 1e3])) if amplitude else 1.
    rng = np.random.RandomState(seed)
    out = []
    for _ in range(n):
        last = bool(rng.rand() < p)
        out.append((last, last and bool(rng.rand() < .5), float(scale * rng.randint(-40, 41) / 8.)))
    return out
