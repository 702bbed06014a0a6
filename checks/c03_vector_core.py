"""C03 - the vectorized run loop: same accounting as the sequential one, per-environment trajectories intact."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.core import VectorCore
from pbt.harness import Check
from pbt.spies import ScriptedVecEnv, SpyVecAgent, SpyVecPolicy, snapshot, to_np

check = Check('C03', rule='a case is 1-5 parallel scripted environments with independent episode lengths, a horizon, '
              'backends, a stateless/stateful/episodic agent and a sequence of learn/evaluate calls; non-trivial when '
              'environments end episodes at different times and (for learn) at least two fits happen',
              assumptions=['fits by steps are exercised with a step quota and a number of steps per fit that is a '
                           'multiple of the number of environments: outside that domain the loop is known to be '
                           'broken (KNOWN_FINDINGS)'])

run = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just('learn'), quota=st.just('steps'), n=st.integers(1, 40),
                               fit=st.just('steps'), k=st.integers(1, 4))),
    st.fixed_dictionaries(dict(kind=st.just('learn'), quota=st.sampled_from(['steps', 'episodes']),
                               n=st.integers(1, 25), fit=st.just('episodes'), k=st.integers(1, 7))),
    st.fixed_dictionaries(dict(kind=st.just('evaluate'), quota=st.sampled_from(['steps', 'episodes']),
                               n=st.integers(1, 16))))
scenario = st.fixed_dictionaries(dict(
    lengths=st.lists(st.lists(st.integers(1, 7), min_size=1, max_size=3), min_size=2, max_size=5),
    horizon=st.integers(1, 8), env_backend=st.sampled_from(['numpy', 'torch']),
    agent_backend=st.sampled_from(['numpy', 'torch']), stateful=st.booleans(), episodic=st.booleans(),
    runs=st.lists(run, min_size=1, max_size=3)))


def close(a, b):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-5, atol=1e-5)


def history(env, marks, horizon):
    """Per environment list of executed steps since ``marks`` (from the environments' own logs)."""
    out = []
    for i in range(env.number):
        out.append([c for c in env.calls[i][marks[i]:] if c[0] == 'step'])
    return out


def verify(snap, per_env, horizon, pol, stateful, episodic, tag, complete):
    """``per_env`` are the steps that must be in the dataset, exactly once, grouped into unbroken trajectories."""
    total = sum(len(p) for p in per_env)
    assert snap['n'] == total, ('number of samples', snap['n'], total)
    # identify every sample by its (env, call) label
    index = {}
    for i, p in enumerate(per_env):
        for j, c in enumerate(p):
            index[tuple(np.round(c[4]).astype(int))] = (i, j, c)
    seen = set()
    episode_starts = []
    new_ep = True
    for r in range(total):
        key = tuple(np.round(snap['next_state'][r]).astype(int))
        assert key in index, ('a sample no environment produced in this batch', key)
        assert key not in seen, ('duplicated sample', key)
        seen.add(key)
        i, j, c = index[key]
        assert close(snap['state'][r], c[1]), ('state', snap['state'][r], c[1])
        assert close(snap['action'][r], c[2]), 'action'
        assert close(snap['reward'][r], c[3]), 'reward'
        assert snap['absorbing'][r] == c[5], 'absorbing'
        final = j == len(per_env[i]) - 1
        true_last = bool(c[5] or c[6] >= horizon)
        assert snap['last'][r] == (true_last or final), ('last', r, snap['last'][r], true_last, final)
        if complete:
            assert not final or true_last, 'an unfinished episode in a batch of complete episodes'
        if tag is not None:
            assert close(tag[r], c[3]), ('step info not aligned with its sample', tag[r], c[3])
        if stateful:
            row = c[7] - 1
            assert close(snap['policy_state'][r], pol.log[row][1][i]), 'policy state'
            assert close(snap['policy_next_state'][r][1], snap['policy_state'][r][1] + 1.), 'policy next state'
            if c[6] == 1:
                assert float(snap['policy_state'][r][1]) == 0., 'policy state not reset'
            else:
                assert float(snap['policy_state'][r][1]) == c[6] - 1, 'policy state of a running episode was reset'
        if new_ep:
            episode_starts.append(snap['state'][r])
        else:
            pi, pj = prev
            assert pi == i and pj + 1 == j, 'trajectory broken: a non-last sample is not followed by its successor'
        new_ep = snap['last'][r]
        prev = (i, j)
    if episodic and complete:
        theta = snap['theta']
        assert len(theta) == len(episode_starts), ('one theta per episode', len(theta), len(episode_starts))
        for t, s in zip(theta, episode_starts):
            assert close(to_np(t), s), 'theta attached to the wrong episode'


@check.case('vector', scenario, quick=700)
def vector(x):
    n_envs = len(x['lengths'])
    env = ScriptedVecEnv(x['lengths'], x['horizon'], backend=x['env_backend'])
    pol = SpyVecPolicy(n_envs, backend=x['agent_backend'], stateful=x['stateful'])
    agent = SpyVecAgent(env.info, pol, episodic=x['episodic'], backend=x['agent_backend'])
    core = VectorCore(agent, env)
    label = None
    for r in x['runs']:
        marks = [len(c) for c in env.calls]
        env.n_calls = 0
        row0 = len(env.masks)
        agent.fits, fit_marks = [], []
        agent.on_fit = lambda d: fit_marks.append([len(c) for c in env.calls])
        if r['kind'] == 'learn':
            k = r['k'] * n_envs if r['fit'] == 'steps' else r['k']
            kw = {'n_' + r['quota']: r['n'], 'n_%s_per_fit' % r['fit']: k}
            core.learn(quiet=True, **kw)
        else:
            k = None
            out = core.evaluate(quiet=True, **{'n_' + r['quota']: r['n']})
        steps = history(env, marks, x['horizon'])
        total = sum(len(p) for p in steps)
        done = sum(bool(c[5] or c[6] >= x['horizon']) for p in steps for c in p)
        active = [int(m.sum()) for m in env.masks[row0:]]
        # amount of interaction
        if r['quota'] == 'steps':
            assert total >= r['n'], ('fewer steps than requested', total, r['n'])
            assert total - (active[-1] if active else 0) < r['n'], ('kept running after the quota', total, r['n'])
        else:
            assert done == r['n'], ('episodes', done, r['n'])
            assert all(bool(c[5] or c[6] >= x['horizon']) for p in steps for c in p[-1:]), 'unfinished episode'
        # environment-level trajectories: reset exactly when an episode ended, never in the middle
        for i in range(n_envs):
            prev = None
            for c in env.calls[i][marks[i]:]:
                if c[0] == 'reset':
                    assert prev is None or prev[0] == 'step' and (prev[5] or prev[6] >= x['horizon']), \
                        'environment reset in the middle of an episode'
                else:
                    assert prev is not None, 'a run must start with a reset'
                    if prev[0] == 'step':
                        assert not (prev[5] or prev[6] >= x['horizon']), 'stepped after the end of the episode'
                prev = c
        if r['kind'] == 'evaluate':
            assert agent.fits == []
            verify(snapshot(out), steps, x['horizon'], pol, x['stateful'], x['episodic'],
                   to_np(out.info['tag']).ravel(), r['quota'] == 'episodes')
            if done > 1:
                label = 'evaluate'
        else:
            expected = total // k if r['fit'] == 'steps' else done // k
            assert len(agent.fits) == expected, ('number of fits', len(agent.fits), expected)
            lo = marks
            for snap, hi in zip(agent.fits, fit_marks):
                part = [[c for c in env.calls[i][lo[i]:hi[i]] if c[0] == 'step'] for i in range(n_envs)]
                verify(snap, part, x['horizon'], pol, x['stateful'], x['episodic'], snap['tag'],
                       r['fit'] == 'episodes')
                if r['fit'] == 'episodes':
                    assert sum(snap['last']) == k, ('episodes in the fit', sum(snap['last']), k)
                else:
                    assert snap['n'] == k
                lo = hi
            if len(agent.fits) > 1:
                label = 'learn-' + r['fit']
        env.masks = env.masks[:]
    return label


big_run = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just('learn'), quota=st.just('steps'), n=st.integers(1, 500),
                               fit=st.just('steps'), k=st.one_of(st.integers(1, 8), st.integers(9, 40)))),
    st.fixed_dictionaries(dict(kind=st.just('learn'), quota=st.sampled_from(['steps', 'episodes']),
                               n=st.integers(1, 70), fit=st.just('episodes'), k=st.integers(1, 30))),
    st.fixed_dictionaries(dict(kind=st.just('evaluate'), quota=st.sampled_from(['steps', 'episodes']),
                               n=st.integers(1, 90))))
# many environments, long episodes, many episodes per fit, repeated runs on the same core
check.case('vector, long and wide', st.fixed_dictionaries(dict(
    lengths=st.lists(st.lists(st.one_of(st.integers(1, 7), st.integers(8, 40)), min_size=1, max_size=4), min_size=2,
                     max_size=14),
    horizon=st.one_of(st.integers(1, 12), st.integers(13, 60)), env_backend=st.sampled_from(['numpy', 'torch']),
    agent_backend=st.sampled_from(['numpy', 'torch']), stateful=st.booleans(), episodic=st.booleans(),
    runs=st.lists(big_run, min_size=1, max_size=4))), quick=60)(vector)


class Shift(object):
    def __init__(self, a):
        self.a = a

    def update(self, obs):
        pass

    def __call__(self, obs):
        return obs * 2 + self.a


@check.case('preprocess', st.fixed_dictionaries(dict(
    lengths=st.lists(st.lists(st.integers(1, 5), min_size=1, max_size=3), min_size=2, max_size=4),
    horizon=st.integers(1, 6), n=st.integers(1, 30), quota=st.sampled_from(['steps', 'episodes']), amounts=st.lists(st.integers(1, 9), min_size=1, max_size=3),
    backend=st.sampled_from(['numpy', 'torch']))), quick=150)
def preprocess(x):
    n_envs = len(x['lengths'])
    env = ScriptedVecEnv(x['lengths'], x['horizon'], backend=x['backend'])
    pol = SpyVecPolicy(n_envs, backend=x['backend'])
    agent = SpyVecAgent(env.info, pol, backend=x['backend'])
    for a in x['amounts']:
        agent.add_core_preprocessor(Shift(float(a)))

    def pre(s):
        for a in x['amounts']:
            s = s * 2 + a
        return s
    d = VectorCore(agent, env).evaluate(quiet=True, **{'n_' + x['quota']: x['n'] if x['quota'] == 'steps' else 1 + x['n'] % 9})
    snap = snapshot(d)
    steps = {tuple(np.round(pre(c[4])).astype(int)): c for p in env.calls for c in p if c[0] == 'step'}
    assert snap['n'] == len(steps)
    for i in range(snap['n']):
        key = tuple(np.round(snap['next_state'][i]).astype(int))
        assert key in steps, 'next state not preprocessed exactly once'
        assert close(snap['state'][i], pre(steps[key][1])), 'state not preprocessed exactly once'
    return '%s%d' % (x['quota'][0], len(x['amounts'])) if snap['n'] > n_envs else None


@check.known('vector-steps-per-fit-not-multiple',
             'VectorCore.learn with n_steps_per_fit not a multiple of the number of environments (3 envs, '
             'n_steps_per_fit=4, n_steps=60): samples are repeated across fits and the dataset overflows')
def steps_per_fit_not_multiple():
    env = ScriptedVecEnv([[2, 3, 5], [3, 3, 5], [4, 3, 5]], 10)
    agent = SpyVecAgent(env.info, SpyVecPolicy(3))
    VectorCore(agent, env).learn(n_steps=60, n_steps_per_fit=4, quiet=True)
    seen = [tuple(s) for f in agent.fits for s in f['next_state']]
    assert len(seen) == len(set(seen))
