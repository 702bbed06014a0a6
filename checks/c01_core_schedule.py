"""C01 - the sequential run loop executes exactly the requested amount of interaction and fits exactly on schedule."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.core import Core
from mushroom_rl.rl_utils.parameters import Parameter
from pbt.harness import Check
from pbt.spies import ScriptedEnv, SpyAgent, SpyPolicy, to_np, snapshot

check = Check('C01', rule='a case is a scripted environment (episode lengths, horizon), an agent kind (backend, '
              'stateful, episodic) and a sequence of learn/evaluate calls with step or episode quotas; non-trivial when '
              'some episode ends inside a run and (for learn) at least one fit happens')

run = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just('learn'), quota=st.sampled_from(['steps', 'episodes']),
                               n=st.integers(1, 25), fit=st.sampled_from(['steps', 'episodes']),
                               k=st.integers(1, 7))),
    st.fixed_dictionaries(dict(kind=st.just('evaluate'), quota=st.sampled_from(['steps', 'episodes', 'states']),
                               n=st.integers(1, 12))),
)
scenario = st.fixed_dictionaries(dict(
    lengths=st.lists(st.integers(1, 9), min_size=1, max_size=5),
    horizon=st.integers(1, 10),
    env_backend=st.sampled_from(['numpy', 'torch']),
    agent_backend=st.sampled_from(['numpy', 'torch']),
    stateful=st.booleans(),
    episodic=st.booleans(),
    runs=st.lists(run, min_size=1, max_size=4)))


def build(x):
    env = ScriptedEnv(x['lengths'], x['horizon'], backend=x['env_backend'])
    pol = SpyPolicy(backend=x['agent_backend'], stateful=x['stateful'])
    agent = SpyAgent(env.info, pol, episodic=x['episodic'], backend=x['agent_backend'])
    return env, pol, agent


def close(a, b):
    return np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-6, atol=1e-6)


def same_samples(snap, expected):
    assert snap['n'] == len(expected), ('number of samples', snap['n'], len(expected))
    for i, e in enumerate(expected):
        for f in ('state', 'action', 'reward', 'next_state'):
            assert close(snap[f][i], e[f]), (f, i, snap[f][i], e[f])
        for f in ('absorbing', 'last'):
            assert snap[f][i] == e[f], (f, i, snap[f][i], e[f])
        if 'policy_state' in snap:
            assert close(snap['policy_state'][i], e['policy_state']), ('policy_state', i)
            assert close(snap['policy_next_state'][i], e['policy_next_state']), ('policy_next_state', i)


def model_run(x, r, world, initial_states):
    """Reference run loop over the scripted world: returns samples and the positions after which a fit is due."""
    samples, fits = [], []
    episodes = steps = 0
    since_steps = since_eps = 0
    fresh = True
    t = 0
    n_target = r['n']
    while (steps if r['quota'] == 'steps' else episodes) < n_target:
        if fresh:
            world['episode'] += 1
            world['calls'] += 1
            world['resets'] += 1
            t = 0
            start = -1. if initial_states is None else float(initial_states[episodes][0])
            state = [world['episode'], 0., start, world['calls']]
            fresh = False
        world['calls'] += 1
        world['serial'] += 1
        ps = [world['resets'], t]
        t += 1
        nxt = [world['episode'], t, start, world['calls']]
        absorbing = t >= x['lengths'][world['episode'] % len(x['lengths'])]
        last = absorbing or t >= x['horizon']
        samples.append(dict(state=state, action=[world['serial'], 1.], reward=world['episode'] * 16. + t + .5,
                            next_state=nxt, absorbing=absorbing, last=last, policy_state=ps,
                            policy_next_state=[world['resets'], t], first=t == 1,
                            tag=world['episode'] * 1000. + t))
        state = nxt
        steps += 1
        since_steps += 1
        if last:
            episodes += 1
            since_eps += 1
            fresh = True
        if r['kind'] == 'learn':
            if (since_steps if r['fit'] == 'steps' else since_eps) >= r['k']:
                fits.append(len(samples))
                since_steps = since_eps = 0
    return samples, fits


@check.case('schedule', scenario, quick=700)
def schedule(x):
    env, pol, agent = build(x)
    order = []
    step_seen = []

    def on_step(sample):
        order.append('step')
        step_seen.append((to_np(sample[0]).copy(), to_np(sample[1]).copy(), bool(sample[5])))

    cb_sizes = []

    class FitCallback(object):
        def __init__(self, name):
            self.name = name

        def __call__(self, dataset):
            order.append(self.name)
            cb_sizes.append(snapshot(dataset))

    agent.on_fit = lambda d: order.append('fit')
    core = Core(agent, env, callbacks_fit=[FitCallback('A'), FitCallback('B')], callback_step=on_step)
    world = dict(episode=-1, calls=0, serial=0, resets=0)
    nontrivial = False
    for r in x['runs']:
        del order[:], step_seen[:], cb_sizes[:]
        agent.fits, n_stops, n_calls = [], agent.stops, len(env.calls)
        init = None
        if r['kind'] == 'learn':
            kw = {'n_' + r['quota']: r['n'], 'n_%s_per_fit' % r['fit']: r['k']}
            out = core.learn(quiet=True, **kw)
            assert out is None
        else:
            if r['quota'] == 'states':
                init = np.array([[100. + i, 0.] for i in range(r['n'])])
                out = core.evaluate(initial_states=init, quiet=True)
            else:
                out = core.evaluate(quiet=True, **{'n_' + r['quota']: r['n']})
        samples, fits = model_run(x, r, world, init)
        real = env.calls[n_calls:]
        # exactly the requested interaction, in order: reset at every episode start, then steps, then one stop
        expected_calls = []
        for s in samples:
            if s['first']:
                expected_calls.append('reset')
            expected_calls.append('step')
        expected_calls.append('stop')
        assert [c[0] for c in real] == expected_calls, ('env calls', [c[0] for c in real], expected_calls)
        assert agent.stops == n_stops + 1
        steps = [c for c in real if c[0] == 'step']
        for c, s in zip(steps, samples):
            assert close(c[1], s['action']), 'the environment received an action the policy did not issue'
        # fits: exactly on schedule, with exactly the samples since the previous fit
        assert len(agent.fits) == len(fits), ('number of fits', len(agent.fits), len(fits))
        prev = 0
        for snap, pos in zip(agent.fits, fits):
            same_samples(snap, samples[prev:pos])
            if x['episodic']:
                starts = [s for s in samples[prev:pos] if s['first']]
                if r.get('fit') == 'episodes':
                    assert len(snap['theta']) == len(starts), ('one theta per episode', snap['theta'], len(starts))
            prev = pos
        # callback order: step callback after each step, fit then callbacks A, B after each fit
        exp_order = []
        fs = set(fits)
        for i in range(len(samples)):
            exp_order.append('step')
            if i + 1 in fs:
                exp_order += ['fit', 'A', 'B']
        assert order == exp_order, ('callback order', order, exp_order)
        for i, (s0, a0, l0) in enumerate(step_seen):
            assert close(s0, samples[i]['state']) and close(a0, samples[i]['action']) and l0 == samples[i]['last']
        prev = 0
        for j, pos in enumerate(fits):
            same_samples(cb_sizes[2 * j], samples[prev:pos])
            same_samples(cb_sizes[2 * j + 1], samples[prev:pos])
            prev = pos
        if r['kind'] == 'evaluate':
            assert agent.fits == [] and 'fit' not in order
            same_samples(snapshot(out), samples)
            if x['episodic']:
                assert len(out.theta_list) == sum(s['first'] for s in samples)
            if x['env_backend'] == 'numpy' or x['env_backend'] == 'torch':
                tags = to_np(out.info['tag']).ravel()
                assert close(tags, [s['tag'] for s in samples]), ('step info', tags)
        if any(s['last'] for s in samples) and (r['kind'] == 'evaluate' or fits):
            nontrivial = True
    return 'runs=%d' % len(x['runs']) if nontrivial else None


big_run = st.one_of(
    st.fixed_dictionaries(dict(kind=st.just('learn'), quota=st.just('steps'), n=st.integers(1, 420),
                               fit=st.sampled_from(['steps', 'episodes']), k=st.integers(1, 140))),
    st.fixed_dictionaries(dict(kind=st.just('learn'), quota=st.just('episodes'), n=st.integers(1, 45),
                               fit=st.sampled_from(['steps', 'episodes']), k=st.integers(1, 20))),
    st.fixed_dictionaries(dict(kind=st.just('evaluate'), quota=st.sampled_from(['episodes', 'states']),
                               n=st.integers(1, 45))),
    st.fixed_dictionaries(dict(kind=st.just('evaluate'), quota=st.just('steps'), n=st.integers(1, 420))))
# long histories: long episodes, many episodes per fit, many runs on the same core
check.case('schedule, long', st.fixed_dictionaries(dict(
    lengths=st.lists(st.one_of(st.integers(1, 9), st.integers(10, 90)), min_size=1, max_size=12),
    horizon=st.one_of(st.integers(1, 20), st.integers(21, 120)),
    env_backend=st.sampled_from(['numpy', 'torch']), agent_backend=st.sampled_from(['numpy', 'torch']),
    stateful=st.booleans(), episodic=st.booleans(), runs=st.lists(big_run, min_size=1, max_size=6))),
    quick=70)(schedule)


class Shift(object):
    """A core preprocessor that marks every application and every update."""
    def __init__(self, amount):
        self.amount = amount
        self.updates = []

    def update(self, obs):
        self.updates.append(to_np(obs).copy())

    def __call__(self, obs):
        return obs + self.amount


@check.case('preprocess', st.fixed_dictionaries(dict(
    lengths=st.lists(st.integers(1, 6), min_size=1, max_size=4), horizon=st.integers(1, 7),
    n=st.integers(1, 30), k=st.integers(1, 6), amounts=st.lists(st.integers(1, 50), min_size=1, max_size=3))), quick=250)
def preprocess(x):
    """Every observation (initial and successive) goes through the preprocessors once, in order; the agent acts on and
    is trained on the preprocessed states only."""
    env = ScriptedEnv(x['lengths'], x['horizon'])
    pol = SpyPolicy()
    agent = SpyAgent(env.info, pol)
    pre = [Shift(float(a)) for a in x['amounts']]
    for p in pre:
        agent.add_core_preprocessor(p)
    core = Core(agent, env)
    core.learn(n_steps=x['n'], n_steps_per_fit=x['k'], quiet=True)
    raw = [c[2] for c in env.calls if c[0] in ('reset', 'step')]
    off = 0.
    for p in pre:
        assert len(p.updates) == len(raw) and all(close(u, o + off) for u, o in zip(p.updates, raw)), \
            'each observation must reach each preprocessor exactly once and in order'
        off += p.amount
    # policy sees preprocessed states
    cur, exp = None, []
    for c in env.calls:
        if c[0] == 'reset':
            cur = c[2] + off
        elif c[0] == 'step':
            exp.append((cur, c[2] + off))
            cur = c[2] + off
    assert len(pol.log) == len(exp)
    for lg, e in zip(pol.log, exp):
        assert close(lg[0], e[0])
    got = [(s, n) for f in agent.fits for s, n in zip(f['state'], f['next_state'])]
    for (s, n), e in zip(got, exp):
        assert close(s, e[0]) and close(n, e[1])
    assert len(got) == (x['n'] // x['k']) * x['k']
    return 'p%d' % len(pre) if len(agent.fits) and len(exp) > 1 else None
