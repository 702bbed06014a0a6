"""C08 - a saved and loaded (or copied) agent is indistinguishable from the original, also while it keeps learning."""
import os

import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.core import Agent, Core
from pbt import agents
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C08', rule='a case is an algorithm with a generated configuration, a training history before the save, whether the '
              'agent is saved fully, saved partially or copied, and a training history afterwards; the original and the '
              'restored agent are run side by side from the same random seeds; non-trivial when the agent was fitted before and '
              'after the round trip')


def seed(n):
    np.random.seed(n)
    torch.manual_seed(n)


def n_state(family, name):
    return 1 if family == 'tabular' else 2


def probe(agent, family, s):
    """Actions and action values of (a copy of) the agent on fixed states, from fixed random seeds."""
    agent = agent.copy()
    agent.next_action = None
    seed(s)
    out = []
    for i in range(4):
        x = np.array([i]) if family == 'tabular' else np.array([.4 * i - .6, .3 - .2 * i])
        if agent.info.is_episodic:
            continue
        ps = agent.episode_start(x, {})[0]
        for _ in range(2):
            a, ps = agent.draw_action(x, ps)
            out.append(np.ravel(to_np(a)))
    if hasattr(agent, 'distribution'):
        p = agent.distribution.get_parameters()
        out.append(np.ravel(to_np(p)))
    pol = agent.policy
    if hasattr(pol, 'get_weights') and not agent.info.is_episodic:
        out.append(np.ravel(to_np(pol.get_weights())))
    for q in ('Q', 'approximator'):
        if hasattr(agent, q):
            f = getattr(agent, q)
            for i in range(4):
                x = np.array([i]) if family == 'tabular' else np.array([.4 * i - .6, .3 - .2 * i])
                out.append(np.ravel(to_np(f.predict(x))))
    return np.concatenate(out).astype(float)


class Steps(object):
    def __init__(self):
        self.log = []

    def __call__(self, sample):
        for f in sample[:6]:
            self.log.append(np.ravel(to_np(f)).astype(float))


def learn(agent, mdp, fit, n, s):
    """n fits (or n fit periods) of learning; returns what happened."""
    seed(s)
    cb = Steps()
    core = Core(agent, mdp, callback_step=cb)
    if fit.get('episodes'):
        k = fit['n_episodes_per_fit']
        core.learn(n_episodes=k * n, n_episodes_per_fit=k, quiet=True)
    else:
        k = fit['n_steps_per_fit']
        core.learn(n_steps=k * n, n_steps_per_fit=k, quiet=True)
    return np.concatenate(cb.log) if cb.log else np.zeros(0)


def equal(a, b, what):
    assert a.shape == b.shape, (what, 'shape', a.shape, b.shape)
    assert np.allclose(a, b, rtol=1e-5, atol=1e-6, equal_nan=True), (what, 'original vs restored', a, b)


def cases(family):
    names = agents.FAMILIES[family][1]
    many = family in ('tabular', 'linear', 'dqn', 'classic_ac')

    @st.composite
    def gen(draw):
        name = draw(st.sampled_from(names))
        one = many or name in ('sac', 'ddpg', 'td3')
        return dict(name=name, k=draw(st.integers(0, 11)), n1=draw(st.integers(1, 30) if one else st.integers(1, 2)),
                    n2=draw(st.integers(1, 20) if one else st.integers(1, 2)), mode=draw(st.sampled_from(['full', 'part', 'copy'])),
                    seed=draw(st.integers(0, 999)))
    return gen()


def roundtrip(family, x):
    seed(x['seed'])
    try:
        agent, mdp, fit = agents.build(family, x['name'], x['k'])
    except Exception as e:
        raise AssertionError(('the agent cannot be built', repr(e)))
    n1, n2 = x['n1'], x['n2']
    if x['name'] == 'boostedfqi':
        n1, n2 = 1, 0
    learn(agent, mdp, fit, n1, x['seed'] + 1)
    if x['mode'] == 'copy':
        other = agent.copy()
    else:
        path = os.path.join(os.environ['VERIF_SCRATCH'], 'agent.msh')
        agent.save(path, full_save=x['mode'] == 'full')
        other = Agent.load(path)
        os.remove(path)
    assert type(other) is type(agent), 'type'
    before = probe(agent, family, 5)
    equal(before, probe(other, family, 5), 'after the %s round trip' % x['mode'])
    if x['mode'] == 'part' and family in ('dqn',) or x['mode'] == 'part' and x['name'] in ('sac', 'ddpg', 'td3'):
        # the replay memory is documented to be dropped: the restored agent must still act and learn
        learn(other, agents.build(family, x['name'], x['k'])[1], fit, 12, 7)
        equal(before, probe(agent, family, 5), 'original after the restored agent learned')
        return '%s-part' % x['name']
    la = None
    if n2:
        m2 = agents.build(family, x['name'], x['k'])[1]
        lb = learn(other, m2, fit, n2, 7)
        equal(before, probe(agent, family, 5), 'original after the restored agent learned')
        m1 = agents.build(family, x['name'], x['k'])[1]
        la = learn(agent, m1, fit, n2, 7)
        equal(la, lb, 'transitions while learning on')
        equal(probe(agent, family, 6), probe(other, family, 6), 'after learning on')
    return '%s-%s' % (x['name'], x['mode'])


def register(family, quick):
    @check.case(family, cases(family), quick=quick, thorough=quick * 12)
    def _(x):
        return roundtrip(family, x)


for fam, q in dict(tabular=60, linear=20, batch=24, dqn=70, classic_ac=30, deep_ac=80, pg=24, bbo=48).items():
    register(fam, q)


@st.composite
def long_cases(draw):
    family = draw(st.sampled_from(['tabular', 'dqn', 'classic_ac', 'deep_ac']))
    name = draw(st.sampled_from(agents.FAMILIES[family][1] if family != 'deep_ac' else ['sac', 'ddpg', 'td3']))
    return dict(family=family, name=name, k=draw(st.integers(0, 11)), n1=draw(st.integers(40, 150)), n2=draw(st.integers(10, 60)),
                mode=draw(st.sampled_from(['full', 'full', 'copy'])), seed=draw(st.integers(0, 999)))


@check.case('long histories', long_cases(), quick=40)
def long_roundtrip(x):
    return roundtrip(x['family'], x)
