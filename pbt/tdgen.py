"""Scripted tabular interaction for TD agents: the policy plays a script, so the reference knows every random choice."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.policy.td_policy import TDPolicy
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete


class ScriptPolicy(TDPolicy):
    """Draws the actions of a script (cyclically) and reports a fixed distribution per state."""
    def __init__(self, script, n_actions, probs=None):
        super().__init__()
        self.script, self.n, self.pos, self.probs = list(script), n_actions, 0, probs
        self.drawn_in = []

    def draw_action(self, state, policy_state=None):
        a = self.script[self.pos % len(self.script)] % self.n
        self.pos += 1
        self.drawn_in.append((np.array(state).copy(), a))
        return np.array([a]), None

    def __call__(self, *args):
        p = np.array(self.probs[int(np.ravel(args[0])[0])])
        return p if len(args) == 1 else p[int(np.ravel(args[1])[0])]

    def reset(self):
        return None


def info(S, A, gamma, horizon=10000):
    return MDPInfo(Discrete(S), Discrete(A), gamma, horizon)


quarter = st.integers(-16, 16).map(lambda v: v / 4.)
alphas = st.one_of(st.tuples(st.just('const'), st.sampled_from([1., .5, .25])),
                   st.tuples(st.just('decay'), st.sampled_from([1., .5])),
                   st.tuples(st.just('table'), st.sampled_from([1., .5])),
                   st.tuples(st.just('linear'), st.sampled_from([1., .5])))


class Alpha(object):
    """A learning rate for the agent and an independent twin of its schedule."""
    def __init__(self, spec, size):
        self.kind, self.v = spec
        self.size = size
        self.n = {}

    def make(self):
        if self.kind == 'const':
            return Parameter(self.v)
        if self.kind == 'decay':
            return DecayParameter(self.v, exp=.5)
        if self.kind == 'linear':
            return LinearParameter(self.v, .125, 4, size=self.size)
        return DecayParameter(self.v, exp=1., size=self.size)

    def __call__(self, s, a):
        k = (s, a) if self.kind in ('table', 'linear') else 0
        self.n[k] = self.n.get(k, 0) + 1
        if self.kind == 'const':
            return self.v
        if self.kind == 'linear':
            return max(self.v + (.125 - self.v) * self.n[k] / 4., .125)
        return self.v / self.n[k] ** (.5 if self.kind == 'decay' else 1.)


@st.composite
def scripts(draw, max_steps=25):
    """Sizes, discount, an action script and the steps (next state, reward, end) of a few episodes."""
    S, A = draw(st.sampled_from([2, 2, 3, 3, 4, 4, 7])), draw(st.sampled_from([2, 2, 3, 3, 5]))
    steps = draw(st.lists(st.tuples(st.integers(0, S - 1), quarter, st.sampled_from(['', '', '', '', 'abs', 'trunc'])),
                          min_size=1, max_size=max_steps))
    more = draw(st.sampled_from([0, 0, 0, 30, 120])) if max_steps >= 20 else 0
    if more:    # a long history, expanded from a seed
        rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
        ends = [['']*30 + ['abs', 'trunc'], ['']*4 + ['abs', 'trunc']][rng.randint(2)]
        pool = rng.permutation(S)[:[S, 2][rng.randint(2)]]        # everywhere, or back and forth between two states
        steps = steps + [(int(pool[rng.randint(len(pool))]), rng.randint(-16, 17) / 4., ends[rng.randint(len(ends))]) for _ in range(more)]
    amp = draw(st.sampled_from([1., 1., 1., 32.]))
    steps = [(ns, r * amp, e) for ns, r, e in steps]
    probs = [[draw(st.integers(1, 4)) for _ in range(A)] for _ in range(S)]
    return dict(S=S, A=A, gamma=draw(st.sampled_from([1., 1., .5, .75, .9, 0.])), steps=steps,
                script=draw(st.lists(st.integers(0, A - 1), min_size=1, max_size=12)),
                probs=[[v / float(sum(p)) for v in p] for p in probs], s0=draw(st.integers(0, S - 1)), alpha=draw(alphas))


def one(mdp_info, agent, s, a, r, ns, absorbing, last):
    d = Dataset.generate(mdp_info, agent.info, n_steps=1)
    d.append((np.atleast_1d(s), np.atleast_1d(a), r, np.atleast_1d(ns), absorbing, last, None, None), {})
    return d


def interact(x, mdp_info, agent, observe, before=None):
    """Play the script: episode starts, action from the agent, one fit per step; observe(...) after every fit."""
    s, start, resets = x['s0'], True, 0
    for ns, r, end in x['steps']:
        if start:
            agent.episode_start(np.array([s]), {})
            agent.next_action = None       # as the run loop does at the start of an episode
            resets += 1
        a, _ = agent.draw_action(np.array([s]))
        a = int(np.ravel(a)[0])
        if before:
            before(s, a)
        agent.fit(one(mdp_info, agent, s, a, r, ns, end == 'abs', end != ''))
        observe(s, a, r, ns, end == 'abs', end != '', start)
        start = end != ''
        s = ns
    return resets
