"""C17 - eligibility-trace and linear TD algorithms apply exactly their update along every trajectory."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.algorithms.value import QLambda, SARSALambda, SARSALambdaContinuous, TrueOnlineSARSALambda
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.core import Dataset, MDPInfo
from mushroom_rl.features import Features
from mushroom_rl.rl_utils.parameters import DecayParameter, Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete
from pbt import tdgen
from pbt.harness import Check

check = Check('C17', rule='a case is an algorithm, trace type, lambda and learning-rate schedule and a scripted interaction of '
              'several episodes; after every step all action values (and weights) are compared with the reference update; '
              'non-trivial when a trajectory has at least 3 steps')

lam = st.tuples(st.sampled_from(['const', 'decay']), st.sampled_from([0., .5, .75, 1., 1.]))


def mklam(spec):
    return Parameter(spec[1]) if spec[0] == 'const' else DecayParameter(spec[1], exp=.5)


class Lam(object):
    def __init__(self, spec):
        self.spec, self.k = spec, 0

    def __call__(self):
        self.k += 1
        return self.spec[1] if self.spec[0] == 'const' else self.spec[1] / self.k ** .5


@check.case('tabular', st.tuples(tdgen.scripts(), lam, st.booleans(), st.sampled_from(['replacing', 'accumulating']),
                                 st.booleans()), quick=600)
def tabular(x):
    x, lspec, sarsa, trace, as_float = x
    info = tdgen.info(x['S'], x['A'], x['gamma'])
    pol = tdgen.ScriptPolicy(x['script'], x['A'], x['probs'])
    al, lm = tdgen.Alpha(x['alpha'], info.size), Lam(lspec)
    lc = lspec[1] if as_float and lspec[0] == 'const' else mklam(lspec)
    agent = (SARSALambda if sarsa else QLambda)(info, pol, al.make(), lc, trace)
    Q, e, runlen = np.zeros((x['S'], x['A'])), np.zeros((x['S'], x['A'])), [0, 0, 1.]

    def observe(s, a, r, ns, absorbing, last, start):
        nonlocal Q, e
        if start:
            e = np.zeros_like(e)
            runlen[0] = 0
        runlen[0] += 1
        runlen[1] = max(runlen[:2])
        if absorbing:
            nxt = 0.
        elif sarsa:
            na = int(np.ravel(agent.next_action)[0])
            assert pol.drawn_in[-1][1] == na and int(pol.drawn_in[-1][0][0]) == ns
            nxt = Q[ns, na]
        else:
            nxt = Q[ns].max()
        delta = r + x['gamma'] * nxt - Q[s, a]
        e[s, a] = 1. if trace == 'replacing' else e[s, a] + 1.
        Q = Q + al(s, a) * delta * e
        e = e * x['gamma'] * lm()
        got = np.array([np.ravel(agent.Q.predict(np.array([i]))) for i in range(x['S'])])
        scale = max(1., runlen[2], np.abs(Q).max())
        runlen[2] = scale
        if scale > 1e6:     # diverging traces (gamma = lambda = 1): rounding dominates
            return
        assert np.allclose(got, Q, rtol=1e-8, atol=1e-8 * scale), ('Q after the step', (s, a, r, ns, absorbing), got, Q)
    tdgen.interact(x, info, agent, observe)
    return '%s-%s' % ('sarsa' if sarsa else 'q', trace) if runlen[1] > 2 and x['gamma'] * lspec[1] > 0 else None


class Quad(object):
    """State features [1, s, s0 * s1]."""
    size = 4

    def __call__(self, s):
        s = np.atleast_2d(s)
        out = np.concatenate([np.ones((len(s), 1)), s, s[:, :1] * s[:, 1:]], axis=1)
        return out[0] if len(out) == 1 else out


@st.composite
def cont(draw):
    A = draw(st.integers(2, 3))
    pt = st.tuples(tdgen.quarter, tdgen.quarter).map(lambda p: (p[0] / 4., p[1] / 4.))
    steps = draw(st.lists(st.tuples(pt, tdgen.quarter, st.sampled_from(['', '', '', 'abs', 'trunc'])), min_size=1, max_size=14))
    more = draw(st.sampled_from([0, 0, 0, 25, 80]))
    if more:
        rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
        ends = [''] * 12 + ['abs', 'trunc']
        steps = steps + [(tuple(rng.randint(-16, 17, 2) / 16.), rng.randint(-16, 17) / 4., ends[rng.randint(14)]) for _ in range(more)]
    amp = draw(st.sampled_from([1., 1., 1., 32.]))
    steps = [(ns, r * amp, e) for ns, r, e in steps]
    return dict(A=A, s0=draw(pt), steps=steps, script=draw(st.lists(st.integers(0, A - 1), min_size=1, max_size=9)),
                gamma=draw(st.sampled_from([1., .5, .75])), lam=draw(lam), phi=draw(st.booleans()),
                alpha=draw(st.tuples(st.sampled_from(['const', 'decay']), st.sampled_from([.5, .25, .125]))),
                impl=draw(st.sampled_from(['q', 'action'])), true_online=draw(st.booleans()), seed=draw(st.integers(0, 999)),
                init=draw(st.booleans()))


@check.case('linear', cont(), quick=700)
def linear(x):
    A, g = x['A'], x['gamma']
    phi = Quad() if x['phi'] else None
    F = (lambda s: np.ravel(phi(s))) if phi else (lambda s: np.ravel(s))
    d = 4 if phi else 2
    info = MDPInfo(Box(-10 * np.ones(2), 10 * np.ones(2)), Discrete(A), g, 1000)
    pol = tdgen.ScriptPolicy(x['script'], A)
    al, lm = tdgen.Alpha(x['alpha'], (1,)), Lam(x['lam'])
    # the true online algorithm stores one weight matrix (its update reads the features of the model)
    q_impl = x['impl'] == 'q' or x['true_online']
    params = dict(input_shape=(d,), output_shape=(A,) if q_impl else (1,), n_actions=A)
    if phi:
        params['phi'] = phi
    if x['true_online']:
        agent = TrueOnlineSARSALambda(info, pol, al.make(), mklam(x['lam']), approximator_params=params)
    else:
        agent = SARSALambdaContinuous(info, pol, LinearApproximator, al.make(), mklam(x['lam']), approximator_params=params)
    w = np.zeros((A, d))
    if x['init']:
        w = np.random.RandomState(x['seed']).randint(-4, 5, (A, d)) / 4.
        agent.Q.set_weights(w.ravel().copy())
    probes = [np.array(s) for s, _, _ in x['steps'][:4]] + [np.array(x['s0'])]
    e, q_old, longest, n, scale = np.zeros((A, d)), None, 0, 0, 1.
    s, start = np.array(x['s0']), True
    for ns, r, end in x['steps']:
        ns = np.array(ns)
        if start:
            agent.episode_start(s.copy(), {})
            agent.next_action = None
            e, q_old, n = np.zeros((A, d)), None, 0
        a = int(np.ravel(agent.draw_action(s.copy())[0])[0])
        ds = Dataset.generate(info, agent.info, n_steps=1)
        ds.append((s.copy(), np.array([a]), r, ns.copy(), end == 'abs', end != '', None, None), {})
        agent.fit(ds)
        n += 1
        longest = max(longest, n)
        alpha, l = al(0, 0), lm()
        na = int(np.ravel(agent.next_action)[0])
        ps, pa = pol.drawn_in[-1]
        if end != 'abs':
            assert np.allclose(ps, ns) and pa == na, 'the next action was not drawn from the policy in the next state'
        q, nxt = w[a] @ F(s), 0. if end == 'abs' else w[na] @ F(ns)
        grad = np.zeros((A, d))
        grad[a] = F(s)
        if x['true_online']:
            if q_old is None:
                q_old = q
            e = g * l * e + alpha * (1. - g * l * np.sum(e * grad)) * grad
            w = w + (r + g * nxt - q_old) * e + alpha * (q_old - q) * grad
            q_old = nxt
        else:
            e = g * l * e + grad
            w = w + alpha * (r + g * nxt - q) * e
        scale = max(1., scale, np.abs(w).max())
        if scale > 1e6:
            break
        assert np.allclose(agent.Q.get_weights(), w.ravel(), rtol=1e-6, atol=1e-8 * scale), \
            ('weights after the step', agent.Q.get_weights(), w.ravel())
        for p in probes:
            assert np.allclose(np.ravel(agent.Q.predict(p)), w @ F(p), rtol=1e-6, atol=1e-6 * scale), 'prediction'
        s, start = ns, end != ''
    return '%s%s' % ('true_online' if x['true_online'] else 'sarsa-' + x['impl'], '-phi' if phi else '') if longest > 2 else None
