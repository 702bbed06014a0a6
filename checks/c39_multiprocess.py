"""C39 - environments running in parallel processes behave exactly like the same environments stepped one by one."""
import multiprocessing

import numpy as np
from hypothesis import strategies as st

from mushroom_rl.core import MultiprocessEnvironment, VectorCore
from mushroom_rl.core.agent import Agent
from mushroom_rl.policy import Policy
from pbt.harness import Check
from pbt.penv import GeneratedEnv, HistoryEnv

check = Check('C39', rule='a case is a history of masked resets (with and without given states), steps, renderings, seedings and stops '
              'on 2-8 processes (with delays that reorder the answers), compared with local copies stepped one by one; non-trivial when a mask excluded some environment '
              'or an initial state was given')

small = st.integers(-12, 12).map(lambda v: v / 4.)


@st.composite
def histories(draw, top=4, most=14):
    n = draw(st.integers(2, top))
    mask = st.one_of(st.just([True] * n), st.lists(st.booleans(), min_size=n, max_size=n))
    rows = lambda k: st.lists(st.lists(small, min_size=k, max_size=k), min_size=n, max_size=n)
    ops = [('reset', [True] * n, None)]
    for _ in range(draw(st.integers(2, most))):
        k = draw(st.sampled_from(['reset', 'reset', 'step', 'step', 'step', 'step', 'render', 'seed', 'stop', 'one', 'one reset', 'one render']))
        if k == 'reset':
            ops.append((k, draw(mask), draw(st.one_of(st.none(), rows(4)))))
        elif k == 'step':
            ops.append((k, draw(mask), draw(rows(2))))
        elif k == 'render':
            ops.append((k, draw(mask)))
        elif k == 'seed':
            ops.append((k, draw(st.one_of(st.integers(0, 63), st.integers(2 ** 16, 2 ** 32 - 1)))))
        elif k == 'one reset':
            ops.append((k, draw(st.integers(0, n - 1)), draw(st.one_of(st.none(), rows(4)))))
        elif k in ('one', 'one render'):
            ops.append((k, draw(st.integers(0, n - 1)), draw(rows(2))))
        else:
            ops.append((k,))
    return dict(n=n, generated=draw(st.booleans()), tag=draw(st.integers(0, 3)), length=draw(st.integers(1, 5)), horizon=draw(st.sampled_from([6, 6, 11])),
                slow=draw(st.sampled_from([0., 0., .002])), ops=ops)


def build(x):
    cls = GeneratedEnv if x['generated'] else HistoryEnv
    args, kw = (x['tag'],), dict(length=x['length'], horizon=x['horizon'])
    local = [cls.generate(*args, **kw) if x['generated'] else cls(*args, **kw) for _ in range(x['n'])]
    return MultiprocessEnvironment.generate(cls, *args, n_envs=x['n'], slow=x['slow'], **kw), local


@check.case('parallel', histories(), quick=120, alarm=40)
def parallel(x):
    others = set(multiprocessing.active_children())
    env, local = build(x)
    assert len(set(multiprocessing.active_children()) - others) == x['n'], 'one process per environment'
    label = None
    n = x['n']
    try:
        assert env.number == n and env.info.observation_space.shape == (4,) and env.info.horizon == x['horizon']
        last = np.zeros((n, 4))
        for op in x['ops']:
            if op[0] in ('reset', 'step'):
                mask = np.array(op[1])
                if not mask.all():
                    label = 'masked'
            if op[0] == 'reset':
                given = None if op[2] is None else np.array(op[2])
                label = label or (None if given is None else 'given state')
                copy = None if given is None else given.copy()
                s, infos = env.reset_all(mask, given)
                assert given is None or np.array_equal(given, copy)
                assert s.shape == (n, 4) and len(infos) == n
                for i in range(n):
                    if mask[i]:
                        last[i], info = local[i].reset(None if given is None else given[i])
                        assert infos[i] == info, ('episode info', i, infos[i], info)
                assert np.array_equal(s, last), ('states after reset', s, last)
                s[:] = -1.
            elif op[0] == 'step':
                a = np.array(op[2])
                s, r, ab, infos = env.step_all(mask, a)
                assert s.shape == (n, 4) and r.shape == ab.shape == (n,) and len(infos) == n
                for i in range(n):
                    if mask[i]:
                        last[i], rew, absorbing, info = local[i].step(a[i])
                        assert r[i] == rew and bool(ab[i]) == absorbing, ('reward and absorbing flag', i)
                        assert infos[i] == info, ('step info', i, infos[i], info)
                    else:
                        assert not ab[i], 'absorbing flag of an environment that did not move'
                assert np.array_equal(s, last), ('states after step', s, last)
                s[:] = -1.
            elif op[0] == 'render':
                mask = np.array(op[1])
                frames = env.render_all(mask, record=True)
                want = [local[i].render(True) for i in range(n) if mask[i]]
                assert len(frames) == len(want)
                for f, w in zip(frames, want):
                    assert np.array_equal(f, w), 'frames'
            elif op[0] == 'seed':
                env.seed(op[1])
                for e in local:
                    e.seed(op[1])
            elif op[0] == 'one':
                i, a = op[1], np.array(op[2])
                env.set_default_env(i)
                s, r, ab, infos = env.step(a)
                last[i], rew, absorbing, info = local[i].step(a[i])
                assert np.array_equal(s, last) and r[i] == rew and bool(ab[i]) == absorbing and infos[i] == info, 'default environment'
                label = label or 'default environment'
            elif op[0] == 'one reset':
                i = op[1]
                given = None if op[2] is None else np.array(op[2])
                env.set_default_env(i)
                s, infos = env.reset(given)
                last[i], info = local[i].reset(None if given is None else given[i])
                assert np.array_equal(s, last) and infos[i] == info, 'reset of the default environment'
            elif op[0] == 'one render':
                env.set_default_env(op[1])
                frames = env.render(record=True)
                assert len(frames) == 1 and np.array_equal(frames[0], local[op[1]].render(True)), 'frame of the default environment'
            else:
                env.stop()
                for e in local:
                    e.stop()
    finally:
        del env
    assert set(multiprocessing.active_children()) <= others, 'the processes end with the environment'
    return label


check.case('parallel, many', histories(8, 40), quick=20, alarm=60)(parallel)


class RowPolicy(Policy):
    """The action depends on the state and on the row, so every environment lives its own history."""
    def draw_action(self, state, policy_state=None, row=None):
        s = np.asarray(state)
        rows = np.arange(len(s)) if row is None else row
        return np.stack([s[..., 2] / 4 + s[..., 1], .25 * rows + .5 * s[..., 0] ** 0], axis=-1), None

    def reset(self):
        return None


class IdleAgent(Agent):
    def __init__(self, info):
        super().__init__(info, RowPolicy())
        self.got = []

    def fit(self, dataset):
        self.got.append([np.array(a) for a in dataset.parse()])


@check.case('core', st.tuples(st.integers(2, 6), st.integers(1, 6), st.booleans(), st.one_of(st.integers(1, 9), st.integers(10, 40)), st.booleans()),
            quick=50, alarm=40)
def core(x):
    """A VectorCore over processes collects, for every environment, exactly the episodes of a sequential run."""
    n, length, episodes, amount, record = x
    frames = {}

    class Recorder:
        made = 0

        def __init__(self, fps, **kw):
            assert fps == 10
            self.k = Recorder.made
            Recorder.made += 1
            frames[self.k] = []

        def __call__(self, frame):
            frames[self.k].append(float(frame[0, 0]))

        def stop(self):
            frames[self.k].append('stop')
    env = MultiprocessEnvironment(HistoryEnv, 1, length, n_envs=n)
    try:
        agent = IdleAgent(env.info)
        c = VectorCore(agent, env, record_dictionary=dict(recorder_class=Recorder))
        d = c.evaluate(quiet=True, render=record, record=record, **({'n_episodes': amount} if episodes else {'n_steps': amount * n}))
    finally:
        del c, env
    s, a, r, ss, ab, last = [np.array(v) for v in d.parse()]
    # sequential reference: every environment on its own, with the same policy
    want = {}
    for i in range(n):
        e = HistoryEnv(1, length)
        want[i] = []
        for _ in range(len(s) + 1):
            state, _ = e.reset()
            for t in range(6):
                act, _ = RowPolicy().draw_action(state, row=i)
                nxt, rew, absorbing, _ = e.step(act)
                want[i].append((state, act, rew, nxt, absorbing, absorbing or t == 5))
                state = nxt
                if want[i][-1][-1]:
                    break
    counts = [0] * n
    for k in range(len(s)):
        i = int(round((a[k][1] - .5) / .25))
        for got, ref, what in zip((s[k], a[k], r[k], ss[k], ab[k], last[k]), want[i][counts[i]],
                                  ('state', 'action', 'reward', 'next state', 'absorbing', 'last')):
            if what == 'last' and got and (k + 1 == len(s) or int(round((a[k + 1][1] - .5) / .25)) != i):
                continue                # the collected piece of this environment ends here
            assert np.array_equal(got, ref), (what, 'sample', counts[i], 'of environment', i, got, ref)
        counts[i] += 1
    if episodes:
        assert int(np.sum(last)) == amount, 'number of episodes'
    else:
        assert len(s) == amount * n, 'number of samples'
    if record:
        assert all(f.count('stop') == 1 and f[-1] == 'stop' for f in frames.values()), 'recorders stop once at the end'
        for i in range(n):
            seq = [v for v in frames.get(i, []) if v != 'stop']
            assert seq == [w[3][2] for w in want[i]][:counts[i]], ('recorded frames of environment', i)
    return 'recorded' if record else ('several' if amount > 1 else None)
