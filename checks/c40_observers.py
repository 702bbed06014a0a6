"""C40 - callbacks, recorders, spaces and the environment registry report exactly what happened and what was asked for."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from mushroom_rl.algorithms.value import DoubleQLearning, QLearning
from mushroom_rl.core import Core, Environment, MDPInfo
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.utils.callbacks import CollectDataset, CollectMaxQ, CollectParameters, CollectQ
from mushroom_rl.utils.record import VideoRecorder
from pbt.harness import Check

check = Check('C40', rule='a case is a history of learning and evaluation runs with callbacks, rendering and recording, or a generated '
              'space, registration or call by name; non-trivial when several fits or runs happened, or several dimensions are involved')


class Chain(Environment):
    """Deterministic chain with unique labels in the reward."""
    def __init__(self, length, horizon, dt=.1):
        super().__init__(MDPInfo(Discrete(5), Discrete(2), .9, horizon, dt=dt))
        self.length = length
        self.count = self.frames = self.t = self.s = 0
        self.log, self.rendered = [], []

    def reset(self, state=None):
        self.t, self.s = 0, 0
        return np.array([0]), {}

    def step(self, action):
        old = self.s
        self.t += 1
        self.count += 1
        self.s = (self.s + 1 + int(action[0])) % 5
        r = self.count / 8.
        self.log.append((old, int(action[0]), r, self.s, self.t >= self.length))
        return np.array([self.s]), r, self.t >= self.length, {}

    def render(self, record=False):
        self.rendered.append((self.count, record))
        return np.full((4, 4, 3), self.count % 256, dtype=np.uint8) if record else None


class Recorder(object):
    made = []

    def __init__(self, fps, **kw):
        self.fps, self.kw, self.events = fps, kw, []
        Recorder.made.append(self)

    def __call__(self, frame):
        self.events.append(int(np.asarray(frame)[0, 0, 0]))

    def stop(self):
        self.events.append('stop')


class ChunkQ(QLearning):
    def fit(self, dataset):
        for i in range(len(dataset)):
            super().fit(dataset[i:i + 1])


class ChunkDoubleQ(DoubleQLearning):
    def fit(self, dataset):
        for i in range(len(dataset)):
            super().fit(dataset[i:i + 1])


@st.composite
def runs(draw, big=False):
    ops = []
    for _ in range(draw(st.integers(1, 6 if big else 4))):
        k = draw(st.sampled_from(['learn', 'learn', 'evaluate', 'clean']))
        by = draw(st.sampled_from(['n_steps', 'n_episodes']))
        amount = draw(st.integers(1, (80 if big else 12) if by == 'n_steps' else (12 if big else 4)))
        fit = (draw(st.sampled_from(['n_steps_per_fit', 'n_episodes_per_fit'])), draw(st.integers(1, 9 if big else 4)))
        mode = draw(st.sampled_from(['off', 'render', 'record']))
        ops.append((k, by, amount, fit, mode))
    return dict(ops=ops, double=draw(st.booleans()), length=draw(st.integers(1, 15 if big else 5)), horizon=draw(st.integers(2, 20 if big else 6)),
                state=draw(st.integers(0, 4)), clean_first=draw(st.booleans()), dt=draw(st.sampled_from([.1, .02, .25])),
                fps=draw(st.sampled_from([None, None, 24])))


@check.case('observers', runs(), quick=200)
def observers(x):
    env = Chain(x['length'], x['horizon'], x['dt'])
    lr = Parameter(.5)
    eps = LinearParameter(.9, .1, 30)
    alg = ChunkDoubleQ if x['double'] else ChunkQ
    agent = alg(env.info, EpsGreedy(eps), lr)
    seen = []
    tables = []

    class Spy(object):
        """Reads the same quantities at the same moments, straight from the agent."""
        def __call__(self, dataset):
            if x['double']:
                q = np.mean([t.table for t in agent.Q.model], axis=0)
            else:
                q = np.array(agent.Q.table)
            tables.append(q.copy())
            seen.append((np.max(q[x['state']]), float(eps.get_value())))
    cd, cq, cm, ce = CollectDataset(), CollectQ(agent.Q), CollectMaxQ(agent.Q, np.array([x['state']])), CollectParameters(eps)
    if x['clean_first']:
        for c in (cd, cq, cm, ce):
            c.clean()
    steps = []
    Recorder.made = []
    rd = dict(recorder_class=Recorder, extra=3)
    if x['fps']:
        rd['fps'] = x['fps']
    core = Core(agent, env, callbacks_fit=[cd, cq, cm, ce, Spy()], callback_step=lambda s: steps.append(s),
                record_dictionary=rd)
    assert len(Recorder.made) == 1 and Recorder.made[0].fps == (x['fps'] or int(1 / x['dt'])) and Recorder.made[0].kw == dict(extra=3)
    rec = Recorder.made[0]
    want, fits = [], 0
    for k, by, amount, fit, mode in x['ops']:
        if k == 'clean':
            for c in (cd, cq, cm, ce):
                c.clean()
            want, seen, tables = [], [], []
            continue
        env.log, env.rendered, rec.events, steps[:] = [], [], [], []
        kw = dict(quiet=True, render=mode != 'off', record=mode == 'record')
        kw[by] = amount
        if k == 'learn':
            kw[fit[0]] = fit[1]
            core.learn(**kw)
            # the samples handed to fits: whole chunks of fit[1] steps or episodes
            n, c, chunk = 0, 0, 0
            t = 0
            for i, row in enumerate(env.log):
                t += 1
                last = row[4] or t >= x['horizon']
                if last:
                    t = 0
                c += 1 if fit[0] == 'n_steps_per_fit' else last
                if c >= fit[1]:
                    n, c, chunk = i + 1, 0, chunk + 1
            want += env.log[:n]
            fits += chunk
        else:
            core.evaluate(**kw)
        assert [(int(s[0][0]), int(s[1][0]), s[2], int(s[3][0]), bool(s[4])) for s in steps] == env.log, 'step callback'
        moments = [int(round(r[2] * 8)) for r in env.log]
        assert env.rendered == ([] if mode == 'off' else [(m, mode == 'record') for m in moments]), 'renderings'
        assert rec.events == ([m % 256 for m in moments] + ['stop'] if mode == 'record' else []), ('recorded', rec.events)
        if want or cd.get() is not None:
            d = cd.get()
            got = [] if d is None else [(int(s[0][0]), int(s[1][0]), float(s[2]), int(s[3][0]), bool(s[4])) for s in
                                        [d[i] for i in range(len(d))]]
            assert got == want, ('collected dataset', got, want)
        assert len(cq.get()) == len(tables) and all(np.allclose(p, q) for p, q in zip(cq.get(), tables)), 'collected action values'
        assert np.allclose(cm.get(), [s[0] for s in seen]), ('collected maxima', cm.get(), seen)
        assert np.allclose([float(np.ravel(v)[0]) for v in ce.get()], [s[1] for s in seen]), 'collected parameters'
    return 'fits' if fits > 1 else None


check.case('observers, long', runs(True), quick=50)(observers)


@check.case('tabular', st.tuples(st.integers(0, 2), st.integers(0, 1), st.lists(st.tuples(st.integers(0, 2), st.integers(0, 1)), max_size=12),
                                 st.booleans()), quick=80)
def tabular(x):
    """A parameter with one value per entry is collected for the chosen entry, at the moment of the call."""
    i, j, updates, decay = x

    class Live(Parameter):
        """A parameter whose value is an array that goes on changing."""
        def get_value(self, *idx, **kw):
            return self.array
    live = Live(1.)
    live.array = np.zeros(2)
    c = CollectParameters(live)
    for k in range(3):
        live.array += 1.
        c(None)
    assert [list(v) for v in c.get()] == [[k + 1.] * 2 for k in range(3)], ('values at the moment of the call', c.get())
    p = DecayParameter(1., exp=.5, size=(3, 2)) if decay else LinearParameter(1., 0., 10, size=(3, 2))
    c = CollectParameters(p, i, j)
    want = []
    for s, a in updates:
        p.update(s, a)
        want.append(float(np.ravel(p.get_value(i, j))[0]))
        c(None)
        assert len(c.get()) == len(want) and np.allclose([float(np.ravel(v)[0]) for v in c.get()], want), 'collected entry'
    n = sum((s, a) == (i, j) for s, a in updates)
    if want and decay:
        assert abs(want[-1] - 1. / (n + 1) ** .5) < 1e-12 or abs(want[-1] - 1. / max(n, 1) ** .5) < 1e-12
    return 'updates' if n > 1 else None


@check.case('video', st.tuples(st.lists(st.one_of(st.integers(0, 6), st.integers(0, 6), st.integers(20, 45)), min_size=1, max_size=4), st.sampled_from([None, 'clip']),
                               st.sampled_from([10, 30]), st.sampled_from([(32, 48), (64, 64), (33, 47), (50, 31)])), quick=25)
def video(x):
    """Every recording holds all its frames, in a file of its own."""
    import cv2
    counts, name, fps, (h, w) = x
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        rec = VideoRecorder(path=d, tag='t', video_name=name, fps=fps)
        files = []
        for k, n in enumerate(counts):
            for i in range(n):
                f = np.zeros((h, w, 3), dtype=np.uint8)
                f[..., 0] = 250            # red in RGB
                if i % 2:
                    f[:] = (0, 0, 250)
                rec(f)
            rec.stop()
            if n:
                base = name or 'recording'
                files.append((base + ('-%d' % len(files) if files else '') + '.mp4', n))
        have = sorted(os.listdir(os.path.join(d, 't'))) if files else []
        assert have == sorted(f for f, _ in files), ('files', have, files)
        for f, n in files:
            cap = cv2.VideoCapture(os.path.join(d, 't', f))
            assert abs(cap.get(cv2.CAP_PROP_FPS) - fps) < .5
            m = 0
            while True:
                ok, img = cap.read()
                if not ok:
                    break
                hi, lo = (0, 2) if m % 2 else (2, 0)
                m += 1
                assert h - 1 <= img.shape[0] <= h and w - 1 <= img.shape[1] <= w and img[..., hi].mean() > 150 and img[..., lo].mean() < 100, 'colours'
            cap.release()
            assert m == n, ('frames', f, m, n)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return 'files' if len(files) > 1 else None


dims = st.lists(st.one_of(st.integers(1, 3), st.integers(4, 9)), min_size=1, max_size=3).map(tuple)


@check.case('spaces', st.tuples(dims, st.integers(-4, 4), st.integers(0, 6), st.integers(1, 7), st.integers(1, 7), st.booleans(),
                                st.integers(0, 99)), quick=150)
def spaces(x):
    shape, low, width, n, m, arrays, seed = x
    rng = np.random.RandomState(seed)
    if arrays:
        lo = low + rng.rand(*shape)
        hi = lo + width
        for b in (Box(lo, hi), Box(lo, hi, shape=shape)):
            assert b.shape == shape and np.array_equal(b.low, lo) and np.array_equal(b.high, hi)
    b = Box(low, low + width, shape=shape)
    assert b.shape == shape == b.low.shape == b.high.shape
    assert np.all(b.low == low) and np.all(b.high == low + width), 'bounds of every dimension'
    d, e = Discrete(n), Discrete(m)
    assert d.size == (n,) and d.shape == (1,) and d.n == n and list(d.values) == list(range(n))
    info = MDPInfo(d, e, .9, 10)
    assert info.size == (n, m) and info.shape == (1, 1) and info.dt == .1 and info.backend == 'numpy'
    info = MDPInfo(b, e, .9, 10, dt=.5)
    assert info.shape == shape + (1,) and info.dt == .5 and (info.gamma, info.horizon) == (.9, 10)
    v = rng.randn(*shape) * 5
    assert np.array_equal(Environment._bound(v, b.low, b.high), np.clip(v, low, low + width)), 'bounding'
    return 'dims' if len(shape) > 1 and width else None


word = st.sampled_from(['a', 'b-v1', 'task', '7', ''])


@check.case('registry', st.tuples(st.lists(word, max_size=3), st.lists(st.integers(0, 5), max_size=2), st.booleans(), st.booleans()), quick=120)
def registry(x):
    """Environments are built by name with the arguments in the order of the dotted name, then the call."""
    words, args, generated, kw = x
    before = dict(Environment._registered_envs)
    try:
        class PbtEnv(Environment):
            def __init__(self, *a, **k):
                self.got = ('constructor', a, k)
        if generated:
            @staticmethod
            def generate(*a, **k):
                e = PbtEnv()
                e.got = ('generator', a, k)
                return e
            PbtEnv.generate = generate
        first = PbtEnv
        PbtEnv.register()
        assert Environment.list_registered().count('PbtEnv') == 1 and set(before) < set(Environment.list_registered())
        k = dict(horizon=3) if kw else {}
        e = Environment.make('.'.join(['PbtEnv'] + words), *args, **k)
        assert type(e) is first and len(Environment.list_registered()) == len(before) + 1
        seeds = []
        e.env = type('Wrapped', (), dict(seed=lambda self, v: seeds.append(v)))()
        for v in args:
            e.seed(v)
        assert seeds == list(args), 'the seed does not reach the wrapped environment'
        assert e.got == ('generator' if generated else 'constructor', tuple(words) + tuple(args), k), e.got
    finally:
        for name in list(Environment._registered_envs):
            if name not in before:
                del Environment._registered_envs[name]
    return 'named' if words and args else None
