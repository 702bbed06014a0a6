"""C37 - the logger keeps exactly what was logged, across seeds, restarts and loggers, and never changes learning."""
import contextlib
import io
import logging
import os
import pickle
import re
import shutil
import tempfile

import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.algorithms.value import QLearning
from mushroom_rl.core import Agent, Core, Dataset, Logger, MDPInfo
from mushroom_rl.policy import EpsGreedy
from mushroom_rl.rl_utils.parameters import Parameter
from mushroom_rl.rl_utils.spaces import Discrete
from pbt import agents
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C37', rule='a case is a history of loggers opened (fresh or appending, with and without seed) and values, arrays, '
              'agents, datasets and messages logged through them; every file is compared with a model after each operation; '
              'non-trivial when data survived a reopened logger, a best agent was replaced, or two loggers were active')


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(dir=os.environ.get('VERIF_SCRATCH'))
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


value = st.one_of(st.integers(-5, 5), st.integers(-8, 8).map(lambda v: v / 4.), st.just([1., 2.5]), st.just([[3, 4]]))
names = st.sampled_from(['J', 'R', 'loss_Q', 'J_2', 'x-1', 'J2', 'x1', 'a-b'])
seeds = st.sampled_from([None, None, 1, 1, 11, 0, 2, 20260])


@st.composite
def histories(draw, top=25):
    ops = []
    kinds = {}
    for _ in range(draw(st.integers(3, top))):
        k = draw(st.sampled_from(['open', 'append', 'append', 'log', 'log', 'log', 'log', 'log', 'array', 'pair', 'switch', 'switch']))
        if k in ('open', 'append') or not ops:
            ops.append(('open', draw(st.sampled_from(['run', 'run', 'other'])), draw(seeds), k == 'append'))
        elif k == 'switch':
            ops.append((k, draw(st.integers(0, 9))))
        elif k == 'pair':
            two = [draw(names), draw(names)]
            ops.append((k, [(n, kinds.setdefault(n, draw(value))) for n in dict.fromkeys(two)]))
        elif k == 'array':
            ops.append(('array', draw(st.sampled_from(['A', 'B'])), draw(value)))
        else:
            n = draw(names)
            kind = kinds.setdefault(n, draw(value))
            if isinstance(kind, float):
                kind = draw(st.integers(-8, 8)) / 4.
            elif isinstance(kind, int):
                kind = draw(st.integers(-1000, 1000))
            ops.append(('log', n, kind))
    return ops


@check.case('numpy', histories(), quick=250)
def numpy_log(ops):
    """Files hold the sequence logged since the last fresh start with that seed; appending continues it; seeds never mix."""
    reopened = False
    with scratch() as d:
        model, mem, cur, log, opened = {}, {}, None, None, []
        for op in ops:
            if op[0] == 'open':
                _, name, seed, append = op
                log = Logger(name, results_dir=d, seed=seed, append=append)
                cur = (name, '' if seed is None else '-%d' % seed)
                assert str(log.path) == os.path.join(d, name)
                mem = {}
                if append:
                    mem = {f[1]: list(v) for f, v in model.items() if (f[0], f[2]) == cur and isinstance(v, list)}
                    reopened |= bool(mem)
                opened.append((log, cur, mem))
            elif op[0] == 'switch':
                log, cur, mem = opened[op[1] % len(opened)]     # an earlier logger goes on with what it has logged itself
            elif op[0] in ('log', 'pair'):
                # a name that looks like a seed suffix, without seed, is ambiguous
                items = [(n, v) for n, v in (op[1] if op[0] == 'pair' else [op[1:]]) if n != 'x-1' or cur[1]]
                for n, v in items:
                    mem.setdefault(n, []).append(v)
                    model[(cur[0], n, cur[1])] = list(mem[n])
                log.log_numpy(**dict(items))
            else:
                model[(cur[0], op[1], cur[1])] = np.array(op[2])
                log.log_numpy_array(**{op[1]: np.array(op[2])})
            for (folder, n, suffix), v in model.items():
                got = np.load(os.path.join(d, folder, n + suffix + '.npy'))
                want = np.array(v)
                assert got.shape == want.shape and np.array_equal(got, want), ('file', folder, n + suffix, got, want)
            files = {(f, e) for f in os.listdir(d) for e in os.listdir(os.path.join(d, f))}
            assert files == {(f, n + s + '.npy') for f, n, s in model}, ('files', files)
    return 'append' if reopened else None


check.case('numpy, long', histories(90), quick=40)(numpy_log)


def small_agent(v):
    info = MDPInfo(Discrete(3), Discrete(2), .9, 5)
    a = QLearning(info, EpsGreedy(.1), Parameter(.5))
    a.Q.table[:] = v
    return a


def table(path):
    return Agent.load(path).Q.table


@check.case('agents', st.tuples(st.sampled_from([None, 0, 3]), st.lists(
    st.one_of(st.tuples(st.just('best'), st.one_of(st.integers(-3, 3), st.sampled_from([-1e9, 1e9, -np.inf, .001, -.001]))),
              st.tuples(st.just('agent'), st.sampled_from([None, 0, 1, 2, 10, 100, 7]))),
    min_size=1, max_size=16)), quick=80)
def agents_case(x):
    """The best agent on disk is the last one logged with a performance not lower than any before."""
    seed, ops = x
    suf = '' if seed is None else '-%d' % seed
    replaced = 0
    with scratch() as d:
        log = Logger('run', results_dir=d, seed=seed)
        best, want, epochs = -np.inf, None, {}
        for i, (k, v) in enumerate(ops):
            a = small_agent(i + .5)
            if k == 'best':
                log.log_best_agent(a, v * .5)
                if v * .5 >= best:
                    replaced += want is not None
                    best, want = v * .5, i + .5
            else:
                log.log_agent(a, epoch=v, full_save=bool(i % 2))
                epochs[v] = i + .5
            if want is not None:
                assert np.all(table(os.path.join(d, 'run', 'agent%s-best.msh' % suf)) == want), 'best agent'
            for e, w in epochs.items():
                f = 'agent' + suf + ('' if e is None else '-%d' % e) + '.msh'
                assert np.all(table(os.path.join(d, 'run', f)) == w), ('agent of epoch', e)
    return 'replaced' if replaced else None


LEVELS = dict(debug=10, info=20, warning=30, error=40, critical=50)


@st.composite
def talks(draw):
    ops = []
    for _ in range(draw(st.integers(2, 16))):
        k = draw(st.sampled_from(['open', 'close', 'say', 'say', 'say', 'epoch', 'line']))
        if k == 'open' or not ops:
            ops.append(('open', draw(st.integers(0, 1)), draw(st.sampled_from(['a', 'a', 'b'])), draw(st.sampled_from([None, 1])),
                        draw(st.sampled_from(sorted(LEVELS))), draw(st.sampled_from(sorted(LEVELS))), draw(st.booleans())))
        elif k == 'close':
            ops.append(('close', draw(st.integers(0, 1))))
        else:
            ops.append((k, draw(st.integers(0, 1)), draw(st.sampled_from(sorted(LEVELS)))))
    return ops


@check.case('console', talks(), quick=200)
def console(ops):
    """Every message reaches the console and the log file of its own logger exactly once when its level is high enough."""
    slots, files, two = {}, {}, False
    with scratch() as d:
        try:
            for i, op in enumerate(ops):
                out = io.StringIO()
                expect = []
                with contextlib.redirect_stdout(out):
                    if op[0] == 'open':
                        _, k, name, seed, cl, fl, tofile = op
                        path = None
                        new = Logger(name, results_dir=d, seed=seed, log_console=tofile, console_log_level=LEVELS[cl],
                                     file_log_level=LEVELS[fl])
                        if tofile:
                            path = os.path.join(d, name, name + ('' if seed is None else '-%d' % seed) + '.log')
                            files.setdefault(path, [])
                        slots[k] = (new, LEVELS[cl], LEVELS[fl] if tofile else 99, path)
                        del new
                        two |= len(slots) > 1
                    elif op[1] not in slots:
                        continue
                    elif op[0] == 'close':
                        del slots[op[1]]
                    else:
                        log, cl, fl, path = slots[op[1]]
                        if op[0] == 'say':
                            msg, lev = 'message %d' % i, op[2]
                            getattr(log, op[2])(msg)
                        elif op[0] == 'epoch':
                            msg, lev = 'Epoch %d | J: 0.5 R: -1' % i, 'info'
                            log.epoch_info(i, J=.5, R=-1)
                        else:
                            msg, lev = '#' * 99 if i % 2 else '-' * 99, 'info'
                            (log.strong_line if i % 2 else log.weak_line)()
                        if LEVELS[lev] >= cl:
                            expect.append((lev.upper(), msg))
                        if LEVELS[lev] >= fl:
                            files[path].append((lev.upper(), msg))
                        log = None
                assert parse(out.getvalue()) == expect, ('console', parse(out.getvalue()), expect)
                for p, lines in files.items():
                    with open(p) as f:
                        got = parse(f.read())
                    assert got == lines, ('log file', p, got, lines)
        finally:
            slots.clear()
    return 'two' if two else None


def parse(text):
    out = []
    for line in text.splitlines():
        m = re.match(r'^\d\d/\d\d/\d{4} \d\d:\d\d:\d\d \[(\w+)\] (.*)$', line)
        assert m, ('format of a log line', line)
        out.append((m.group(1), m.group(2)))
    return out


@check.case('dataset', st.tuples(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 1), st.integers(-8, 8).map(lambda v: v / 4.),
                                                    st.booleans()), min_size=1, max_size=8), st.sampled_from([None, 2])), quick=60)
def dataset_case(x):
    rows, seed = x
    a = small_agent(0.)
    d = Dataset.generate(a.mdp_info, a.info, n_steps=len(rows))
    for s, act, r, ab in rows:
        d.append((np.array([s]), np.array([act]), r, np.array([(s + 1) % 3]), ab, ab, None, None), {})
    with scratch() as path:
        log = Logger('run', results_dir=path, seed=seed)
        log.log_dataset(d)
        with open(os.path.join(path, 'run', 'dataset%s.pkl' % ('' if seed is None else '-%d' % seed)), 'rb') as f:
            e = pickle.load(f)
    assert len(e) == len(d)
    for p, q in zip(d.parse(), e.parse()):
        assert np.array_equal(to_np(p), to_np(q))
    return 'dataset'


@check.case('silent', st.tuples(st.sampled_from([('deep_ac', 'ppo'), ('deep_ac', 'trpo'), ('dqn', 'dqn'), ('dqn', 'doubledqn'),
                                                 ('dqn', 'maxmindqn'), ('deep_ac', 'a2c'), ('deep_ac', 'sac')]),
                                st.integers(0, 11), st.integers(0, 99)), quick=30)
def silent(x):
    """Learning with a logger gives exactly the agent that learning without one gives, and the losses are recorded."""
    (family, name), k, seed = x
    weights = []
    with scratch() as path:
        for with_log in (False, True):
            np.random.seed(seed)
            torch.manual_seed(seed)
            agent, env, fit = agents.build(family, name, k)
            log = None
            if with_log:
                log = Logger('run', results_dir=path, console_log_level=100, file_log_level=100)
                agent.set_logger(log)
            fit = {a: b for a, b in fit.items() if a in ('n_steps_per_fit', 'n_episodes_per_fit')}
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                Core(agent, env).learn(n_steps=36, quiet=True, **fit)
            net = agent.approximator if family == 'dqn' else agent.policy
            w = [to_np(net[i].get_weights()) for i in range(len(net))] if family == 'dqn' else [to_np(net.get_weights())]
            weights.append(w)
        for p, q in zip(*weights):
            assert np.array_equal(p, q), 'the logger changed what was learned'
        if family == 'dqn':
            loss = np.load(os.path.join(path, 'run', 'loss_Q.npy'), allow_pickle=True)
            assert len(loss) > 3 and np.all(np.isfinite(loss[~np.equal(loss, None)].astype(float))), 'recorded losses'
    return name
