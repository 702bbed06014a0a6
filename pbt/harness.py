"""Property-based testing harness.

A check module creates ``check = Check('C01', rule=...)`` and registers cases:

    @check.case('name', strategy, quick=300)
    def _(x): ...

``strategy`` generates plain Python data (ints, floats, strings, lists, tuples,
dicts), so a failing example is written to the replay file as a literal.  The
case function runs the real code against its oracle, raises on a violation and
returns a class label (str) for a non-trivial case, or None for a trivial one.
"""
import collections
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

from . import boot

PHASES = os.environ.get('VERIF_FAST') != '1'   # shrinking is skipped only by the mutation survey (meta/mutate.py)


class HarnessError(Exception):
    """A fault of the checking machinery itself (never reported as a violation)."""


class CaseTimeout(BaseException):
    pass


class Case(object):
    def __init__(self, name, strategy, fn, quick, thorough, alarm):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.alarm = alarm


class Check(object):
    def __init__(self, pid, rule, assumptions=()):
        self.pid = pid
        self.rule = rule
        self.assumptions = list(assumptions)
        self.cases = []
        self.probes = []

    def known(self, key, what):
        """Register a fixed reproduction of a recorded defect (see KNOWN_FINDINGS)."""
        def deco(fn):
            self.probes.append((key, what, fn))
            return fn
        return deco

    def case(self, name, strategy, quick=200, thorough=None, alarm=180):
        def deco(fn):
            self.cases.append(Case(name, strategy, fn, quick, thorough if thorough else quick * 10, alarm))
            return fn
        return deco


def literal(x):
    return repr(x)


def unliteral(s):
    return eval(s, {'__builtins__': {}}, {'inf': float('inf'), 'nan': float('nan'), 'True': True, 'False': False,
                                          'None': None})


def reset_rngs(key):
    h = int(hashlib.sha256(key.encode()).hexdigest()[:8], 16)
    import numpy as np
    random.seed(h)
    np.random.seed(h % (2 ** 32 - 1))
    import torch
    torch.manual_seed(h)


def _alarm_handler(signum, frame):
    raise CaseTimeout()


def run_body(case, x):
    """Run one generated case; deterministic in (code, x)."""
    lit = literal(x)
    reset_rngs(case.name + lit)
    signal.signal(signal.SIGALRM, _alarm_handler)
    signal.alarm(case.alarm)
    try:
        return case.fn(x)
    finally:
        signal.alarm(0)
        end_children()


def end_children():
    """Processes a case left behind must not keep this one from ending."""
    mp = sys.modules.get('multiprocessing')
    if mp is not None and hasattr(mp, 'active_children'):
        for p in mp.active_children():
            p.kill()
            p.join(5)


class Result(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.classes = collections.Counter()
        self.samples = []
        self.violations = []
        self.truncated = []
        self.errors = []
        self.per_case = {}


def run_case(check, case, n, seed, res, deadline):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40

    state = dict(last=None, shrink_start=None)
    counts = [0, 0]
    t0 = time.time()
    samples = []

    class Abort(BaseException):
        pass

    def body(x):
        if time.time() > deadline:
            if case.name not in res.truncated:
                res.truncated.append(case.name)
            return
        if state['last'] is not None and time.time() > state['shrink_start'] + 60:
            raise Abort()
        res.evaluations += 1
        counts[0] += 1
        try:
            label = run_body(case, x)
        except HarnessError:
            raise
        except CaseTimeout:
            state['last'] = (literal(x), 'case did not finish within %d s' % case.alarm)
            raise Abort()
        except Exception as e:
            if type(e).__module__.startswith('hypothesis'):
                raise
            state['last'] = (literal(x), traceback.format_exc())
            if state['shrink_start'] is None:
                state['shrink_start'] = time.time()
            raise
        if label:
            h = hashlib.sha1((case.name + literal(x)).encode()).hexdigest()
            if h not in res.nontrivial:
                counts[1] += 1
                res.nontrivial.add(h)
                res.classes['%s:%s' % (case.name, label)] += 1
                if len(samples) < 2:
                    s = literal(x)
                    samples.append(dict(case=case.name, cls=str(label), input=s if len(s) < 1500 else s[:1500] + '...'))

    wrapped = given(case.strategy)(body)
    wrapped = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                       phases=PHASES and (Phase.generate, Phase.shrink) or (Phase.generate,), print_blob=False,
                       suppress_health_check=list(HealthCheck), report_multiple_bugs=False)(wrapped)
    wrapped = hypothesis.seed(seed)(wrapped)
    try:
        wrapped()
    except HarnessError:
        res.errors.append((case.name, traceback.format_exc()))
    except Abort:
        pass
    except KeyboardInterrupt:
        raise
    except BaseException:
        if state['last'] is None:
            res.errors.append((case.name, traceback.format_exc()))
    res.samples += samples
    res.per_case[case.name] = dict(evaluations=counts[0], distinct_nontrivial=counts[1],
                                   wall_s=round(time.time() - t0, 2))
    if state['last'] is not None:
        res.violations.append((case.name,) + state['last'])


def derive_seed(seed, name, shard):
    h = hashlib.sha256(('%d/%s/%d' % (seed, name, shard)).encode()).hexdigest()
    return int(h[:12], 16)


def load(pid):
    import glob
    files = glob.glob(os.path.join(boot.VERIF, 'checks', '%s_*.py' % pid.lower()))
    if len(files) != 1:
        raise HarnessError('no unique check module for %s' % pid)
    mod = importlib.import_module('checks.' + os.path.basename(files[0])[:-3])
    return mod.check


def say(line):
    """Print a line of its own, whatever a simulator left unfinished on the C side of the standard output."""
    import ctypes
    sys.stdout.flush()
    try:
        ctypes.CDLL(None).fflush(None)
    except Exception:
        pass
    print('\n' + line, flush=True)


def known_keys(pid):
    keys = set()
    path = os.path.join(boot.VERIF, 'KNOWN_FINDINGS')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.startswith('known: property=%s ' % pid):
                    keys.add(line.split('key=')[1].split()[0])
    return keys


def run_probes(check, res):
    """Reproductions of recorded defects: quiet if repaired, KNOWN-FINDING if listed, a violation otherwise."""
    keys = known_keys(check.pid)
    for key, what, fn in check.probes:
        reset_rngs(key)
        signal.signal(signal.SIGALRM, _alarm_handler)
        signal.alarm(60)
        try:
            fn()
        except (Exception, CaseTimeout):
            if key in keys:
                say('KNOWN-FINDING: property=%s %s' % (check.pid, what))
            else:
                res.violations.append(('known:' + key, 'None', traceback.format_exc()))
        finally:
            signal.alarm(0)


def write_replay(check, v):
    d = os.path.join(boot.VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    name, lit, tb = v
    h = hashlib.sha1((name + lit).encode()).hexdigest()[:10]
    path = os.path.join(d, '%s-%s-%s.json' % (check.pid, name, h))
    with open(path, 'w') as f:
        json.dump(dict(property=check.pid, case=name, input=lit, error=tb,
                       replay_cmd='/opt/venv/bin/python /verif/run.py %s --replay %s' % (check.pid, path)), f, indent=1)
    return path


def run_check(check, tier, seed, shard=0, only=None, budget=None, scale=1.0):
    res = Result()
    if budget is None:
        budget = 420 if tier == 'quick' else 3000
    deadline = time.time() + budget
    for case in check.cases:
        if only and case.name not in only:
            continue
        n = case.quick if tier == 'quick' else case.thorough
        n = max(1, int(n * scale))
        run_case(check, case, n, derive_seed(seed, case.name, shard), res, deadline)
        if res.violations or res.errors:
            break
    return res
