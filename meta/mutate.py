#!/opt/venv/bin/python
"""Mutation survey of the checks (development tool, not a registered check).

mutate.py --n 20 --jobs 7 --out FILE [--only SUBSTR] [--seed S] [--all]
Copies /repo per worker, plants one small AST mutation at a time in the copy and runs the checks whose anchors cover the file.
"""
import argparse, ast, copy, fnmatch, json, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ['*/viewer.py', '*/plots/*', '*isaac*', '*habitat*', '*igibson*', '*minigrid*', '*gymnasium*', '*/__init__.py', '*omni*']

CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mod, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
NAMES = {'state': 'next_state', 'next_state': 'state', 'absorbing': 'last', 'last': 'absorbing', 'min': 'max', 'max': 'min', 'argmax': 'argmin',
         'minimum': 'maximum', 'maximum': 'minimum', 'sum': 'mean', 'mean': 'sum', 'any': 'all', 'all': 'any', 'append': 'extend', 'zeros': 'ones',
         'ones': 'zeros', 'sin': 'cos', 'cos': 'sin', 'low': 'high', 'high': 'low', 'inf': 'pi', 'exp': 'log', 'log': 'exp'}
DROP = {'copy', 'clone', 'detach', 'squeeze', 'astype', 'float', 'item', 'flatten', 'ravel', 'reshape', 'unsqueeze', 'T', 'double', 'numpy', 'cpu'}


def mutants(src):
    """Yield (line, description, new source)."""
    tree = ast.parse(src)
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._p = n
    defaults = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for d in n.args.defaults + n.args.kw_defaults + n.decorator_list + ([n.returns] if n.returns else []):
                if d is not None:
                    defaults |= {id(x) for x in ast.walk(d)}
            if n.name in ('render', '_render', 'stop', '__str__', '__repr__', 'list_registered') and n.name != 'stop':
                defaults |= {id(x) for x in ast.walk(n)}
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            defaults |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            defaults |= {id(x) for x in ast.walk(n)}

    def emit(node, new):
        """replace node by new in its parent, unparse, restore"""
        p = node._p
        for f, v in ast.iter_fields(p):
            if v is node:
                setattr(p, f, new)
                try:
                    out = ast.unparse(ast.fix_missing_locations(tree))
                finally:
                    setattr(p, f, node)
                return out
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is node:
                        v[i] = new
                        try:
                            out = ast.unparse(ast.fix_missing_locations(tree))
                        finally:
                            v[i] = node
                        return out

    for n in list(ast.walk(tree)):
        if id(n) in defaults or not hasattr(n, '_p'):
            continue
        alts = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = copy.copy(n); m.ops = [CMP[type(n.ops[0])]()]; alts.append(m)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            m = copy.copy(n); m.op = BIN[type(n.op)](); alts.append(m)
        elif isinstance(n, ast.AugAssign):
            if type(n.op) in BIN:
                m = copy.copy(n); m.op = BIN[type(n.op)](); alts.append(m)
            alts.append(ast.Pass())
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                alts.append(ast.Constant(not n.value))
            elif isinstance(n.value, int):
                alts.append(ast.Constant(n.value + 1))
            elif isinstance(n.value, float):
                alts.append(ast.Constant(n.value * 1.5 + .1 if n.value else .5))
        elif isinstance(n, ast.BoolOp):
            m = copy.copy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); alts.append(m)
            alts.append(n.values[0])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            alts.append(n.operand)
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            for b in (True, False):
                if isinstance(n, ast.While) and b:
                    continue
                m = copy.copy(n); m.test = ast.Constant(b); alts.append(m)
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            f = n.value.func
            if not (isinstance(f, ast.Name) and f.id in ('print', 'super')) and 'warn' not in ast.unparse(f):
                alts.append(ast.Pass())
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            alts.append(ast.Pass())
        elif isinstance(n, ast.Continue):
            alts.append(ast.Break())
        elif isinstance(n, ast.Break):
            alts.append(ast.Continue())
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in DROP and not (isinstance(f.value, ast.Name) and f.value.id in ('np', 'torch')):
                alts.append(f.value)
            if isinstance(f, ast.Name) and f.id in ('deepcopy', 'copy', 'list', 'tuple', 'int', 'float', 'bool') and len(n.args) == 1:
                alts.append(n.args[0])
            if isinstance(f, ast.Attribute) and f.attr in ('array', 'atleast_1d', 'atleast_2d', 'asarray', 'deepcopy', 'clip', 'clamp', 'abs', 'sqrt') and n.args:
                alts.append(n.args[0])
            for i in range(len(n.keywords)):
                m = copy.copy(n); m.keywords = n.keywords[:i] + n.keywords[i + 1:]; alts.append(m)
            if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
                m = copy.copy(n); m.args = n.args[::-1]; alts.append(m)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in NAMES:
            alts.append(ast.Name(NAMES[n.id], ast.Load()))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in NAMES:
            m = copy.copy(n); m.attr = NAMES[n.attr]; alts.append(m)
        if isinstance(n, ast.Attribute) and n.attr == 'T' and isinstance(n.ctx, ast.Load):
            alts.append(n.value)
        for m in alts:
            try:
                out = emit(n, m)
                if out is None:
                    continue
                new = ast.unparse(m).split('\n')[0][:90]
                old = ast.unparse(n).split('\n')[0][:90]
                yield getattr(n, 'lineno', n._p.lineno if hasattr(n._p, 'lineno') else 0), '%s  ->  %s' % (old, new), out
            except Exception:
                pass


def anchors():
    props = [json.loads(l) for l in open(V + '/properties.jsonl')]
    return {p['id']: p['anchors']['files'] for p in props}


def checks_of(path, anc):
    c = [(sum(1 for _ in fs), p) for p, fs in anc.items() if any(path == f or path.startswith(f + '/') for f in fs)]
    return [p for _, p in sorted(c)]


def run_one(copydir, pid, scale, seed, budget):
    """fork: run a check in a child on the copy; returns rc"""
    sys.stdout.flush()
    pid_ = os.fork()
    if pid_ == 0:
        rc = 4
        try:
            os.setsid()
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1); os.dup2(dn, 2)
            scratch = tempfile.mkdtemp(prefix='mut-')
            os.environ['VERIF_SCRATCH'] = scratch; tempfile.tempdir = scratch; os.chdir(scratch)
            sys.path.insert(0, copydir)
            from pbt import boot, harness
            boot.REPO = copydir
            import warnings; warnings.filterwarnings('ignore')
            try:
                check = harness.load(pid)
            except Exception:
                rc = 3
            else:
                res = harness.run_check(check, 'quick', seed, scale=scale, budget=budget)
                if not res.violations:
                    harness.run_probes(check, res)
                rc = 1 if res.violations else 3 if res.errors else 0
            shutil.rmtree(scratch, ignore_errors=True)
        except BaseException:
            pass
        finally:
            os._exit(rc)
    t = time.time()
    while time.time() - t < budget + 120:
        p, s = os.waitpid(pid_, os.WNOHANG)
        if p:
            rc = os.waitstatus_to_exitcode(s)
            try:
                os.killpg(pid_, signal.SIGKILL)
            except OSError:
                pass
            return rc
        time.sleep(.05)
    try:
        os.killpg(pid_, signal.SIGKILL)
    except OSError:
        pass
    os.waitpid(pid_, 0)
    return 9


def worker(k, jobs, a, anc):
    d = tempfile.mkdtemp(prefix='mutrepo%d-' % k)
    subprocess.check_call('cp -a /repo/mushroom_rl %s/' % d, shell=True)
    try:
        for j, (path, line, desc, src) in enumerate(jobs):
            if j % a.jobs != k:
                continue
            if a.bugs:
                orig = {f: open(d + '/mushroom_rl/' + f).read() for f, _, _ in desc}
                for f, o, w in desc:
                    q = d + '/mushroom_rl/' + f
                    text = open(q).read().replace(o, w); open(q, 'w').write(text)
                res = {pid: run_one(d, pid, a.scale, a.seed, 300) for pid in line}
                for f in orig:
                    open(d + '/mushroom_rl/' + f, 'w').write(orig[f])
                with open(a.out, 'a') as f:
                    f.write(json.dumps(dict(name=path, res=res, killed=1 in res.values())) + '\n')
                continue
            p = os.path.join(d, path)
            orig = open(p).read()
            open(p, 'w').write(src)
            res = {}
            t = time.time()
            try:
                for pid in (a.check or checks_of(path, anc)):
                    res[pid] = run_one(d, pid, a.scale, a.seed, 200)
                    if res[pid] == 1 and not a.all:
                        break
            finally:
                open(p, 'w').write(orig)
            with open(a.out, 'a') as f:
                f.write(json.dumps(dict(file=path, line=line, desc=desc, res=res, killed=1 in res.values(), t=round(time.time() - t, 1))) + '\n')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--n', type=int, default=10)
    ap.add_argument('--jobs', type=int, default=7)
    ap.add_argument('--out', required=True)
    ap.add_argument('--only', action='append')
    ap.add_argument('--check', action='append')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--scale', type=float, default=1.)
    ap.add_argument('--all', action='store_true')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--uncovered', action='store_true')
    ap.add_argument('--redo', help='rerun the survivors of an earlier survey')
    ap.add_argument('--bugs', help='json list of [name, [properties], [[file, old, new]...]]: hand-written changes instead of mutants')
    a = ap.parse_args()
    anc = anchors()
    rnd = random.Random(a.seed)
    jobs, unc = [], []
    for root, _, files in os.walk('/repo/mushroom_rl'):
        for f in sorted(files):
            path = os.path.relpath(os.path.join(root, f), '/repo')
            if not f.endswith('.py') or any(fnmatch.fnmatch(path, s) for s in SKIP):
                continue
            if a.only and not any(o in path for o in a.only):
                continue
            if not a.check and not checks_of(path, anc):
                unc.append(path); continue
            ms = [(path,) + m for m in mutants(open('/repo/' + path).read())]
            rnd.shuffle(ms)
            jobs += ms[:None if a.redo else a.n]
    if a.redo:
        want = {(d['file'], d['line'], d['desc']) for d in map(json.loads, open(a.redo)) if not d['killed']}
        jobs = [j for j in jobs if j[:3] in want]
    if a.bugs:
        jobs = []
        for name, props, edits in json.load(open(a.bugs)):
            for f, o, w in edits:
                c = open('/repo/mushroom_rl/' + f).read().count(o)
                if c != 1:
                    print('BAD', name, f, c); break
            else:
                jobs.append((name, props, edits, None))
    rnd.shuffle(jobs)
    print(len(jobs), 'mutants; files without anchors:', unc)
    if a.list:
        return
    sys.path[:0] = [V + '/vendor', V]
    os.environ['VERIF_FAST'] = '1'
    import numpy, torch, scipy.stats, scipy.optimize, hypothesis, hypothesis.strategies, sklearn.ensemble, tqdm, matplotlib.pyplot, gym, mujoco, cv2, pygame  # noqa
    torch.set_num_threads(1)
    kids = []
    for k in range(a.jobs):
        p = os.fork()
        if p == 0:
            try:
                worker(k, jobs, a, anc)
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        kids.append(p)
    for p in kids:
        os.waitpid(p, 0)


if __name__ == '__main__':
    for k, v in dict(MPLBACKEND='agg', SDL_VIDEODRIVER='dummy', SDL_AUDIODRIVER='dummy', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                     OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYGAME_HIDE_SUPPORT_PROMPT='1',
                     HYPOTHESIS_STORAGE_DIRECTORY='/dev/null/none', MUJOCO_GL='disable', VERIF_BOOTED='1').items():
        os.environ[k] = v
    sys.dont_write_bytecode = True
    main()
