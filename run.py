#!/usr/bin/env python
"""Run one property check:  run.py <ID> [--tier quick|thorough] [--replay FILE] [--case NAME] [--scale F]"""
import argparse
import json
import os
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pbt import boot  # noqa: E402

boot.ensure_env()
boot.setup_path()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--replay')
    ap.add_argument('--case', action='append')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--shard', type=int, default=None)
    ap.add_argument('--shards', type=int, default=None)
    ap.add_argument('--out')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'

    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % a.pid)
    os.environ['VERIF_SCRATCH'] = scratch
    os.environ['TMPDIR'] = scratch
    tempfile.tempdir = scratch
    os.chdir(scratch)
    try:
        return _main(a, tier, t0, scratch)
    finally:
        os.chdir(boot.VERIF)
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, tier, t0, scratch):
    from pbt import harness
    if a.pid == 'SELFTEST':
        boot.import_target()
        ids = [json.loads(l)['id'] for l in open(os.path.join(boot.VERIF, 'properties.jsonl'))]
        for pid in ids:
            assert harness.load(pid).pid == pid
        print('ok: %d checks load' % len(ids))
        return 0
    if a.replay:
        boot.import_target()
        check = harness.load(a.pid)
        with open(a.replay) as f:
            r = json.load(f)
        case = [c for c in check.cases if c.name == r['case']][0]
        harness.run_body(case, harness.unliteral(r['input']))
        print('replay passed: %s %s' % (r['property'], r['case']))
        return 0

    shards = a.shards if a.shards is not None else (8 if tier == 'thorough' else 1)
    if a.shard is None and shards > 1:
        return run_sharded(a, tier, t0, scratch, shards)

    boot.import_target()
    check = harness.load(a.pid)
    res = harness.run_check(check, tier, a.seed, shard=a.shard or 0, only=a.case, scale=a.scale)
    if not a.shard and not a.case:
        harness.run_probes(check, res)
    data = dict(evaluations=res.evaluations, nontrivial=sorted(res.nontrivial), classes=dict(res.classes),
                samples=res.samples, violations=res.violations, truncated=res.truncated, errors=res.errors,
                per_case=res.per_case, rule=check.rule, assumptions=check.assumptions)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(data, f)
        return 0
    return report(a, tier, t0, check, [data])


def run_sharded(a, tier, t0, scratch, shards):
    procs = []
    for i in range(shards):
        out = os.path.join(scratch, 'shard%d.json' % i)
        cmd = [sys.executable, os.path.join(boot.VERIF, 'run.py'), a.pid, '--tier', tier, '--seed', str(a.seed),
               '--shard', str(i), '--scale', str(a.scale), '--out', out]
        for c in a.case or []:
            cmd += ['--case', c]
        procs.append((out, subprocess.Popen(cmd, cwd=boot.VERIF)))
    datas = []
    for out, p in procs:
        p.wait()
        if not os.path.exists(out):
            print('HARNESS-ERROR shard failed', file=sys.stderr)
            return 3
        with open(out) as f:
            datas.append(json.load(f))
    boot.import_target()
    from pbt import harness
    check = harness.load(a.pid)
    return report(a, tier, t0, check, datas)


def report(a, tier, t0, check, datas):
    from pbt import harness
    nontrivial = set()
    classes, per_case, samples, violations, errors, truncated = {}, {}, [], [], [], []
    evaluations = 0
    for d in datas:
        evaluations += d['evaluations']
        nontrivial |= set(d['nontrivial'])
        for k, v in d['classes'].items():
            classes[k] = classes.get(k, 0) + v
        for k, v in d['per_case'].items():
            p = per_case.setdefault(k, dict(evaluations=0, distinct_nontrivial=0, wall_s=0.))
            for kk in p:
                p[kk] = round(p[kk] + v[kk], 2)
        samples += d['samples']
        violations += d['violations']
        errors += d['errors']
        truncated += d['truncated']
    samples = samples[:40]
    ev = dict(property=check.pid, tier=tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=evaluations, distinct_nontrivial=len(nontrivial), rule=check.rule,
                            samples=samples, classes=classes, per_case=per_case, truncated_cases=sorted(set(truncated)),
                            shards=len(datas)),
              assumptions=check.assumptions, wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(boot.VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(boot.VERIF, 'evidence', check.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if violations:
        for v in violations[:3]:
            path = harness.write_replay(check, tuple(v))
            print('case %s failed on input %s' % (v[0], v[1][:2000]))
            print(v[2][-3000:])
            harness.say('VIOLATION property=%s replay=%s' % (check.pid, path))
        return 1
    if errors:
        for e in errors:
            print('HARNESS-ERROR in case %s\n%s' % (e[0], e[1]), file=sys.stderr)
        return 3
    harness.say('OK property=%s evaluations=%d distinct_nontrivial=%d wall=%.1fs%s' %
          (check.pid, evaluations, len(nontrivial), time.time() - t0,
           ' truncated=%s' % truncated if truncated else ''))
    return 0


if __name__ == '__main__':
    sys.exit(main())
