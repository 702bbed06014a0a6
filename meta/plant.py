#!/usr/bin/env python3
"""plant.py ID [--nostable]: on /repo, verify a planted bug: demo passes before, patch applies, stable tests pass, demo fails, check catches."""
import json, os, subprocess as sp, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return sp.run(c, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)
res = {}
for i in [a for a in sys.argv[1:] if not a.startswith('--')]:
    d = os.path.join(V, 'seeded', i); p = os.path.join(d, 'patch.diff'); prop = json.load(open(d + '/meta.json'))['property']
    assert sh('git -C /repo status --porcelain').stdout == ''
    a = sh('bash %s/demo.sh' % d, cwd='/repo').returncode
    r = sh('git -C /repo apply %s' % p)
    if r.returncode: print(i, 'PATCH FAILS', r.stdout); continue
    try:
        b = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
        st = '' if '--nostable' in sys.argv else sh('bash %s/meta/stable.sh' % V).stdout.strip()
        c = sh('cd %s && VERIF_SEED=1 VERIF_TIER=quick /opt/venv/bin/python run.py %s --tier quick' % (V, prop))
        hit = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION property=' + prop)]
        print(i, prop, 'demo', a, b.returncode, st, 'check rc', c.returncode, 'CAUGHT' if c.returncode == 1 and hit else 'MISSED', flush=True)
        rp = os.path.join(V, 'meta', 'plant_results.json'); allr = json.load(open(rp)) if os.path.exists(rp) else {}
        allr[i] = ('yes, by ' + prop) if c.returncode == 1 and hit else 'no'; json.dump(allr, open(rp, 'w'), indent=1, sort_keys=True)
        if '--v' in sys.argv: print(b.stdout[-600:], c.stdout[-1500:])
    finally:
        sh('git -C /repo checkout -- .')
