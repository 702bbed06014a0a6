"""Helper used while planting: mk(id, property, [(file, old, new)...], needs, what, demo) writes seeded/<id>/ from /repo HEAD."""
import json, os, subprocess as sp
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
import warnings; warnings.filterwarnings('ignore')
import numpy as np
'''
def mk(id, prop, edits, needs, what, demo):
    d = os.path.join(V, 'seeded', id); os.makedirs(d, exist_ok=True)
    assert sp.check_output('git -C /repo status --porcelain', shell=True) == b''
    try:
        for f, a, b in edits:
            p = '/repo/mushroom_rl/' + f; s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a))
            open(p, 'w').write(s.replace(a, b))
        diff = sp.check_output('git -C /repo diff', shell=True)
    finally:
        sp.check_call('git -C /repo checkout -q -- .', shell=True)
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.py', 'w').write(HEAD + demo)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport OMP_NUM_THREADS=1 MPLBACKEND=agg SDL_VIDEODRIVER=dummy\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
