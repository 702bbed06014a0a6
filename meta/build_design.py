#!/opt/venv/bin/python
"""Writes DESIGN.md from the check modules (cases, counts, rules) and the notes below.  Run:  VERIF_BOOTED=1 meta/build_design.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pbt import boot
boot.ensure_env(); boot.setup_path(); boot.import_target()
from pbt import harness

HOW = {}
exec(open(os.path.join(V, 'meta', 'design_notes.py')).read())

props = [json.loads(l) for l in open(V + '/properties.jsonl')]
out = [HEAD]
out.append('## 3. Per property\n')
for p in props:
    c = harness.load(p['id'])
    how = list(HOW[p['id']])
    try:
        w = json.load(open(V + '/evidence/%s.json' % p['id']))
        if w['tier'] == 'quick':
            import re
            how[2] = re.sub('quick about [0-9]+ s', 'quick about %d s' % round(w['wall_s']), how[2])
    except OSError:
        pass
    out.append('### %s — %s\n' % (p['id'], p['title']))
    out.append('- **Generated**: ' + how[0])
    out.append('- **Oracle**: ' + how[1])
    out.append('- **Bounds and cost**: ' + how[2])
    out.append('- **Beyond the tests**: ' + p['why_tests_cant'] + '.')
    out.append('- **Cases** (quick/thorough examples; thorough is additionally repeated in 8 shards with different seeds): ' +
               ', '.join('%s %d/%d' % (k.name, k.quick, k.thorough) for k in c.cases) + '.')
    out.append('- **Counted as non-trivial**: ' + c.rule + '.\n')
rows = ['| bug | property | needs | caught |', '|---|---|---|---|']
res = json.load(open(V + '/meta/plant_results.json')) if os.path.exists(V + '/meta/plant_results.json') else {}
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % b))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), res.get(b, '')))
out.append(TAIL.replace('SEEDED_TABLE', '\n'.join(rows)).replace('MUTATION_SUMMARY', open(V + '/meta/mutation_summary.md').read() if os.path.exists(V + '/meta/mutation_summary.md') else ''))
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
