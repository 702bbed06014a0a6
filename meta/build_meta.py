#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries below (single source for both)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None, observe=None, note=''):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism]))
    if state:
        d['anchors']['state'] = state
    if observe:
        d['anchors']['observe_at'] = [observe] if isinstance(observe, str) else observe
    assert len(title) <= 80, (id, len(title))
    P.append((d, note))


exec(open(os.path.join(ROOT, 'meta', 'props.py')).read())

TECH = 'property-based testing: generated inputs and operation histories (hypothesis, seeded, shrinking) against an explicit oracle'


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for d, _ in P:
            f.write(json.dumps(d) + '\n')
    checks = []
    for d, note in P:
        pid = d['id']
        checks.append(dict(property=pid, quick_cmd='/opt/venv/bin/python run.py %s --tier quick' % pid,
                           thorough_cmd='/opt/venv/bin/python run.py %s --tier thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=TECH, level='exploration',
                           level_note=note or 'sampled within the generator bounds stated in DESIGN.md'))
    m = dict(version=1, setup_cmd='/opt/venv/bin/python run.py SELFTEST', checks=checks, not_applicable=[])
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
