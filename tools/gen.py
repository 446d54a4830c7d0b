#!/usr/bin/env python3
"""Authoring source of properties.jsonl and MANIFEST.json (run by hand; not part of any check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ("The suite runs the two prover binaries in automatic mode on a few dozen example problems and compares "
     "the reported status; ")
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level=None, technique=None, note=None):
    assert len(title) <= 80, title
    P.append(dict(p=dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=T + why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)),
        level=level, technique=technique, note=note))
exec(open(os.path.join(ROOT, 'tools', 'props_src.py')).read())
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps(x['p']) + '\n')
checks, na = [], []
for x in P:
    i = x['p']['id']
    if x['level']:
        checks.append(dict(property=i, quick_cmd=f'python3 checks/check.py {i}',
            thorough_cmd=f'VERIF_TIER=thorough python3 checks/check.py {i}',
            technique=x['technique'], level=x['level'], level_note=x['note']))
    else:
        na.append(dict(property=i, reason=x['note'] or 'no check built yet'))
fix = []
m = dict(version=1, setup_cmd='bash lib/setup.sh',
         hooks=dict(guard='none', enable='no hooks: the checks link the libraries built from the unmodified sources', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='One driver (checks/check.py ID). Every check builds the libraries and programs it needs from /repo into /verif/build.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
