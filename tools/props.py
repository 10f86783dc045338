#!/usr/bin/env python3
"""The catalogue: writes /verif/properties.jsonl and /verif/MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
NA = {}     # id -> reason


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': ['src/v8unpack/' + f for f in files],
                          'mechanism': [{'name': n, 'where': 'src/v8unpack/' + w} for n, w in mech]}})
    if na:
        NA[id] = na
    elif note:
        NOTES[id] = note


NOTES = {}
exec(open(os.path.join(HERE, 'tools', 'catalogue.py'), encoding='utf-8').read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')

TRUST = ('Trusted: the symbolic executor in symex/ (every completed case is sampled: solver models of explored paths are '
         're-run on the unmodified code and must give the same observations; every reported violation is replayed on the '
         'unmodified code first), z3, CPython and its standard library where they are modelled (zlib, hashlib as '
         'uninterpreted functions, an in-memory file system, a pool that runs tasks in a symbolic order).')
checks = []
for p in P:
    if p['id'] in NA:
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'python3-vt -m symex.run %s --tier quick' % p['id'],
        'thorough_cmd': 'python3-vt -m symex.run %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'symbolic execution of the current Python source with z3: every path of the real functions within the '
                     'stated bounds is explored and the property is an assertion the solver discharges on each',
        'level': 'model_checking',
        'level_note': (NOTES.get(p['id']) or 'Holds for every value inside the bounds listed in the evidence file; nothing is '
                       'claimed beyond them.') + ' ' + TRUST,
    })
m = {'version': 1, 'setup_cmd': 'python3-vt -m symex.selftest', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'All checks share one engine (symex/): it rewrites and runs the functions of /repo/src/v8unpack with symbolic '
              'inputs on every run. No hooks are needed in /repo. Bounds are in the evidence files and DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
print(len(P), 'properties,', len(checks), 'checks')
