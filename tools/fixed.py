#!/usr/bin/env python3
"""tools/fixed.py PROP COMMIT TEXT: record a repaired defect"""
import json, os, subprocess, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p, encoding='utf-8'))
prop, commit, what = sys.argv[1:]
c = subprocess.run(['git', '-C', '/repo', 'rev-parse', '--short', commit], capture_output=True, text=True).stdout.strip()
k.append({'property': prop, 'status': 'fixed', 'commit': c, 'entry': 'fixed: property=%s %s %s' % (prop, c, what)})
json.dump(k, open(p, 'w', encoding='utf-8'), ensure_ascii=False, indent=1)
print(k[-1]['entry'])
