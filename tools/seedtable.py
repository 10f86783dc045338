#!/usr/bin/env python3
"""prints the table of planted bugs (section 5 of DESIGN.md); with an argument, replaces it there"""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {'C22-trailing-blank', 'C31-flags', 'C40-write-lost', 'C41-shared-options', 'C42-stale-temp'}
rows = ['| id | breaks | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/')):
    m = json.load(open(d + 'meta.json', encoding='utf-8'))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(d[:-1]), m['what_it_breaks'], m['needs'], m['property'] + (' (missed before it was strengthened)' if os.path.basename(d[:-1]) in MISSED else '')))
p = V + '/DESIGN.md'
s = open(p, encoding='utf-8').read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: t, s, flags=re.S)
open(p, 'w', encoding='utf-8').write(s)
