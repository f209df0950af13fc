#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the findings, and the planted bugs with what caught them."""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fs = json.load(open(HERE + '/known_findings.json', encoding='utf-8'))['findings']
out = ['### Repaired (`fix:` commits)', ''] + ['* %s %s `%s`: %s' % (f['id'], f['property'], f['commit'], f['what']) for f in fs if f['status'] == 'fixed']
out += ['', '### Recorded, not repaired', ''] + ['* %s %s: %s' % (f['id'], f['property'], f['what']) for f in fs if f['status'] == 'known']
res = json.load(open(HERE + '/tools/seed_results.json'))
tab = ['| change | property | what it needs | checks |', '|---|---|---|---|']
for id in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (HERE, id)))
    tab.append('| %s | %s | %s | %s |' % (id, m['property'], m['needs'].replace('|', '\\|'), ', '.join('%s %s' % (c, v) for c, v in sorted(res.get(id, {}).items())) or 'not run'))
p = HERE + '/DESIGN.md'
s = open(p, encoding='utf-8').read()
for name, lines in (('findings', out), ('seeds', tab)):
    a, b = '<!-- %s -->' % name, '<!-- /%s -->' % name
    assert a in s and b in s, name
    s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(lines) + '\n' + s[s.index(b):]
open(p, 'w', encoding='utf-8').write(s)
