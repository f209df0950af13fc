#!/usr/bin/env python3
"""Writes known_findings.json from the table below (run by hand after editing it; no check runs it)."""
import json
import os
import subprocess
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', os.environ.get('RUC_REPO', '/repo'), 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()


def commit(words):
    m = [l.split()[0] for l in log if words in l and l.split()[1] == 'fix:']
    assert len(m) == 1, (words, m)
    return m[0][:12]


def M(body, pre=''): return pre + 'void main()\n{\n' + body + '\n}\n'
def S(src, want, inp='', status='ok'): return {'source': src, 'input': inp, 'want': want, 'status': status}


F = []


def fixed(prop, words, what, repro): F.append({'property': prop, 'id': 'F%02d' % (1 + sum(f['status'] == 'fixed' for f in F)), 'status': 'fixed', 'commit': commit(words), 'what': what, 'repro': repro})
def known(prop, what, repro): F.append({'property': prop, 'id': 'K%02d' % (1 + sum(f['status'] == 'known' for f in F)), 'status': 'known', 'what': what, 'repro': repro})


exec(open(os.path.join(HERE, 'tools', 'findings_table.py'), encoding='utf-8').read())
for f in F: f['line'] = ('fixed: property=%s %s %s' % (f['property'], f['commit'], f['what'])) if f['status'] == 'fixed' else 'known: property=%s %s' % (f['property'], f['what'])
with open(os.path.join(HERE, 'known_findings.json'), 'w', encoding='utf-8') as o:
    json.dump({'findings': F}, o, ensure_ascii=False, indent=1)
    o.write('\n')
