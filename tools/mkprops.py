#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2, id
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe: a['observe_at'] = observe
    P.append(({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a}, technique, note))


exec(open(os.path.join(HERE, 'tools', 'props_table.py'), encoding='utf-8').read())
with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p, _, _ in P: f.write(json.dumps(p, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                 'technique': t, 'level': 'exploration', 'level_note': n, 'evidence_file': 'evidence/%s.json' % p['id']} for p, t, n in P],
     'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
     'notes': 'Every check rebuilds the compiler or its libraries from /repo\'s working tree into .build/<hash of the sources>; nothing in /repo is instrumented.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(m, f, ensure_ascii=False, indent=1)
    f.write('\n')
