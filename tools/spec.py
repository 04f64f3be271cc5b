#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # properties
C = {}      # id -> (technique, level_note)
NA = {}     # id -> reason


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    if na:
        NA[id] = na
    else:
        C[id] = (technique, note)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props.py')).read())

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as h:
    for p in P:
        h.write(json.dumps(p, sort_keys=False) + '\n')
json.dump({
    'version': 1,
    'setup_cmd': 'python3 -m py_compile check.py sa/*.py sa/checks/*.py',
    'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                'evidence_file': 'evidence/%s.json' % p['id'], 'technique': C[p['id']][0], 'level': 'other', 'level_note': C[p['id']][1]}
               for p in P if p['id'] in C],
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'No hooks in /repo. Every check parses the current working tree of /repo and never imports or runs it.'},
    open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
