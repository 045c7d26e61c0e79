#!/usr/bin/env python3
"""Writes DESIGN.md from the property list, the check modules and tools/design_*.md."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/lib', V + '/lib/props']
T = V + '/tools/'
out = [open(T + 'design_head.md').read(), '\n## Properties\n']
extra = json.load(open(T + 'design_props.json')) if os.path.exists(T + 'design_props.json') else {}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out.append('\n### %s  %s\n\n' % (i, p['title']))
    try:
        m = importlib.import_module(i.lower())
    except ImportError:
        out.append('Not claimed.\n')
        continue
    out.append('*Deciding method*: %s.\n\n' % m.TECHNIQUE.rstrip('.'))
    out.append('*Workload*: %s\n\n' % m.RULE)
    if i in extra:
        out.append('*Oracle*: %s\n\n' % extra[i])
    if getattr(m, 'NOTE', ''):
        out.append('*Bounds and trust*: %s\n\n' % m.NOTE)
    b = getattr(m, 'BUILDS', None)
    out.append('*Cost*: quick %d cases, thorough up to %d cases%s.\n' % (m.PLAN['quick'][0], m.PLAN['thorough'][0], '; builds %s (thorough %s)' % (', '.join(b['quick']), ', '.join(b['thorough'])) if b else ''))
out.append('\n' + open(T + 'design_tail.md').read())
out.append('\n## Planted bugs\n\nEach was confirmed in a scratch copy (builds, passes the tests, demonstration passes before and fails after).\n\n| planted bug | property | what it breaks | caught by |\n|---|---|---|---|\n')
c = json.load(open(T + 'catches.json')) if os.path.exists(T + 'catches.json') else {}
for s in sorted(os.listdir(V + '/seeded')):
    f = V + '/seeded/%s/meta.json' % s
    if os.path.exists(f):
        m = json.load(open(f))
        out.append('| %s | %s | %s | %s |\n' % (s, m['property'], m['what_it_breaks'].replace('|', '/'), c.get(s, '?')))
open(V + '/DESIGN.md', 'w').write(''.join(out))
