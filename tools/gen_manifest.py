#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property modules that exist."""
import importlib, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
checks, na = [], []
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if os.path.exists(os.path.join(ROOT, 'lib/props', i.lower() + '.py')):
        m = importlib.import_module('props.' + i.lower())
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': m.TECHNIQUE, 'level': 'exploration',
                       'level_note': m.NOTE})
    else:
        na.append({'property': i, 'reason': 'No check has been built for it yet.'})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: the monitors are external functions registered through the public API, the '
                    'public runtime stacks, compiler sanitizers and recorded event logs. Repairs of defects in /repo are the '
                    '"fix:" commits, listed in known-findings.txt.'},
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
