#!/usr/bin/env python3
"""Writes MANIFEST.json from the plan in check.py and the notes below."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, notes
V = check.VERIF
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in check.PLAN:
        t, n = notes.NOTES.get(i, notes.DEFAULT)
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the harness module in /verif/harness imports /repo; instrumentation is done on copies in build overlays', 'source_commits': []},
     'notes': 'Explicit TLA+ specifications in spec/, checked with TLC and bound to the code by trace checking; see DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
