#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': [],
       'notes': 'Every check builds what it needs from /repo\'s working tree (cache in build/, ignored by git) and explores exhaustively within the bounds given in its evidence and in DESIGN.md.'}
for p in props:
    c = checks.CHECKS.get(p['id'])
    if not c:
        out['not_applicable'].append({'property': p['id'], 'reason': 'check under construction'})
        continue
    out['checks'].append({'property': p['id'], 'quick_cmd': 'python3 bin/check.py %s --tier quick' % p['id'],
                          'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % p['id'],
                          'evidence_file': 'evidence/%s.json' % p['id'],
                          'technique': c['technique'], 'level': c.get('level', 'model_checking'), 'level_note': c['note']})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
