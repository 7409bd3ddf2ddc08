#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness files present (run: python3 tools/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}   # id -> reason why the family does not apply
p = os.path.join(V, 'tools', 'na.json')
if os.path.exists(p):
    NA = json.load(open(p))
NOTES = {}
p = os.path.join(V, 'tools', 'notes.json')
if os.path.exists(p):
    NOTES = json.load(open(p))
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    i = json.loads(line)['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(V, 'harness', i.lower() + '.py')):
        checks.append({
            'property': i,
            'quick_cmd': 'python3-vt run.py %s --tier quick' % i,
            'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the real Python code, Z3 deciding every branch and assertion; counterexamples replayed on the plain code',
            'level': 'model_checking',
            'level_note': NOTES.get(i, 'exhaustive over every input within the bounds listed per case in the evidence; solver verdict per path')})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
