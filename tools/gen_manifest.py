#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from harness/ and properties.jsonl."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']; src = os.path.join(V, 'harness', i + '.cpp')
    if not os.path.exists(src):
        na.append({'property': i, 'reason': 'check not built yet'}); continue
    t = open(src).read()
    note = re.search(r'^// NOTE: (.*)$', t, re.M)
    checks.append({
        'property': i,
        'quick_cmd': 'bin/check %s quick' % i,
        'thorough_cmd': 'bin/check %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'stateless explicit-choice model checking of the real code in lockstep with a reference model',
        'level': 'model_checking',
        'level_note': (note.group(1) if note else 'Every execution within the stated alphabets and depths is run on the real code and compared step by step with a reference model.') +
          ' Exhaustive within the bounds of DESIGN.md; trusts the reference model in harness/%s.cpp and lib/mc.h.' % i,
    })
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks are needed: all decisions are injected through public constructors and virtual interfaces. Genuine defects: known_findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not built')
