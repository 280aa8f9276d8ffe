#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry of checks and checks the three data files against their schemas."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'checks'), os.path.join(V, 'engine')]
import registry
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ids = [p['id'] for p in props]
checks = [dict(property=i, quick_cmd='python3-vt engine/check.py %s quick' % i, thorough_cmd='python3-vt engine/check.py %s thorough' % i,
               technique=registry.REG[i][1]['technique'], level=registry.REG[i][1]['level'], level_note=registry.REG[i][1]['note']) for i in ids if i in registry.REG]
na = [dict(property=i, reason=registry.NA.get(i, 'no check yet')) for i in ids if i not in registry.REG]
m = dict(version=1, setup_cmd='python3-vt engine/build.py bn bnsnark zm', checks=checks, not_applicable=na,
         notes='No hooks: /repo carries only fix: commits. Findings: known_findings.txt. Design: DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    S = lambda n: json.load(open('/root/.vp/%s.schema.json' % n))
    jsonschema.validate(m, S('MANIFEST'))
    for p in props: jsonschema.validate(p, S('PROPERTIES'))
    for i in ids:
        f = os.path.join(V, 'evidence', i + '.json')
        if os.path.exists(f): jsonschema.validate(json.load(open(f)), S('EVIDENCE'))
    print('ok', len(checks), 'checks', len(na), 'not applicable')
except ImportError: print('written (no jsonschema)')
