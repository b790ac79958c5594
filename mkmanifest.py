#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os
import checks
V = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(x) for x in open(os.path.join(V, 'properties.jsonl'))]
m = {
    'version': 1,
    'setup_cmd': 'python3 setup.py',
    'checks': [], 'not_applicable': [],
    'notes': 'Specification in TLA+ (spec/), checked with TLC and bound to the real code by trace validation and by '
             'replay of behaviours TLC enumerates. See DESIGN.md; genuine defects: KNOWN_FINDINGS.txt. No hooks in /repo.',
}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        m['checks'].append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': checks.TECHNIQUE.get(i, checks.TECHNIQUE['default']),
            'level': 'model_checking',
            'level_note': checks.NOTES.get(i, checks.NOTES['default'])})
    else:
        m['not_applicable'].append({'property': i, 'reason': checks.NOT_APPLICABLE.get(i, 'no check has been built for it yet')})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
