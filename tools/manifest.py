#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and the reasons below."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sa import checks  # noqa: E402

TECH = 'abstract interpretation of monomorphic MIR (dataflow over trace partitions), exits compared with a specification'
NA = {
    'Q01': 'the printed form is a stream of proc_macro tokens built by generic parser combinators (hundreds of instances over foreign opaque token handles); '
           'relating two such streams for every item needs a relational argument over the proc_macro bridge that no static analysis in reach provides; '
           'the consequences a user sees are covered by D01-D04',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': 'python3 -m sa.build', 'checks': [], 'not_applicable': [], 'notes': 'see DESIGN.md'}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                              'technique': checks.TECH.get(i, TECH), 'level': checks.LEVEL.get(i, 'proof'), 'level_note': checks.NOTE.get(i, checks.NOTE['*'])})
    else:
        out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'check under construction')})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
