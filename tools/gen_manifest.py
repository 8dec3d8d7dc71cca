#!/usr/bin/env python3
"""Writes MANIFEST.json from rules/ and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl') if l.strip()]
NA = {
    'C41': 'Quantifies over the computational power of an adversary against P-256 and SHA-256 as implemented in other crates; no analysis of this source can decide it. The part this repository is responsible for (which key, which bytes, which check) is C06-C09.',
    'C43': 'The outcome of concurrent updates in a store that the user supplies is decided by code that is not in this repository; for the bundled store it is C21.',
}
TECH = {}
DEFAULT_TECH = 'path-partitioned interprocedural dataflow (provenance terms) over the MIR of the current tree, specification evaluated on every outcome class'
checks, na = [], []
for p in props:
    i = p['id']
    f = f'{H}/rules/{i.lower()}.py'
    if os.path.exists(f):
        ns = {}
        for l in open(f):
            if l.startswith(('TECHNIQUE', 'NOTE')):
                exec(l, ns)
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}',
                       'technique': ns.get('TECHNIQUE', DEFAULT_TECH), 'level': 'other',
                       'level_note': ns.get('NOTE', 'Static analysis: sound for the paths of the crate up to the models of other crates listed in DESIGN.md and two generic elements per collection (thorough: three); nothing is executed.')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'The rule for this property is not built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 tools/build.py', 'checks': checks, 'not_applicable': na}, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
