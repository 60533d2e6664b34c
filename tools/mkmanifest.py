#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props_table import PROPS
T = {
 'machine': 'stateful property-based testing against a reference model (shrinking, sanitizers)',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i not in PROPS:
        na.append({'property': i, 'reason': 'no check yet'})
        continue
    P = PROPS[i]
    checks.append({
        'property': i,
        'quick_cmd': 'VERIF_TIER=quick python3 tools/check.py ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough python3 tools/check.py ' + i,
        'technique': P.get('technique', T['machine']),
        'level': 'exploration',
        'level_note': P.get('note', 'Random histories, each step compared with a model of the whole domain and its objects; a pass says that no explored history breaks the property. Trusts the model of /verif/harness/world.hpp and the sanitizers; the generators bound sizes as stated in DESIGN.md.'),
    })
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness uses the public interface, memory resources and mixin callbacks only. Genuine defects repaired in /repo are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
