"""Regenerate MANIFEST.json from the check registry and the table below."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'analysis'))
from registry import CHECKS, TECH, NA

props = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in CHECKS:
        tech, note = TECH[p]
        checks.append({'property': p, 'quick_cmd': 'python3 analysis/check.py ' + p, 'technique': tech,
                       'level': CHECKS[p][0], 'level_note': note})
    else:
        na.append({'property': p, 'reason': NA[p]})
doc = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'Static analysis only: MIR of the four buildable crates through a rustc driver, syntax trees of the '
                'interpreter crate. DESIGN.md explains each rule; known_findings.txt lists accepted findings and fixes.'}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as fh:
    json.dump(doc, fh, indent=1)
    fh.write('\n')
