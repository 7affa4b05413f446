#!/usr/bin/env python3
"""Writes MANIFEST.json from scope.py (a maintenance tool, no check runs it)."""
import json, os
from scope import COMPONENTS, BOUNDED
V = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks = []
for p in ids:
    proof = bool(COMPONENTS[p])
    b = BOUNDED.get(p, [])
    checks.append({
        'property': p,
        'quick_cmd': f'python3 check.py {p}',
        'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {p} thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': 'contracts on the extracted functions, discharged by Verus/Z3; failing inputs searched with an executable oracle on the real crate' if proof
                     else 'bounded stand-in: executable oracle on the real crate (code out of reach of the verifier)',
        'level': 'proof' if proof else 'exploration',
        'level_note': ('Unbounded proof of the functions in contracts ' + ', '.join(COMPONENTS[p]) + '; assumes the standard library contracts of contracts/prelude.rs and the mechanical extraction.' if proof else 'Bounded search only.')
                      + (' Bounded only: ' + '; '.join(b) + '.' if b else ''),
    })
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo are needed: functions are extracted from the source, the harness uses the public crate API and the program.'},
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
