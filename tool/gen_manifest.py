#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tool')
from checks import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 tool/lfv.py setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CHECKS:
        c = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'VERIF_TIER=quick python3 tool/lfv.py check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 tool/lfv.py check ' + i,
                            'evidence_file': 'evidence/%s.json' % i,
                            'technique': c.get('technique', 'contract-based deductive verification: C++ contracts over the real functions, VC generation on LLVM IR of the current sources, discharge by exact real-algebra normal forms, symbolic differentiation and z3; failures replayed natively'),
                            'level': c['level'], 'level_note': ('' if c['level'] == 'proof' else 'Deductive for all data of every instance of a bounded family of instances; bounded, not counted as an unbounded proof. ') + c['explain'] + (' Bounds: ' + '; '.join(c['bounds']) + '.' if c['bounds'] else ' No bound.') + ' Trusted: clang front end and LLVM O1 passes, the VC generator, z3, Eigen small-matrix contracts; real arithmetic for doubles.'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
