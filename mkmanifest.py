#!/usr/bin/env python3
"""writes MANIFEST.json from contracts/meta.json and the contract units present"""
import glob
import json
import os
H = os.path.dirname(os.path.abspath(__file__))
meta = json.load(open(H + '/contracts/meta.json'))
props = [json.loads(x) for x in open(H + '/properties.jsonl')]
NA = {
    'P24': 'a statement about schedules of several threads; the contracts here are over sequential calls, and no deductive '
           'back end with thread permissions for C++ is available offline (the sequential effect of the same functions is part of P12)',
}
NOTE = ('Contracts over the real functions, compiled from /repo on every run to LLVM IR; a verification-condition generator '
        '(vc/) discharges every obligation with z3/cvc5 for all inputs (loops by exact summaries or induction, no bound); '
        'counterexamples are replayed natively. Trusts clang, the IR normalisation passes, the generator and the SMT solvers; '
        'template instantiations as listed in the unit. ')
checks = []
for p in props:
    i = p['id']
    if i in NA or not glob.glob(f"{H}/contracts/{i}*.cc"):
        continue
    m = meta.get(i, {})
    checks.append({'property': i, 'quick_cmd': f'python3-vt check.py {i} quick', 'thorough_cmd': f'python3-vt check.py {i} thorough',
                   'evidence_file': f'evidence/{i}.json',
                   'technique': m.get('technique', 'contract-based deductive verification (VC generation from LLVM IR of the real code, SMT)'),
                   'level': m.get('level', 'proof'), 'level_note': NOTE + m.get('note', '')})
man = {'version': 1, 'setup_cmd': 'python3-vt -c "import vc.engine" && clang++-18 --version', 'checks': checks,
       'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'no contract unit yet')} for p in props
                          if p['id'] not in {c['property'] for c in checks}],
       'notes': 'DESIGN.md has the approach per property; known_findings.jsonl the defects found and repaired or recorded.'}
json.dump(man, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in man['not_applicable']], 'not claimed')
