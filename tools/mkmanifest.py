"""Writes MANIFEST.json from the list below (run by hand)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROOF = set(json.load(open(os.path.join(HERE, 'tools', 'levels.json'))))
PARTLY = set(json.load(open(os.path.join(HERE, 'tools', 'partly.json'))))
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []
for i in ids:
    if i in PROOF:
        technique = 'contract-based deductive verification (pydv: verification conditions from the source in /repo, discharged by z3/cvc5) + bounded run-time contracts'
        level, note = 'proof', 'Obligations of the contracts named in DESIGN.md for this property, for all inputs; library contracts and real arithmetic are assumed (see trusted_base in the evidence). The run-time evaluation of the contracts is bounded and not counted as proved.'
    elif i in PARTLY:
        technique = 'contract-based deductive verification of the functions listed in DESIGN.md (pydv, z3/cvc5) + bounded run-time evaluation of the contracts for the rest'
        level, note = 'exploration', 'The listed functions are proved against their contracts for all inputs; the rest of the property is only evaluated on generated inputs (bounded), so the whole is not claimed as proved.'
    else:
        technique = 'run-time evaluation of the contracts on generated inputs (bounded)'
        level, note = 'exploration', 'Bounded: the contracts of the functions are evaluated on generated inputs only; nothing is proved.'
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       technique=technique, level=level, level_note=note, evidence_file='evidence/%s.json' % i))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=[], notes='See DESIGN.md. Repairs of defects found: known-findings.txt. No hooks in /repo are needed.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
