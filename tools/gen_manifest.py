"""writes MANIFEST.json; run with python3-vt from /verif"""
import json, sys
sys.path.insert(0, 'engine')
import plan
props = [json.loads(l) for l in open('properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    n = len(plan.jobs(i, 'thorough'))
    if not n:
        na.append({'property': i, 'reason': 'contracts for this part are not written yet'}); continue
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
        'technique': 'contract-based deductive verification of the LLVM IR extracted from /repo on every run (own obligation generator, z3); bounded native harness for the parts not under contract and for replay',
        'level': plan.LEVEL.get(i, 'proof'),
        'level_note': 'Obligations are discharged for all inputs and iterations for the functions in the evidence; assumes the standard-library contracts of engine/stdc.py; what is not under contract is covered only by the bounded native harness (labelled bounded in the evidence).'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open('MANIFEST.json', 'w'), indent=1)
