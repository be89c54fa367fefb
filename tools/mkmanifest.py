#!/usr/bin/env python3
# writes MANIFEST.json from engine/plans.go and properties.jsonl
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
plans = set(re.findall(r'prop: "(\w+)"', open(root + '/engine/plans.go').read()))
NA = {}
exec(open(root + '/tools/notapplicable.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in plans and i not in NA:
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i} quick',
            'thorough_cmd': f'bash check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': 'symbolic execution of the Go SSA of /repo, assertions and pruned branches decided by an SMT solver (z3), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Bounded: every value of every symbolic input within the sizes, lengths and step counts listed per job in the evidence file (see DESIGN.md); standard library functions named in DESIGN.md are modelled. A violation is only reported after it was reproduced by the compiled code.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
m = {'version': 1, 'setup_cmd': 'bash b.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: harnesses are overlaid at build time. known_findings.txt lists the defects repaired by fix: commits.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
