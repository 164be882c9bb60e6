#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property that has a harness, the rest under not_applicable."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = {}
for f in glob.glob(root + '/harness/*/*.go'):
    for m in re.finditer(r'^//vp:check (\S+)(.*)$', open(f).read(), re.M):
        if 'disabled' in m.group(2): continue
        for i in m.group(1).split(','):
            have[i] = have.get(i, 0) + 1
na_reason = json.load(open(root + '/tools/na.json')) if os.path.exists(root + '/tools/na.json') else {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': f'bash check.sh {i} quick',
            'thorough_cmd': f'bash check.sh {i} thorough',
            'technique': 'symbolic execution of go/ssa of the real source with symbolic inputs, time and schedule; SMT (z3, cvc5) decides every assertion; counterexamples replayed on the compiled code',
            'level': 'model_checking',
            'level_note': f'Holds for every input, duration and interleaving within the bounds stated per harness ({have[i]} harnesses; bounds in the doc comments and in the evidence); says nothing beyond them. Trusts the executor (validated against compiled runs), its models of the standard library (harness/model), and the SMT solvers.',
        })
    else:
        na.append({'property': i, 'reason': na_reason.get(i, 'no check has been built for this property yet')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na}, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
