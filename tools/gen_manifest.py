#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the plan and the properties."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {
    'C40': 'quantifies over the numerical convergence and the run time of OSQP and NLopt, external solvers that are not part of the source; no static argument over this codebase bounds either',
    'C41': 'floating-point error bounds over arbitrary user functions and matrices: neither has a static bound (user functions are arbitrary code; the matrix exponential is third-party); the exactness of the formulas in real arithmetic is decided under C13, C14, C15 and C29',
}
TECH = {
    'ir': 'abstract interpretation of the compiled LLVM IR (value numbering over constants and polynomials) against the specification',
    'ct': 'compile-time witnesses (static_assert, instantiation, must-not-compile)',
    'lint': 'queries over the syntax tree / IR',
}
NOTE = ('Decides the property for every value of the real inputs in the listed configurations (dimensions, slices, call sequences written in the witness); real arithmetic, '
        'not floating point. Trusts clang\'s front end, the interpreter in engine/ and the stand-ins for the two external solvers; a construct the interpreter does not model gives no verdict, never a pass.')
checks = []
for p in props:
    i = p['id']
    if i in plan.PROPS:
        s = plan.PROPS[i]
        checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s quick' % i, thorough_cmd='python3 tools/check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=s.get('technique', TECH['ir']), level='other', level_note=s.get('note', NOTE)))
    elif i not in NA:
        NA[i] = 'no check built'
json.dump(dict(version=1, setup_cmd='make -s -C engine OUT=../build', checks=checks,
               not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
               notes='Static analysis only: nothing of libmpc is run. See DESIGN.md.'), open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', list(NA))
