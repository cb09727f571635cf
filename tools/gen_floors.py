#!/usr/bin/env python3
"""Writes floors.json: for every entry, the rules it confirms on the unchanged tree.
A later run in which one of them has not a single instance gives no verdict: the entry no longer reaches what it is there to judge."""
import os, sys, io, json, time, tempfile, shutil, contextlib, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, plan
plan.FLOORS = {}
work = tempfile.mkdtemp(prefix='libmpc-sa-')
check.EVIDENCE = work
try:
    union = sorted({j for p in list(plan.PROPS) for j in plan.jobs(p, 'thorough')})
    plan.PROPS['ALL'] = dict(rules=['-'], quick=union, thorough=[], how='')
    with contextlib.redirect_stdout(io.StringIO()):
        check.decide('ALL', 'quick', plan.PROPS['ALL'], work, time.time())
    floors = {}
    for u, e in union:
        f = os.path.join(work, u + '.' + e + '.json')
        r = json.load(open(f)) if os.path.exists(f) else None
        if not r or r['incomplete'] or r['unmodelled'] or r['thrown'] or r['reports']:
            print('skipped', u, e)
            continue
        floors[u + ':' + e] = sorted({k for k in r['ok'] if not k.startswith('C24.')})
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'floors.json')
    with open(out, 'w') as f:
        f.write('{\n' + ',\n'.join('%s: %s' % (json.dumps(k), json.dumps(v)) for k, v in sorted(floors.items())) + '\n}\n')
    print(len(floors), 'entries')
finally:
    shutil.rmtree(work, ignore_errors=True)
