#!/usr/bin/env python3
"""Runs the checks of all (or the named) properties against one tree, sharing the work.  For developing the checks.

usage: LIBMPC_REPO=TREE sweep.py [-t thorough] [-o OUTDIR] [PROPERTY...]"""
import sys, os, io, time, contextlib, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, plan
args = sys.argv[1:]
tier, out = 'quick', None
while args and args[0].startswith('-'):
    o = args.pop(0)
    if o == '-t': tier = args.pop(0)
    if o == '-o': out = args.pop(0)
props = args or sorted(plan.PROPS)
work = tempfile.mkdtemp(prefix='libmpc-sa-')
check.EVIDENCE = out or work
bad = []
try:
    union = sorted({j for p in props for j in plan.jobs(p, tier)})
    plan.PROPS['ALL'] = dict(rules=['-'], quick=union, thorough=[], how='')
    with contextlib.redirect_stdout(io.StringIO()):
        check.decide('ALL', 'quick', plan.PROPS['ALL'], work, time.time())
    for p in props:
        t0, s = time.time(), io.StringIO()
        with contextlib.redirect_stdout(s):
            try:
                rc = check.decide(p, tier, plan.PROPS[p], work, t0)
            except Exception as e:
                rc = 3
                print('exception', e)
        if rc:
            first = s.getvalue().splitlines()
            print('%s rc=%d %s' % (p, rc, ' || '.join(x[:int(os.environ.get('WIDTH', '220'))] for x in first[:int(os.environ.get('LINES_', '1'))])), flush=True)
            bad.append((p, rc))
    print('caught by: %s; no verdict: %s' % (' '.join(p for p, r in bad if r == 1) or '-', ' '.join(p for p, r in bad if r != 1) or '-'))
finally:
    shutil.rmtree(work, ignore_errors=True)
