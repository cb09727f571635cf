#!/usr/bin/env python3
"""Decides one property of libmpc from the current source of /repo.

usage: check.py PROPERTY [quick|thorough]

Compiles the witnesses the property needs to LLVM IR against /repo's headers,
runs the abstract interpreter (engine/) on their entries, and judges the
obligations whose rule belongs to the property.  Exit 0 held, 1 violated (with a
VIOLATION line), 2 no verdict."""
import sys, os, json, subprocess, time, shutil, tempfile, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan, lints

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('LIBMPC_REPO', '/repo')
LL = '/usr/lib/llvm-18/bin'
FLAGS = ['-std=c++20', '-O0', '-gline-tables-only', '-w', '-Xclang', '-disable-O0-optnone', '-DEIGEN_DONT_VECTORIZE',
         '-DEIGEN_STACK_ALLOCATION_LIMIT=0', '-DSHOW_STACKTRACE=0', '-ferror-limit=5',
         '-I' + VERIF + '/witness/stubs', '-I' + VERIF + '/witness', '-I' + REPO + '/include', '-I' + REPO + '/python', '-I/usr/include/eigen3',
         '-I/usr/lib/x86_64-linux-gnu/cmake/nlopt_cxx', '-emit-llvm', '-c']


def run(cmd, timeout=800):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, errors='replace')


def engine(work):
    out = os.path.join(VERIF, 'build')
    exe = os.path.join(out, 'absint')
    srcs = [os.path.join(VERIF, 'engine', f) for f in os.listdir(os.path.join(VERIF, 'engine'))]
    if os.path.exists(exe) and all(os.path.getmtime(exe) > os.path.getmtime(s) for s in srcs):
        return exe
    os.makedirs(out, exist_ok=True)
    tmp = tempfile.mkdtemp(dir=out)
    p = run(['make', '-C', os.path.join(VERIF, 'engine'), 'OUT=' + tmp])
    if p.returncode:
        raise RuntimeError('engine does not build:\n' + p.stderr[-2000:])
    os.replace(os.path.join(tmp, 'absint'), exe)
    shutil.rmtree(tmp)
    return exe


def compile_unit(work, name, src, defs):
    base = os.path.join(work, name)
    p = run([LL + '/clang++'] + FLAGS + ['-D' + d for d in defs] + [os.path.join(VERIF, 'witness', src), '-o', base + '.0.bc'])
    if p.returncode:
        return None, p.stderr
    q = run([LL + '/llvm-link', base + '.0.bc', os.path.join(work, 'support.bc'), '-o', base + '.1.bc'])
    if q.returncode:
        return None, 'llvm-link: ' + q.stderr
    q = run([LL + '/opt', '-passes=function(sroa,early-cse,simplifycfg)', base + '.1.bc', '-o', base + '.bc'])
    if q.returncode:
        return None, 'opt: ' + q.stderr
    os.remove(base + '.0.bc')
    os.remove(base + '.1.bc')
    return base + '.bc', ''


MEMO = {}      # a sweep over all properties shares what it compiled and interpreted
EVIDENCE = os.path.join(VERIF, 'evidence')


def once(key, fn):
    if key not in MEMO:
        MEMO[key] = fn()
    return MEMO[key]


def known_findings():
    out = []
    path = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: '):
                d = dict(kv.split('=', 1) for kv in line[9:].split(' ', 2)[:2])
                d['text'] = line[9:].split(' ', 2)[2]
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    spec = plan.PROPS[prop]
    work = tempfile.mkdtemp(prefix='libmpc-sa-')
    try:
        return decide(prop, tier, spec, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, tier, spec, work, t0):
    jobs = plan.jobs(prop, tier)          # [(unit, entry)]
    units = sorted({u for u, _ in jobs})
    violations, trouble, facts = [], [], {}
    obligations = {}
    functions = {}
    steps = 0
    stop = []       # when a violation has been found: the time to stop looking for more
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        sup = once((work, 'support'), lambda: ex.submit(run, [LL + '/clang++'] + FLAGS + [os.path.join(VERIF, 'witness', 'support.cpp'), '-o', os.path.join(work, 'support.bc')]))
        eng = once((work, 'engine'), lambda: ex.submit(engine, work))
        lint = [(name, ex.submit(getattr(lints, name), dict(repo=REPO, verif=VERIF, work=work, ll=LL, flags=FLAGS, tier=tier, prop=prop)))
                for name in spec.get('lints', [])]
        if sup.result().returncode:
            trouble.append('support.cpp does not compile: ' + sup.result().stderr[-800:])
        comp = {u: once((work, u), lambda: ex.submit(compile_unit, work, u, *plan.UNITS[u])) for u in units}
        exe = eng.result()
        # each entry starts as soon as its unit is compiled
        def one(u, e):
            bc, err = comp[u].result()
            if not bc:
                return None
            out = os.path.join(work, u + '.' + e + '.json')
            err = out + '.err'
            t1 = time.time()
            limit = plan.TIMEOUT[tier]
            if tier == 'quick' and prop != 'ALL':
                limit = min(limit, 780 - (time.time() - t0))
                if limit < 2:
                    return {'error': 'time limit'}
            p = subprocess.Popen([exe, bc, e, out, REPO.rstrip('/') + '/'], stdout=subprocess.DEVNULL, stderr=open(err, 'w'), env=dict(os.environ, ABSINT_SECONDS=str(limit)))
            while True:
                try:
                    p.wait(timeout=1)
                    break
                except subprocess.TimeoutExpired:
                    late = time.time() - t1 > limit + 30
                    if late or stop and time.time() > stop[0]:
                        p.kill()
                        p.wait()
                        return {'error': 'time limit' if late else 'given up, a violation was found elsewhere'}
            if not os.path.exists(out):
                return {'error': 'engine ended with %d: %s' % (p.returncode, open(err).read()[-300:])}
            r = json.load(open(out))
            if any(rep['kind'] != 'undecided' and (rep['kind'] in ('mem', 'abort') or judged(spec, rep['rule'])) for rep in r['reports']) and prop != 'ALL':
                stop.append(time.time() + 45)
            return r
        for u in units:
            comp[u].result()
        runs = [(u, e, once((work, u, e), lambda: ex.submit(one, u, e))) for u, e in jobs]
        for u in units:
            bc, err = comp[u].result()
            if not bc:
                first = next((l for l in err.splitlines() if 'error' in l), err[:300])
                if spec.get('compile'):
                    violations.append(dict(rule=prop + '.compiles', at=first, msg='the witness %s, which uses only the public interface, does not compile' % u, stack=err[-3000:]))
                else:
                    trouble.append('witness %s does not compile: %s' % (u, first))
        for u, e, f in runs:
            r = f.result()
            tag = u + ':' + e
            if r is None:
                continue
            if 'error' in r:
                trouble.append(tag + ': ' + r['error'])
                continue
            steps += r['steps']
            for fn in r['functions']:
                functions[fn] = functions.get(fn, 0) + 1
            ok = {k: v for k, v in r['ok'].items() if judged(spec, k)}
            bad = []
            for rep in r['reports']:
                if rep['kind'] == 'undecided':
                    if judged(spec, rep['rule']):
                        trouble.append('%s: undecided %s %s at %s' % (tag, rep['rule'], rep['msg'][:200], rep['at']))
                    continue
                if rep['kind'] in ('mem', 'abort') or judged(spec, rep['rule']):
                    rep['entry'] = tag
                    bad.append(rep)
            if r['thrown']:
                bad.append(dict(rule=prop + '.exception', entry=tag, msg='an exception escapes from the calls of ' + e, at='', stack=''))
            violations += bad
            if r['incomplete'] and not bad:
                trouble.append('%s: incomplete: %s' % (tag, '; '.join(r['incomplete'])[:400]))
            if r['unmodelled'] and not bad:
                trouble.append('%s: unmodelled: %s' % (tag, '; '.join(r['unmodelled'])[:400]))
            if spec.get('raw_output') is not None:
                for w in r['raw_output']:
                    violations.append(dict(rule=prop + '.raw', entry=tag, msg='output written past the logger: ' + w, at=w, stack=''))
            seen = dict(ok)
            for rep in bad:
                seen[rep['rule']] = seen.get(rep['rule'], 0) + 1
            for k, v in seen.items():
                obligations[(tag, k)] = v
            if not bad:
                for k in plan.floors(u, e):
                    if judged(spec, k) and not seen.get(k):
                        trouble.append('%s: nothing judged under rule %s' % (tag, k))
        for name, f in lint:
            r = f.result()
            violations += r.get('violations', [])
            trouble += r.get('trouble', [])
            for k, v in r.get('obligations', {}).items():
                obligations[(name, k)] = v
            for fn in r.get('functions', []):
                functions[fn] = functions.get(fn, 0) + 1
    known = known_findings()
    fresh = []
    for v in violations:
        hit = next((k for k in known if k['property'] == prop and k['key'].split('@')[0] in v['rule'].split('|') and k['key'].split('@', 1)[-1] == v.get('msg', '').split(' ')[0]), None)
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit['text']))
        else:
            fresh.append(v)
    total = sum(obligations.values())
    lib = sorted(f for f in functions)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
              coverage=dict(
                  explanation=spec['how'],
                  obligations=total,
                  obligations_failed=len(violations),
                  instances=len(obligations),
                  by_rule=by_rule(spec, obligations),
                  entries=['%s:%s' % j for j in jobs],
                  configurations={u: ' '.join(plan.UNITS[u][1]) for u in units},
                  ir_instructions_interpreted=steps,
                  functions_analysed=len(lib),
                  functions=lib[:400],
                  lints=spec.get('lints', [])),
              assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    if fresh:
        path = os.path.join(EVIDENCE, prop + '.violation.txt')
        with open(path, 'w') as f:
            for v in fresh[:200]:
                f.write('%s\n  rule  %s\n  at    %s\n  found %s\n' % (v.get('entry', ''), v['rule'], v.get('at', ''), v.get('msg', '')))
                if v.get('stack'):
                    f.write('  path  %s\n' % v['stack'])
        for v in fresh[:5]:
            print('%s %s: %s | %s' % (v['rule'], v.get('entry', ''), v.get('msg', '')[:300], v.get('at', '')))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if total == 0:
        trouble.append('no obligation was generated')
    if trouble:
        for t in trouble[:10]:
            print('NO VERDICT: ' + t)
        return 2
    print('%s held: %d obligations on %d entries, %d functions, %d IR instructions, %.1f s' % (prop, total, len(jobs), len(lib), steps, time.time() - t0))
    return 0


def by_rule(spec, obligations):
    n = {}
    for (_, rule), v in obligations.items():
        for r in set(rule.split('|')):
            if any(r.startswith(p) for p in spec['rules']):
                n[r] = n.get(r, 0) + v
    return dict(sorted(n.items()))


def judged(spec, rule):
    return any(r.startswith(p) for r in rule.split('|') for p in spec['rules'])


if __name__ == '__main__':
    sys.exit(main())
