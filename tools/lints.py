"""Deciding steps that need no interpreter: programs that must (not) compile."""
import os, re, subprocess, concurrent.futures as cf

TOP = 'Dim IComponent IDimensionable IMPC IOptimizer Integrator LMPC Logger NLMPC Profiler Types Utils'.split()
SUB = 'LMPC/LOptimizer LMPC/ProblemBuilder NLMPC/Base NLMPC/Constraints NLMPC/Mapping NLMPC/Model NLMPC/NLOptimizer NLMPC/Objective'.split()


def syntax(c, src, compiler, *extra):
    """-> (ok, first error, full text); compiles, never runs"""
    exe = c['ll'] + '/clang++' if compiler == 'clang++' else 'g++'
    cmd = [exe, '-std=c++20', '-fsyntax-only', '-w', '-I' + c['verif'] + '/witness/stubs', '-I' + c['repo'] + '/include', '-I/usr/include/eigen3',
           '-I/usr/lib/x86_64-linux-gnu/cmake/nlopt_cxx', '-I' + c['verif'] + '/witness'] + list(extra) + [src]
    p = subprocess.run(cmd, capture_output=True, text=True, errors='replace', timeout=800)
    if p.returncode == 0:
        return True, '', ''
    err = next((l for l in p.stderr.splitlines() if 'error:' in l or 'fatal' in l), '')
    return False, err, p.stderr


def judge(c, rule, what, src, out, *extra, compilers=('g++', 'clang++')):
    for comp in compilers:
        ok, first, full = syntax(c, src, comp, *extra)
        if ok:
            out['obligations'][rule] = out['obligations'].get(rule, 0) + 1
        elif 'error' in first:
            out['violations'].append(dict(rule=rule, entry=what + ' with ' + comp, msg='does not compile: ' + first[:300], at=first.split(': ')[0], stack=full[-3000:]))
        else:
            out['trouble'].append('%s: %s failed without a diagnosis: %s' % (what, comp, full[-200:]))


def empty():
    return dict(violations=[], trouble=[], obligations={}, functions=[])


def headers(c):
    """each header is a program on its own"""
    out = empty()
    todo = []
    for h in TOP + SUB:
        path = os.path.join(c['repo'], 'include/mpc', h + '.hpp')
        if not os.path.exists(path):
            if h in TOP:
                out['violations'].append(dict(rule='C23.header', entry=h, msg='the public header is gone', at=path, stack=''))
            continue
        src = os.path.join(c['work'], 'header_' + h.replace('/', '_') + '.cpp')
        with open(src, 'w') as f:
            f.write('#include <mpc/%s.hpp>\n#include <mpc/%s.hpp>\nint main() {}\n' % (h, h))
        todo.append((h, src))
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        list(ex.map(lambda t: judge(c, 'C23.header', 'mpc/%s.hpp' % t[0], t[1], out), todo))
    # two translation units of one program: no header defines a symbol that would clash with itself
    src, bc = os.path.join(c['work'], 'unit.cpp'), os.path.join(c['work'], 'unit.bc')
    with open(src, 'w') as f:
        f.write(''.join('#include <mpc/%s.hpp>\n' % h for h in TOP))
    p = subprocess.run([c['ll'] + '/clang++'] + c['flags'] + [src, '-o', bc], capture_output=True, text=True, errors='replace', timeout=800)
    if p.returncode == 0:
        q = subprocess.run([c['ll'] + '/llvm-nm', '--defined-only', '--demangle', bc], capture_output=True, text=True, errors='replace')
        clash = [l.split(' ', 2)[-1] for l in q.stdout.splitlines() if re.search(r'(^| )[TDBRGSC] ', l)]
        for f in clash:
            out['violations'].append(dict(rule='C23.linkage', entry='all headers', msg='defined in a header with external linkage: a program of two translation units does not link: ' + f, at=f, stack=''))
        if q.returncode:
            out['trouble'].append('llvm-nm: ' + q.stderr[-200:])
        elif not clash:
            out['obligations']['C23.linkage'] = len(q.stdout.splitlines())
    return out


def interface(c):
    """every public operation with both kinds of sizes"""
    out = empty()
    with cf.ThreadPoolExecutor(max_workers=2) as ex:
        list(ex.map(lambda comp: judge(c, 'C23.interface', 'witness/iface.cpp', c['verif'] + '/witness/iface.cpp', out, compilers=(comp,)), ('g++', 'clang++')))
    return out


def owners(c):
    """a controller is the one owner of its solver"""
    out = empty()
    judge(c, 'C25.owner', 'witness/owners.cpp', c['verif'] + '/witness/owners.cpp', out, compilers=('clang++',))
    return out


def sizes(c):
    """size arithmetic in constant expressions and types"""
    out = empty()
    judge(c, 'C28.constant', 'witness/sizes.cpp', c['verif'] + '/witness/sizes.cpp', out, '-DSIZES_STATIC')
    return out
