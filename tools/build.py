#!/usr/bin/env python3
"""Builds TenniS (from /repo's current working tree) plus one harness, with ninja, outside /repo.

Variants are sets of compiler flags; objects land in /verif/build/<variant>/.
The source list repeats the rule of /repo/CMakeLists.txt: every .cpp under src/,
kernels restricted to the `common` and `cpu` archives.
"""
import os, subprocess, sys, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))

DEFS = ['BUILDING_TENNIS', 'NDEBUG', 'TS_USE_AVX', 'TS_USE_DEBUG_API', 'TS_USE_FMA', 'TS_USE_HOOK',
        'TS_USE_OPENMP', 'TS_USE_PROFILER', 'TS_USE_SIMD', 'TS_DISABLE_PARALLEL']
COMMON = '-std=c++11 -w -fPIC -mavx -mavx2 -mfma'.split()

VARIANTS = {
    # name: (flags for the library, flags for the harness, link flags, use openmp pragmas)
    'plain': (['-O1', '-fopenmp'], ['-O1', '-fopenmp'], ['-fopenmp', '-lpthread']),
    'asan':  (['-O1', '-fopenmp', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'],
              ['-O1', '-fopenmp', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'],
              ['-fopenmp', '-fsanitize=address', '-lpthread']),
    # every memory access and synchronisation operation becomes a call into our own scheduler
    'sched': (['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-g1'],
              ['-O1', '-fsanitize=thread', '-fno-omit-frame-pointer', '-g1'],
              ['-lpthread', '-ldl', '-Wl,-z,now']),
}

PCH = ''.join('#include <%s>\n' % h for h in
              '''vector string map unordered_map set unordered_set memory functional algorithm sstream iostream
              fstream thread mutex condition_variable atomic numeric cmath cstring queue list array chrono
              iomanip limits immintrin.h'''.split())


def sources():
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        rel = os.path.relpath(d, os.path.join(REPO, 'src'))
        parts = rel.split(os.sep)
        if parts[0] == 'kernels' and (len(parts) < 2 or parts[1] not in ('common', 'cpu')):
            continue
        out += [os.path.join(d, f) for f in fs if f.endswith('.cpp')]
    return sorted(out)


def esc(s):
    return s.replace('$', '$$').replace(' ', '$ ').replace(':', '$:')


def generate(variant, harness, only=None, extra_src=(), extra_flags=()):
    lf, hf, ld = VARIANTS[variant]
    bd = os.path.join(BUILD, variant)
    os.makedirs(bd, exist_ok=True)
    pch = os.path.join(bd, 'pch.h')
    body = '#define TS_SOLUTION_DIR "%s"\n' % REPO + PCH
    if not os.path.exists(pch) or open(pch).read() != body:
        open(pch, 'w').write(body)
    inc = ['-I%s/include' % REPO, '-I%s/src' % REPO]
    defs = ['-D' + d for d in DEFS]
    srcs = sources()
    if only is not None:
        srcs = [s for s in srcs if any(os.path.relpath(s, REPO + '/src').startswith(p) for p in only)]
    L = []
    L.append('ninja_required_version = 1.5')
    L.append('libflags = ' + ' '.join(COMMON + lf + defs + inc))
    L.append('harflags = ' + ' '.join(COMMON + hf + defs + inc + ['-I' + os.path.join(VERIF, 'harness')]))
    L.append('rule pch\n  command = g++ $libflags -x c++-header $in -o $out')
    L.append('rule cc\n  command = g++ $libflags -include pch.h -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc')
    L.append('rule har\n  command = g++ $harflags -include pch.h $xf -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc')
    L.append('rule raw\n  command = g++ -std=c++14 -O2 -fPIC -w -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc')
    L.append('rule link\n  command = g++ -rdynamic -o $out @$out.rsp ' + ' '.join(ld) + '\n  rspfile = $out.rsp\n  rspfile_content = $in')
    L.append('build pch.h.gch: pch pch.h')
    objs = []
    for s in srcs:
        o = 'lib/' + os.path.relpath(s, REPO + '/src').replace('/', '__')[:-4] + '.o'
        L.append('build %s: cc %s | pch.h.gch' % (o, esc(s)))
        objs.append(o)
    name = os.path.splitext(os.path.basename(harness))[0]
    tag = name
    hs = [harness] + list(extra_src)
    for h in hs:
        n = os.path.basename(h)
        o = 'har/%s__%s.o' % (tag, os.path.splitext(n)[0])
        if n.startswith('rt_'):
            L.append('build %s: raw %s' % (o, esc(h)))
        else:
            L.append('build %s: har %s | pch.h.gch\n  xf = %s' % (o, esc(h), ' '.join(extra_flags)))
        objs.append(o)
    L.append('build %s: link %s' % (tag, ' '.join(objs)))
    nf = os.path.join(bd, tag + '.ninja')
    txt = '\n'.join(L) + '\n'
    if not os.path.exists(nf) or open(nf).read() != txt:
        open(nf, 'w').write(txt)
    return bd, nf, tag


def build(variant, harness, only=None, extra_src=(), extra_flags=()):
    if variant == 'sched':
        extra_src = list(extra_src) + [os.path.join(VERIF, 'harness', 'rt_sched.cpp')]
    bd, nf, tag = generate(variant, harness, only, extra_src, extra_flags)
    p = subprocess.run(['ninja', '-C', bd, '-f', nf, '-j', str(os.cpu_count() or 8), tag],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        keep = [l for l in p.stdout.splitlines() if 'error' in l or 'FAILED' in l or 'undefined' in l]
        sys.stderr.write('\n'.join(l[:400] for l in keep[:30]) + '\n')
        raise SystemExit('build of %s (%s) failed' % (harness, variant))
    return os.path.join(bd, tag)


if __name__ == '__main__':
    print(build(sys.argv[1], os.path.join(VERIF, 'harness', sys.argv[2])))
