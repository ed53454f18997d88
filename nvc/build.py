"""Builds everything a check needs from /repo's current working tree: exporter, exported IR, replay driver."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('NVC_REPO', '/repo')
CFLAGS = ['-D_GNU_SOURCE', '-O1', '-g1', '-fwrapv', '-w', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c']


def exporter(work):
    src = os.path.join(HERE, 'export.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    cache = '/tmp/nvc-exporter-%s-%d' % (h, os.getuid())
    exe = os.path.join(cache, 'nvcexport')
    if os.path.exists(exe):
        return exe
    d = tempfile.mkdtemp(dir=work)
    tmp = os.path.join(d, 'nvcexport')
    subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-I/usr/lib/llvm-18/include', src, '-o', tmp,
                    '-L/usr/lib/llvm-18/lib', '-lLLVM-18'], check=True, capture_output=True)
    try:
        os.makedirs(cache, exist_ok=True)
        t2 = exe + '.%d' % os.getpid()
        shutil.copy(tmp, t2)
        os.rename(t2, exe)
        return exe
    except OSError:
        return tmp


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[-3000:]))
    return r


def tu_name(src):
    return hashlib.sha256(src.encode()).hexdigest()[:6] + '_' + os.path.basename(src)


def compile_tu(exe, src, work, defs=()):
    base = os.path.join(work, tu_name(src))
    isC = src.endswith('.c')
    cc = ['clang-18', '-x', 'c', '-std=gnu11'] if isC else ['clang++-18', '-include', os.path.join(HERE, 'shim.hpp'), '-x', 'c++', '-std=gnu++11']
    run(cc + CFLAGS + list(defs) + ['-I' + REPO, src, '-o', base + '.bc'])
    run(['opt-18', '-passes=function(sroa)', base + '.bc', '-o', base + '.2.bc'])
    run([exe, base + '.2.bc', base + '.json'])
    os.unlink(base + '.bc')
    os.unlink(base + '.2.bc')
    return base + '.json'


def lib_sources():
    """the sources the repository's CMakeLists.txt globs, minus tests and benchmarks"""
    r = []
    for d, _, fs in os.walk(os.path.join(REPO, 'library')):
        for f in fs:
            if (f.endswith('.cpp') or f.endswith('.c')) and not f.endswith('Test.cpp') and not f.endswith('Benchmark.cpp'):
                r.append(os.path.join(d, f))
    return sorted(r)


def closure(names):
    """library sources whose path contains one of the given directory / file names"""
    out = []
    for s in lib_sources():
        rel = os.path.relpath(s, REPO)
        if any(n in rel for n in names):
            out.append(s)
    return out


def build_ir(work, sources):
    exe = exporter(work)
    out, err = [], []
    with cf.ThreadPoolExecutor(8) as p:
        futs = [(s, p.submit(compile_tu, exe, s, work)) for s in sources]
        for s, f in futs:
            try:
                out.append(f.result())
            except BuildError as e:
                err.append((s, str(e)))
    return out, err


def build_driver(work, driver, sanitize=True):
    """the replay driver linked against the library built from the current tree (g++, as shipped, plus ASan)"""
    flags = ['-D_GNU_SOURCE', '-std=gnu++11', '-g', '-O0', '-w', '-I' + REPO]
    if sanitize:
        flags += ['-fsanitize=address', '-fno-omit-frame-pointer']
    objs = []
    d = os.path.join(work, 'drv' + ('san' if sanitize else ''))
    os.makedirs(d, exist_ok=True)

    def one(s):
        o = os.path.join(d, tu_name(s) + '.o')
        if os.path.exists(o):
            return o
        cmd = (['gcc'] + [x for x in flags if x != '-std=gnu++11'] if s.endswith('.c') else ['g++'] + flags) + ['-c', s, '-o', o]
        run(cmd)
        return o
    with cf.ThreadPoolExecutor(8) as p:
        objs = list(p.map(one, lib_sources() + [driver]))
    exe = os.path.join(d, os.path.basename(driver) + '.exe')
    run(['g++'] + (['-fsanitize=address'] if sanitize else []) + objs + ['-o', exe, '-lpthread'])
    return exe
