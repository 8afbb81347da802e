"""Build the two native kernels of the code under test from the working tree.

The real pybind11 and GSL are not installed in this sandbox, so the unmodified sources are compiled
against the stand-in headers in ../shim.  Output goes to ../build/<hash>, where the hash covers the
sources, the stand-ins, the flags and the compiler, so a changed tree is always rebuilt.
"""
import fcntl
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SHIM = os.path.join(VERIF, 'shim')
BUILD = os.environ.get('VP_BUILD') or os.path.join(VERIF, 'build')
PYINC = '/usr/include/python3.12'

KERNELS = {
    'interactions.four_particle.cpp.integral': 'interactions/four_particle/cpp',
    'interactions.three_particle.cpp.integral': 'interactions/three_particle/cpp',
}

# `release` mirrors the project's Makefile; `strict` keeps IEEE semantics; the others are sanitizer builds
VARIANTS = {
    'release': dict(cxx='g++', cc='gcc', flags=['-O3', '-ffast-math', '-march=native', '-fopenmp'], gslflags=['-O2'],
                    link=['-fopenmp']),
    'strict': dict(cxx='g++', cc='gcc', flags=['-O2', '-fopenmp'], gslflags=['-O2'], link=['-fopenmp']),
    'asan': dict(cxx='g++', cc='gcc',
                 flags=['-O1', '-g', '-fno-omit-frame-pointer', '-fopenmp', '-D_GLIBCXX_ASSERTIONS',
                        '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all',
                        '-fsanitize=float-cast-overflow'],
                 gslflags=['-O1', '-g', '-fsanitize=address'], link=['-fopenmp', '-fsanitize=address,undefined']),
    # run under valgrind's memcheck, which knows which bytes have been initialised
    'memcheck': dict(cxx='g++', cc='gcc', flags=['-O1', '-g', '-fno-omit-frame-pointer', '-fopenmp'], gslflags=['-O1', '-g'], link=['-fopenmp']),
    # clang lowers `#pragma omp` to __kmpc_*; gcc to GOMP_*: ../shim/gomp.c implements GOMP_* on instrumented
    # pthreads, so that ThreadSanitizer sees the fork and join of every parallel region
    'tsan': dict(cxx='g++', cc='gcc',
                 flags=['-O1', '-g', '-fno-omit-frame-pointer', '-fopenmp', '-fsanitize=thread'],
                 gslflags=['-O1', '-g', '-fsanitize=thread'], link=['-fsanitize=thread', '-lpthread'], gomp=True),
}


class BuildError(Exception):
    pass


def sources(cppdir):
    """ The .cpp prerequisites of the project's own Makefile rule """
    d = os.path.join(REPO, cppdir)
    names = []
    try:
        with open(os.path.join(d, 'Makefile')) as f:
            for line in f:
                m = re.match(r'integral\.so\s*:(.*)', line)
                if m:
                    names = re.findall(r'[\w./-]+\.cpp', m.group(1))
    except OSError:
        pass
    if not names:
        names = ['integral.cpp'] + (['Ds.cpp'] if os.path.exists(os.path.join(d, 'Ds.cpp')) else [])
    return [os.path.join(d, n) for n in names]


def _digest(variant):
    h = hashlib.sha256()
    h.update(repr(sorted(VARIANTS[variant].items(), key=str)).encode())
    trees = [SHIM] + [os.path.join(REPO, d) for d in KERNELS.values()]
    for tree in trees:
        for root, dirs, files in sorted(os.walk(tree)):
            dirs.sort()
            for name in sorted(files):
                if name.endswith(('.cpp', '.h', '.hpp', '.c', '.cc', 'Makefile')):
                    p = os.path.join(root, name)
                    h.update(p.encode())
                    with open(p, 'rb') as f:
                        h.update(f.read())
    try:
        with open('/proc/cpuinfo') as f:
            h.update(next((l for l in f if l.startswith('flags')), '').encode())
    except OSError:
        pass
    return h.hexdigest()[:20]


def _run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log.append(' '.join(cmd) + '\n' + r.stdout)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-4000:])


def build(variant='release'):
    """ Returns {module name: path of the shared object} """
    v = VARIANTS[variant]
    out = os.path.join(BUILD, variant + '-' + _digest(variant))
    result = {m: os.path.join(out, m.replace('.', '_') + '.so') for m in KERNELS}
    if all(map(os.path.exists, result.values())):
        return result
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock-' + variant), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if all(map(os.path.exists, result.values())):
            return result
        # drop stale builds of this variant
        for name in os.listdir(BUILD):
            if name.startswith(variant + '-') and os.path.join(BUILD, name) != out:
                subprocess.run(['rm', '-rf', os.path.join(BUILD, name)])
        os.makedirs(out, exist_ok=True)
        log = []
        gsl = os.path.join(out, 'gsl.o')
        _run([v['cc'], '-std=gnu11', '-fPIC', '-I', SHIM] + v['gslflags']
             + ['-c', os.path.join(SHIM, 'gsl/gsl.c'), '-o', gsl], log)
        extra = [gsl]
        if v.get('gomp'):
            gomp = os.path.join(out, 'gomp.o')
            _run([v['cc'], '-std=gnu11', '-fPIC', '-I', SHIM] + v['gslflags']
                 + ['-c', os.path.join(SHIM, 'gomp.c'), '-o', gomp], log)
            extra.append(gomp)
        procs = []
        jobs = []
        for mod, cppdir in KERNELS.items():
            objs = []
            for src in sources(cppdir):
                obj = os.path.join(out, mod.replace('.', '_') + '_' + os.path.basename(src) + '.o')
                cmd = [v['cxx'], '-std=c++11', '-fPIC', '-w', '-I', SHIM, '-I', PYINC] + v['flags'] + ['-c', src, '-o', obj]
                procs.append((cmd, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
                objs.append(obj)
            jobs.append((mod, objs))
        failed = None
        for cmd, p in procs:
            o, _ = p.communicate()
            if p.returncode and not failed:
                failed = ' '.join(cmd) + '\n' + o[-4000:]
        if failed:
            raise BuildError(failed)
        for mod, objs in jobs:
            tmp = result[mod] + '.tmp'
            _run([v['cxx'], '-shared', '-o', tmp] + objs + extra + v['link'] + ['-lm'], log)
            os.rename(tmp, result[mod])
    return result


if __name__ == '__main__':
    for name in sys.argv[1:] or ['release']:
        for m, p in build(name).items():
            print(name, m, p)
