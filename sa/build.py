"""Compile the library's translation units from /repo's working tree to LLVM IR (front end only, nothing is
linked or run) into a scratch directory, and load them."""
import os, re, glob, subprocess, tempfile, shutil, sys
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('SA_REPO', '/repo')   # override used only when trying planted changes in scratch copies
LIB = REPO + '/libeantic'
CLANG, CLANGXX, OPT = '/usr/bin/clang-18', '/usr/bin/clang++-18', '/usr/bin/opt-18'


class BuildError(Exception):
    pass


def scratch():
    base = os.environ.get('VERIF_SCRATCH') or '/tmp'
    return tempfile.mkdtemp(prefix='eantic-sa-', dir=base)


def prepare(d):
    """configuration headers that ./configure would generate"""
    inc = os.path.join(d, 'inc')
    os.makedirs(inc + '/e-antic', exist_ok=True)
    for dd in (inc, inc + '/e-antic'):
        open(dd + '/config.generated.h', 'w').write('#define PACKAGE "libeantic"\n#define VERSION "0"\n')
    src = LIB + '/e-antic/local.h.in'
    txt = open(src).read() if os.path.exists(src) else ''
    txt = re.sub(r'@\w+@', '/usr/local', txt)
    for dd in (inc, inc + '/e-antic'):
        open(dd + '/local.h', 'w').write(txt)
    return ['-I' + inc + '/e-antic', '-I' + inc, '-I' + LIB]


def c_sources():
    return sorted(glob.glob(LIB + '/src/**/*.c', recursive=True))


def cxx_sources():
    return sorted(glob.glob(LIB + '/srcxx/*.cpp'))


def name_of(f):
    r = os.path.relpath(f, LIB)
    return r.replace('/', '__')


def _one(job):
    src, out, cmd = job
    p1 = subprocess.run(cmd + ['-o', out + '.raw', src], capture_output=True, text=True)
    if p1.returncode:
        return src, p1.stderr
    p2 = subprocess.run([OPT, '-S', '-passes=mem2reg', out + '.raw', '-o', out], capture_output=True, text=True)
    os.unlink(out + '.raw')
    if p2.returncode:
        return src, p2.stderr
    return src, None


def compile_to(d, c=True, cxx=True, extra=()):
    flags = prepare(d)
    common = ['-O0', '-g', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', '-w'] + flags
    jobs = []
    if c:
        for f in c_sources():
            jobs.append((f, os.path.join(d, name_of(f) + '.ll'), [CLANG, '-std=gnu11'] + common))
    if cxx:
        for f in cxx_sources():
            jobs.append((f, os.path.join(d, name_of(f) + '.ll'), [CLANGXX, '-std=c++17', '-I' + LIB + '/srcxx'] + common))
    for f, cmd in extra:
        jobs.append((f, os.path.join(d, os.path.basename(f) + '.ll'), cmd + common))
    jobs.sort(key=lambda j: not j[0].endswith('.cpp'))
    errs = []
    with ThreadPoolExecutor(8) as ex:
        for src, e in ex.map(_one, jobs):
            if e:
                errs.append((src, e))
    if errs:
        raise BuildError('\n'.join('%s: %s' % (s, e[:600]) for s, e in errs[:3]))
    return [j[1] for j in jobs]


def load(paths):
    return [ir.Module(p) for p in sorted(paths)]
