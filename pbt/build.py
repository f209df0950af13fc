"""Builds of the code under test, always from /repo's current working tree.

Every build lives in /verif/.build/<content hash>/<variant>; the hash covers every source and
build file of the tree, so an unchanged tree is built once and a changed one is never missed.
/repo itself is only read.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys

REPO = os.environ.get('RUC_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = os.environ.get('RUC_BUILD') or os.path.join(VERIF, '.build')
HARNESS = os.path.join(VERIF, 'harness')
_hash = None


class BuildError(Exception):
    pass


def tree_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for base in ('CMakeLists.txt', 'src', 'libs', 'scripts'):
            top = os.path.join(REPO, base)
            files = [top] if os.path.isfile(top) else sorted(
                os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)
            for f in files:
                if not os.path.isfile(f): continue
                h.update(os.path.relpath(f, REPO).encode() + b'\0')
                with open(f, 'rb') as fh: h.update(fh.read())
                h.update(b'\0')
        _hash = h.hexdigest()[:20]
    return _hash


def _dir():
    d = os.path.join(ROOT, tree_hash())
    if not os.path.isdir(d):
        os.makedirs(d, exist_ok=True)
        for o in os.listdir(ROOT):      # builds of other trees are stale
            p = os.path.join(ROOT, o)
            if os.path.isdir(p) and o != tree_hash() and o != 'tools':
                shutil.rmtree(p, ignore_errors=True)
    return d


class _Lock:
    def __enter__(self):
        os.makedirs(ROOT, exist_ok=True)
        self.f = open(os.path.join(ROOT, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _sh(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(p.stdout.decode('utf-8', 'replace')[-6000:])
        raise BuildError(' '.join(cmd))


SAN = '-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer'
VARIANTS = {
    'rel': ['-DCMAKE_BUILD_TYPE=Release', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++'],
    'dbg': ['-DCMAKE_BUILD_TYPE=Debug', '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++'],
    'san': ['-DCMAKE_BUILD_TYPE=Release', '-DCMAKE_C_COMPILER=clang', '-DCMAKE_CXX_COMPILER=clang++',
            '-DCMAKE_C_FLAGS=-g ' + SAN, '-DCMAKE_CXX_FLAGS=-g ' + SAN, '-DCMAKE_EXE_LINKER_FLAGS=' + SAN,
            '-DCMAKE_SHARED_LINKER_FLAGS=' + SAN],
}


def ruc(variant='rel'):
    """Path of the compiler built in the given variant."""
    with _Lock():
        d = os.path.join(_dir(), variant)
        exe = os.path.join(d, 'ruc')
        if not os.path.exists(os.path.join(d, 'done')):
            shutil.rmtree(d, ignore_errors=True)
            env = dict(os.environ, CCACHE_DISABLE='1', LC_ALL='C.UTF-8')
            _sh(['cmake', '-S', REPO, '-B', d, '-G', 'Ninja'] + VARIANTS[variant], env=env)
            _sh(['ninja', '-C', d], env=env)
            open(os.path.join(d, 'done'), 'w').close()
        return exe


def libs_sources(*names):
    return sorted(f for n in names for f in glob.glob(os.path.join(REPO, 'libs', n, '*.c')))


def includes(*names):
    return ['-I' + os.path.join(REPO, 'libs', n) for n in names]


CDEFS = ['-D_POSIX_C_SOURCE=200112L', '-DNDEBUG']


def objects(tag, libs, flags, cc='clang'):
    """Compile all C files of the given libraries of the tree to one static archive."""
    with _Lock():
        d = os.path.join(_dir(), 'obj-' + tag)
        ar = os.path.join(d, 'lib.a')
        if not os.path.exists(ar):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            procs = []
            for lib in libs:
                for f in libs_sources(lib):
                    o = os.path.join(d, lib + '_' + os.path.basename(f)[:-2] + '.o')
                    procs.append(([cc, '-std=gnu11', '-w', '-c', f, '-o', o] + flags + CDEFS + includes(*libs), o))
            run = [(subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c) for c, _ in procs]
            for p, c in run:
                out, _ = p.communicate()
                if p.returncode:
                    sys.stderr.write(out.decode('utf-8', 'replace')[-4000:])
                    raise BuildError(' '.join(c))
            _sh(['ar', 'rcs', ar] + [o for _, o in procs])
        return ar


def driver(src, tag, libs, flags, cc='clang++', std='-std=c++20', link=()):
    """Build a harness of /verif against the tree's libraries."""
    ar = objects(tag, libs, flags, 'clang') if libs else None
    with _Lock():
        d = os.path.join(_dir(), 'drv-' + tag)
        os.makedirs(d, exist_ok=True)
        exe = os.path.join(d, os.path.splitext(os.path.basename(src))[0])
        with open(os.path.join(HARNESS, src), 'rb') as fh: stamp = hashlib.sha256(fh.read()).hexdigest()
        if not os.path.exists(exe) or not os.path.exists(exe + '.stamp') or open(exe + '.stamp').read() != stamp:
            _sh([cc, std, '-w'] + flags + CDEFS + includes(*libs) + [os.path.join(HARNESS, src)] + ([ar] if ar else []) + ['-o', exe, '-lm'] + list(link))
            with open(exe + '.stamp', 'w') as fh: fh.write(stamp)
        return exe


def tool(src, flags=('-O2',), cc='g++', link=()):
    """Build a tool of /verif that does not depend on /repo."""
    with _Lock():
        d = os.path.join(ROOT, 'tools')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(HARNESS, src), 'rb') as fh: stamp = hashlib.sha256(fh.read()).hexdigest()[:16]
        exe = os.path.join(d, os.path.splitext(os.path.basename(src))[0] + '-' + stamp)
        if not os.path.exists(exe):
            _sh([cc, '-w'] + list(flags) + [os.path.join(HARNESS, src), '-o', exe + '.tmp'] + list(link))
            os.rename(exe + '.tmp', exe)
        return exe
