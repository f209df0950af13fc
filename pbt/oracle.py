"""Running programs through the compiler and the execution back ends."""
import os
import re
import subprocess

from . import build
from .core import ENV, Scratch, sh

ANSI = re.compile(rb'\x1b\[[0-9;]*m')


def write(name, text):
    p = os.path.join(Scratch.dir(), name)
    with open(p, 'wb') as f: f.write(text if isinstance(text, bytes) else text.encode('utf-8', 'surrogateescape'))
    return p


def remove(p):
    try: os.unlink(p)
    except FileNotFoundError: pass


def compile_(ruc, src, target='-VM', name='t.c', out='t.out', flags=()):
    """Compile source text; returns (Run, path of the output)."""
    p = write(name, src)
    o = os.path.join(Scratch.dir(), out)
    remove(o)
    r = sh([ruc, target, p, '-o', o] + list(flags))
    return r, o


def plain(b):
    return ANSI.sub(b'', b).decode('utf-8', 'replace')


class VM:
    """Compile for the virtual machine and execute the image on the harness's interpreter."""

    def __init__(self):
        self.ruc = build.ruc('rel')
        self.vm = build.tool('rucvm.cpp')

    def run(self, src, inp='', steps=4000000):
        """(output bytes, status) | (None, reason) when the program was not compiled."""
        r, o = compile_(self.ruc, src, '-VM')
        if r.timeout: return None, 'the compiler did not terminate'
        if r.rc: return None, 'the compiler rejected the program (exit %d): %s' % (r.rc, plain(r.err + r.out)[:600])
        if not os.path.exists(o): return None, 'the compiler reported success but wrote no output'
        i = write('t.in', inp)
        x = sh([self.vm, 'run', o, str(steps), i])
        m = re.search(rb'#status (.*)', x.err)
        st = m.group(1).decode('utf-8', 'replace') if m else 'vm died (%d)' % x.rc
        return x.out, st

    def judge(self, src, inp, want, status):
        """None if the compiled program behaves as the reference says, else the reason."""
        got, st = self.run(src, inp)
        if got is None: return st
        good = st.startswith('ok') if status == 'ok' else st.startswith('assert') if status == 'assert' else False
        w = want.encode('utf-8', 'surrogateescape')
        if not good or got != w:
            return 'expected %s with output %r, got %s with output %r' % (status, want[:400], st, got.decode('utf-8', 'replace')[:400])
        return None


class LL:
    """Compile for LLVM and execute the IR with LLVM 14's JIT (one server per process)."""
    servers = {}

    def __init__(self):
        self.ruc = build.ruc('rel')
        self.jit = build.tool('lljit.c', cc='gcc', link=['-ldl'])

    def server(self):
        s = self.servers.get(os.getpid())
        if s is None or s.poll() is not None:
            s = subprocess.Popen([self.jit], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=ENV, cwd=Scratch.dir())
            self.servers[os.getpid()] = s
        return s

    def exec(self, path, inp='', opt=0):
        i = write('t.in', inp)
        o = os.path.join(Scratch.dir(), 'll.out')
        remove(o)
        s = self.server()
        s.stdin.write(('%s %s %s %d\n' % (path, o, i, opt)).encode())
        s.stdin.flush()
        st = s.stdout.readline().decode('utf-8', 'replace').strip()
        out = b''
        if os.path.exists(o):
            with open(o, 'rb') as f: out = f.read()
        return out, st

    def run(self, src, inp='', opt=0):
        r, o = compile_(self.ruc, src, '-LLVM', out='t.ll')
        if r.timeout: return None, 'the compiler did not terminate'
        if r.rc: return None, 'the compiler rejected the program (exit %d): %s' % (r.rc, plain(r.err + r.out)[:600])
        if not os.path.exists(o): return None, 'the compiler reported success but wrote no output'
        return self.exec(o, inp, opt)

    def judge(self, src, inp, want, status, opt=0):
        got, st = self.run(src, inp, opt)
        if got is None: return st
        if status == 'ok': good = st.startswith('ok')
        elif status == 'assert': good = st == 'exit 1'
        else: good = st == 'exit %d' % (status[1] & 255)
        w = want.encode('utf-8', 'surrogateescape')
        if not good or got != w:
            return 'expected %s with output %r, got "%s" with output %r' % (status, want[:400], st, got.decode('utf-8', 'replace')[:400])
        return None
