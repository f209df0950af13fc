"""The sanitized compiler as a server: each input is compiled in a forked child."""
import os
import re
import subprocess

from . import build
from .core import ENV, Scratch

# undefined arithmetic of the host (overflow, shifts) is judged by the properties on values; here only what may corrupt the process counts
FLAGS = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,null,alignment,bounds,object-size,return,unreachable,vla-bound,integer-divide-by-zero,pointer-overflow', '-fno-sanitize-recover=all']
SENV = dict(ENV, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:max_allocation_size_mb=2000:symbolize=1:fast_unwind_on_malloc=1:malloc_context_size=2',
            UBSAN_OPTIONS='print_stacktrace=1:exitcode=99')
for s in ('/usr/bin/llvm-symbolizer-18', '/usr/lib/llvm-18/bin/llvm-symbolizer', '/usr/bin/llvm-symbolizer'):
    if os.path.exists(s):
        SENV['ASAN_SYMBOLIZER_PATH'] = s
        break


class Server:
    def __init__(self, tag='fuzz', flags=FLAGS, env=SENV):
        self.exe, self.env, self.procs = build.driver('fuzzd.cpp', tag, ['compiler', 'macro', 'utils'], flags), env, {}

    def proc(self):
        p = self.procs.get(os.getpid())
        if p is None or p.poll() is not None:
            p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, cwd=Scratch.dir())
            self.procs[os.getpid()] = p
        return p

    def batch(self, jobs, secs=4):
        """For each (directory, arguments): (kind, number, stdout, stderr) of the compiler started there."""
        p = self.proc()
        p.stdin.write(('%d\t%d\n' % (len(jobs), secs)).encode() + b''.join('\t'.join([d] + args).encode('utf-8', 'surrogateescape') + b'\n' for d, args in jobs))
        p.stdin.flush()
        res = []
        for d, _ in jobs:
            a = p.stdout.readline().split()
            if len(a) != 2: raise RuntimeError('the compile server died')
            out, err = [open(os.path.join(d, n), 'rb').read() if os.path.exists(os.path.join(d, n)) else b'' for n in ('.out', '.err')]
            res.append((a[0].decode(), int(a[1]), out, err))
        return res

    def run(self, d, args, secs=4):
        return self.batch([(d, args)], secs)[0]


FRAME = re.compile(rb'#\d+ 0x[0-9a-f]+ in (\S+) ')
SUMMARY = re.compile(rb'SUMMARY: (?:AddressSanitizer|UndefinedBehaviorSanitizer): (\S+) (?:\S+ in (\S+))?')


def site(err):
    """Kind of a sanitizer report and the innermost functions of the tree on its stack."""
    m = re.search(rb'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m: kind = m.group(1).decode()
    else:
        m = re.search(rb'runtime error: ([^\n]*)', err)
        if not m: return None
        kind = re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1).decode('utf-8', 'replace'))[:60]
    fr = []
    for l in err[m.start():].split(b'\n'):
        f = re.search(rb'#\d+ 0x[0-9a-f]+ in (\S+) (\S*)', l)
        if f and b'/libs/' in f.group(2): fr.append(f.group(1).decode())
        elif fr and not f: break
    return kind, fr[:3]
