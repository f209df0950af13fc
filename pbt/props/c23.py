"""A run that meets a failure of the file system says so; a run that says nothing has written the whole output."""
import os
import re
import shutil
import subprocess

from .. import build, gen
from ..core import ENV, CASE_TIMEOUT, Case, Fail, Prop, Run, Scratch, digest
from ..factor import Factor
from ..oracle import plain

ERROR = 'ошибка'
NOBODY = 65534
OLD = b'an older output\n' * 7


def may_switch():
    """Whether a process of another user can be started here."""
    try: return subprocess.run(['/bin/true'], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except (OSError, subprocess.SubprocessError): return False


class C23(Prop):
    id = 'C23'
    quick = (5000, 60)
    thorough = (150000, 800)
    chunk = 2
    rule = ('a case is a program of several files and up to 8 faults, each met by a run of its own; non-trivial: at least 3 faults took place and the program has at least 2 files; distinct by the program and the faults')
    assumptions = ['the faults are failures of open, read, write and close, limits of the file size and missing permissions; a lack of memory is not among them',
                   'an octet that was accepted by the system counts as written']

    def setup(self):
        self.ruc = build.ruc('rel')
        self.so = build.tool('fault.c', flags=('-O2', '-shared', '-fPIC'), cc='gcc', link=['-ldl'])
        self.switch = may_switch()

    # -- generation -------------------------------------------------------------------------------------------
    def gen(self, r):
        g = gen.generate(r, gen.Feat(), size=r.choice([0.2, 0.4, 0.7]))
        f = Factor(r, g[0].source() if g else 'void main() {}\n', ('include', 'files', 'object'))
        files, names, flags = f.build(r.randint(1, 5))
        target = r.choice(['VM', 'VM', 'LLVM', 'MIPS'])
        args = ['-' + target] + (['-E'] if r.random() < 0.2 else []) + (['-Wno'] if r.random() < 0.2 else []) + list(flags) + ['-I.']
        faults = []
        for _ in range(r.choice([4, 6, 8])):
            k = r.random()
            x = r.random()
            if k < 0.22: faults.append(['read', r.randint(0, 99), x])
            elif k < 0.5: faults.append(['write', 0, r.choice([x, x, 0, 1, 'last', 'some'])])
            elif k < 0.56: faults.append(['close', 0, 0])
            elif k < 0.66: faults.append(['open', r.randint(0, 99), 0])
            elif k < 0.74: faults.append(['short', 0, r.choice([1, 2, 3, 5, 64, 1000])])
            elif k < 0.84: faults.append(['limit', 0, r.choice([x, x, 0, 1, 'last'])])
            else: faults.append(['mode', r.randint(0, 99), r.choice(['readonly', 'readonly', 'secret', 'secret-dir', 'fixed-dir', 'fixed-out', 'no-search'])])
        return {'files': files, 'names': names, 'args': args, 'faults': faults}

    # -- running ----------------------------------------------------------------------------------------------
    def world(self, data):
        d = os.path.join(Scratch.root or Scratch.dir(), 'w%d' % os.getpid())
        if os.path.isdir(d): subprocess.run(['/bin/chmod', '-R', 'u+rwx', d])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/out')
        for n, t in data['files'].items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f: f.write(t.encode('utf-8', 'surrogateescape') if isinstance(t, str) else t)
        return d

    def run(self, d, data, fault=None, limit=None, user=None, old=None):
        out = os.path.join(d, 'out', 'res')
        if old is not None:
            with open(out, 'wb') as f: f.write(old)
        env = dict(ENV)
        log = os.path.join(d, 'log')
        if user is None and limit is None: env.update(LD_PRELOAD=self.so, FAULT_LOG=log)
        if fault: env['FAULT'] = fault
        kw = {'user': user, 'group': user, 'extra_groups': []} if user is not None else {}
        if limit is not None:
            import resource
            import signal

            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            kw.update(preexec_fn=pre, restore_signals=False)
        exe = self.mine() if user is not None else self.ruc
        p = subprocess.Popen([exe] + data['args'] + data['names'] + ['-o', 'out/res'], cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
        try:
            o, e = p.communicate(timeout=CASE_TIMEOUT)
            r = Run(p.returncode, o, e)
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            r = Run(-9, o, e, True)
        notes = []
        if os.path.exists(log):
            with open(log, errors='replace') as f: notes = f.read().splitlines()
        got = None
        if os.path.isfile(out):
            with open(out, 'rb') as f: got = f.read()
        return r, got, os.path.isfile(out) and bool(os.stat(out).st_mode & 0o111), notes

    def mine(self):
        """A copy of the compiler that an unprivileged user can start."""
        d = os.path.join(Scratch.root, 'bin')
        exe = os.path.join(d, 'ruc')
        if not os.path.exists(exe):
            os.chmod(Scratch.root, 0o755)
            t = d + '.%d' % os.getpid()
            shutil.copytree(os.path.dirname(self.ruc), t, ignore=lambda b, ns: [n for n in ns if n != 'ruc' and '.so' not in n])
            os.chmod(t, 0o755)
            try: os.rename(t, d)
            except OSError: shutil.rmtree(t)
        return exe

    def judge(self, data, stat=None):
        """Reason | None; counts the faults that took place."""
        stat = stat if stat is not None else {}
        d = self.world(data)
        r, ref, _, notes = self.run(d, data)
        if r.timeout: return 'the compiler does not end'
        if r.rc or ref is None: return None                     # nothing to compare with
        clean = plain(r.out + r.err)
        if ERROR in clean: return None
        inputs = sorted({n[3:] for n in notes if n.startswith('in ')})
        for kind, which, arg in data['faults']:
            d = self.world(data)
            size = len(ref)
            at = {'last': size - 1, 'some': size + 5}.get(arg, arg)
            if kind in ('write', 'limit') and isinstance(at, float): at = int(at * size)
            what = None
            if kind in ('read', 'open'):
                targets = inputs + (['out/res'] if kind == 'open' else [])
                t = targets[which % len(targets)]
                n = int(arg * (os.path.getsize(os.path.join(d, t)) + 1)) if kind == 'read' else 0
                got = self.run(d, data, '%s:%s:%d' % (kind, t, n), old=OLD)
                what = '%s of %s fails (octet %d)' % (kind, t, n)
            elif kind in ('write', 'close'):
                got = self.run(d, data, '%s:out/res:%d' % (kind, at))
                what = '%s of the output fails (octet %d of %d)' % (kind, at, size)
            elif kind == 'short':
                if '-E' in data['args']: continue      # its text names the files, and the stand-in for a file has no name
                got = self.run(d, data, 'short:*:%d' % at)
                what = 'files are read in pieces of %d octets' % at
            elif kind == 'limit':
                got = self.run(d, data, limit=at)
                what = 'the size of files is limited to %d octets (the output has %d)' % (at, size)
            else:
                if not self.switch: continue
                r1 = self.modes(d, data, arg, which)
                if r1 is None: continue
                what, must, old = r1
                got = self.run(d, data, user=NOBODY, old=None)
            x, res, exe, notes = got
            text = plain(x.out + x.err)
            if x.timeout: return 'the compiler does not end when ' + what
            if kind == 'mode': fault = must
            elif kind == 'limit': fault = at < size
            else: fault = any(n.startswith('fault') for n in notes)
            name = kind if kind != 'mode' else arg
            stat[name + ('' if fault else '-harmless')] = stat.get(name + ('' if fault else '-harmless'), 0) + 1
            if x.rc < 0: return 'killed by signal %d when %s' % (-x.rc, what)
            if fault:
                stat['taken'] = stat.get('taken', 0) + 1
                if x.rc == 0: return 'exit code 0 although %s' % what
                if ERROR not in text: return 'no diagnostic although %s' % what
                if exe and kind != 'mode': return 'the output of a failed run is executable: %s' % what
                if kind in ('read', 'open') and '-E' not in data['args'] and res != OLD: return 'an earlier output is changed although %s' % what
                if kind == 'mode' and arg == 'fixed-out' and res != OLD: return 'a protected output is changed'
            else:
                if x.rc: return 'exit code %d although nothing failed (%s): %s' % (x.rc, what, text[:200])
                if res != ref: return 'another output than usual although nothing failed (%s)' % what
                if text != clean and kind not in ('mode', 'short'): return 'other messages than usual (%s): %s' % (what, text[:200])
        return None

    def modes(self, d, data, arg, which):
        """Permissions for an unprivileged user: (description, must fail, earlier output)"""
        os.chmod(d, 0o755)
        os.chmod(d + '/out', 0o777)
        for b, ds, fs in os.walk(d):
            for n in fs: os.chmod(os.path.join(b, n), 0o644)
            for n in ds:
                if n != 'out': os.chmod(os.path.join(b, n), 0o755)
        names = sorted(data['files'])
        n = names[which % len(names)]
        p = os.path.join(d, n)
        if arg == 'readonly':
            for m in names: os.chmod(os.path.join(d, m), 0o444)
            return 'sources may only be read', False, None
        if arg == 'secret':
            if n not in data['names']: return None
            os.chmod(p, 0)
            return n + ' may not be read', True, None
        if arg == 'secret-dir':
            os.chmod(d + '/out', 0)
            return 'the directory of the output may not be used', True, None
        if arg == 'fixed-dir':
            os.chmod(d + '/out', 0o555)
            return 'the directory of the output may not be written', True, None
        if arg == 'fixed-out':
            with open(d + '/out/res', 'wb') as f: f.write(OLD)
            os.chmod(d + '/out/res', 0o444)
            return 'the output may not be written', True, OLD
        if arg == 'no-search':
            os.chmod(d, 0o311)
            return 'the directory of the sources may not be listed', False, None
        return None

    def case(self, rnd, i):
        data = self.gen(rnd)
        stat = {}
        w = self.judge(data, stat)
        taken = stat.pop('taken', 0)
        return Case(trivial=taken < 3 or len(data['files']) < 2, key=digest(repr(data)), n=len(data['faults']), tags=stat,
                    sample={'arguments': data['args'] + data['names'], 'files': {n: len(t) for n, t in data['files'].items()}, 'faults': data['faults']}, fail=Fail(why=w, data=data) if w else None)

    def replay(self, data):
        return self.judge(data)

    def shrink(self, data, why, deadline):
        head = re.sub(r'\d+', 'N', why)[:30]

        def same(x): return re.sub(r'\d+', 'N', self.judge(x) or '')[:30] == head
        for f in data['faults']:
            t = dict(data, faults=[f])
            if same(t):
                data = t
                break
        t = dict(data, files={'main.c': 'int q = 7;\nvoid main() { q++; }\n'}, names=['main.c'], args=[a for a in data['args'] if not a.startswith('-I')])
        if same(t): data = t
        return data, self.judge(data) or why

    def describe(self, data):
        return dict({n.replace('/', '_'): t for n, t in data['files'].items()}, **{'faults.txt': 'ruc %s\n%s' % (' '.join(data['args'] + data['names']), '\n'.join(map(str, data['faults'])))})


prop = C23()
