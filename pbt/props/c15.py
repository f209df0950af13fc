"""Whatever stands in the files and on the command line, the compiler ends in an orderly way."""
import os
import re
import shutil
import time

from .. import build, fuzz, mutate
from ..core import Case, Fail, Prop, Scratch, digest, sh

CODES = {0: 'ok', 1: 'system', 65: 'preprocessor', 66: 'parser', 67: 'linker', 69: 'generator', 70: 'vm', 71: 'llvm', 72: 'mips'}
BATCH = 24
ERROR = 'ошибка'.encode()
SLOW = 20       # seconds of the release build before an input counts as endless
REPEAT = re.compile(r'#\s*(?:while|macro|пока|цикл|макро|while)', re.I)
DIRECTIVE = re.compile(r'#\s*\w+\s+([^\W\d]\w*)((?:[^\n\\]|\\.)*)', re.S)


def may_repeat(files):
    """Whether macros may refer to each other or directives repeat text: the time such an input takes is not judged."""
    t = '\n'.join(files.values()).encode('latin-1').decode('utf-8', 'replace')
    if len(t) > 12000 or REPEAT.search(t): return True
    ds = DIRECTIVE.findall(t)
    names = {n for n, _ in ds}
    return any(names & set(re.findall(r'[^\W\d]\w*', b)) for _, b in ds) or t.count('#') > 400


class C15(Prop):
    id = 'C15'
    quick = (4000, 75)
    thorough = (80000, 800)
    chunk = 2
    rule = ('a case is one run of the compiler, built with AddressSanitizer and the memory checks of UBSan, over generated files: programs and preprocessor files damaged by token, line and octet edits, '
            'text from a grammar without semantics, and very long or deep input; non-trivial: at least 16 octets')
    assumptions = ['an input with repeating directives or macros that refer to each other may take long (the time of such inputs is not judged)',
                   'nesting is at most 200 levels deep and the input at most 12000 octets long, or 80000 if well-formed; the time of inputs above 12000 octets is not judged (a diagnostic takes time proportional to the square of the length of the input)',
                   'signed overflow inside the compiler is not judged here']

    def setup(self):
        self.srv = fuzz.Server()
        self.rel = build.ruc('rel')

    def input(self, rnd):
        kind, b = mutate.Mutator(rnd).input()
        files = {'t.c': b.decode('latin-1')}
        args = [rnd.choice(['-VM', '-VM', '-LLVM', '-MIPS', '-E']), 't.c']
        if rnd.random() < 0.12 and len(b) < 6000:
            files['a.h'] = mutate.Mutator(rnd).input()[1][:6000].decode('latin-1')
            if rnd.random() < 0.7: files['t.c'] = '#include "a.h"\n' + files['t.c']
            elif rnd.random() < 0.5: args.insert(rnd.randint(1, 2), 'a.h')
            kind = 'files'
        if rnd.random() < 0.1: args += self.flags(rnd)
        return kind, {'files': files, 'args': args + ['-o', 'o']}

    def case(self, rnd, i):
        batch = [self.input(rnd) for _ in range(BATCH)]
        res = self.srv.batch([(self.put(d['files'], j), d['args']) for j, (_, d) in enumerate(batch)])
        c = Case(key=[digest(repr(d['files'])) for _, d in batch if len(d['files']['t.c']) >= 16], n=BATCH)
        for j, ((kind, d), r) in enumerate(zip(batch, res)):
            w, code = self.verdict(d, r, j)
            for t in (kind, 'exit-%s' % code, d['args'][0]): c.tags[t] = c.tags.get(t, 0) + 1
            if w and not c.fail: c.fail = Fail(why=w, data=d)
        c.sample = {'kind': kind, 'args': d['args'], 'text': d['files']['t.c'][:400].encode('latin-1').decode('utf-8', 'replace')}
        return c

    def flags(self, rnd):
        f = []
        for _ in range(rnd.randint(1, 4)):
            f.append(rnd.choice(['-D', '-D=', '-DA', '-DA=1', '-DA=', '-D1', '-D%s' % ('a' * rnd.choice([300, 1021, 1022, 1023, 1024, 1025, 3000])), '-Dx=%s' % ('b' * rnd.choice([10, 1018, 1020, 1023, 2000])), '-DA B', '-DЯ=2', '-Dm(x)=x',
                                 '-Wno', '-c', '-', '--', '-x', '-I.', '-I', '-I/nonexistent', '-I' + './' * rnd.choice([3, 500, 511, 512, 600]), '-I' + 'd/' * 700, '-E', '-VM', '-LLVM', '-MIPS', 't.c', './t.c', 'missing.c', '.', '', '-o']))
        return f

    def put(self, files, j=0):
        d = os.path.join(Scratch.dir(), 'd%d' % j)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for n, t in files.items():
            with open(os.path.join(d, n), 'wb') as f: f.write(t.encode('latin-1'))
        return d

    def judge(self, data, every=False):
        """(reason or None, exit code)"""
        return self.verdict(data, self.srv.run(self.put(data['files']), data['args']), 0, every)

    def verdict(self, data, result, j, every=False):
        kind, code, out, err = result
        args = data['args']
        mips = '-MIPS' in args
        if kind == 'timeout':
            if may_repeat(data['files']) and not every: return None, 'slow'
            r = sh([self.rel] + args, cwd=self.put(data['files'], j), timeout=SLOW if not every else 10)
            if r.timeout: return 'the compiler does not terminate', 'timeout'
            return None, 'slow'
        if kind == 'signal' or code == 99:
            s = fuzz.site(err)
            if mips and s and s[1] and 'register' in s[1][0] and 'out of bounds' in s[0] and not every: return None, 'registers'     # recorded finding
            return 'the compiler %s: %s' % ('is killed by signal %d' % code if kind == 'signal' else 'makes an invalid memory access or operation', '%s in %s' % (s[0], ' < '.join(s[1])) if s else err[-300:].decode('utf-8', 'replace')), 'crash'
        if code not in CODES: return 'the exit code %d has no meaning' % code, code
        reported = ERROR in err + out
        if mips and code == 0 and reported and not every: return None, 'mips-internal'   # recorded finding
        if code and not reported: return 'exit code %d without a diagnostic' % code, code
        if not code and reported: return 'a diagnostic of an error is printed, but the exit code is 0: ' + err[:300].decode('utf-8', 'replace'), code
        return None, CODES[code]

    def replay(self, data):
        return self.judge(data, data.get('every', False))[0]

    def shrink(self, data, why, deadline):
        head = why[:40]

        def bad(d): return time.time() < deadline and (self.replay(d) or '').startswith(head)
        for n in sorted(data['files']):
            if n != 't.c' and len(data['files']) > 1:
                q = dict(data, files={k: v for k, v in data['files'].items() if k != n}, args=[a for a in data['args'] if a != n])
                if bad(q): data = q
        for i in range(len(data['args']) - 3, 1, -1):
            q = dict(data, args=data['args'][:i] + data['args'][i + 1:])
            if bad(q): data = q
        for n in list(data['files']):
            for unit in ('(?<=\n)', '(?<=\\W)|(?=\\W)', ''):
                t = re.split(unit, data['files'][n]) if unit else list(data['files'][n])
                size = max(1, len(t) // 2)
                while True:
                    i = 0
                    while i < len(t) and time.time() < deadline:
                        u = t[:i] + t[i + size:]
                        if bad(dict(data, files=dict(data['files'], **{n: ''.join(u)}))): t = u
                        else: i += size
                    if size == 1 or time.time() > deadline: break
                    size //= 2
                data = dict(data, files=dict(data['files'], **{n: ''.join(t)}))
        return data, self.replay(data) or why

    def describe(self, data):
        return dict({n: t.encode('latin-1') for n, t in data['files'].items()}, **{'command.txt': 'ruc ' + ' '.join(data['args'])})


prop = C15()
