"""One input has one outcome: neither memory contents nor earlier compilations nor the kind of build matter."""
import os
import shutil
import time

from .. import build, factor, fuzz, gen, mutate, pp, ppgen
from ..core import ENV, Case, Fail, Prop, Scratch, digest, sh
from .c15 import C15, may_repeat

BATCH = 16
TARGETS = ['-VM', '-VM', '-VM', '-LLVM', '-LLVM', '-MIPS', '-E']
POISON = ['-O1', '-ftrivial-auto-var-init=pattern', '-fno-sanitize=all']


def outcome(kind, code, out, err, d):
    o = os.path.join(d, 'o')
    return {'exit code': '%s %d' % (kind, code), 'diagnostics': err, 'standard output': out, 'output file': open(o, 'rb').read() if os.path.isfile(o) else None}


class C16(C15):
    id = 'C16'
    quick = (1500, 60)
    thorough = (60000, 800)
    chunk = 2
    rule = ('a case is one input (program, damaged program, preprocessor files) compiled for one target three times: by the Release build in a process of its own, by the Debug build, and by a build that fills every variable of the stack and '
            'every allocation with a pattern, after up to 15 other inputs in the same process; non-trivial: at least 60 octets')
    assumptions = ['the Debug build writes a dump of its tables beside the output (not judged), and is not asked for MIPS code: its assertions stop at constructs that back end does not support', 'inputs with repeating directives or very long names, and inputs that take longer than 4 s, are not judged']

    def setup(self):
        self.rel = build.ruc('rel')
        self.dbg = build.ruc('dbg')
        self.srv = fuzz.Server('poison', POISON, dict(ENV, MALLOC_PERTURB_='165', GLIBC_TUNABLES='glibc.malloc.tcache_count=0'))

    def input(self, rnd):
        k = rnd.random()
        files, kind = {}, 'program'
        m = mutate.Mutator(rnd)
        if k < 0.45: t = m.program().encode('utf-8', 'surrogateescape')
        elif k < 0.6:
            kind, t = 'preprocessor', m.preproc().encode('utf-8', 'surrogateescape')
        else:
            kind, t = m.input()
            if kind == 'long': kind, t = 'grammar', m.grammar().encode('utf-8', 'surrogateescape')
        t = t[:12000]
        args = [rnd.choice(TARGETS), 't.c']
        if rnd.random() < 0.15:
            files['a.h'] = m.input()[1][:3000].decode('latin-1')
            t = b'#include "a.h"\n' + t
        files['t.c'] = t.decode('latin-1')
        if rnd.random() < 0.1: args += rnd.choice([['-Wno'], ['-c'], ['-DA=1'], ['-I.'], ['-DЯ=2', '-Dx']])
        return kind, {'files': files, 'args': args + ['-o', 'o']}

    def poisoned(self, datas):
        """Outcomes of the compilations one after another in one process."""
        ds = [self.put(d['files'], j) for j, d in enumerate(datas)]
        return [outcome(*r, d) for r, d in zip(self.srv.batch([(d, q['args']) for d, q in zip(ds, datas)]), ds)]

    def alone(self, data, exe, j, env):
        d = self.put(data['files'], j)
        r = sh([exe] + data['args'], cwd=d, timeout=8, env=dict(ENV, **env))
        if r.timeout: return None
        return outcome('exit' if r.rc >= 0 else 'signal', abs(r.rc), r.out, r.err, d)

    def differ(self, a, b, who):
        for k in a:
            if a[k] != b[k]:
                x, y = (v if isinstance(v, bytes) else str(v).encode() for v in (a[k], b[k]))
                i = next((i for i, (p, q) in enumerate(zip(x, y)) if p != q), min(len(x), len(y)))
                return '%s: the %s differs: ...%s  instead of ...%s' % (who, k, y[max(0, i - 20):i + 40].decode('utf-8', 'replace'), x[max(0, i - 20):i + 40].decode('utf-8', 'replace'))
        return None

    def verdicts(self, datas, before=0):
        """Reasons (or None) for every input from the given one on."""
        poisoned = self.poisoned(datas)
        res = []
        for j in range(before, len(datas)):
            d = datas[j]
            why = code = None
            if not any(may_repeat(d['files']) for _ in '1'):
                rel = self.alone(d, self.rel, j, {})
                if rel is None or poisoned[j]['exit code'].startswith('timeout'): code = 'slow'
                else:
                    code = rel['exit code']
                    why = self.differ(rel, poisoned[j], 'with other contents of memory')
                    if not why and '-MIPS' not in d['args']:
                        dbg = self.alone(d, self.dbg, j, {'MALLOC_PERTURB_': '90', 'PAD': 'x' * (len(d['files']['t.c']) % 5000)})
                        if dbg: why = self.differ(rel, dbg, 'in the Debug build')
            else: code = 'repeats'
            res.append((why, code))
        return res

    def case(self, rnd, i):
        batch = [self.input(rnd) for _ in range(BATCH)]
        datas = [d for _, d in batch]
        res = self.verdicts(datas)
        c = Case(key=[digest(repr(d)) for d, r in zip(datas, res) if r[1] not in ('slow', 'repeats') and len(d['files']['t.c']) >= 60], n=BATCH)
        for j, ((kind, d), (why, code)) in enumerate(zip(batch, res)):
            for t in (kind, code, d['args'][0]): c.tags[t] = c.tags.get(t, 0) + 1
            if why and not c.fail: c.fail = Fail(why=why, data=dict(d, before=datas[:j]))
        c.sample = {'kind': batch[0][0], 'args': datas[0]['args'], 'text': datas[0]['files']['t.c'][:300].encode('latin-1').decode('utf-8', 'replace')}
        return c

    def replay(self, data):
        b = data.get('before', [])
        return self.verdicts(b + [data], len(b))[0][0]

    def shrink(self, data, why, deadline):
        b = data['before']
        for q in ([], b[-1:], b[:1]):
            if self.replay(dict(data, before=q)):
                data = dict(data, before=q)
                break
        i = 0
        while i < len(data['before']) and time.time() < deadline:
            q = dict(data, before=data['before'][:i] + data['before'][i + 1:])
            if self.replay(q): data = q
            else: i += 1
        return super().shrink(data, why, deadline)

    def describe(self, data):
        r = super().describe(data)
        for j, d in enumerate(data.get('before', [])): r.update({'before%d-%s' % (j, n): t.encode('latin-1') for n, t in d['files'].items()})
        return r


prop = C16()
