"""Included files, several files of one program, and definitions from the command line."""
import posixpath

from .. import pp
from ..core import Case, Fail, digest
from .ppsem import PPProp

DIRS = ['', '', 'inc', 'inc/a', 'inc/a/b', 'lib', 'lib/inc', 'каталог', 'w.d']
BASES = ['a.h', 'b.h', 'c.h', 'x', 'a.c', 'имя.h', 'long_name_of_a_header.h', 'h.b.h', 'inc.h']


class Tree:
    """Random files that include each other."""

    def __init__(self, rnd):
        self.r = r = rnd
        self.paths = []
        for _ in range(r.choice([2, 3, 5, 8, 12])):
            p = posixpath.join(r.choice(DIRS), r.choice(BASES))
            if p not in self.paths: self.paths.append(p)
        self.absolute = r.random() < 0.3
        self.cwd = r.choice(['', 'inc', 'work', 'inc/a']) if self.absolute else ''
        self.dirs = r.sample(sorted(set(DIRS)), r.choice([0, 1, 1, 2, 3, 5]))
        self.mains = [posixpath.join(r.choice(['', '', 'src', 'inc']), 'main%d.c' % i) for i in range(r.choice([1, 1, 1, 2, 3]))]
        self.files, self.n = {}, 0
        self.flags, self.env = [], []
        for m in self.mains + self.paths: self.files[m] = None
        names = ['V%d' % i for i in range(4)] + ['ИМЯ', '_f', 'F1']
        for v in r.sample(names, r.choice([0, 0, 1, 2, 3])):
            b = r.choice(['', '1', '42', 'x y', '(1 + 2)', '"s t"', '=', '-1', 'V0 V0' if v != 'V0' else 'z', "'c'", 'a,b', '0x1F', '1.5e3'])
            self.flags.append('-D' + v + ('=' + b if b or r.random() < 0.5 else ''))
            self.env.append((v, b))
        for m in self.mains: self.files[m] = self.content(m, True)
        for p in self.paths: self.files[p] = self.content(p, False)

    def spelling(self, here, target):
        """A path under which target may be found from a file in the directory here."""
        r = self.r
        base = r.choice([here] + self.dirs) if self.dirs else here
        rel = posixpath.relpath('/' + target, '/' + base)
        if r.random() < 0.15: rel = './' + rel
        if r.random() < 0.1 and '/' in rel:         # down and up again
            head, tail = rel.rsplit('/', 1)
            last = head.rsplit('/', 1)[-1]
            if last not in ('.', '..'): rel = head + '/../' + last + '/' + tail
        return rel

    def content(self, path, main):
        r, out = self.r, []
        here = posixpath.dirname(path)
        guard = 'G%d' % self.n
        self.n += 1

        def word():
            self.n += 1
            return 't%d' % self.n

        def some(n, d):
            ns = []
            for _ in range(n):
                k = r.random()
                if k < 0.45: ns.append(['include', r.choice('"<'), self.spelling(here, r.choice(self.paths))])
                elif k < 0.6: ns.append(['text', word() + r.choice(['', ' V%d' % r.randint(0, 3), ' ИМЯ', ' F1 ;', ' _f'])])
                elif k < 0.75: ns.append(['define', r.choice(['define', 'set']), 'V%d' % r.randint(0, 3), None, r.choice([word(), str(r.randint(0, 9)), ''])])
                elif k < 0.8: ns.append(['undef', 'V%d' % r.randint(0, 3)])
                elif k < 0.85: ns.append(['text', 'V%d' % r.randint(0, 3)])
                elif d and k < 0.95:
                    ns.append(['if', [[r.choice(['ifdef', 'ifndef']), r.choice(['V%d' % r.randint(0, 3), 'F1', '_f']), some(r.randint(0, 3), d - 1)]], some(r.randint(0, 2), d - 1) if r.random() < 0.6 else None])
                elif d and k < 0.97: ns += [['define', 'define', 'i', None, '0'], ['while', 'i < 3', some(2, d - 1) + [['define', 'set', 'i', None, '#eval i + 1']]]]
                else: ns.append(['text', word()])
            return ns
        out = some(r.randint(1, 5) + main, 2) + [['text', word()]]
        if not main and r.random() < 0.3: out = [['if', [['ifndef', guard, [['define', 'define', guard, None, '']] + out]], None]]
        return out

    def model(self):
        m = pp.Model(self.files, self.dirs)
        m.seen = set()
        for n, b in self.env: m.env[n] = pp.Macro(None, b)
        out = []
        m.translate(self.mains, out)
        return pp.words('\n'.join(out)), m.stats

    def args(self):
        """The command line; @ stands for the directory of the test."""
        r = self.r

        def path(p):
            if self.absolute: return '@/' + p if p else '@'
            x = posixpath.relpath('/' + p, '/' + self.cwd)
            return ('./' if r.random() < 0.1 else '') + x
        a = [path(m) for m in self.mains]
        rest = ['-I' + path(d) + ('/' if r.random() < 0.1 else '') for d in self.dirs]
        fl = self.flags[:]
        # the order of files and of directories matters among themselves only
        while rest or fl:
            x = rest if rest and (not fl or r.random() < 0.5) else fl
            a.insert(r.randint(0, len(a)) if x is fl else next((i + 1 for i in range(len(a) - 1, -1, -1) if a[i].startswith('-I')), r.randint(0, len(a))), x.pop(0))
        return a


class C14(PPProp):
    id = 'C14'
    quick = (40000, 60)
    thorough = (600000, 600)
    chunk = 16
    rule = ('a case is a tree of files with a command line (or a program spread over files, or a command line that must be rejected); non-trivial: at least 3 files are included or '
            'read, one of them from another included file or found through -I, or the program is split in at least 3 places')
    assumptions = ['one run spells paths either all relative or all absolute, without doubled slashes or .. above the working directory: the same file under such spellings counts as two',
                   'a file of the command line is not included by another file before its turn']

    def case(self, rnd, i):
        k = rnd.random()
        if k < 0.7: return self.tree(rnd)
        if k < 0.76: return self.chain(rnd)
        if k < 0.82: return self.bad(rnd)
        return self.factored(rnd, ('include', 'include', 'files', 'flag', 'cond', 'object'), dirs=('.', 'sub'))

    def render(self, files, rnd):
        out = {}
        for n, ns in files.items():
            st = pp.Styled(rnd, 0.1, crlf=rnd.random() < 0.05) if rnd.random() < 0.3 else pp.Plain()
            out[n] = pp.render(ns, st)
            if rnd.random() < 0.1 and out[n].endswith('\n') and not out[n].endswith('\r\n'): out[n] = out[n][:-1]
        return out

    def tree(self, rnd):
        t = Tree(rnd)
        files, args = self.render(t.files, rnd), t.args()
        for d in DIRS + ['work']:
            if d: files.setdefault(posixpath.join(d, 'empty.txt'), '')
        data = {'kind': 'tree', 'files': files, 'args': args, 'cwd': t.cwd, 'tree': {'files': t.files, 'dirs': t.dirs, 'mains': t.mains, 'env': t.env, 'args': args, 'cwd': t.cwd}}
        try: want, st = t.model()
        except pp.Missing: want, st = None, {}
        except pp.Undefined: return Case(trivial=True)
        data['want'] = want
        c = Case(trivial=want is not None and (st.get('include', 0) + len(t.mains) < 4 or not st.get('nested') and not st.get('angle')), key=digest(repr((sorted(files.items()), args))),
                 sample={'files': {k: v[:200] for k, v in list(files.items())[:6] if v}, 'args': args}, tags=dict({'tree' if want is not None else 'missing': 1}, **{k: 1 for k in st}))
        w = self.judge(data)
        if w: c.fail = Fail(why=w, data=data)
        return c

    def chain(self, rnd):
        """Files nested up to the limit and beyond it."""
        n = rnd.choice([2, 10, 31, 32, 32, 33, 33, 34, 40])
        files = {'f%d.h' % i: 'a%d\n#include "f%d.h"\nb%d\n' % (i, i + 1, i) for i in range(n)}
        files['f%d.h' % n] = 'end\n'
        words = ['a%d' % i for i in range(n)] + ['end'] + ['b%d' % i for i in range(n - 1, -1, -1)]
        data = {'kind': 'tree', 'files': files, 'args': ['f0.h'], 'cwd': '', 'want': words if n <= pp.MAX_NEST else None}
        c = Case(key=digest(str(n)), sample='chain of %d' % n, tags={'chain': 1})
        w = self.judge(data)
        if w: c.fail = Fail(why=w, data=data)
        return c

    BAD = ['#include "nowhere.h"', '#include <nowhere.h>', '#include', '#include x.h', '#include "good.h', '#include <good.h', '#include "sub/../nowhere.h"', '#include good.h', '#include \'good.h\'', '#include "open.h"',
           '#include "close.h"', '#macro m\n#include "good.h"\n#endm\nm', '#if 1\n#include "close.h"', '#include "bad.h"', '#include "nested.h"', '#include "./good.h" \n#include "goo.h"']

    def bad(self, rnd):
        b = rnd.choice(self.BAD)
        files = {'main.c': '%s\n%s\n%s\n' % (rnd.choice(['', 'int a;', '#include "good.h"']), b, rnd.choice(['', 'x', '#include "good.h"'])), 'good.h': 'good\n', 'open.h': '#if 1\n', 'close.h': '#endif\n', 'bad.h': '#else\n', 'nested.h': '#include "sub/in.h"\n', 'sub/in.h': '#include "good.h"\n#include "sub/in2.h"\n'}
        flags = rnd.choice([[], [], ['-DX=1'], ['-Isub']])
        if rnd.random() < 0.2:
            files['main.c'] = 'x\n'
            flags = rnd.choice([['-D'], ['-D5'], ['-DX', '-DX=1'], ['-DX=1', '-DY', '-DX=2'], ['-D=1'], ['-D-x']])
        return self.rejected(files, ['main.c'] + flags)

    def judge(self, d):
        if d['want'] is None: return self.rejects(d['files'], d['args'], d['cwd'])
        return self.compare(d['files'], d['args'], d['want'], d['cwd'])

    def replay(self, d):
        return self.judge(d) if d['kind'] == 'tree' else super().replay(d)

    def again(self, t):
        """Data of a tree rendered plainly, or None."""
        m = pp.Model(t['files'], t['dirs'])
        m.seen = set()
        for n, b in t['env']: m.env[n] = pp.Macro(None, b)
        out = []
        try:
            m.translate(t['mains'], out)
            want = pp.words('\n'.join(out))
        except pp.Missing: want = None
        except (pp.Undefined, RecursionError, IndexError): return None
        files = {n: pp.render(ns, pp.Plain()) for n, ns in t['files'].items()}
        for d in DIRS + ['work']:
            if d: files[posixpath.join(d, 'empty.txt')] = ''
        return {'kind': 'tree', 'files': files, 'args': t['args'], 'cwd': t['cwd'], 'want': want, 'tree': t}

    def shrink(self, d, why, deadline):
        import time
        if 'tree' not in d: return super().shrink(d, why, deadline)
        kind = why.split(' ')[0]

        def bad(t):
            x = self.again(t)
            w = x and self.judge(x)
            return w if w and w.startswith(kind) else None
        t = d['tree']
        if not bad(t): return d, why
        again = True
        while again and time.time() < deadline:
            again = False
            for n in sorted(t['files']):
                if n not in t['mains']:
                    u = dict(t, files={k: v for k, v in t['files'].items() if k != n})
                    if bad(u):
                        t, again = u, True
                        continue
                step = True
                while step and time.time() < deadline:
                    step = False
                    for c in pp.smaller(t['files'][n]):
                        u = dict(t, files=dict(t['files'], **{n: c}))
                        if bad(u):
                            t, again, step = u, True, True
                            break
        return self.again(t), bad(t)


prop = C14()
