"""The command line is obeyed: targets, output file, search directories, stages, and nothing else is touched."""
import os
import re
import shutil

from .. import build
from ..core import Case, Fail, Prop, Scratch, digest, sh
from ..oracle import plain

MAX = 1024      # an argument of this length or more is rejected
ERROR, WARNING = 'ошибка', 'предупреждение'
DEFAULT = {'VM': 'out.ruc', 'LLVM': 'out.ll', 'MIPS': 'out.s'}
BODY = {
    'good.c': 'int g = 3;\nint twice(int x) { return x + x; }\nvoid main() { int a; a = twice(g) - 1; printf("%i\\n", a); }\n',
    'more.c': 'int lib(int x) { return x * 7; }\n',
    'uses.c': 'int lib(int);\nvoid main() { int r; r = lib(6); }\n',
    'warn.c': 'void main() { int b = 2; if (b = 1) b++; }\n',
    'defs.c': '#ifdef DEF\nint q = DEF;\n#else\nint q = 0;\n#endif\nvoid main() { int k; k = q; }\n',
    'incl.c': '#include "h.h"\nvoid main() { int k; k = FROM; }\n',
    'nomain.c': 'int f(int a) { return a; }\n',
    'macro.c': '#if 1\nvoid main() {}\n',
    'parse.c': 'void main() { int a; a = ; }\n',
    'имя файла.c': 'void main() { int я = 5; я++; }\n',
    'noext': 'void main() { int z = 12; z--; }\n',
    'd/sub.c': '#include "own.h"\nvoid main() { int k; k = OWN; }\n',
    'd/own.h': '#define OWN 11\n',
    'i1/h.h': '#define FROM 101\n',
    'i2/h.h': '#define FROM 202\n',
    'i3/x.h': '',
    'каталог/h.h': '#define FROM 303\n',
    'old.out': 'contents of an old file\n' * 40,
}
SETS = [['good.c'], ['more.c', 'uses.c'], ['uses.c', 'more.c'], ['warn.c'], ['defs.c'], ['incl.c'], ['nomain.c'], ['macro.c'], ['parse.c'], ['имя файла.c'], ['noext'], ['d/sub.c'], ['good.c', 'macro.c'], ['more.c', 'nomain.c'],
        ['good.c', 'parse.c'], ['nomain.c', 'good.c'], ['warn.c', 'more.c'], []]
DIRS = ['i1', 'i2', 'i3', 'd', 'каталог', '.']
UNKNOWN = ['-x', '-O2', '--help', '-', '--', '-vm', '-llvm', '-Wall', '-ooo', '-W', '-e', '-VMs', '-v', '-LLVM2', '-Ё']


class C17(Prop):
    id = 'C17'
    quick = (12000, 60)
    thorough = (400000, 800)
    chunk = 4
    rule = ('a case is one command line in a directory of its own with 18 files; non-trivial: at least four arguments; distinct by the arguments')
    assumptions = ['a run without any argument is not judged (it compiles a file of the developers)', 'whether the executable bit is set on preprocessed text is not judged']

    def setup(self):
        self.ruc = build.ruc('rel')

    # -- the command line -------------------------------------------------------------------------------------
    def spell(self, r, p):
        """Another path of the same file."""
        k = r.random()
        if k < 0.5: return p
        if k < 0.65: return './' + p
        if k < 0.72: return '././' + p
        if k < 0.8: return r.choice(['d', 'i1', 'каталог']) + '/../' + p
        if k < 0.86: return p.replace('/', '\\') if '/' in p else '.\\' + p
        if k < 0.93: return 'd/../i1/../' + p
        return './' * r.choice([100, 300, (MAX - 2 - len(p.encode())) // 2]) + p

    def gen(self, r):
        files = list(r.choice(SETS))
        dirs = r.sample(DIRS, r.choice([0, 0, 1, 2, 3]))
        if 'incl.c' in files and r.random() < 0.8 and not set(dirs) & {'i1', 'i2', 'каталог'}: dirs.append(r.choice(['i1', 'i2', 'каталог']))
        targets = r.choice([[], [], ['VM'], ['LLVM'], ['LLVM'], ['MIPS'], ['MIPS'], ['VM', 'LLVM'], ['MIPS', 'LLVM'], ['VM', 'MIPS'], ['LLVM', 'LLVM']])
        opts = ['-' + t for t in targets] + [o for o, p in (('-E', 0.25), ('-Wno', 0.3), ('-c', 0.2)) if r.random() < p]
        if r.random() < 0.3: opts.append(r.choice(['-DDEF=5', '-DDEF', '-DDEF=(2+3)', '-DOTHER=1']))
        opts += r.sample(UNKNOWN, r.choice([0, 0, 0, 1, 3]))
        if r.random() < 0.05: opts += ['-z%d' % i for i in range(r.choice([20, 31, 32, 33, 70]))]
        if r.random() < 0.1: opts += [o for o in opts if not o.startswith('-D')][:2]       # repeated
        r.shuffle(opts)
        outs = r.choice([[], [], ['o'], ['o'], ['p q'], ['d/o.bin'], ['./o'], ['вывод'], ['old.out'], ['a', 'b'], ['']])
        bad = []
        if r.random() < 0.22: bad = [r.choice(['missing.c', '-Imissing', '-I', '', 'file-long', 'dir-long', 'flag-long', 'out-long', 'out-last', 'out-nodir', 'out-dir'])]
        # where everything goes: the order of the files, of the directories and of the options among themselves is kept
        fs = [['f', f, self.spell(r, f)] for f in files]
        if fs and r.random() < 0.1: fs.insert(r.randint(1, len(fs)), ['f', files[0], self.spell(r, files[0])])
        ds = [['d', d, '-I' + self.spell(r, d) + r.choice(['', '', '/'])] for d in dirs]
        if ds and r.random() < 0.1: ds.append(['d', dirs[0], '-I' + dirs[0]])
        seqs = [fs, ds, [['o', o, o] for o in opts], [['out', o, o] for o in outs]]
        items = []
        while any(seqs):
            q = r.choice([s for s in seqs if s])
            items.append(q.pop(0))
        for b in bad:
            x = {'file-long': ['bad', b, './' * ((MAX + r.choice([0, 1, 900])) // 2) + 'good.c'], 'dir-long': ['bad', b, '-I' + './' * (MAX // 2 + r.choice([0, 1, 900]))],
                 'flag-long': ['bad', b, '-' + 'z' * (MAX - 1 + r.choice([0, 1, 3000]))], 'out-long': ['out', b, 'o' * (MAX + r.choice([0, 1, 3000]))],
                 'out-nodir': ['out', b, 'nodir/o'], 'out-dir': ['out', b, 'i3'], 'out-last': ['last', b, '-o']}.get(b, ['bad', b, b])
            if x[0] == 'last' or x[1] in ('out-nodir', 'out-dir'): items.append(x)
            else: items.insert(r.randint(0, len(items)), x)
        return {'items': items, 'limit': None}

    def argv(self, items):
        a = []
        for k, _, t in items: a += ['-o', t] if k == 'out' else [t]
        return a

    def expect(self, items):
        """(system error expected, target, output path, canonical arguments)"""
        kinds = [i for i in items]
        if not self.argv(items): return None
        fatal = any(k in ('bad', 'last') or k == 'out' and len(t.encode()) >= MAX for k, _, t in kinds)
        files, dirs, opts, outs = [], [], [], ['']
        for k, c, t in kinds:
            if k == 'f' and c not in files: files.append(c)
            if k == 'd' and c not in dirs: dirs.append(c)
            if k == 'o' and t not in opts: opts.append(t)
            if k == 'out': outs.append(t)
        target = 'LLVM' if '-LLVM' in opts else 'MIPS' if '-MIPS' in opts else 'VM'
        canon = ['-' + target] + [o for o in opts if o in ('-E', '-Wno', '-c') or o.startswith('-D')] + ['-I' + d for d in dirs] + files
        return fatal or not files, target, outs[-1] or DEFAULT[target], canon, '-E' in opts, outs[-1] in ('nodir/o', 'i3')

    # -- running ----------------------------------------------------------------------------------------------
    def world(self, name):
        d = os.path.join(Scratch.dir(), name)
        shutil.rmtree(d, ignore_errors=True)
        for n, t in BODY.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f: f.write(t.encode())
        return d

    def look(self, d):
        s = {}
        for b, ds, fs in os.walk(d):
            for n in fs:
                p = os.path.join(b, n)
                with open(p, 'rb') as f: s[os.path.relpath(p, d)] = (f.read(), os.stat(p).st_mode & 0o777)
            for n in ds: s[os.path.relpath(os.path.join(b, n), d) + '/'] = None
        return s

    def judge(self, data):
        items = data['items']
        e = self.expect(items)
        if e is None: return None
        fatal, target, out, canon, pponly, nowhere = e
        d = self.world('w')
        before = self.look(d)
        r = sh([self.ruc] + self.argv(items), cwd=d)
        after = self.look(d)
        text = plain(r.out + r.err)
        if r.timeout: return 'the compiler does not end'
        out = os.path.normpath(out)
        changed = sorted(p for p in set(before) | set(after) if before.get(p, 0) != after.get(p, 0))
        if [p for p in changed if p != out]: return 'files other than the output %s are changed: %s' % (out, changed)
        if fatal or nowhere:
            if changed: return 'a run with a wrong command line changes ' + out
            if fatal and r.rc != 1 or nowhere and r.rc == 0: return 'exit code %d after a wrong command line' % r.rc
            if ERROR not in text: return 'no diagnostic of a wrong command line'
            return None
        w = self.world('w')
        c = sh([self.ruc] + canon + ['-o', 'reference'], cwd=w)
        ref = self.look(w).get('reference', (None, 0))
        if r.rc != c.rc: return 'exit code %d, but %d when the same arguments stand in the usual order (%s): %s' % (r.rc, c.rc, ' '.join(canon), text[:300])
        # the stages that the files of the case stop at
        files = {x for x in canon if x in BODY}
        if 'incl.c' in files and not set(canon) & {'-Ii1', '-Ii2', '-Iкаталог'} or 'macro.c' in files: want = 65
        elif pponly: want = 0
        elif 'parse.c' in files: want = 66
        elif 'more.c' in files and 'uses.c' in files and canon.index('more.c') < canon.index('uses.c'): want = 66      # a declaration behind the definition is refused
        elif (not any('main()' in BODY[x] for x in files) or 'uses.c' in files and 'more.c' not in files) and '-c' not in canon: want = 67
        elif 'defs.c' in files and '-DDEF' in canon: want = 66
        else: want = 0
        if r.rc != want: return 'exit code %d instead of %d: %s' % (r.rc, want, text[:300])
        got = after.get(out)
        if want == 0:
            if ERROR in text: return 'an error is reported and the exit code is 0'
            if got is None: return 'the output %s is not written' % out
            if got[0] != ref[0]: return 'the output %s differs from the one for the same arguments in the usual order (%s)' % (out, ' '.join(canon))
            if not pponly:
                head = {'VM': b'#!/usr/bin/ruc-vm\n', 'LLVM': b'target datalayout', 'MIPS': b'\t.'}[target]
                if not got[0].startswith(head): return 'the output is not code for the target %s' % target
                x = bool(got[1] & 0o100)
                if x != (target == 'VM'): return 'the output for the target %s is %sexecutable' % (target, '' if x else 'not ')
        else:
            if ERROR not in text: return 'exit code %d without a diagnostic' % r.rc
            if got is not None and out not in before and got[1] & 0o100: return 'the output of a failed run is executable'
            if want == 65 and not pponly and changed: return 'a run that ends in the preprocessor changes ' + out
        warned = 'warn.c' in files and not pponly and want == 0
        if (WARNING in text) != (warned and '-Wno' not in canon): return 'a warning is %s' % ('printed' if WARNING in text else 'missing')
        if want == 0 and not warned and text.strip(): return 'a run without errors prints: ' + text[:200]
        if 'incl.c' in files and want == 0 and pponly:
            first = next(x for x in canon if x in ('-Ii1', '-Ii2', '-Iкаталог'))
            if {'-Ii1': b'101', '-Ii2': b'202', '-Iкаталог': b'303'}[first] not in got[0]: return 'the header is not taken from the first directory that has it (%s)' % first
        return None

    def case(self, rnd, i):
        data = self.gen(rnd)
        argv = self.argv(data['items'])
        w = self.judge(data)
        tags = {}
        for k, c, t in data['items']:
            n = {'f': 'file', 'd': 'dir', 'bad': c or 'empty'}.get(k) or (t if k == 'o' and t in ('-E', '-c', '-Wno', '-LLVM', '-MIPS', '-VM') else c if k in ('last',) or c.startswith('out-') else k)
            tags[n] = tags.get(n, 0) + 1
        return Case(trivial=len(argv) < 4, key=digest(repr(argv)), sample={'arguments': [a if len(a) < 60 else a[:50] + '... (%d)' % len(a) for a in argv][:30]}, tags=tags, fail=Fail(why=w, data=data) if w else None)

    def replay(self, data):
        return self.judge(data)

    def shrink(self, data, why, deadline):
        import time
        items, again = data['items'], True
        head = re.sub(r'\d+', 'N', why)[:24]

        def bad(its): return time.time() < deadline and re.sub(r'\d+', 'N', self.judge(dict(data, items=its)) or '')[:24] == head
        while again:
            again = False
            for i in range(len(items)):
                t = items[:i] + items[i + 1:]
                if bad(t):
                    items, again = t, True
                    break
                k, c, s = items[i]
                plainer = {'f': c, 'd': '-I' + c}.get(k)
                if plainer and s != plainer:
                    t = items[:i] + [[k, c, plainer]] + items[i + 1:]
                    if bad(t): items, again = t, True
        data = dict(data, items=items)
        return data, self.judge(data) or why

    def describe(self, data):
        return dict({n.replace('/', '_'): t for n, t in BODY.items() if any(i[1] == n for i in data['items'])}, **{'command.txt': 'ruc ' + ' '.join("'%s'" % a for a in self.argv(data['items']))})


prop = C17()
