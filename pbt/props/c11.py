"""Diagnostics name the place in the files as they were written."""
import os
import re
import shutil

from .. import build, oracle
from ..core import Case, Fail, Prop, Scratch, digest, sh

MAINS = ['src/main.c', 'e/second.c', 'src/d/third файл.c']
AT = '\ue000'           # in front of a token a diagnostic has to name
ERR = re.compile(r'^(.*):(\d+):(\d+): (ошибка|предупреждение): (.*)$')

PRELUDE = '''struct S { int a; float b; };
S s = { 1, 2.5 }; int i = 1; float f = 1.5; const int ki = 1; bool b = true; int r[3] = { 1, 2, 3 }; int *p = &i; const int *pc = &ki; char c = 'c';
int f1(int x) { return x; }
void v0() { }
'''

MACROS = '''#define one 1
#define add(x, y) x + y
#define nothing
#define id(x) x
#define sum3(x, y, z) (x + y + z)
#define пять 5
#define text "t // t"
#define badname zz0
#define badadd(x) x + zz1
#define deep badadd(one)
#define twice(x) (x) * (x)
#macro two(n)
	n = n + 1;
	n = n + 2;
#endm
#macro some(k, n)
#if k
	n = zz4;
#else
	n = 1;
#endif
#if k == 2
	n = zz5;
#endif
#endm
#macro outer(k)
	i = 2; some(k, i)

	i = i + 1; some(0, i) i = 3;
#endm
#macro bad2(n)
	n = zz2;

	n = n + zz3;
#endm
'''

# statements with one diagnostic at the marked token
WRONG = '''i = @zz + 1;
s.@zz = 1;
i = s @+ 1;
i = f @% 2;
ki = @1;
f1(1, 2@);
f1(@);
int w1_ = @s;
int w1_, @w1_;
i@(1);
return @"a";
if (@s) i = 1;
while (@s) ;
for (i = 0; @s; i++) ;
do i = 1; while (@s);
switch (@f) { case 1: i = 1; }
switch (i) { case @i: i = 1; }
i = 0b1@2;
i = @-s;
i = @*i;
p = @&1;
1 @= 2;
r[@1.5] = 1;
i@[1] = 1;
s@->a = 1;
p@.a = 1;
f1(@s);
f1(@"a");
i = @;
i = (1 @;
i = b ? 1 @: s;
p = @pc;
float w1_[@1.5];
float w1_[@0];
print(@zz);
print(@имя);
i = @!s;
i = @upb i;
int w1_ = @{ 1 };
S w1_ = { 1, @"a" };
i = f1 @+ 1;
b = s @&& true;
f @%= 1;
void @w1_;
const int @w1_;
f1(f1(f1(@zz)));
i = r[r[@zz]];
{ { i = @zz; } }
i = @zz + @zy;
if (@zz) i = 1;
@break;
@continue;
@case 1: i = 2;
@default: i = 1;
@nosuch w1_;
struct w1_ { @nosuch x; };
switch (i) { case 1: @continue; }
i = 1 @i = 2;
@i + ;'''.split('\n')[:-1]
WARN = ['b = f @== 1.5;', 'b = 1.5 @!= f;', 'if (f @== f) i = 1;']
MACRO = ['i = @@deep + 1;'.replace('@@', '@'), 'i = @badname;', 'i = 1 + @badadd(2) + 3;', '@bad2(i)', 'i = @badadd(@@zz);'.replace('@@', '') , 'i = @add(1, zz);', 'i = @add(add(zz, 1), 2) + @zy;', 'i = @id(id(id(zz)));', 'f1(@sum3(1,\n\t\tzz, 3));', '@some(2, i)', 'some(0, i)  i = @zz;', '@outer(2)', '@outer(1) i = @zz;', 'outer(0) i = @zz; outer(\n 0\n\t) i = @zy;', 'i = @twice(zz);', 'i = @id(badname) + @badname;',
         'i = @add(s, 1);', 'i = one + @zz;', 'i = add(1, 2) + @zz + one;', 'i = add(1,\n  2) + @zz;', 'i = one; i = @zz; i = one; i = @zy;', 'i = пять + @zz;', 'print(text); i = @zz;', 'i = sum3(1,\n 2,\n\t3) @+ s;', 'nothing i = @zz;', 'i = id(one) + id(id(one)) + @zz;']
MULTI = {'i = @twice(zz);': 2, 'i = @badadd(zz);': 2, '@bad2(i)': 2, '@some(2, i)': 2, '@outer(2)': 2}
RIGHT = ['i = 1;', 'i = f1(i) + one;', 'print("ok");', 'v0();', 's.a = add(1, 2);', '{ int q = i; print(q); }', 'for (i = 0; i < 3; i++) c = \'x\';', 'two(i)', 'if (b) i = 2; else i = 3;', 'i = sum3(1, one, f1(2));', 'print("строка /* не комментарий */ // нет");', ';', 'i =\n\t1 +\n\t2;', "c = '\\'';", "c = '\"';",
         'print("\\"");', 'i = add(1,\n\t2);', 'i =\n#eval 1 + 2\n;', 'i = id(\n\n1\n);']
BEFORE = ['', '', '', '\t', '  ', ' \t ', 'i = one; ', 'i = add(1, 2); ', 'i = add(one, add(2, 3)); ', 'nothing ', 'i = sum3(1,\n\t\t2, 3\n); ', '/* c */ ', '/* a\n b */ ', 'print("текст // не /* комментарий"); ', "c = '\"'; ", 'i = пять; ', '{ } ', 'i = id(id(one)); ', 'i = флаг; ', '/**/', '/* текст */\t', 'print(text); ', 'i = 2; /*\n\n\n*/ ',
          'two(i) ', 'i = one + /* c */ one; ']
AFTER = ['', '', '', ' // comment', ' /* x */', ' /* y\n z */', ' i = one;', '  ', '\t', ' // i = zz;', ' /* i = zz; */', ' nothing', ' // \\ /* "']
CLUTTER = ['', '', '\n\n', '// comment', '/* one line */', '/* some\n   lines\n*/', '#if 0\nnonsense " \' #foo zz\n#endif', '#if 0\n#if 1\nzz\n#endif\n#else\n#endif', '#if 1\n#else\nzz\n#endif', '#ifdef nosuch\nzz\n#elif 1\n#endif', '#define dd_ zz', '#define dd_(x) zz x', '#macro mm_(x)\n zz\n x\n\n#endm', '#define dd_ 1\n#undef dd_',
           '#define dd_ 1\n#set dd_ 2\n\n#undef dd_', '\t', '#while 0\nzz\n#endw', '#define dd_ 3\n#while dd_\n#set dd_ 0\n#endw\n', '/*/ tricky /*/', '// тест "', '#define dd_ a \\\n b \\\n c', '#ifndef dd_\n#define dd_ // c\n#endif /* a\n b */']

# directives and uses of macros with one diagnostic of the preprocessor
PRE_WRONG = '''@#foo bar
 @#foo
	@#endw1
@#define
#define @1a
#define f_(x, @x) x
i = id(1, 2@);
#eval 1@/0
#eval 1@%0
#include @"no_such.h"
#include @<no_such.h>
i = one; i = id(1, 2@);
#set @1
#define f_(@1) x
#ifdef @1
#endif'''.split('\n')
PRE_WRONG = PRE_WRONG[:-2] + ['#ifdef @1\n#endif']
PRE_WARN = ['#undef one_ @r', '#define @one 1', '#set @nosuch_ 2']
PRE_LAST = ['@#if 1', '@#while 1', '@/* unfinished', '@#macro m_(x)', '@#if 0\n#else', '@#if 0', 'i = @"abc;', "c = @'a;"]


class Gen:
    def __init__(self, rnd):
        self.r = rnd
        self.n = 0
        self.files = {}

    def fresh(self, t):
        self.n += 1
        return re.sub(r'\b(w1|dd|mm|f|one|m|nosuch)_\b', r'\g<1>_%d' % self.n, t)

    def indent(self):
        return self.r.choice(['', '\t', '\t\t', '    ', ' ', '\t  '])

    def clutter(self):
        r = self.r
        return ['' if r.random() < 0.5 else self.fresh(r.choice(CLUTTER))] if r.random() < 0.5 else []

    def stmt(self, wrong):
        """a line (or some) with one statement"""
        r = self.r
        if wrong:
            t = r.choice(WRONG) if r.random() < 0.6 else r.choice(WARN) if r.random() < 0.2 else r.choice(MACRO)
            k = MULTI.get(t, 1)
            t = t.replace('@', AT * k)
        else:
            t = r.choice(RIGHT)
        t = self.fresh(t)
        before = ''.join(r.choice(BEFORE) for _ in range(r.choice([0, 1, 1, 2, 3]))) if not t.startswith('i =\n#') else ''
        after = ''.join(r.choice(AFTER) for _ in range(r.choice([0, 1, 1]))) if not t.endswith('\n;') else ''
        return self.indent() + before + t + after

    def loop(self, rate):
        """a loop of the preprocessor: its diagnostics are repeated"""
        r = self.r
        self.n += 1
        k = r.choice([1, 2, 3])
        n = 'l_%d' % self.n
        parts = [''.join(x + '\n' for x in self.clutter()) + self.stmt(r.random() < rate) + '\n' for _ in range(r.choice([1, 2, 3]))]
        body = ''.join(x for x in parts if not re.search(r'w1_|dd_|mm_', x))       # nothing that may be declared only once
        step = '#if %s == 1\n#set %s 0\n#elif %s == 2\n#set %s 1\n#else\n#set %s 2\n#endif\n' % (n, n, n, n, n)
        return '#define %s %d\n#while %s\n\ue003%d\ue002%s%s%s\ue004#endw' % ((n, k, n, k) + ((body, step, '') if r.random() < 0.5 else ('', step, body)))

    def func(self, rate, depth=0):
        r = self.r
        self.n += 1
        body = []
        for _ in range(r.choice([1, 3, 6, 10])):
            body += self.clutter()
            body.append(self.stmt(r.random() < rate))
            x = r.random()
            if x < 0.06: body.append(self.loop(rate))
            elif x < 0.1 and depth < 4:
                self.n += 1
                body.append(['inc', self.indent(), 'body%d.inc' % self.n, [self.stmt(r.random() < rate) for _ in range(r.choice([1, 2, 4]))], ''])
        return ['fn', self.indent() + 'int t%d(int q)%s{' % (self.n, r.choice([' ', '\n'])), body, self.indent() + 'return q; }']

    def file(self, depth, rate):
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 3, 5])):
            out += self.clutter()
            x = r.random()
            if x < 0.3 and depth < 4:
                self.n += 1
                name = r.choice(['', 'd/', 'd/e/', 'каталог/', '../x/']) + r.choice(['a%d.h', 'файл%d', 'b%d.c', 'x-y %d.h']) % self.n
                sub = self.file(depth + 1, rate)
                out.append(['inc', self.indent(), name, sub, r.choice(['', '', ' // c', ' /* c */', '\t'])])
            elif x < 0.45:
                self.n += 1
                if r.random() < rate: out.append(self.indent() + r.choice(['int g%d = ' + AT + 'zz;', AT + 'nosuch g%d;', 'int g%d = ' + AT + '"a";', 'int g%d, ' + AT + 'g%d;', 'int g%d[' + AT + '1.5];', 'int g%d = one ' + AT + '+ s;', 'struct S%d { ' + AT + 'nosuch x; };']).replace('%d', str(self.n)))
                else: out.append(self.indent() + r.choice(['int g%d = 1;', 'float g%d[one];', 'int g%d(int x) { return x; }', 'struct S%d { int x; };']).replace('%d', str(self.n)))
            else: out.append(self.func(rate, depth))
        return out

    def pre(self, chunks, rate, last):
        """put errors of the preprocessor into a file without others"""
        r = self.r
        out = []
        for c in chunks:
            if isinstance(c, list) and c[0] == 'fn': c = ['fn', c[1], self.pre(c[2], rate, False), c[3]]
            elif isinstance(c, list): c = ['inc', c[1], c[2], self.pre(c[3], rate, False), c[4]]
            out.append(c)
            if r.random() < rate: out.append(self.fresh(self.r.choice(PRE_WRONG if r.random() < 0.8 else PRE_WARN).replace('@', AT)))
        if last: out.append(self.r.choice(PRE_LAST).replace('@', AT))
        return out


def flatten(chunks, path, files):
    """text of a file; the files it includes are put in files"""
    out = []
    for c in chunks:
        if isinstance(c, str): out.append(c)
        elif c[0] == 'fn': out.append(c[1] + '\n' + flatten(c[2], path, files) + c[3])
        else:
            here = os.path.normpath(os.path.join(os.path.dirname(path), c[2]))
            files[here] = None
            files[here] = flatten(c[3], here, files)
            out.append('%s#include "%s"%s\ue001%s\ue002' % (c[1], c[2], c[4], here))
    return ''.join(x + '\n' for x in out)


def places(files, mains):
    """the marked places in the order of compilation: (file, line, column, token)"""
    out, loops = [], []

    def walk(name):
        line, col = 1, 1
        t = files[name]
        k = 0
        while k < len(t):
            ch = t[k]
            if ch == AT:
                rest = t[k:].lstrip(AT)
                tok = re.match(r'\w+', rest)
                out.append((name, line, col, tok.group(0) if tok else rest[0]))
            elif ch == '\ue001':
                e = t.index('\ue002', k)
                walk(t[k + 1:e])
                k = e
            elif ch == '\ue003':
                e = t.index('\ue002', k)
                loops.append((int(t[k + 1:e]), len(out)))
                k = e
            elif ch == '\ue004':
                n, a = loops.pop()
                out.extend(out[a:] * (n - 1))
            elif ch == '\n': line, col = line + 1, 1
            else: col += 1
            k += 1

    for m in mains: walk(m)
    return out


def clean(t): return re.sub('[\ue001\ue003].*?\ue002|\ue004|' + AT, '', t)


class C11(Prop):
    id = 'C11'
    quick = (3000, 60)
    thorough = (150000, 850)
    chunk = 8
    rule = ('a case is a set of files that include each other, with macros, comments, skipped groups and statements over several lines, in which random statements are wrong at a marked token; all reported places are compared with the marks in order; '
            'non-trivial: at least 2 marks and an include, macro use or comment in front of one of them in its file')
    assumptions = ['a diagnostic inside the replacement or an argument of a macro is located at the outermost use of the macro',
                   'which token of a wrong statement is named is fixed for the kinds of errors listed in the generator only']

    def setup(self): self.ruc = build.ruc('rel')

    def files(self, d):
        files = {}
        for n, chunks in zip(MAINS, d['chunks']):
            files[n] = None
            files[n] = flatten(chunks, n, files)
            if d.get('end'): files = {m: t and t[:-1] if t and t.endswith(('}\n', ';\n')) else t for m, t in files.items()}
        return files

    def run(self, d):
        files = self.files(d)
        root = os.path.join(Scratch.dir(), 'c11')
        shutil.rmtree(root, ignore_errors=True)
        for n, t in files.items():
            p = os.path.join(root, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            text = clean(t)
            if d.get('crlf'): text = text.replace('\n', '\r\n')
            with open(p, 'wb') as f: f.write(text.encode('utf-8'))
        os.makedirs(os.path.join(root, 'work'), exist_ok=True)
        m = [{'abs': os.path.join(root, n), 'rel': '../' + n}[d['spell']] for n, _ in zip(MAINS, d['chunks'])]
        r = sh([self.ruc, '-VM'] + m + ['-o', 'o', '-Dфлаг=7'], cwd=os.path.join(root, 'work'))
        return r, files, os.path.realpath(root)

    def verdict(self, d):
        r, files, root = self.run(d)
        if r.timeout: return 'the compiler did not answer'
        want = places(files, MAINS[:len(d['chunks'])])
        lines = oracle.plain(r.err + r.out).split('\n')
        got = []
        for j, l in enumerate(lines):
            m = ERR.match(l)
            if m: got.append((os.path.relpath(m.group(1), root) if m.group(1).startswith(root) else m.group(1), int(m.group(2)), int(m.group(3)), m.group(4), m.group(5), lines[j + 1] if j + 1 < len(lines) else '', lines[j + 2] if j + 2 < len(lines) else ''))
        for j in range(max(len(want), len(got))):
            if j >= len(got): return 'no diagnostic at %s:%d:%d (%s)' % want[j]
            if j >= len(want): return 'a diagnostic at %s:%d:%d where nothing is wrong: %s' % (got[j][:3] + (got[j][4],))
            w, g = want[j], got[j]
            if w[:3] != g[:3]: return 'a diagnostic at %s:%d:%d instead of %s:%d:%d (%s): %s' % (g[:3] + w + (g[4],))
            shown, caret = g[5].rstrip('\r'), g[6]
            col = w[2] - 1
            if shown[col:col + len(w[3])] != w[3]: return 'the line shown for %s:%d:%d does not have %s there: %s' % (w + (shown,))
            wrong = self.other(shown, clean(files[os.path.normpath(w[0])]).split('\n')[w[1] - 1])
            if wrong: return 'the line shown for %s:%d:%d (%s) %s: %s' % (w + (wrong, shown))
            a = e = col         # the whole word around the token is marked
            while a > 0 and re.match(r'\w', shown[a]) and re.match(r'\w', shown[a - 1]): a -= 1
            while e < len(shown) and re.match(r'\w', shown[e]): e += 1
            if caret != re.sub(r'[^\t]', ' ', shown[:a]) + '^' + '~' * (e - a - 1): return 'the mark under %s:%d:%d does not lie under %s: %s / %s' % (w + (shown, caret))
        errors = sum(g[3] == 'ошибка' for g in got)
        if errors and r.rc != d['rc']: return 'exit code %d after %d errors' % (r.rc, errors)
        if not errors and r.rc != 0: return 'exit code %d without an error' % r.rc
        return None

    @staticmethod
    def other(shown, source):
        """a line is shown as it was written, apart from comments and what belongs to a use of a macro over several lines"""
        if any(x not in (y, ' ') for x, y in zip(shown, source)) or shown[len(source):].strip(): return 'is another one'
        inside = depth = 0
        for ch in source:
            depth += {'(': 1, ')': -1}.get(ch, 0)
            inside = inside or depth < 0
        if not inside and '/*' not in source and '*/' not in source and '//' not in source and shown != source: return 'is not complete'

    def make(self, rnd):
        g = Gen(rnd)
        pre = rnd.random() < 0.3
        rate = rnd.choice([0.1, 0.3, 0.6])
        body = g.file(0, 0 if pre else rate)
        if pre: body = g.pre(body, rate, rnd.random() < 0.4)
        lead = [g.clutter(), [MACROS.rstrip('\n')], g.clutter(), [PRELUDE.rstrip('\n')]]
        if rnd.random() < 0.3: lead[1] = [['inc', '', 'lib/macros.h', [MACROS.rstrip('\n')], '']]
        if rnd.random() < 0.3: lead[3] = [['inc', '', '../lib/prelude.h', [PRELUDE.rstrip('\n')], '']]
        more = [g.file(2, 0 if pre else rate) for _ in range(rnd.choice([0, 0, 0, 1, 2]))]
        chunks = sum(lead, []) + ['void main() { }'] + body
        return {'chunks': [chunks] + more, 'end': rnd.random() < 0.3, 'crlf': rnd.random() < 0.1, 'spell': rnd.choice(['abs', 'rel']), 'rc': 65 if pre else 66}

    def case(self, rnd, i):
        d = self.make(rnd)
        files = self.files(d)
        marks = places(files, MAINS[:len(d['chunks'])])
        text = '\n'.join(files.values())
        c = Case(trivial=len(marks) < 2 or not re.search(r'#include|/\*|one|add\(', text), key=digest(text), sample=[list(m) for m in marks[:6]],
                 tags={'files': len(files), 'marks': len(marks), 'preprocessor' if d['rc'] == 65 else 'compiler': 1, 'crlf': int(d['crlf'])})
        w = self.verdict(d)
        if w: c.fail = Fail(why=w, data=d)
        return c

    def replay(self, d): return self.verdict(d)

    def shrink(self, d, why, deadline):
        import copy
        import time

        def spots(chunks, at=()):
            for j, c in enumerate(chunks):
                yield at + (j,)
                if not at: yield from spots(c, at + (j,))
                elif isinstance(c, list): yield from spots(c[2] if c[0] == 'fn' else c[3], at + (j, 2 if c[0] == 'fn' else 3))

        def drop(d, at):
            d = copy.deepcopy(d)
            x = d['chunks']
            for k in at[:-1]: x = x[k]
            if any(s in repr(x[at[-1]]) for s in ('struct S {', '#define one 1', 'void main()')): return None
            del x[at[-1]]
            return d

        again = True
        while again and time.time() < deadline:
            again = False
            for at in reversed(list(spots(d['chunks']))):
                if time.time() > deadline: break
                try: e = drop(d, at)
                except IndexError: continue
                if e is None: continue
                w = self.verdict(e)
                if w: d, why, again = e, w, True
        return d, why

    def describe(self, d):
        files = self.files(d)
        return {n.replace('/', '__').replace('..', '_'): clean(t) for n, t in files.items()}


prop = C11()
