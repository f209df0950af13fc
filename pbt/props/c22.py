"""What a program does is independent of how much else is declared and written in it."""
import random
import re

from .. import build, gen, lang, oracle
from ..core import Case, Fail, digest, sh
from .c01 import C01
from .c02 import C02

SCALAR = ('int', 'char', 'bool', 'float')


class Most(random.Random):
    def __init__(self, seed, most):
        super().__init__(seed); self.most = most


def upto(r, n):
    """Up to n, each order of magnitude about alike."""
    if hasattr(r, 'most'): return min(n, r.most)
    return max(1, min(n, int(n ** (0.4 + 0.65 * r.random()))))


def structs(r, n):
    out = []
    for i in range(upto(r, n)):
        m = ['%s zm%d_%d;' % (r.choice(SCALAR), i, k) for k in range(r.randint(1, 6))]
        if i and r.random() < 0.1: m.append('struct zs%d zn%d;' % (i - 1, i))
        out.append('struct zs%d { %s };' % (i, ' '.join(m)))
    return out


def functions(r, n):
    out = []
    for i in range(upto(r, n)):
        ps = ['%s zp%d' % (r.choice(SCALAR), k) for k in range(r.randint(0, 4))]
        out.append(r.choice(['int zf%d(%s) { return %d; }' % (i, ', '.join(ps), r.randrange(10000)), 'void zf%d(%s) { }' % (i, ', '.join(ps))]))
    return out


def globals_(r, n):
    out = []
    for i in range(upto(r, n)):
        out.append(r.choice(['int zg%d;' % i, 'int zg%d = %d;' % (i, r.randrange(100000)), 'char zg%d;' % i]))
    return out


def enums(r, n):
    out = []; k = 0; e = 0
    n = upto(r, n)
    while k < n:
        fs = []
        for _ in range(r.randint(1, 60)):
            fs.append('ze%d' % k + (' = %d' % r.choice([r.randrange(20000), r.randrange(3), 998 + r.randrange(5), 9000 + r.randrange(100)]) if r.random() < 0.3 else '')); k += 1
        out.append('enum zen%d { %s };' % (e, ', '.join(fs))); e += 1
    return out


def bigstruct(r, n):
    """Types for local variables of up to n words."""
    n = upto(r, n)
    a = max(1, int(n ** 0.5)); b = max(1, n // a)
    return ['struct zb1 { %s };' % ' '.join('int zx%d;' % k for k in range(a)), 'struct zb2 { %s };' % ' '.join('struct zb1 zy%d;' % k for k in range(b))], ['struct zb2 zbig;']


def locals_(r, n):
    n = upto(r, n); out = []; k = 0
    while k < n:
        m = min(n - k, r.randint(1, 40))
        out.append('int %s;' % ', '.join('zl%d' % (k + j) for j in range(m))); k += m
    return out


def statements(r, n):
    out = ['int zi = 0;', 'if (zi > 0)', '{']
    for i in range(upto(r, n)):
        out.append(r.choice(['zi = zi + %d;' % r.randrange(10000), 'zi += %d;' % r.randrange(10), 'if (zi > %d) zi++;' % r.randrange(10000), 'while (zi < %d) zi++;' % r.randrange(100), 'printf("s%d %%i\\n", zi);' % i]))
    return out + ['}']


TOP = {'structs': (structs, 300), 'functions': (functions, 1400), 'globals': (globals_, 3000), 'enumerators': (enums, 4000)}
IN = {'locals': (locals_, 3000), 'statements': (statements, 1500)}


def pad(r, src):
    """src with much else in it."""
    lines = src.split('\n')
    heads = [i - 1 for i, l in enumerate(lines) if l == '{' and i and ')' in lines[i - 1] and not lines[i - 1].startswith((' ', '\t'))]
    main = next((i for i in heads if re.search(r'\bmain\b', lines[i])), None)
    if main is None: return None, {}
    kinds = r.sample(sorted(TOP) + sorted(IN) + ['bigstruct'], r.randint(1, 3))
    size = {}; ins = {}
    for k in kinds:
        if k in TOP:
            t = TOP[k][0](r, TOP[k][1]); at = r.choice([0] + heads); ins.setdefault(at, [])
            ins[at] += t; size[k] = len(t)
        elif k in IN:
            t = IN[k][0](r, IN[k][1]); ins.setdefault(main + 2, []); ins[main + 2] += t; size[k] = len(t)
        else:
            t, v = bigstruct(r, 20000)
            ins.setdefault(0, []); ins[0] += t; ins.setdefault(main + 2, []); ins[main + 2] = v + ins[main + 2]
            size[k] = len(t[0]) + len(t[1])
    out = []
    for i, l in enumerate(lines):
        out += ins.get(i, [])
        out.append(l)
    return '\n'.join(out), size


def args(r, k):
    n = upto(r, 600); t = [r.choice(('int', 'float', 'bool', 'char')) for _ in range(n)]; i = r.randrange(n); t[i] = 'int'
    v = [{'int': str(r.randrange(100000)), 'float': '%d.5' % r.randrange(1000), 'bool': r.choice(('true', 'false')), 'char': "'%c'" % r.choice('abc')}[x] for x in t]
    return n, ['int za%d(%s) { return zq%d; }' % (k, ', '.join('%s zq%d' % (x, j) for j, x in enumerate(t)), i)], ['printf("%%i\\n", za%d(%s));' % (k, ', '.join(v))], v[i] + '\n'


def cases(r, k):
    n = upto(r, 6000); vs = r.sample(range(-20000, 20000), n); vs = [v for v in vs if v >= 0] or [5]; x = r.choice(vs)
    return len(vs), [], ['int zs%d = %d;' % (k, x), 'switch (zs%d)' % k, '{'] + ['case %d: printf("%%i\\n", %d); break;' % (v, i) for i, v in enumerate(vs)] + ['}'], '%d\n' % vs.index(x)


def init(r, k):
    n = upto(r, 5000); v = [r.randrange(100000) for _ in range(n)]; i = r.randrange(n)
    return n, [], ['int zi%d[%d] = {%s};' % (k, n, ', '.join(map(str, v))), 'printf("%%i\\n", zi%d[%d]);' % (k, i)], '%d\n' % v[i]


def sum_(r, k):
    n = upto(r, 3000); x = r.randrange(100); t = str(x); v = x; parts = []
    for _ in range(n):
        c = r.randrange(1000); op = r.choice('+-'); name = r.random() < 0.5
        v += (x if name else c) * (1 if op == '+' else -1); parts.append(' %s %s' % (op, 'zv%d' % k if name else c))
    return n, [], ['int zv%d = %d;' % (k, x), 'printf("%%i\\n", zv%d%s);' % (k, ''.join(parts))], '%d\n' % v


def text(r, k):
    n = upto(r, 20000); a = ''.join(r.choice('abcяж .,') for _ in range(n)); cut = r.randrange(n + 1)
    return n, [], ['printf("%s%%i%s\\n", %d);' % (a[:cut], a[cut:], n)], '%s%d%s\n' % (a[:cut], n, a[cut:])


def nest(r, k):
    n = upto(r, 250); kind = r.choice(('if', 'block', 'paren', 'while', 'minus'))
    if kind == 'paren': return n, [], ['printf("%%i\\n", %s%d%s);' % ('(1 + ' * n, k, ')' * n)], '%d\n' % (n + k)
    if kind == 'minus': return n, [], ['int zw%d = 7;' % k, 'printf("%%i\\n", %szw%d%s);' % ('-(' * n, k, ')' * n)], '%d\n' % (7 if n % 2 == 0 else -7)
    o, c = {'if': ('if (zw%d == 0) {' % k, '}'), 'block': ('{ int zw%d = 0;' % k, '}'), 'while': ('while (zw%d == 0) {' % k, 'break; }')}[kind]
    return n, [], ['int zw%d = 0;' % k] + [o] * n + ['printf("%%i\\n", zw%d);' % k] + [c] * n, '0\n'


def name(r, k):
    n = upto(r, 4000); a = 'zn%d' % k + ''.join(r.choice('abcяжЖ_09') for _ in range(n)); b = a[:-1] + ('x' if a[-1] != 'x' else 'y')
    return n, ['int %s = 1;' % a], ['int %s = 2;' % b, 'printf("%%i %%i\\n", %s, %s);' % (a, b)], '1 2\n'


def rows(r, k):
    n = upto(r, 400); t = ['int zr%d(int x) { return %s; }' % (k * 1000 + j, 'x + 1' if not j else 'zr%d(x) + 1' % (k * 1000 + j - 1)) for j in range(n)]
    return n, t, ['printf("%%i\\n", zr%d(%d));' % (k * 1000 + n - 1, k)], '%d\n' % (n + k)


def macros(r, k):
    n = upto(r, 5000); v = [r.randrange(100000) for _ in range(n)]; i = r.randrange(n)
    return n, ['#define zM%d_%d %d' % (k, j, x) for j, x in enumerate(v)], ['printf("%%i\\n", zM%d_%d);' % (k, i)], '%d\n' % v[i]


def body(r, k):
    n = upto(r, 3000); v = [r.randrange(1000) for _ in range(n)]
    return n, ['#define zB%d(a) (%s)' % (k, ' + '.join('a' if x % 3 == 0 else str(x) for x in v))], ['printf("%%i\\n", zB%d(%d));' % (k, k)], '%d\n' % sum(k if x % 3 == 0 else x for x in v)


def margs(r, k):
    n = upto(r, 100); v = [r.randrange(1000) for _ in range(n)]; i = r.randrange(n)
    return n, ['#define zA%d(%s) p%d' % (k, ', '.join('p%d' % j for j in range(n)), i)], ['printf("%%i\\n", zA%d(%s));' % (k, ', '.join(map(str, v)))], '%d\n' % v[i]


def conds(r, k):
    n = upto(r, 200); dead = r.random() < 0.3
    return n, ['#define zD%d' % k] + ['#ifdef zD%d' % k] * n + (['#ifndef zD%d' % k, 'void zero( {', '#else'] if dead else []) + ['int zc%d = %d;' % (k, n)] + ['#endif'] * (n + dead), ['printf("%%i\\n", zc%d);' % k], '%d\n' % n


def comment(r, k):
    n = upto(r, 100000)
    return n, ['/*' + ''.join(r.choice('x/ *я\n') for _ in range(n)).replace('*', '* ') + ' */'], ['printf("%%i\\n", %d);%s' % (n, ' ' * r.choice((0, n)) + '// ' + 'ж' * n)], '%d\n' % n


def line(r, k):
    n = upto(r, 2500)
    return n, [], ['int zo%d = 1; %s printf("%%i\\n", zo%d);' % (k, ' '.join('zo%d = zo%d + 1;' % (k, k) for _ in range(n)), k)], '%d\n' % (n + 1)


PARTS = {'macros': macros, 'terms of a macro': body, 'arguments of a macro': margs, 'conditions': conds, 'characters of a comment': comment, 'statements of a line': line, 'arguments': args, 'cases': cases, 'initialisers': init, 'operands': sum_, 'characters of a string': text, 'levels': nest, 'characters of a name': name, 'functions in a chain': rows}


def large(seed, only=None, most=None):
    """A program of a few large constructs and what it prints."""
    r = random.Random(seed); tops = []; body = []; want = ''; size = {}
    for k, w in enumerate([only] if only else r.sample(sorted(PARTS), r.randint(1, 3))):
        n, t, b, o = PARTS[w](Most(seed, most) if most else r, k + 1)
        tops += t; body += b; want += o; size[w] = n
    return '\n'.join(tops + ['void main()', '{'] + body + ['}', '']), want, size


class C22(C01):
    id = 'C22'
    quick = (6000, 60)
    thorough = (100000, 800)
    chunk = 8
    rule = ('a case is non-trivial when at least 50 declarations or statements were added to a program that reaches 12 kinds of operation and prints, '
            'or when constructs of at least 50 parts (arguments, cases, operands, levels, characters ...) were written; '
            'distinct means distinct source text')
    assumptions = ['images are executed by the harness, IR by LLVM 14 (JIT)', 'what is added is not used by the program: it is declared, or written where control does not come']

    def setup(self):
        self.vm = oracle.VM(); self.ll = oracle.LL(); self.tool = build.tool('rucvm.cpp'); self.ruc = build.ruc('rel')

    def judge(self, src, inp, want, status, be='vm'):
        w = (self.ll if be == 'll' else self.vm).judge(src, inp, want, status)
        if w or be == 'll': return w
        r, o = oracle.compile_(self.ruc, src)
        x = sh([self.tool, 'verify', o])
        return None if b'#ok' in x.err else 'the image is malformed: ' + x.err.decode('utf-8', 'replace')[:300]

    def case(self, rnd, i):
        be = 'll' if i % 6 == 4 else 'vm'
        seed = rnd.getrandbits(60)
        if i % 2:
            be = rnd.choice(('vm', 'll'))
            src, out, size = large(seed)
            c = Case(trivial=sum(size.values()) < 50, key=digest(src), sample={'large': size, 'program': src[:1000], 'output': out[:300]}, tags={'large ' + k: 1 for k in size} | {be: 1})
            w = self.judge(src, '', out, 'ok', be)
            if w: c.fail = Fail(why='%s: %s' % (', '.join('%d %s' % (v, k) for k, v in size.items()), w), data={'source': src, 'input': '', 'want': out, 'status': 'ok', 'be': be, 'large': seed})
            return c
        g = ll.make(seed) if be == 'll' else self.make(seed)
        if g is None: return Case(trivial=True)
        p, out, st, counts = g
        src, size = pad(random.Random(seed), p.source())
        if src is None: return Case(trivial=True)
        c = Case(trivial=len(counts) < 12 or not out or sum(size.values()) < 50, key=digest(src),
                 sample={'added': size, 'program': p.source()[:1000], 'output': out[:300]}, tags={'added ' + k: 1 for k in size} | {be: 1} | {'large ' + k: 1 for k, v in size.items() if v >= 900})
        w = self.judge(src, p.input, out, st, be)
        if w: c.fail = Fail(why='with %s added: %s' % (', '.join('%d %s' % (v, k) for k, v in size.items()), w), data={'source': src, 'input': p.input, 'want': out, 'status': st, 'be': be})
        return c

    def replay(self, d):
        st = d['status']
        return self.judge(d['source'], d['input'], d['want'], tuple(st) if isinstance(st, list) else st, d['be'])

    def shrink(self, d, why, deadline):
        """Leave out lines that were added, as long as it still fails."""
        import time
        if 'large' in d:
            for most in (1, 2, 4, 8, 16, 32, 64, 128, 129, 256, 512, 1024, 4096, 20000):
                for w in sorted(PARTS):
                    if time.time() > deadline: return d, why
                    src, out, size = large(d['large'], w, most)
                    x = self.judge(src, '', out, 'ok', d['be'])
                    if x: return {'source': src, 'input': '', 'want': out, 'status': 'ok', 'be': d['be']}, '%d %s: %s' % (size[w], w, x)
            return d, why
        lines = d['source'].split('\n'); n = max(1, len(lines) // 4)
        z = lambda l: re.search(r'\bz[a-z]+\d|\bzi\b|\bzbig\b', l) is not None
        while n and time.time() < deadline:
            i = 0; done = False
            while i < len(lines) and time.time() < deadline:
                part = lines[i:i + n]
                q = lines[:i] + [l for l in part if not z(l)] + lines[i + n:]
                if len(q) < len(lines):
                    w = self.replay(dict(d, source='\n'.join(q)))
                    if w and ('rejected' in w) == ('rejected' in why): lines = q; why = w; done = True; continue
                i += n
            n //= 2
        return dict(d, source='\n'.join(lines)), why


ll = C02()
prop = C22()
