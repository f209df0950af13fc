"""Operators group as the language's precedence and associativity say."""
from .. import build, exprs, lang, oracle
from ..core import Case, Fail, Prop, digest
from ..lang import *

ASSIGN = ['=', '+=', '-=', '*=', '&=', '|=', '^=']


class Tree:
    """Random expression trees over plain variables, elements, members, pointers and calls; every variable that an
    expression changes occurs in it once, so its value does not depend on the order of evaluation."""

    def __init__(self, rnd):
        self.r = rnd
        self.free = ['w%d' % i for i in range(6)] + ['b[%d]' % i for i in range(3)] + ['t.x', 'q->y']
        rnd.shuffle(self.free)

    def place(self):
        """A location used nowhere else in the expression"""
        v = self.free.pop()
        if v[0] == 'b': return N('index', INT, [N('var', arr(INT), v='b'), N('int', INT, v=int(v[2]))])
        if v == 't.x': return N('member', INT, [N('var', ('struct', 'S'), v='t')], 'x')
        if v == 'q->y': return N('arrow', INT, [N('var', ptr(('struct', 'S')), v='q')], 'y')
        return N('var', INT, v=v)

    def leaf(self, d):
        r = self.r
        k = r.random()
        if k < 0.5: return N('var', INT, v='v%d' % r.randrange(6))
        if k < 0.62: return N('int', INT, v=r.choice([0, 1, 2, 3, 5, 8]))
        if k < 0.7: return N('deref', INT, [N('var', ptr(INT), v='p')])
        if k < 0.76: return N('member', INT, [N('var', ('struct', 'S'), v='s')], r.choice('xy'))
        if k < 0.8: return N('arrow', INT, [N('var', ptr(('struct', 'S')), v='r')], r.choice('xy'))
        if k < 0.88: return N('index', INT, [N('var', arr(INT), v='a'), N('int', INT, v=r.randrange(4))])
        if k < 0.92: return N('call', INT, [self.gen(d - 1)], 'f')
        if k < 0.98 and self.free: return N(r.choice(['preinc', 'postinc']), INT, [self.place()], r.choice(['++', '--']))
        return N('var', INT, v='v0')

    def cond(self, d):
        """Anything scalar may be a condition"""
        if self.r.random() < 0.5: return self.gen(d)
        return self.boolean(d)

    def boolean(self, d):
        r = self.r
        k = r.random()
        if k < 0.5 or d <= 0:
            return N('bin', BOOL, [self.gen(d - 1), self.gen(d - 1)], r.choice(exprs.REL))
        if k < 0.85: return N('bin', BOOL, [self.cond(d - 1), self.cond(d - 1)], r.choice(['&&', '||']))
        return N('un', BOOL, [self.cond(d - 1)], '!')

    def gen(self, d):
        r = self.r
        if d <= 0: return self.leaf(0)
        k = r.random()
        if k < 0.62:
            op = r.choice(exprs.INTOPS + ['<<', '>>', '&', '|', '^'])
            return N('bin', INT, [self.gen(d - 1), self.gen(d - 1)], op)
        if k < 0.74: return N('un', INT, [self.gen(d - 1)], r.choice(['-', '~']))
        if k < 0.84: return N('cond', INT, [self.cond(d - 1), self.gen(d - 1), self.gen(d - 1)])
        if k < 0.94 and self.free:
            p = self.place()
            return N('assign', INT, [p, self.gen(d - 1)], r.choice(ASSIGN))
        return self.leaf(d)


V = {'v0': 7, 'v1': 2, 'v2': -3, 'v3': 12, 'v4': 1, 'v5': 5, 'w0': 3, 'w1': -8, 'w2': 20, 'w3': 6, 'w4': 9, 'w5': 4}
A, B, S, T, R, Q, P = [4, -1, 6, 3], [2, 11, -5], {'x': 3, 'y': 10}, {'x': 5, 'y': 2}, {'x': -2, 'y': 4}, {'x': 8, 'y': 13}, 6


class Val:
    def __init__(self):
        self.m = dict(V)
        for i, x in enumerate(A): self.m['a', i] = x
        for i, x in enumerate(B): self.m['b', i] = x
        for n, d in (('s', S), ('t', T), ('r', R), ('q', Q)):
            for k, x in d.items(): self.m[n, k] = x
        self.m['p', 0] = P

    def loc(self, e):
        if e.k == 'var': return e.v
        if e.k == 'index': return e.c[0].v, e.c[1].v
        if e.k in ('member', 'arrow'): return e.c[0].v, e.v
        return 'p', 0

    @staticmethod
    def i32(v):
        if not INT_MIN <= v <= INT_MAX: raise Undef('overflow')
        return v

    def op(self, o, a, b):
        if o in ('/', '%'):
            if b == 0: raise Undef('division by zero')
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return self.i32(q) if o == '/' else a - b * q
        if o == '<<':
            if a < 0 or not 0 <= b < 31: raise Undef('shift')
            return self.i32(a << b)
        if o == '>>':
            if a < 0 or not 0 <= b < 31: raise Undef('shift')
            return a >> b
        return self.i32({'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b}[o]())

    def ev(self, e):
        k, c = e.k, e.c
        if k == 'int': return e.v
        if k in ('var', 'index', 'member', 'arrow', 'deref'): return self.m[self.loc(e)]
        if k == 'call': return self.i32(2 * self.ev(c[0]) + 1)
        if k in ('preinc', 'postinc'):
            l = self.loc(c[0])
            o = self.m[l]
            self.m[l] = self.i32(o + (1 if e.v == '++' else -1))
            return o if k == 'postinc' else self.m[l]
        if k == 'assign':
            l = self.loc(c[0])
            v = self.ev(c[1])
            self.m[l] = v if e.v == '=' else self.op(e.v[:-1], self.m[l], v)
            return self.m[l]
        if k == 'cond': return self.ev(c[1]) if self.ev(c[0]) else self.ev(c[2])
        if k == 'un':
            v = self.ev(c[0])
            return -v if e.v == '-' and v != INT_MIN else not v if e.v == '!' else ~v if e.v == '~' else self.i32(-v)
        if e.v == '&&': return bool(self.ev(c[0])) and bool(self.ev(c[1]))
        if e.v == '||': return bool(self.ev(c[0])) or bool(self.ev(c[1]))
        a, b = self.ev(c[0]), self.ev(c[1])
        if e.v in exprs.REL: return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[e.v]
        return self.op(e.v, a, b)


def lst(d): return ', '.join(str(x) for x in d)


HEAD = '''struct S
{
	int x;
	int y;
};
int f(int n)
{
	return 2 * n + 1;
}
'''
DECL = ''.join('\tint %s = %d;\n' % kv for kv in V.items()) + '''\tint a[] = {%s};
\tint b[] = {%s};
\tstruct S s = {%s};
\tstruct S t = {%s};
\tstruct S r0 = {%s};
\tstruct S q0 = {%s};
\tstruct S *r = &r0;
\tstruct S *q = &q0;
\tint p0 = %d;
\tint *p = &p0;
''' % (lst(A), lst(B), lst(S.values()), lst(T.values()), lst(R.values()), lst(Q.values()), P)


def walk(e):
    yield e
    for x in e.c: yield from walk(x)


class C08(Prop):
    id = 'C08'
    quick = (16000, 50)
    thorough = (400000, 600)
    chunk = 16
    rule = ('a case is an expression printed with the fewest parentheses the grammar allows and with all parentheses; non-trivial: '
            'at least 5 operators of at least 3 precedence levels, and fewer parentheses than operators')
    assumptions = ['expressions whose value depends on the order of evaluation, overflows or divides by zero are not generated']

    def setup(self):
        self.vm = oracle.VM()

    def build(self, e):
        v = Val()
        x = v.ev(e)
        show = 'true' if x is True else 'false' if x is False else str(x)
        ch = sorted({l for n in walk(e) if n.k in ('assign', 'preinc', 'postinc') for l in [v.loc(n.c[0])]}, key=str)
        tail = ''
        for l in ch:
            t = l if isinstance(l, str) else '%s[%d]' % l if l[0] == 'b' else '%s.%s' % l if l[0] == 't' else '%s->%s' % l
            tail += '\tprint(%s, " ");\n' % t
        want = show + '\n' + ''.join('%d ' % v.m[l] for l in ch)
        def src(style):
            t = Printer(Program(), style).e(e, 2)
            return HEAD + 'void main()\n{\n' + DECL + ('\t%s z = %s;\n' % (e.ty, t)) + '\tprint(z, "\\n");\n' + tail + '}\n', t
        a, ta = src(PLAIN)
        b, tb = src(Style(parens=lambda n: n.k in ('bin', 'un', 'cond', 'assign', 'preinc', 'postinc', 'deref')))
        return a, b, want, ta, tb

    def judge(self, d):
        """minimal parentheses against the model, and against all parentheses"""
        w = self.vm.judge(d['a'], '', d['want'], 'ok')
        if w: return 'written with minimal parentheses: ' + w
        w = self.vm.judge(d['b'], '', d['want'], 'ok')
        if w: return 'written with all parentheses: ' + w
        for target in d['targets']:
            outs = []
            for s in (d['a'], d['b']):
                r, o = oracle.compile_(self.vm.ruc, s, target)
                if r.rc: outs.append('exit %d' % r.rc)
                else:
                    with open(o, 'rb') as f: outs.append(f.read())
            if outs[0] != outs[1]: return 'output for %s depends on redundant parentheses' % target
        return None

    def tree(self, rnd):
        for _ in range(80):
            t = Tree(rnd)
            d = rnd.randint(2, 5)
            e = t.gen(d) if rnd.random() < 0.7 else t.boolean(d)
            try:
                self.build(e)
            except Undef: continue
            return e
        return None

    def case(self, rnd, i):
        e = self.tree(rnd)
        if e is None: return Case(trivial=True)
        a, b, want, ta, tb = self.build(e)
        d = {'a': a, 'b': b, 'want': want, 'targets': [rnd.choice(['-VM', '-VM', '-LLVM', '-MIPS'])], 'e': e.to_json()}
        w = self.judge(d)
        levels = {eprec(x) for x in walk(e) if x.c}
        n = sum(1 for x in walk(e) if x.k in ('bin', 'un', 'cond', 'assign'))
        c = Case(trivial=n < 5 or len(levels) < 3 or ta.count('(') >= n, key=digest(ta), sample={'minimal': ta, 'full': tb, 'result': want},
                 tags={x.k + str(x.v or ''): 1 for x in walk(e) if x.k in ('bin', 'un', 'cond', 'assign')})
        if w: c.fail = Fail(why=w, data=d)
        return c

    def replay(self, d): return self.judge(d)

    def shrink(self, d, why, deadline):
        e = N.from_json(d['e'])
        best = d, why

        def attempt(x):
            nonlocal best, e
            try: a, b, want, _, _ = self.build(x)
            except Undef: return False
            d2 = {'a': a, 'b': b, 'want': want, 'targets': d['targets'], 'e': x.to_json()}
            w = self.judge(d2)
            if not w: return False
            best, e = (d2, w), x
            return True

        import time
        again = True
        while again and time.time() < deadline:
            again = False
            for x in e.c:
                if x.k not in ('var',) and attempt(x):
                    again = True
                    break
            if again: continue
            # replace a subtree by one of its children or by a constant
            for n in list(walk(e)):
                if n.k not in ('bin', 'un', 'cond', 'assign', 'call'): continue
                for r in [x for x in n.c if x.ty == n.ty and not (n.k == 'assign' and x is n.c[0])] + [N('int', INT, v=1)] * (n.ty == INT):
                    y = subst(e, n, r)
                    if exprs.size(y) < exprs.size(e) and attempt(y):
                        again = True
                        break
                if again: break
        return best

    def describe(self, d): return {'minimal.c': d['a'], 'full.c': d['b']}


def subst(e, a, b):
    if e is a: return b.copy()
    return N(e.k, e.ty, [subst(x, a, b) for x in e.c], e.v)


prop = C08()
