"""Exactly the programs that keep the rules of the language are accepted."""
import os
import re

from .. import build, oracle
from .. import typing_ as T
from ..core import Case, Fail, Prop, Scratch, digest, sh

ERR = re.compile(r'^.*?:(\d+):\d+: ошибка: (.*)$', re.M)
DECLS = [('int', T.INT), ('char', T.CHAR), ('float', T.FLOAT), ('bool', T.BOOL), ('E', T.enum('E')), ('F', T.enum('F')), ('A', T.struct('A')), ('B', T.struct('B')), ('D', T.struct('D')), ('whole', T.INT), ('pair', T.struct('B'))]
RETS = [(n, t) for n, t in DECLS if n not in ('D',)] + [('int*', T.ptr(T.INT)), ('const int*', T.ptr(T.con(T.INT))), ('B*', T.ptr(T.struct('B'))), ('void', T.VOID)]


OK_GLOBAL = ['int %1 = 1; int *%2 = &%1;', 'int %1; int *const %2 = &%1;', 'struct %1 { int a; } %2;', 'struct %1 { int a; }; typedef %1 %2; %2 %3;', 'int %1(int); int %1(int x) { return x; }', 'void %1(int (*)(int), char[]); void %1(int (*q)(int), char z[]) { }',
             'int %1(const int*, float); int %1(const int *x, float y) { return *x; }', 'const int *%1() { return null; }', 'void *%1() { return null; }', 'int %1(); int %2() { return %1(); } int %1() { return 1; }', 'int %1() { int %1 = 2; return %1; }',
             'enum %1 { %2 = 5, %3 }; enum %4 { %5 = %3 + 1 };', 'enum %1 { %2 = 5, %3 = %2 + 1 };', 'int %1[2] = { 1, 2 };', 'int %1[] = { 1, 2 }, %2 = 3, *%3 = &%2;', 'int %1(int a) { { int a = 1; } return a; }', 'int %1(int a) { for (int a = 0; a < 1; a++) ; return a; }',
             'int %1(int (*q)(int)) { return q(1); } int %2() { return %1(fi); }', 'float %1(float x[]) { return x[0]; } float %2() { return %1(fr); }', 'int %1(int x[][]) { return x[0][0]; } int %2() { return %1(rr); }', 'const bool %1 = true; const int %2 = 3; const float %3 = 2.5; const char %4 = 99;',
             'const float %1 = 2.5; const float *%2 = &%1; const int *%3 = &ki; bool %4 = *%2 < *%3;', 'int %1(int x) { return x > 0 ? %1(x - 1) : 0; }', 'struct %1 { int a; }; %1 %2(%1 q) { return q; } int %3(%1 q) { return %2(q).a; }', 'typedef int %1; %1 %2(%1 x) { int y = x; return y; }']
BAD_GLOBAL = ['int %1() { return 1; } int %1() { return 2; }', 'int %1; float %1;', 'int %1; int %1() { return 1; }', 'int %1(int); float %1(int x) { return 1; }', 'int %1(int); int %1(int x, int y) { return 1; }', 'int %1(int); int %1(float);', 'const int %1() { return 1; }', 'int *const %1() { return null; }', 'int %1(int) { return 1; }',
              'int %1(int x, int) { return 1; }', 'int %1(void x) { return 1; }', 'nosuch %1;', 'void %1;', 'void %1[3];', 'int main() { return 1; }', 'int main;', 'int %1() { return %2(); } int %2() { return 1; }', 'struct %1 { int a; }; struct %1 { float b; };', 'struct %1 { int a; }; int %1 = 1;', 'enum %1 { %2 }; int %2 = 2;', 'enum %1 { %2 }; enum %3 { %2 };',
              'int %1 = %2; int %2 = 1;', 'int %1(int a) { int a = 1; return a; }', 'int %1(int (*q)(int)) { return q(1, 2); }', 'int %1(int (*q)(int)) { return q(1); } int %2() { return %1(ff); }', 'int %1(int (*q)(int)) { return q(1); } int %2() { return %1(1); }', 'float %1(float x[]) { return x[0]; } float %2() { return %1(r); }',
              'int %1(int x[][]) { return x[0][0]; } int %2() { return %1(r); }', 'int %1(int x) return x;', 'int %1(int x) { return x }', 'int %1(int x) { return x + ; }', 'typedef int %1; typedef float %1;', 'typedef nosuch %1;', 'int %1(x) { return 1; }', 'int %1(int x,) { return 1; }', 'typedef int;', 'struct %1;', 'int;', 'const const int %1 = 1;',
              'const float %1 = 2.5; const int *%2 = &%1;', 'const float %1; ', 'int *const %1;', 'int *const %1 = &i; void %2() { %1 = &i; }', 'const int %1 = 1; void %2() { %1 = 2; }', 'const int %1 = 1; int *%2 = &%1;', 'struct %1 { int a; }; struct %2 { int b; }; %1 %3(%2 q) { return q; }', 'int %1[] ;', 'int %1[0];', 'int %1[1.5];', 'void %1() { %2: i = 1; }',
              'enum %1 { };', 'enum %1 { %2 = i };', 'int %1() { break; return 1; }', 'void %1() { return 1; }', 'int %1() { return; }', 'int %1() { return 1.5; }', 'int %1(int x, int x) { return x; }', 'int if = 1;', 'int 1%1;', 'int %1 = ;', 'int %1 = {};', 'int %1 = 1 2;', 'int %1(int x = 1) { return x; }', 'int %1 = "a";', "char %1[] = 'a';"]


class Gen:
    def __init__(self, rnd): self.r = rnd

    def leaf(self):
        x = self.r.random()
        if x < 0.72: return ('name', self.r.choice(sorted(T.VARS)))
        return ('lit', self.r.choice(sorted(T.LITS)))

    def sub(self, depth):
        """A subexpression; mostly one that keeps the rules."""
        if depth <= 0 or self.r.random() < 0.3: return self.leaf()
        for _ in range(40):
            e = self.expr(depth)
            if T.verdict(T.check, e) == 'ok': return e
        return self.leaf()

    def of(self, t, depth):
        """An expression of one of the types that t accepts, often."""
        for _ in range(25):
            e = self.sub(depth)
            if T.verdict(T.assign, t, e) == 'ok': return e
        return self.leaf()

    def init(self, t, depth):
        r = self.r
        k = T.kind(T.unq(t))
        if r.random() < (0.5 if k in ('struct', 'arr') else 0.04):
            if k == 'struct': xs = [self.init(m, depth - 1) for _, m in T.STRUCTS[T.unq(t)[1]]]
            elif k == 'arr': xs = [self.init(T.unq(t)[1], depth - 1) for _ in range(r.randint(1, 3))]
            else: xs = [self.leaf()]
            if r.random() < 0.12:
                if r.random() < 0.5 or len(xs) == 1: xs = xs + [self.leaf()]
                else: xs = xs[:-1]
            return ('list', xs)
        return self.of(t, depth) if r.random() < 0.6 else self.sub(depth)

    def expr(self, depth):
        r = self.r
        k = r.choice(['un'] * 4 + ['bin'] * 8 + ['asg'] * 4 + ['sub', 'dot', 'arrow', 'call', 'call', 'cond', 'print', 'printf', 'par'])
        d = depth - 1
        if k == 'un':
            op = r.choice(['++', '--', 'p++', 'p--', '&', '*', '-', 'abs', '~', '!', 'upb'])
            if op == 'upb' and r.random() < 0.6: return ('un', op, self.like(T.is_arr, d))
            if op == '*' and r.random() < 0.6: return ('un', op, self.like(T.is_ptr, d))
            return ('un', op, self.sub(d))
        if k == 'bin':
            op = r.choice(T.ARITH2 + T.INT2 + T.REL + T.EQ * 3 + T.LOG * 2 + [','])
            x = self.sub(d)
            if r.random() < 0.4: y = self.same(x, d)
            else: y = self.sub(d)
            return ('bin', op, x, y)
        if k == 'asg':
            op = '=' if r.random() < 0.55 else r.choice(T.ASG)
            x = self.lval(d)
            try: t = T.check(x)[0]
            except (T.Bad, T.Unknown): return ('bin', op, x, self.sub(d))
            return ('bin', op, x, self.init(t, d) if op == '=' else self.sub(d))
        if k == 'sub': return ('sub', self.like(T.is_arr, d) if r.random() < 0.8 else self.sub(d), self.sub(d))
        if k == 'dot': return ('dot', self.like(T.is_struct, d) if r.random() < 0.8 else self.sub(d), r.choice('xytzpwckvnam'))
        if k == 'arrow': return ('arrow', self.like(lambda t: T.is_ptr(t) and T.is_struct(T.unq(t)[1]), d) if r.random() < 0.75 else self.sub(d), r.choice('xytzpwckvnam'))
        if k == 'call':
            f = r.choice(sorted(T.FUNS))
            ps = list(T.FUNS[f][2:])
            if r.random() < 0.06: ps = ps[:-1] if ps and r.random() < 0.5 else ps + [T.INT]
            args = [('name', r.choice(sorted(T.FUNS))) if T.kind(p) == 'fn' else self.init(p, d) for p in ps]
            callee = ('name', f) if r.random() < 0.95 else self.sub(d)
            return ('call', callee, args)
        if k == 'cond':
            x, y = self.sub(d), self.sub(d)
            return ('cond', x, y, self.same(y, d) if r.random() < 0.6 else self.sub(d))
        if k == 'print': return ('print', [self.sub(d) for _ in range(r.randint(1, 3))])
        if k == 'printf':
            s = ''.join(r.choice(['%i', '%c', '%f', '%s', '%%', 'x', '%ц', '%л', '%в', '%с']) for _ in range(r.randint(0, 4)))
            if r.random() < 0.06: s += r.choice(['%q', '%d', '%', '%Ж'])
            want = []
            try: want = T.spec(s)
            except T.Bad: pass
            if r.random() < 0.1: want = want[:-1] if want and r.random() < 0.5 else want + [T.INT]
            return ('printf', s, [self.of(t, d) if r.random() < 0.7 else self.sub(d) for t in want])
        return ('par', self.sub(d))

    def like(self, p, depth):
        for _ in range(30):
            e = self.sub(depth)
            try:
                if p(T.check(e)[0]): return e
            except (T.Bad, T.Unknown): pass
        return self.leaf()

    def same(self, x, depth):
        try: t = T.check(x)[0]
        except (T.Bad, T.Unknown): return self.sub(depth)
        return self.like(lambda u: T.unq(u) == T.unq(t), depth)

    def lval(self, depth):
        for _ in range(20):
            e = self.sub(depth)
            try:
                if T.check(e)[1]: return e
            except (T.Bad, T.Unknown): pass
            if self.r.random() < 0.12: return e
        return self.leaf()

    # ---- one function each, on one line
    def item(self, n):
        """(text of a function definition, verdict, what)"""
        r = self.r
        depth = r.choice([1, 1, 2, 2, 3])
        k = r.choice(['expr'] * 8 + ['init'] * 4 + ['cond', 'cond', 'switch', 'return', 'return', 'bound', 'noinit', 'case'] + ['scope'] * 6 + ['global'] * 4)
        if k == 'global':
            v = r.choice(['ok', 'bad'])
            t = r.choice(OK_GLOBAL if v == 'ok' else BAD_GLOBAL)
            return re.sub(r'%(\d)', r'h%d_\1' % n, t), v, k
        if k == 'scope': return Scoped(r, n).build()
        if k == 'return':
            tn, t = r.choice(RETS)
            if r.random() < 0.12: return '%s t%d() { return; }' % (tn, n), ('ok' if t == T.VOID else 'bad'), k
            e = self.init(t, depth) if t != T.VOID else self.sub(depth)
            v = T.verdict(T.assign, t, e) if t != T.VOID else 'bad'
            if e[0] == 'list': v = None      # a list is not an expression of the grammar here
            return '%s t%d() { return %s; }' % (tn, n, T.text(e, True)), v, k
        if k == 'expr':
            e = self.expr(depth)
            body, v = T.text(e, True) + ';', T.verdict(T.check, e)
        elif k == 'init':
            tn, t = r.choice(DECLS)
            q = r.random() < 0.25
            if q: tn, t = 'const ' + tn, T.con(t)
            dcl = 'v'
            shape = r.random()
            if shape < 0.25:
                dcl, t = '*v', T.ptr(t)
                if r.random() < 0.3: dcl, t = '*const v', T.con(t)
            elif shape < 0.42: dcl, t = 'v[]', T.arr(t)
            elif shape < 0.5: dcl, t = 'v[2]', T.arr(t)
            e = self.init(t, depth)
            body, v = '%s %s = %s;' % (tn, dcl, T.arg(e)), T.verdict(T.assign, t, e)
            if dcl == 'v[2]' and e[0] != 'list' and v == 'ok' and T.kind(T.unq(t)[1]) == 'arr': v = None
            if 'v[' in dcl and e[0] == 'lit' and v == 'ok' and dcl == 'v[2]': v = None
        elif k == 'cond':
            e = self.sub(depth) if r.random() < 0.8 else self.leaf()
            t = None
            v = T.verdict(T.check, e)
            if v == 'ok':
                t = T.check(e)[0]
                v = None if t == T.NULL else 'ok' if T.scalar(t) else 'bad'
            x = T.text(e, True)
            body = r.choice(['if (%s) i = 2;', 'if (%s) i = 2; else i = 3;', 'while (%s) i = 2;', 'do i = 2; while (%s);', 'for (i = 0; %s; i++) i = 2;', 'for (int q = 0; %s; ) ;']) % x
        elif k == 'switch':
            e = self.sub(depth)
            v = T.verdict(T.check, e)
            if v == 'ok': v = 'ok' if T.is_int(T.check(e)[0]) else 'bad'
            body = 'switch (%s) { case 1: i = 2; break; default: i = 3; }' % T.text(e, True)
        elif k == 'bound':
            e = self.sub(depth)
            v = T.verdict(T.check, e)
            if v == 'ok':
                v = 'ok' if T.is_int(T.check(e)[0]) else 'bad'
                if v == 'ok' and not any(x[0] == 'name' and x[1] in T.VARS for x in walk(e)): v = None     # a constant: its value matters too
                if e[0] == 'lit' and v is None and e[1].isdigit(): v = 'ok' if int(e[1]) > 0 else 'bad'
            body = 'int v[%s];' % T.text(e, True)
            if r.random() < 0.3: body = 'int v[2][%s];' % T.text(e, True)
        elif k == 'noinit':
            tn, t = r.choice(DECLS + [('void', T.VOID)])
            q = r.random() < 0.4
            dcl = r.choice(['v', 'v', '*v', '*const v', 'v[3]', 'v[]', 'v[2][3]', 'v[2][]', '*v[2]'])
            bad = tn == 'void' or dcl == '*const v' or '[]' in dcl or q and '*' not in dcl or tn == 'D' and '*' not in dcl
            body, v = '%s%s %s;' % ('const ' if q else '', tn, dcl), 'bad' if bad else 'ok'
            if tn == 'void' and dcl != 'v': v = None
        else:
            c, v = r.choice([('1', 'ok'), ("'a'", 'ok'), ('E1', 'ok'), ('1 + 2', 'ok'), ('(3)', 'ok'), ('-1', 'ok'), ('~1', 'ok'), ('2 * (3 - 1)', 'ok'), ('F1 + 4', 'ok'),
                             ('i', 'bad'), ('ki', 'bad'), ('1.5', 'bad'), ('true', 'bad'), ('"a"', 'bad'), ('fi(1)', 'bad'), ('i + 1', 'bad'), ('1 + i', 'bad'), ('2 < 3', 'bad'), ('null', 'bad'), ('r[0]', 'bad'), ('1.5 + 2', 'bad'), ('!1', 'bad'), ('i++', 'bad'), ('(i = 1)', 'bad')])
            if r.random() < 0.5: body = 'switch (i) { case %s: i = 2; }' % c
            else:
                body = 'switch (i) { case 99: i = 1; break; case %s: { i = 2; } default: ; }' % c
        w = r.random()
        if w < 0.2: body = '{ %s }' % body
        elif w < 0.3: body = 'if (b) { %s }' % body
        elif w < 0.35: body = 'while (b) { %s break; }' % body
        elif w < 0.4: body = 'switch (i) { case 1: { %s } }' % body
        return 'void t%d() { %s }' % (n, body), v, k


def walk(e):
    yield e
    for x in e[1:]:
        if isinstance(x, tuple): yield from walk(x)
        elif isinstance(x, list):
            for y in x: yield from walk(y)


def unbalance(r, f):
    """f without one of its brackets"""
    t = re.sub(r'"[^"]*"|\'[^\']*\'', lambda m: '~' * len(m.group(0)), f)
    at = [j for j, c in enumerate(t) if c in '()[]{}']
    if not at: return None
    j = r.choice(at)
    return f[:j] + f[j + 1:]


class Scoped:
    """A function with nested scopes and statements, with at most one broken rule."""

    def __init__(self, r, n):
        self.r, self.n = r, n
        self.left = 1 if r.random() < 0.55 else 0
        self.bad = None
        self.scopes = []
        self.gone = []
        self.fresh = 0
        self.ret = r.choice(['int', 'void', 'float'])

    def hit(self, p=0.25):
        if self.left and self.r.random() < p:
            self.left = 0
            return True
        return False

    def names(self): return [x for s in self.scopes for x in s]

    def new(self):
        self.fresh += 1
        return 'n%d_%d' % (self.n, self.fresh)

    def build(self):
        r = self.r
        ps = ['q%d_%d' % (self.n, j) for j in range(r.randint(0, 3))]
        self.scopes.append(list(ps))
        head = ', '.join('int ' + p for p in ps)
        if len(ps) > 1 and self.hit(0.08):
            self.bad = 'parameter declared twice'
            head = ', '.join('int ' + ps[0] for _ in ps)
            body = '{ %s }' % self.returns()
        else: body = '{ ' + self.block(r.randint(1, 5), 3, False, False) + ' ' + self.returns() + ' }'
        return '%s t%d(%s) %s' % (self.ret, self.n, head, body), 'bad' if self.bad else 'ok', 'scope'

    def returns(self): return {'int': 'return 1;', 'void': 'return;', 'float': 'return 1;'}[self.ret]

    def use(self):
        ns = self.names()
        if self.hit(0.12):
            gone = [g for g in self.gone if g not in ns]
            if gone and self.r.random() < 0.7:
                self.bad = 'name used out of its scope'
                return self.r.choice(gone)
            self.bad = 'undeclared name'
            return 'zz%d' % self.n
        return self.r.choice(ns + ['i', 'ki'])

    def expr(self): return self.r.choice(['%s', '%s + 1', 'fi(%s)', '(%s * 2)', '-%s', 'r[%s]']) % self.use()

    def decl(self):
        x = self.new()
        mine = self.scopes[-1]
        if mine and self.hit(0.15):
            self.bad = 'declared twice in a scope'
            return 'int %s = %s;' % (self.r.choice(mine), self.expr())
        outer = [y for s in self.scopes[:-1] for y in s if y not in mine]
        if outer and self.r.random() < 0.3 and len(self.scopes) > 2: x = self.r.choice(outer)
        if self.hit(0.07):
            self.bad = 'used in its own initializer'
            y = 'w%d' % self.n
            return 'int %s = %s + 1;' % (y, y)
        k = self.r.randrange(5)
        if k == 0:
            mine.append(x)
            return 'int %s;' % x
        e = self.expr()
        mine.append(x)
        if k == 1:
            y = self.new()
            mine.append(y)
            return 'int %s = %s, %s = %s;' % (x, e, y, x)
        if k == 2: return 'const int %s = %s;' % (x, e)
        return 'int %s = %s;' % (x, e)

    def block(self, n, depth, loop, switch):
        return ' '.join(self.stmt(depth, loop, switch, True) for _ in range(n))

    def scoped(self, f):
        self.scopes.append([])
        t = f()
        self.gone += self.scopes.pop()
        return t

    def stmt(self, depth, loop, switch, decl):
        r = self.r
        k = r.choice(['decl', 'decl', 'expr', 'expr', 'jump', 'return'] + (['block', 'if', 'while', 'do', 'for', 'fordecl', 'switch'] if depth else []) + (['type'] if decl else []))
        if not decl and k in ('decl', 'type'): k = 'expr'
        if k == 'decl': return self.decl()
        if k == 'type':
            x = self.new()
            if self.hit(0.2):
                self.bad, t = r.choice([('unknown type', 'nosuch %s = 1;'), ('void variable', 'void %s;'), ('structure with an unknown member type', 'struct %s { nosuch x; };'), ('member of type void', 'struct %s { void x; };'),
                                        ('member without bounds', 'struct %s { int x[]; };'), ('structure that contains itself', 'struct %s { %s x; };'), ('empty enumeration', 'enum %s { };'), ('value that is not a constant', 'enum %s { A%s = i };'),
                                        ('value that is not an integer', 'enum %s { A%s = 1.5 };'), ('type named twice', 'struct %s { int x; }; struct %s { int y; };'), ('type named twice', 'typedef int %s; typedef int %s;'),
                                        ('typedef without a name', 'typedef int;'), ('type used outside of its block', '{ typedef int %s; } %s x%s;')])
                return t.replace('%s', x)
            t = r.choice(['struct %s { int x; }; { %s v; v.x = 1; }', 'enum %s { A%s, B%s = 4 }; { %s v = A%s; }', 'struct %s { int *x; int y[2]; } v%s;', 'struct { int x; } v%s;', 'typedef int %s; { %s v = 1; i = v; }', 'typedef float *%s; { %s v = &f; v = &f; }', '{ typedef B %s; %s v = s; print(v.c); } int %s;',
                          'typedef enum { A%s, B%s } %s; { %s v = A%s; }', 'typedef struct { int x; } %s; { %s v = { 1 }; print(v.x); }', '{ typedef int %s; } { typedef float %s; %s v = 1.5; print(v); }'])
            return t.replace('%s', x)
        if k == 'expr':
            x = self.use()
            if self.hit(0.1):
                self.bad, t = r.choice([('too many arguments', 'fi(%s, 1);'), ('too few arguments', 'ff(%s);'), ('call of a variable', 'i(%s);'), ('no such member', 's.nosuch = %s;'), ('member of a number', 'i.x = %s;'), ('constant changed', 'ki = %s;'),
                                        ('constant changed', 'ki += %s;'), ('literal changed', '1 = %s;'), ('constant element changed', 'cr[%s] = 1;'), ('float to int', 'i = %s * 1.5;'), ('type used as a value', 'i = pair + %s;'), ('enumerator changed', 'E0 = %s;'),
                                        ('constant member changed', 'ks.x = %s;'), ('constant incremented', 'fi(%s); ki++;'), ('pointer from a number', 'p = %s;'), ('constant through pointer', '*pc = %s;')])
                return t % x
            return r.choice(['fi(%s);', 'i = %s;', 'print(%s);', 's.x = %s;', 'r[0] = %s;', '*p = %s;', 'f = %s;']) % x
        if k == 'jump':
            what = r.choice(['break', 'continue'])
            ok = loop or what == 'break' and switch
            if not ok:
                if not self.hit(0.5): return ';'
                self.bad = what + ' out of place'
            return what + ';'
        if k == 'return':
            if self.hit(0.1):
                self.bad = 'wrong return'
                return {'int': r.choice(['return;', 'return 1.5;', 'return p;', 'return true;']), 'void': 'return 1;', 'float': r.choice(['return;', 'return p;', 'return true;'])}[self.ret]
            if self.ret == 'void': return 'if (b) return;'
            return 'if (b) return %s;' % self.expr()
        if k == 'block': return '{ ' + self.scoped(lambda: self.block(r.randint(0, 4), depth - 1, loop, switch)) + ' }'
        body = lambda lp, sw: self.scoped(lambda: '{ ' + self.block(r.randint(0, 3), depth - 1, lp, sw) + ' }' if r.random() < 0.7 else self.stmt(0, lp, sw, False))
        if k == 'if':
            t = 'if (%s) %s' % (self.expr(), '{ ' + self.scoped(lambda: self.block(r.randint(0, 3), depth - 1, loop, switch)) + ' }')
            if r.random() < 0.5: t += ' else ' + body(loop, switch)
            return t
        if k == 'while': return 'while (%s) %s' % (self.expr(), body(True, switch))
        if k == 'do': return 'do %s while (%s);' % (body(True, switch), self.expr())
        if k == 'for': return 'for (%s; %s; %s) %s' % (r.choice(['', 'i = 1']), r.choice(['', 'i < 2']), r.choice(['', 'i++']), body(True, switch))
        if k == 'fordecl':
            def f():
                x = self.new()
                self.scopes[-1].append(x)
                return 'for (int %s = 0; %s < 3; %s++) %s' % (x, x, x, body(True, switch))
            return self.scoped(f)
        if k == 'switch':
            e = self.expr()
            def f():
                out = []
                for j in range(r.randint(0, 3)):
                    out.append('case %d: %s' % (j, self.stmt(depth - 1, loop, True, False)))
                if r.random() < 0.5: out.append('default: ' + self.stmt(depth - 1, loop, True, False))
                return '{ ' + ' '.join(out) + ' }'
            if not switch and self.hit(0.12):
                self.bad = 'label out of place'
                return r.choice(['case 1: i = 1;', 'default: i = 1;'])
            return 'switch (%s) %s' % (e, self.scoped(f))


class C09(Prop):
    id = 'C09'
    quick = (2000, 60)
    thorough = (60000, 850)
    chunk = 4
    rule = ('a case is a program of up to 40 functions over a fixed set of global objects of every type; each function applies random operators to operands of random types (or nests declarations and statements in scopes) and is judged by the '
            'typing rules of the documentation; non-trivial: it contains at least 5 functions that keep the rules and 5 that break one')
    assumptions = ['what the documentation leaves open is not judged: null as a condition, functions and calls without a value as operands, equality of aggregates, numbers given to enumerations',
                   'a function that is refused only because an earlier line of the same program is wrong does not count']

    def setup(self): self.ruc = build.ruc('rel')

    def program(self, fs): return T.PRELUDE + 'void main() { }\n' + '\n'.join(fs) + '\n'

    def errors(self, fs):
        """(exit code, {index of function: first message}, other errors)"""
        base = T.PRELUDE.count('\n') + 2
        r, _ = oracle.compile_(self.ruc, self.program(fs))
        if r.timeout: return None, {}, ['no answer']
        at, other = {}, []
        for l, m in ERR.findall(oracle.plain(r.err + r.out)):
            j = int(l) - base
            if 0 <= j < len(fs): at.setdefault(j, m)
            else: other.append('line %s: %s' % (l, m))
        return r.rc, at, other

    def alone(self, f, v):
        rc, at, other = self.errors([f])
        if rc is None: return 'the compiler did not answer for %s' % f
        if v == 'ok':
            if rc != 66: return None if rc in (0, 70) else 'the compiler ends with exit code %d for %s' % (rc, f)
            return 'keeps the rules, but is refused (%s): %s' % ((list(at.values()) + other + ['no message'])[0], f)
        if rc == 66 and (at or other): return None
        if rc == 0: return 'breaks a rule, but is accepted: %s' % f
        return 'breaks a rule, and the compiler ends with exit code %d and %s: %s' % (rc, 'a message' if at or other else 'no message', f)

    def judge(self, items):
        """the first function the compiler judges wrongly: (reason, function, verdict) or None"""
        good = [(f, v) for f, v in items if v == 'ok']
        rc, at, other = self.errors([f for f, _ in good])
        suspects = []
        if rc not in (0, 70): suspects += [good[j] for j in sorted(at)] or good
        bad = [(f, v) for f, v in items if v == 'bad']
        if bad:
            rc, at, other = self.errors([f for f, _ in bad])
            if rc != 66: suspects += bad
            else: suspects += [x for j, x in enumerate(bad) if j not in at]
        for f, v in suspects:
            w = self.alone(f, v)
            if w: return w, f, v
        return None

    def case(self, rnd, i):
        g = Gen(rnd)
        items, tags = [], {}
        for n in range(rnd.choice([10, 25, 40])):
            f, v, k = g.item(n)
            if v is None: continue
            items.append((f, v))
            tags[k + ' ' + v] = tags.get(k + ' ' + v, 0) + 1
        nb = sum(v == 'bad' for _, v in items)
        c = Case(trivial=nb < 5 or len(items) - nb < 5, key=digest('\n'.join(f for f, _ in items)), sample=[f for f, _ in items[:4]], tags=tags, n=1)
        w = self.judge(items)
        if not w and i % 3 == 0:
            f = unbalance(rnd, rnd.choice(items)[0]) if items else None
            x = f and self.alone(f, 'bad')
            if x: w = (x, f, 'bad')
        if w: c.fail = Fail(why=w[0], data={'function': w[1], 'verdict': w[2]})
        return c

    def replay(self, d): return self.alone(d['function'], d['verdict'])

    def shrink(self, d, why, deadline): return d, why

    def describe(self, d): return {'c': self.program([d['function']])}


prop = C09()
