"""Abstract syntax, printer and reference interpreter of the RuC language.

The interpreter is written from docs/Language.md.  It is the oracle: it never looks at
anything the compiler produces.  Any run whose meaning the language leaves open
(overflow, division by zero, uninitialised read, order-dependent effects, ...) raises
Undef and the program is thrown away instead of being judged.
"""
import math

# ---------------------------------------------------------------- types
INT, CHAR, BOOL, FLOAT, VOID = 'int', 'char', 'bool', 'float', 'void'


def is_arr(t): return isinstance(t, tuple) and t[0] == 'arr'
def is_ptr(t): return isinstance(t, tuple) and t[0] == 'ptr'
def is_struct(t): return isinstance(t, tuple) and t[0] == 'struct'
def is_enum(t): return isinstance(t, tuple) and t[0] == 'enum'
def is_fun(t): return isinstance(t, tuple) and t[0] == 'func'
def is_intlike(t): return t in (INT, CHAR) or is_enum(t)
def arr(t): return ('arr', t)
def ptr(t): return ('ptr', t)


def base_and_dims(t):
    d = 0
    while is_arr(t):
        t = t[1]
        d += 1
    return t, d


class Undef(Exception):
    """The program has no meaning fixed by the language (or exceeds the harness bounds)."""


class N:
    """A syntax node: kind, type, children, payload."""
    __slots__ = ('k', 'ty', 'c', 'v')

    def __init__(self, k, ty=None, c=(), v=None):
        self.k = k
        self.ty = ty
        self.c = list(c)
        self.v = v

    def copy(self):
        return N(self.k, self.ty, [x.copy() if isinstance(x, N) else x for x in self.c], self.v)

    def to_json(self):
        return [self.k, _tj(self.ty), [x.to_json() if isinstance(x, N) else None for x in self.c], _tj(self.v)]

    @staticmethod
    def from_json(j):
        return N(j[0], _fj(j[1]), [N.from_json(x) if x is not None else None for x in j[2]], _fj(j[3]))


def _tj(x):
    if isinstance(x, tuple):
        return {'t': [_tj(y) for y in x]}
    if isinstance(x, list):
        return {'l': [_tj(y) for y in x]}
    if isinstance(x, N):
        return {'n': x.to_json()}
    if isinstance(x, float):
        return {'f': repr(x)}
    if isinstance(x, dict):
        return {'d': [[_tj(k), _tj(v)] for k, v in x.items()]}
    return x


def _fj(x):
    if isinstance(x, dict):
        if 't' in x: return tuple(_fj(y) for y in x['t'])
        if 'l' in x: return [_fj(y) for y in x['l']]
        if 'n' in x: return N.from_json(x['n'])
        if 'f' in x: return float(x['f'])
        if 'd' in x: return {_fj(k): _fj(v) for k, v in x['d']}
    return x


# ---------------------------------------------------------------- literals
ESC = {10: '\\n', 9: '\\t', 0: '\\0', 92: '\\\\', 39: "\\'", 34: '\\"'}


def char_lit(c):
    return "'" + ESC.get(c, chr(c)) + "'"


def str_lit(s):
    return '"' + ''.join(ESC[ord(ch)] if ord(ch) in (10, 9, 92, 34) else ch for ch in s) + '"'


def float_lit(f):
    """f is always a dyadic rational with a short decimal expansion."""
    s = repr(f)
    if 'e' in s or 'inf' in s or 'nan' in s:
        s = '%.10f' % f
    if '.' not in s:
        s += '.0'
    return s


# ---------------------------------------------------------------- precedence
BINPREC = {',': 1, '=': 2, '?': 3, '||': 4, '&&': 5, '|': 6, '^': 7, '&': 8, '==': 9, '!=': 9,
           '<': 10, '>': 10, '<=': 10, '>=': 10, '<<': 11, '>>': 11, '+': 12, '-': 12,
           '*': 13, '/': 13, '%': 13}
UNPREC, POSTPREC, PRIM = 14, 15, 16


def eprec(e):
    k = e.k
    if k == 'bin': return BINPREC[e.v]
    if k == 'assign': return 2
    if k == 'cond': return 3
    if k in ('un', 'addr', 'deref', 'preinc', 'abs', 'upb'): return UNPREC
    if k == 'int' and e.v < 0: return UNPREC
    if k == 'float' and (e.v < 0 or (e.v == 0 and math.copysign(1, e.v) < 0)): return UNPREC
    if k in ('postinc', 'index', 'member', 'arrow', 'call', 'bcall'): return POSTPREC
    return PRIM


class Style:
    """How a program is spelled; the default is plain English with minimal parentheses."""
    def __init__(self, kw=None, parens=None, builtin=None, intfmt=None):
        self.kw = kw or (lambda w: w)
        self.parens = parens or (lambda e: False)
        self.builtin = builtin or (lambda w: w)
        self.intfmt = intfmt or str
        self.floatfmt = lambda t: t


PLAIN = Style()


class Printer:
    def __init__(self, prog, style=PLAIN):
        self.p = prog
        self.s = style
        self.out = []

    # --- types
    def tname(self, t):
        kw = self.s.kw
        if isinstance(t, str): return kw(t)
        if is_struct(t) or is_enum(t): return t[1]
        raise ValueError(t)

    def declr(self, t, name, bounds=None):
        """type-specifier and declarator of a variable"""
        if is_fun(t):
            return self.tname(t[1]) + ' (*' + name + ')(' + ', '.join(self.ptype(x) for x in t[2]) + ')'
        b, d = base_and_dims(t)
        star = ''
        if is_ptr(b):
            b = b[1]
            star = '*'
        dims = ''
        for i in range(d):
            dims += '[' + (self.e(bounds[i]) if bounds and bounds[i] is not None else '') + ']'
        return self.tname(b) + ' ' + star + name + dims

    def ptype(self, t):
        b, d = base_and_dims(t)
        star = ''
        if is_ptr(b):
            b = b[1]
            star = ' *'
        return self.tname(b) + star + '[]' * d

    # --- expressions
    def e(self, x, minp=0):
        s = self._e(x)
        if eprec(x) < minp or self.s.parens(x):
            return '(' + s + ')'
        return s

    def _e(self, x):
        k, c = x.k, x.c
        if k == 'int':
            return self.s.intfmt(x.v) if x.v >= 0 else '-' + self.s.intfmt(-x.v)
        if k == 'float':
            t = float_lit(x.v)
            return '-' + self.s.floatfmt(t[1:]) if t[0] == '-' else self.s.floatfmt(t)
        if k == 'char': return char_lit(x.v)
        if k == 'bool': return self.s.kw('true' if x.v else 'false')
        if k == 'str': return str_lit(x.v)
        if k == 'null': return self.s.kw('null')
        if k == 'var' or k == 'enumc' or k == 'fname': return x.v
        if k == 'bin':
            p = BINPREC[x.v]
            l, r = self.e(c[0], p), self.e(c[1], p + 1)
            return l + ' ' + x.v + ' ' + r if x.v != ',' else l + ', ' + r
        if k == 'assign': return self.e(c[0], UNPREC) + ' ' + x.v + ' ' + self.e(c[1], 2)
        if k == 'cond': return self.e(c[0], 4) + ' ? ' + self.e(c[1], 2) + ' : ' + self.e(c[2], 3)
        if k == 'un':
            s = self.e(c[0], UNPREC)
            return x.v + (' ' if s[0] in '+-&' else '') + s
        if k == 'abs' or k == 'upb': return self.s.kw(k) + '(' + self.e(c[0]) + ')'
        if k == 'addr': return '&' + self.e(c[0], UNPREC)
        if k == 'deref': return '*' + self.e(c[0], UNPREC)
        if k == 'preinc':
            return x.v + self.e(c[0], UNPREC)
        if k == 'postinc': return self.e(c[0], POSTPREC) + x.v
        if k == 'index': return self.e(c[0], POSTPREC) + '[' + self.e(c[1]) + ']'
        if k == 'member': return self.e(c[0], POSTPREC) + '.' + x.v
        if k == 'arrow': return self.e(c[0], POSTPREC) + '->' + x.v
        if k == 'call': return x.v + '(' + ', '.join(self.e(a, 2) for a in c) + ')'
        if k == 'bcall': return self.s.builtin(x.v) + '(' + ', '.join(self.e(a, 2) for a in c) + ')'
        if k == 'init': return '{' + ', '.join(self.e(a, 2) for a in c) + '}'
        raise ValueError(k)

    # --- statements
    def w(self, ind, s):
        self.out.append('\t' * ind + s)

    def stmt(self, x, ind):
        k, c, kw = x.k, x.c, self.s.kw
        if k == 'decl':
            t, name, bounds, const = x.v
            s = (kw('const') + ' ' if const else '') + self.declr(t, name, bounds)
            if c: s += ' = ' + self.e(c[0], 2)
            self.w(ind, s + ';')
        elif k == 'decls':      # several declarators of one scalar type
            t, names = x.v
            self.w(ind, self.tname(t) + ' ' + ', '.join(n + (' = ' + self.e(i, 2) if i is not None else '') for n, i in zip(names, c)) + ';')
        elif k == 'expr': self.w(ind, self.e(c[0]) + ';')
        elif k == 'null': self.w(ind, ';')
        elif k == 'block':
            self.w(ind, '{')
            for s in c: self.stmt(s, ind + 1)
            self.w(ind, '}')
        elif k == 'if':
            self.w(ind, kw('if') + ' (' + self.e(c[0]) + ')')
            self.sub(c[1], ind, len(c) > 2)
            if len(c) > 2:
                self.w(ind, kw('else'))
                self.sub(c[2], ind, False)
        elif k == 'while':
            self.w(ind, kw('while') + ' (' + self.e(c[0]) + ')')
            self.sub(c[1], ind)
        elif k == 'do':
            self.w(ind, kw('do'))
            self.sub(c[0], ind)
            self.w(ind, kw('while') + ' (' + self.e(c[1]) + ');')
        elif k == 'for':
            i, cond, inc, body = c
            if i is None: h = ';'
            elif i.k in ('decl', 'decls'):
                save = self.out
                self.out = []
                self.stmt(i, 0)
                h = self.out[0]
                self.out = save
            else: h = self.e(i) + ';'
            self.w(ind, kw('for') + ' (' + h + ' ' + (self.e(cond) if cond is not None else '') + '; ' + (self.e(inc) if inc is not None else '') + ')')
            self.sub(body, ind)
        elif k == 'switch':
            self.w(ind, kw('switch') + ' (' + self.e(c[0]) + ')')
            self.w(ind, '{')
            for cs in c[1:]:
                for lab in cs.v:
                    if lab is None: self.w(ind + 1, kw('default') + ':')
                    else: self.w(ind + 1, kw('case') + ' ' + self.e(lab) + ':')
                for s in cs.c: self.stmt(s, ind + 2)
            self.w(ind, '}')
        elif k == 'break': self.w(ind, kw('break') + ';')
        elif k == 'continue': self.w(ind, kw('continue') + ';')
        elif k == 'return': self.w(ind, kw('return') + ((' ' + self.e(c[0])) if c else '') + ';')
        else: raise ValueError(k)

    def sub(self, s, ind, before_else=False):
        # dangling else: protect an if without else
        if before_else and s.k != 'block' and ends_in_open_if(s):
            s = N('block', c=[s])
        self.stmt(s, ind if s.k == 'block' else ind + 1)

    def program(self):
        p, kw = self.p, self.s.kw
        for item in p.items:
            if item[0] == 'struct':
                _, name, fields = item
                self.w(0, kw('struct') + ' ' + name)
                self.w(0, '{')
                for fn, ft, bounds in fields:
                    self.w(1, self.declr(ft, fn, bounds) + ';')
                self.w(0, '};')
            elif item[0] == 'enum':
                _, name, elems = item
                self.w(0, kw('enum') + ' ' + name + ' { ' + ', '.join(n + (' = %d' % v if show else '') for n, v, show in elems) + ' };')
            elif item[0] == 'typedef':
                self.w(0, kw('typedef') + ' ' + self.tname(item[2]) + ' ' + item[1] + ';')
            elif item[0] == 'global':
                self.stmt(item[1], 0)
            elif item[0] == 'proto':
                f = p.funcs[item[1]]
                self.w(0, self.tname(f.ret) + ' ' + f.name + '(' + ', '.join(self.pproto(t) for t, _ in f.params) + ');')
            elif item[0] == 'func':
                f = p.funcs[item[1]]
                rt = (self.tname(f.ret[1]) + ' *') if is_ptr(f.ret) else self.tname(f.ret) + ' '
                self.w(0, rt + (self.s.kw('main') if f.name == 'main' else f.name) + '(' + ', '.join(self.declr(t, n) for t, n in f.params) + ')')
                self.stmt(f.body, 0)
        return '\n'.join(self.out) + '\n'

    def pproto(self, t):
        if is_fun(t):
            return self.tname(t[1]) + ' (*)(' + ', '.join(self.ptype(x) for x in t[2]) + ')'
        return self.ptype(t)


def ends_in_open_if(s):
    k = s.k
    if k == 'if': return len(s.c) == 2 or ends_in_open_if(s.c[2])
    if k == 'while': return ends_in_open_if(s.c[1])
    if k == 'for': return ends_in_open_if(s.c[3])
    return False


class Func:
    def __init__(self, name, ret, params, body):
        self.name, self.ret, self.params, self.body = name, ret, params, body


class Program:
    def __init__(self):
        self.items = []      # in textual order
        self.funcs = {}
        self.input = ''

    def structs(self):
        return {i[1]: i[2] for i in self.items if i[0] == 'struct'}

    def source(self, style=PLAIN):
        return Printer(self, style).program()

    def copy(self):
        q = Program()
        q.input = self.input
        q.items = [(i[0], i[1].copy()) if i[0] == 'global' else i for i in self.items]
        q.funcs = {n: Func(f.name, f.ret, list(f.params), f.body.copy()) for n, f in self.funcs.items()}
        return q


# ---------------------------------------------------------------- values
class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None): self.v = v


class StructVal:
    __slots__ = ('f',)

    def __init__(self, f): self.f = f

    def copy(self):
        return StructVal({n: Cell(c.v.copy() if isinstance(c.v, StructVal) else c.v) for n, c in self.f.items()})


class ArrVal:
    __slots__ = ('e',)

    def __init__(self, e): self.e = e

    def copy(self):
        return ArrVal([Cell(c.v.copy() if isinstance(c.v, (StructVal, ArrVal)) else c.v) for c in self.e])


class _Break(Exception): pass
class _Continue(Exception): pass


class _Return(Exception):
    def __init__(self, v): self.v = v


class _Exit(Exception):
    def __init__(self, code): self.code = code


class AssertFail(Exception): pass


INT_MIN, INT_MAX = -2**31, 2**31 - 1


def ck(v):
    if v < INT_MIN or v > INT_MAX: raise Undef('overflow')
    return v


def fmt17(d):
    if d != d: return 'nan'
    if d in (math.inf, -math.inf): return 'inf' if d > 0 else '-inf'
    return '%.17g' % d


class Interp:
    def __init__(self, prog, max_steps=60000, max_depth=120, max_out=60000):
        self.p = prog
        self.sd = prog.structs()
        self.steps = max_steps
        self.depth = max_depth
        self.out = []
        self.outlen = 0
        self.max_out = max_out
        self.enum = {}
        self.counts = {}
        for i in prog.items:
            if i[0] == 'enum':
                for n, v, _ in i[2]: self.enum[n] = v
        self.globals = {}
        self.toks = prog.input.split()

    def hit(self, what):
        self.counts[what] = self.counts.get(what, 0) + 1

    def emit(self, s):
        self.outlen += len(s)
        if self.outlen > self.max_out: raise Undef('too much output')
        self.out.append(s)

    def run(self):
        """Returns (output, status): status 'ok' | 'assert' | ('exit', n)."""
        status = 'ok'
        try:
            try:
                for i in self.p.items:
                    if i[0] == 'global':
                        self.decl(i[1], [self.globals], True)
                m = self.p.funcs['main']
                self.main_ret = self.call(m, [])
            except AssertFail:
                status = 'assert'
            except _Exit as e:
                status = ('exit', e.code)
        except RecursionError:
            raise Undef('recursion')
        return ''.join(self.out), status

    # --- default (zero) or undefined value
    def fresh(self, t, zero, bounds=None):
        if is_struct(t):
            f = {}
            for fn, ft, fb in self.sd[t[1]]:
                f[fn] = Cell(self.fresh(ft, zero, [self.ev(b, [self.globals]) for b in fb] if fb else None))
            return StructVal(f)
        if is_arr(t):
            if not bounds: raise Undef('bounds')
            n = bounds[0]
            if n <= 0 or n > 400: raise Undef('bound')
            return ArrVal([Cell(self.fresh(t[1], zero, bounds[1:])) for _ in range(n)])
        if not zero: return None
        if t == FLOAT: return 0.0
        if t == BOOL: return False
        if is_ptr(t): return 'null'
        return 0

    def decl(self, d, env, glob=False):
        if d.k == 'decls':
            t, names = d.v
            for n, i in zip(names, d.c):
                c = Cell(self.fresh(t, glob))
                if i is not None: c.v = self.conv(self.ev(i, env), i.ty, t)
                self.bind(env, n, c)
            return
        t, name, bounds, const = d.v
        self.tick()
        if is_arr(t):
            bl = [self.ev(b, env) if b is not None else None for b in bounds]
            if d.c:
                i = d.c[0]
                v = self.ev_init(i, t, env)
                self.check_bounds(v, bl)
            else:
                v = self.fresh(t, glob, bl)
            self.bind(env, name, Cell(v))
            return
        c = Cell(self.fresh(t, glob))
        if d.c:
            c.v = self.ev_init(d.c[0], t, env)
        self.bind(env, name, c)

    def check_bounds(self, v, bl):
        if bl and bl[0] is not None and len(v.e) != bl[0]: raise Undef('init size')
        if len(bl) > 1:
            for c in v.e: self.check_bounds(c.v, bl[1:])

    def bind(self, env, name, cell):
        if name in env[-1]: raise Undef('redeclaration ' + name)
        env[-1][name] = cell

    def ev_init(self, i, t, env):
        if i.k == 'init':
            if is_arr(t): return ArrVal([Cell(self.ev_init(x, t[1], env)) for x in i.c])
            if is_struct(t):
                fs = self.sd[t[1]]
                if len(fs) != len(i.c): raise Undef('init')
                return StructVal({fn: Cell(self.ev_init(x, ft, env)) for (fn, ft, _), x in zip(fs, i.c)})
            raise Undef('init of scalar')
        v = self.ev(i, env)
        if isinstance(v, (StructVal, ArrVal)): return v.copy()
        return self.conv(v, i.ty, t)

    def conv(self, v, f, t):
        if t == FLOAT and f != FLOAT:
            return float(v)
        return v

    def tick(self):
        self.steps -= 1
        if self.steps <= 0: raise Undef('steps')

    # --- calls
    def call(self, f, args):
        self.depth -= 1
        if self.depth <= 0: raise Undef('depth')
        self.tick()
        frame = {}
        for (t, n), v in zip(f.params, args):
            frame[n] = Cell(v)
        try:
            # the parameters share the scope of the outermost block of the body
            self.block_items(f.body.c, [self.globals, frame])
        except _Return as r:
            self.depth += 1
            return r.v
        self.depth += 1
        if f.ret != VOID and f.name != 'main': raise Undef('missing return')
        return None

    def lookup(self, env, n):
        for s in reversed(env):
            if n in s: return s[n]
        raise Undef('undeclared ' + n)

    def block_items(self, items, env):
        for s in items: self.st(s, env)

    # --- statements
    def st(self, x, env):
        self.tick()
        k, c = x.k, x.c
        if k == 'expr': self.ev(c[0], env, True)
        elif k in ('decl', 'decls'): self.decl(x, env)
        elif k == 'block': self.block_items(c, env + [{}])
        elif k == 'if':
            if self.truth(c[0], env): self.sub(c[1], env)
            elif len(c) > 2: self.sub(c[2], env)
        elif k == 'while':
            while self.truth(c[0], env):
                self.tick()
                try: self.sub(c[1], env)
                except _Break: break
                except _Continue: pass
        elif k == 'do':
            while True:
                self.tick()
                try: self.sub(c[0], env)
                except _Break: break
                except _Continue: pass
                if not self.truth(c[1], env): break
        elif k == 'for':
            e2 = env + [{}]
            if c[0] is not None:
                if c[0].k in ('decl', 'decls'): self.decl(c[0], e2)
                else: self.ev(c[0], e2, True)
            while c[1] is None or self.truth(c[1], e2):
                self.tick()
                try: self.sub(c[3], e2)
                except _Break: break
                except _Continue: pass
                if c[2] is not None: self.ev(c[2], e2, True)
        elif k == 'switch':
            v = self.ev(c[0], env)
            start = None
            for n, cs in enumerate(c[1:]):
                for lab in cs.v:
                    if lab is not None and self.ev(lab, env) == v:
                        start = n
                        break
                if start is not None: break
            if start is None:
                for n, cs in enumerate(c[1:]):
                    if None in cs.v: start = n
            if start is not None:
                e2 = env + [{}]
                try:
                    for cs in c[1 + start:]:
                        self.block_items(cs.c, e2)
                except _Break: pass
        elif k == 'break': raise _Break()
        elif k == 'continue': raise _Continue()
        elif k == 'return':
            if c:
                v = self.ev(c[0], env)
                if isinstance(v, StructVal): v = v.copy()
                raise _Return(self.conv(v, c[0].ty, x.ty))
            raise _Return(None)
        elif k == 'null': pass
        else: raise ValueError(k)

    def sub(self, s, env):
        self.st(s, env)

    def truth(self, e, env):
        v = self.ev(e, env)
        if v == 'null': return False
        if isinstance(v, Cell): return True
        return bool(v)

    # --- lvalues
    def lv(self, x, env):
        k, c = x.k, x.c
        if k == 'var':
            return self.lookup(env, x.v)
        if k == 'index':
            a = self.ev(c[0], env)
            i = self.ev(c[1], env)
            if isinstance(a, str): raise Undef('string')
            if i < 0 or i >= len(a.e): raise Undef('index')
            return a.e[i]
        if k == 'member':
            b = self.lv(c[0], env) if c[0].k in ('var', 'index', 'member', 'arrow', 'deref') else Cell(self.ev(c[0], env))
            return b.v.f[x.v]
        if k == 'arrow':
            p = self.ev(c[0], env)
            if p == 'null': raise Undef('null')
            return p.v.f[x.v]
        if k == 'deref':
            p = self.ev(c[0], env)
            if p == 'null': raise Undef('null')
            return p
        raise Undef('lvalue ' + k)

    # --- expressions
    def ev(self, x, env, void=False):
        k, c = x.k, x.c
        if k in ('int', 'float', 'char', 'bool'): return x.v
        if k == 'str': return ArrVal([Cell(ord(ch)) for ch in x.v])
        if k == 'null': return 'null'
        if k == 'enumc': return self.enum[x.v]
        if k == 'fname': return x.v
        if k in ('var', 'index', 'member', 'arrow', 'deref'):
            v = self.lv(x, env).v
            if v is None: raise Undef('uninitialised')
            return v
        self.tick()
        if k == 'bin':
            op = x.v
            self.hit(op)
            if op == '&&':
                return bool(self.truth(c[0], env) and self.truth(c[1], env))
            if op == '||':
                return bool(self.truth(c[0], env) or self.truth(c[1], env))
            a = self.ev(c[0], env)
            b = self.ev(c[1], env)
            if op == ',': return b
            return self.binop(op, a, b, c[0].ty, c[1].ty)
        if k == 'un':
            v = self.ev(c[0], env)
            self.hit('u' + x.v)
            if x.v == '-':
                if c[0].ty != FLOAT: return ck(-v)
                if v == 0: raise Undef('sign of zero')
                return -v
            if x.v == '~': return ~v
            if x.v == '!': return (v == 'null' if is_ptr(c[0].ty) else not v)
            raise ValueError(x.v)
        if k == 'abs':
            v = self.ev(c[0], env)
            return abs(v) if c[0].ty == FLOAT else ck(abs(v))
        if k == 'upb':
            return len(self.ev(c[0], env).e)
        if k == 'cond':
            b = 1 if self.truth(c[0], env) else 2
            return self.conv(self.ev(c[b], env), c[b].ty, x.ty)
        if k == 'assign':
            self.hit(x.v)
            t = c[0].ty
            if x.v == '=':
                v = self.ev_init(c[1], t, env)
                cell = self.lv(c[0], env)
                if isinstance(v, (StructVal, ArrVal)):
                    cell.v = v
                    return v
                cell.v = v
                return v
            b = self.ev(c[1], env)
            cell = self.lv(c[0], env)
            if cell.v is None: raise Undef('uninitialised')
            r = self.binop(x.v[:-1], cell.v, b, t, c[1].ty)
            cell.v = r
            return r
        if k in ('preinc', 'postinc'):
            cell = self.lv(c[0], env)
            old = cell.v
            if old is None: raise Undef('uninitialised')
            new = old + (1 if x.v == '++' else -1)
            if c[0].ty != FLOAT: ck(new)
            self.hit(k + x.v)
            cell.v = new
            return new if k == 'preinc' else old
        if k == 'addr':
            return self.lv(c[0], env)
        if k == 'call':
            f = self.p.funcs.get(x.v)
            if f is None or any(x.v in s for s in env):
                fn = self.lookup(env, x.v).v
                f = self.p.funcs[fn]
            args = []
            for a, (t, _) in zip(c, f.params):
                v = self.ev_init(a, t, env) if a.k == 'init' else self.ev(a, env)
                if isinstance(v, StructVal): v = v.copy()
                args.append(self.conv(v, a.ty, t))
            self.hit('call')
            return self.call(f, args)
        if k == 'bcall': return self.bcall(x, env)
        if k == 'init': raise Undef('initialiser list')
        raise ValueError(k)

    def binop(self, op, a, b, ta, tb):
        if op in ('==', '!='):
            if is_ptr(ta) or is_ptr(tb) or ta == 'nullt' or tb == 'nullt':
                r = a is b if isinstance(a, Cell) and isinstance(b, Cell) else (a == 'null' and b == 'null')
                return r if op == '==' else not r
        fl = FLOAT in (ta, tb)
        if fl:
            a, b = float(a), float(b)
        if op == '+': r = a + b
        elif op == '-': r = a - b
        elif op == '*': r = a * b
        elif op == '/':
            if b == 0: raise Undef('div')
            if fl: r = a / b
            else:
                r = abs(a) // abs(b)
                if (a < 0) != (b < 0): r = -r
        elif op == '%':
            if b == 0: raise Undef('div')
            r = abs(a) % abs(b)
            if a < 0: r = -r
            if abs(a) == 2**31 and abs(b) == 1: raise Undef('rem')
        elif op == '&': r = a & b
        elif op == '|': r = a | b
        elif op == '^': r = a ^ b
        elif op == '<<':
            if b < 0 or b > 31: raise Undef('shift')
            r = a << b
        elif op == '>>':
            if b < 0 or b > 31: raise Undef('shift')
            r = a >> b
        elif op == '<': return a < b
        elif op == '>': return a > b
        elif op == '<=': return a <= b
        elif op == '>=': return a >= b
        elif op == '==': return a == b
        elif op == '!=': return a != b
        else: raise ValueError(op)
        if fl:
            if r != r or r in (math.inf, -math.inf): raise Undef('float')
            return r
        return ck(r)

    def text(self, v):
        return ''.join(chr(c.v) for c in v.e)

    def show(self, v, t):
        if t == INT or is_enum(t): return str(v)
        if t == CHAR: return chr(v)
        if t == FLOAT: return fmt17(v)
        if t == BOOL: return 'true' if v else 'false'
        if is_arr(t):
            for c in v.e:
                if c.v is None: raise Undef('uninitialised')
            return ('' if t[1] == CHAR else ' ').join(self.show(c.v, t[1]) for c in v.e)
        if is_struct(t):
            r = []
            for fn, ft, _ in self.sd[t[1]]:
                if v.f[fn].v is None: raise Undef('uninitialised')
                r.append(self.show(v.f[fn].v, ft))
            return '{' + ', '.join(r) + '}'
        raise Undef('show')

    def readv(self, cell, t):
        if t == FLOAT: cell.v = float(self.tok())
        elif t == INT: cell.v = int(self.tok())
        elif t == CHAR: cell.v = ord(self.tok()[0])
        elif is_struct(t):
            for fn, ft, _ in self.sd[t[1]]: self.readv(cell.v.f[fn], ft)
        elif is_arr(t):
            for c in cell.v.e: self.readv(c, t[1])
        else: raise Undef('getid')

    def tok(self):
        if not self.toks: raise Undef('input')
        return self.toks.pop(0)

    def bcall(self, x, env):
        n, c = x.v, x.c
        self.hit('bcall')
        if n == 'print':
            for a in c:
                self.emit(self.show(self.ev(a, env), a.ty))
            return None
        if n == 'printid':
            for a in c:
                self.emit(a.v + ' ' + self.show(self.ev(a, env), a.ty) + '\n')
            return None
        if n == 'getid':
            for a in c:
                self.emit(a.v + ' ')
                self.readv(self.lookup(env, a.v), a.ty)
            return None
        if n == 'printf':
            f = c[0].v
            vals = [self.ev(a, env) for a in c[1:]]
            r, j, i = [], 0, 0
            while i < len(f):
                if f[i] != '%':
                    r.append(f[i])
                    i += 1
                    continue
                p = f[i + 1]
                i += 2
                if p == '%':
                    r.append('%')
                    continue
                v = vals[j]
                j += 1
                if p in 'iц': r.append(str(v))
                elif p in 'cл': r.append(chr(v))
                elif p in 'fв': r.append('%f' % v)
                elif p in 'sс': r.append(self.text(v))
            s = ''.join(r)
            self.emit(s)
            return len(s.encode())
        if n == 'assert':
            v = self.ev(c[0], env)
            if not v:
                self.emit(self.text(self.ev(c[1], env)))
                raise AssertFail()
            return None
        a = [self.conv(self.ev(y, env), y.ty, FLOAT) if n in MATH else self.ev(y, env) for y in c]
        if n in MATH:
            return self.math(n, a[0])
        if n == 'strcmp' or n == 'strncmp':
            s, t = self.text(a[0]), self.text(a[1])
            if n == 'strncmp':
                if a[2] < 0: raise Undef('n')
                s, t = s[:a[2]], t[:a[2]]
            return -1 if s < t else 1 if s > t else 0
        if n == 'strstr':
            s, t = self.text(a[0]), self.text(a[1])
            r = s.find(t)
            if r < 0: raise Undef('strstr')
            return r
        if n == 'strcat':
            return ArrVal([Cell(q.v) for q in a[0].e] + [Cell(q.v) for q in a[1].e])
        if n == 'strncpy':
            if a[1] < 0 or a[1] > len(a[0].e): raise Undef('strncpy')
            return ArrVal([Cell(q.v) for q in a[0].e[:a[1]]])
        if n == 'exit': raise _Exit(a[0])
        raise ValueError(n)

    def math(self, n, v):
        try:
            if n == 'round':
                if v - math.floor(v) == 0.5 and v < 0: raise Undef('round half')
                r = math.floor(v + 0.5)
                if v - math.floor(v) != 0.5: r = int(math.floor(v + 0.5)) if v >= 0 else -int(math.floor(-v + 0.5))
                return ck(int(r))
            r = {'sqrt': math.sqrt, 'exp': math.exp, 'sin': math.sin, 'cos': math.cos,
                 'log': math.log, 'log10': math.log10, 'asin': math.asin}[n](v)
        except (ValueError, OverflowError):
            raise Undef('math')
        if r != r or r in (math.inf, -math.inf): raise Undef('math')
        return r


MATH = ('sqrt', 'exp', 'sin', 'cos', 'log', 'log10', 'asin', 'round')
