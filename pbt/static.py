"""Static well-formedness of generated programs: scopes, types of names, jumps."""
from .lang import *

RO_OK = True


class Bad(Exception):
    pass


def check(prog):
    """None if well-formed, else the reason."""
    try:
        _Checker(prog).run()
    except Bad as e:
        return str(e)
    return None


class _Checker:
    def __init__(self, p):
        self.p = p
        self.structs = {}
        self.enums = {}
        self.enumc = {}
        self.enumv = {}
        self.protos = {}
        self.defined = set()
        self.globals = {}

    def known(self, t):
        if is_arr(t) or is_ptr(t): return self.known(t[1])
        if is_struct(t):
            if t[1] not in self.structs: raise Bad('struct ' + t[1])
        elif is_enum(t):
            if t[1] not in self.enums: raise Bad('enum ' + t[1])
        elif is_fun(t):
            self.known(t[1])
            for x in t[2]: self.known(x)

    def run(self):
        names = set()

        def new(n):
            if n in names: raise Bad('duplicate ' + n)
            names.add(n)
        for i in self.p.items:
            k = i[0]
            if k == 'struct':
                new(i[1])
                if not i[2]: raise Bad('empty struct')
                for fn, ft, fb in i[2]: self.known(ft)
                self.structs[i[1]] = {fn: ft for fn, ft, _ in i[2]}
            elif k == 'enum':
                new(i[1])
                if not i[2]: raise Bad('empty enum')
                for n, v, s in i[2]:
                    new(n)
                    self.enumc[n] = i[1]
                    self.enumv[n] = v
                self.enums[i[1]] = i[2]
            elif k == 'global':
                self.decl(i[1], [self.globals], True)
                for n in ([i[1].v[1]] if i[1].k == 'decl' else i[1].v[1]): new(n)
            elif k == 'proto':
                if i[1] not in self.p.funcs: raise Bad('proto')
                self.sig(i[1])
                self.protos[i[1]] = True
            elif k == 'func':
                f = self.p.funcs[i[1]]
                self.sig(i[1])
                self.protos[i[1]] = True
                frame = {}
                for t, n in f.params:
                    if n in frame: raise Bad('param')
                    frame[n] = t
                self.ret = f.ret
                self.loop = self.brk = 0
                self.block(f.body.c, [self.globals, frame])
                self.defined.add(i[1])
                new(i[1])
        for n in self.protos:
            if n not in self.defined: raise Bad('undefined function ' + n)
        if 'main' not in self.defined: raise Bad('no main')

    def sig(self, n):
        f = self.p.funcs[n]
        self.known(f.ret)
        for t, _ in f.params: self.known(t)

    def decl(self, d, env, glob=False):
        if d.k == 'decls':
            for n, i in zip(d.v[1], d.c):
                if n in env[-1]: raise Bad('redeclared')
                if i is not None: self.e(i, env)
                env[-1][n] = d.v[0]
            return
        t, n, bounds, const = d.v
        self.known(t)
        if const and not d.c: raise Bad('const without initialiser')
        if bounds:
            for b in bounds:
                if b is not None: self.e(b, env)
                elif not d.c: raise Bad('empty bound')
        for i in d.c: self.e(i, env)
        if n in env[-1]: raise Bad('redeclared ' + n)
        env[-1][n] = t

    def block(self, items, env):
        for s in items: self.st(s, env)

    def st(self, x, env):
        k, c = x.k, x.c
        if k in ('decl', 'decls'): self.decl(x, env)
        elif k == 'expr': self.e(c[0], env)
        elif k == 'block': self.block(c, env + [{}])
        elif k == 'if':
            self.cond(c[0], env)
            for s in c[1:]: self.sub(s, env)
        elif k == 'while' or k == 'do':
            cond, body = (c[0], c[1]) if k == 'while' else (c[1], c[0])
            self.cond(cond, env)
            self.body(body, env)
        elif k == 'for':
            e2 = env + [{}]
            if c[0] is not None:
                if c[0].k in ('decl', 'decls'): self.decl(c[0], e2)
                else: self.e(c[0], e2)
            if c[1] is not None: self.cond(c[1], e2)
            if c[2] is not None: self.e(c[2], e2)
            self.body(c[3], e2)
        elif k == 'switch':
            self.e(c[0], env)
            self.brk += 1
            e2 = env + [{}]
            for cs in c[1:]:
                if not cs.c: raise Bad('empty case')
                for s in cs.c:
                    if s.k in ('decl', 'decls'): raise Bad('declaration in case')
                    self.st(s, e2)
            self.brk -= 1
        elif k == 'break':
            if not self.brk: raise Bad('break')
        elif k == 'continue':
            if not self.loop: raise Bad('continue')
        elif k == 'return':
            for y in c: self.e(y, env)

    def sub(self, s, env):
        if s.k in ('decl', 'decls'): raise Bad('declaration as body')
        self.st(s, env)

    def body(self, s, env):
        self.loop += 1
        self.brk += 1
        self.sub(s, env)
        self.loop -= 1
        self.brk -= 1

    def cond(self, e, env):
        if e.ty == FLOAT: raise Bad('float condition')
        self.e(e, env)

    def e(self, x, env):
        const_value(x, self.enumv)
        self.names(x, env)

    def names(self, x, env):
        if x.k == 'var' or (x.k == 'call' and x.v not in self.protos):
            for s in reversed(env):
                if x.v in s:
                    if x.k == 'var' and s[x.v] != x.ty: raise Bad('type of ' + x.v)
                    if x.k == 'call' and not is_fun(s[x.v]): raise Bad('call')
                    break
            else: raise Bad('undeclared ' + x.v)
        elif x.k == 'call':
            if any(x.v in s for s in env): raise Bad('shadowed function')
        elif x.k == 'fname':
            if x.v not in self.protos: raise Bad('undeclared ' + x.v)
        elif x.k == 'enumc':
            if x.v not in self.enumc: raise Bad('undeclared ' + x.v)
        elif x.k in ('member', 'arrow'):
            t = x.c[0].ty if x.k == 'member' else x.c[0].ty[1]
            if self.structs[t[1]].get(x.v) != x.ty: raise Bad('member')
        elif x.k == 'bcall' and x.v in ('printid', 'getid'):
            if any(y.k != 'var' for y in x.c): raise Bad(x.v)
        elif x.k in ('assign', 'preinc', 'postinc', 'addr'):
            if x.c[0].k not in ('var', 'index', 'member', 'arrow', 'deref'): raise Bad('lvalue')
        elif x.k == 'bin' and x.v == ',':
            # any other left operand leaves its value on the stack (known finding)
            if x.c[0].k not in ('assign', 'preinc', 'postinc') and not (x.c[0].k == 'bin' and x.c[0].v == ','): raise Bad('comma')
        for y in x.c: self.names(y, env)


_I = Interp.__new__(Interp)
_I.counts = {}


def const_value(x, enums=None):
    """Value of a constant expression, None if it is not constant; constant parts without a value are Bad.

    A compiler may evaluate constants even where they are never executed, so a program whose
    constant parts have no value is not judged.
    """
    vs = [const_value(y, enums) for y in x.c]
    k = x.k
    if k in ('int', 'float', 'char', 'bool'): return x.v
    if k == 'enumc': return enums.get(x.v) if enums else None
    if not vs or any(v is None for v in vs): return None
    try:
        if k == 'bin':
            if x.v == ',': return None
            if x.v == '&&': return bool(vs[0] and vs[1])
            if x.v == '||': return bool(vs[0] or vs[1])
            return _I.binop(x.v, vs[0], vs[1], x.c[0].ty, x.c[1].ty)
        if k == 'un':
            if x.v == '-': return -vs[0] if x.ty == FLOAT else ck(-vs[0])
            if x.v == '~': return ~vs[0]
            return not vs[0]
        if k == 'abs': return abs(vs[0]) if x.ty == FLOAT else ck(abs(vs[0]))
        if k == 'cond': return vs[1] if vs[0] else vs[2]
    except Undef as e:
        raise Bad('constant ' + str(e))
    return None
