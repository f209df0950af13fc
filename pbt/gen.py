"""Random generator of well-typed RuC programs over which the oracle is defined."""
from . import static
from .lang import *


class Feat:
    """Language features the generator may use."""
    DEFAULT = dict(const=True, enum=True, typedef=True, structs=True, struct_arr=True, nested=True, arrays=True,
                   dims=3, ptr=True, strings=True, switch=True, fallthrough=True, default_mid=True, dowhile=True, funcs=True, recursion=True,
                   funcparam=True, floats=True, chars=True, unicode=True, bools=True, boolvars=True, print=True,
                   printid=True, getid=True, comma=True, cond=True, proto=True, struct_ret=True, struct_param=True,
                   ptr_member=True, ptr_arr=True, arr_copy=True, compound=True, incdec=True, assign_expr=True,
                   float_cond=True, nested_assign=True, mathfn=True, strfn=True, struct_arr_elem=True, dynbound=True,
                   bool_eq=True, logic_value=True, int_truth=True, char_arith=True, struct_assign=True, sub_arr=True,
                   mixed=True, shift=True, printf=True, loop_decl=True, decls=True, empty_bound=True, arr_init=True,
                   struct_init=True, struct_init_arg=True, char_arg=True, float_literal=True, assert_=True, char_arr=True, ptr_param=True, arr_param=True,
                   global_arr=True, global_struct=True, abs=True, upb=True, cond_value=True, switch_nested=True, array_init_arg=False,
                   int_cast_float=True, addr_elem=True, struct_ptr=True, for_partial=True, unary_not=True, null_cmp=True,
                   local_types=False, rvalue_member=True, cond_char=False, exit=False, char_small=False, relnum=True, bitnot=True, rem=True, enum_cmp=True, escapes=True, uniph=True, ptr_global=True, global_bool=True, switch_const=True)

    def __init__(self, **kw):
        for k, v in self.DEFAULT.items(): setattr(self, k, v)
        for k, v in kw.items():
            if k not in self.DEFAULT: raise KeyError(k)
            setattr(self, k, v)


class Var:
    __slots__ = ('name', 'ty', 'ro', 'dims', 'glob', 'taken', 'minlen')

    def __init__(self, name, ty, ro=False, dims=None, glob=False, minlen=0):
        self.name, self.ty, self.ro, self.dims, self.glob, self.taken = name, ty, ro, dims, glob, False


class Fn:
    def __init__(self, name, ret, params, rec=False):
        self.name, self.ret, self.params, self.rec = name, ret, params, rec   # params: (type, name)


LATIN = 'abcdefghijklmnopqrstuvwxyz'
CYR = 'абвгдежзиклмнопрстуфхцчшщыэюя'
ALIKE = [('е', 'э', 'ё', 'e'), ('и', 'й', 'i', 'иь'), ('щ', 'шч', 'shch', 'сhч'), ('ъ', 'ие', 'ie'), ('х', 'кh', 'kh'), ('я', 'иа', 'ia'), ('принтф', 'еxит', 'ассерт', 'принтид'),
         ('маин', 'маинь', 'мэйн'), ('кон', 'конь', 'kon'), ('Сел', 'Сель', 'сЕл', 'сэл'), ('ж', 'zх', 'зh', 'zh'), ('стрлен', 'абсь', 'роунд')]
SMALL = [0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 16, 31, 63, 64, 100, 127, 128, 255, 256]
BIG = [1000, 4095, 9000, 9007, 9050, 32767, 32768, 65535, 65536, 1000000, 16777216, 2147483647, 2147483646, 1073741824]


def lit(v): return N('int', INT, v=v)


def has_effect(e):
    if e.k in ('assign', 'preinc', 'postinc', 'call'): return True
    if e.k == 'bcall' and e.v in ('print', 'printf', 'printid', 'getid'): return True
    return any(has_effect(x) for x in e.c)


def written(e, acc):
    """Names written directly; '*' when an unknown object may be written."""
    if e.k in ('assign', 'preinc', 'postinc'):
        t = e.c[0]
        if t.k == 'var': acc.add(t.v)
        elif t.k == 'member' and t.c[0].k == 'var': acc.add(t.c[0].v)
        else: acc.add('*')
    if e.k == 'call': acc.add('()')
    for x in e.c: written(x, acc)
    return acc


def through(e):
    """Does the value of e depend on an object reached through a pointer?"""
    return e.k in ('deref', 'arrow') or any(through(x) for x in e.c)


def mentions(e, acc):
    if e.k == 'var': acc.add(e.v)
    if e.k in ('call',): acc.add('()')
    if e.k in ('deref', 'arrow', 'index'): acc.add('*')
    for x in e.c: mentions(x, acc)
    return acc


class Gen:
    def __init__(self, rnd, feat=None, size=1.0):
        self.r = rnd
        self.f = feat or Feat()
        self.size = size
        self.p = Program()
        self.n = 0
        self.scopes = [[]]
        self.fns = []
        self.structs = {}
        self.enums = {}
        self.typedefs = []
        self.loop = 0
        self.breakable = 0
        self.infunc = None
        self.budget = 0
        self.used = set()

    # ------------------------------------------------------------ helpers
    def ch(self, p): return self.r.random() < p
    def pick(self, xs): return self.r.choice(xs)

    def name(self, pref='v'):
        self.n += 1
        f = self.f
        if f.unicode and self.ch(0.12): pref = self.pick(['ж', 'имя', 'сч', 'Q', '_x'])
        return '%s%d' % (pref, self.n)

    def vname(self):
        # sometimes shadow an outer name
        if len(self.scopes) > 2 and self.ch(0.25):
            here = {v.name for v in self.scopes[-1]}
            if len(self.scopes) == 2: pass
            outer = [v.name for s in self.scopes[:-1] for v in s if v.name not in here and not v.ro and v.name not in self.protect]
            if outer: return self.pick(outer)
        return self.name()

    def visible(self):
        seen, out = set(), []
        for s in reversed(self.scopes):
            for v in s:
                if v.name not in seen:
                    out.append(v)
            seen.update(v.name for v in s)
        return out

    def vars_of(self, ty, write=False):
        return [v for v in self.visible() if v.ty == ty and not (write and v.ro)]

    def int_lit(self):
        r = self.r.random()
        if r < 0.6: return lit(self.r.randint(0, 10))
        if r < 0.85: return lit(self.pick(SMALL))
        if r < 0.93: return lit(self.pick(BIG))
        return lit(-self.r.randint(1, 50))

    def float_lit_(self):
        # halves are exact however the digits are accumulated
        v = self.r.randint(-64, 256) / self.pick([1, 2])
        return N('float', FLOAT, v=v)

    def char_lit_(self):
        if self.f.char_small: c = ord(self.pick(LATIN + 'XYZ0123456789'))
        elif self.f.unicode and self.ch(0.25): c = ord(self.pick(CYR + 'ЁéЖ€→'))
        elif self.ch(0.08): c = self.pick([10, 9, 92, 39, 34])
        else: c = ord(self.pick(LATIN + 'XYZ0123456789 +-*/_'))
        return N('char', CHAR, v=c)

    def text(self, lo=0, hi=8):
        al = LATIN[:6] + ' .,:' + ('абв€' if self.f.unicode else '')
        s = ''.join(self.pick(al) for _ in range(self.r.randint(lo, hi)))
        if self.ch(0.1): s += self.pick(['\n', '\t', '\\', '"'] if self.f.escapes else ['\n'])
        return s

    def literal(self, ty):
        if ty == INT: return self.int_lit()
        if ty == FLOAT: return self.float_lit_()
        if ty == CHAR: return self.char_lit_()
        if ty == BOOL: return N('bool', BOOL, v=self.ch(0.5))
        if is_enum(ty): return N('enumc', ty, v=self.pick(self.enums[ty[1]])[0])
        if is_ptr(ty): return N('null', 'nullt')
        raise ValueError(ty)

    # ------------------------------------------------------------ lvalues
    def lvalues(self, ty, write, depth=1):
        """Expressions denoting readable (or writable) objects of the type."""
        f, out = self.f, []
        for v in self.visible():
            t = v.ty
            if t == ty and not (write and v.ro): out.append(N('var', ty, v=v.name))
            if is_arr(t) and depth > 0 and not (write and v.ro):
                b, d = base_and_dims(t)
                if b == ty and v.dims and not (f.char_small and ty == CHAR): out.append(('idx', v))
                elif is_struct(b) and v.dims and f.struct_arr_elem:
                    for fn, ft, fb in self.structs[b[1]]:
                        if ft == ty: out.append(('idxm', v, fn))
            if is_struct(t) and not (write and v.ro):
                self.struct_paths(N('var', t, v=v.name), t, ty, out, 'member')
            if is_ptr(t) and t[1] == ty and v.taken is not None and f.ptr: out.append(N('deref', ty, [N('var', t, v=v.name)]))
            if is_ptr(t) and is_struct(t[1]) and f.struct_ptr:
                for fn, ft, fb in self.structs[t[1][1]]:
                    if ft == ty: out.append(N('arrow', ty, [N('var', t, v=v.name)], fn))
        return out

    def struct_paths(self, base, st, ty, out, how):
        for fn, ft, fb in self.structs[st[1]]:
            m = N('member', ft, [base.copy()], fn)
            if ft == ty: out.append(m)
            elif is_struct(ft): self.struct_paths(m, ft, ty, out, how)
            elif is_arr(ft) and base_and_dims(ft)[0] == ty and fb: out.append(('sarr', m, [x.v for x in fb]))

    def realize(self, lv, depth=0):
        if isinstance(lv, N): return lv.copy()
        if lv[0] == 'idx':
            v = lv[1]
            e = N('var', v.ty, v=v.name)
            return self.index_all(e, v.dims, depth)
        if lv[0] == 'idxm':
            v = lv[1]
            e = self.index_all(N('var', v.ty, v=v.name), v.dims, depth)
            b = base_and_dims(v.ty)[0]
            ft = [x[1] for x in self.structs[b[1]] if x[0] == lv[2]][0]
            return N('member', ft, [e], lv[2])
        if lv[0] == 'sarr':
            return self.index_all(lv[1].copy(), lv[2], depth)

    def index_all(self, e, dims, depth):
        for d in dims:
            e = N('index', e.ty[1], [e, self.index(d, depth)])
        return e

    def index(self, n, depth=0):
        """An in-range index; n is the length, or ('upb', expr) for arrays of unknown length."""
        if isinstance(n, tuple):
            cand = [v for v in self.visible() if v.ty == INT and v.dims == n]
            if cand and self.ch(0.8): return N('var', INT, v=self.pick(cand).name)
            return lit(0)
        cand = [v for v in self.visible() if v.ty == INT and v.ro and isinstance(v.dims, int) and v.dims <= n]
        r = self.r.random()
        if cand and r < 0.6: return N('var', INT, v=self.pick(cand).name)
        if r < 0.8 or depth <= 0: return lit(self.r.randrange(n))
        if self.f.abs and self.f.rem: return N('bin', INT, [N('abs', INT, [self.expr(INT, 0, False)]), lit(n)], '%')
        return lit(self.r.randrange(n))

    # ------------------------------------------------------------ expressions
    def leaf(self, ty, safe=False):
        if not safe and self.ch(0.72):
            ls = self.lvalues(ty, False)
            if ls: return self.realize(self.pick(ls), 0)
        return self.literal(ty)

    def mix(self, mk, se):
        """Build two operands such that at most one has effects and the other does not depend on them."""
        if not se: return mk(0, False), mk(1, False)
        i = self.r.randrange(2)
        a = mk(i, True)
        if a is None: return None, None
        b = mk(1 - i, False) if not has_effect(a) else self.indep(mk, 1 - i, a)
        return (a, b) if i == 0 else (b, a)

    def indep(self, mk, i, a):
        w = written(a, set())
        for _ in range(3):
            b = mk(i, False)
            if b is None: continue
            m = mentions(b, set())
            if '()' in w or '*' in w:
                if not m or ('()' in w and '*' not in w and not ('*' in m) and all(self.private(n) for n in m)): return b
            elif not (m & w) and '*' not in m: return b
        return None

    def private(self, n):
        for v in self.visible():
            if v.name == n: return not v.glob and not v.taken and not is_ptr(v.ty) and not is_arr(v.ty)
        return False

    def expr(self, ty, depth, se=False):
        f = self.f
        self.budget -= 1
        if depth <= 0 or self.budget < 0: return self.leaf(ty)
        if ty == INT or (ty == CHAR and False): return self.int_expr(depth, se)
        if ty == FLOAT: return self.float_expr(depth, se)
        if ty == BOOL: return self.bool_expr(depth, se)
        if ty == CHAR:
            if self.ch(0.2) and f.cond and f.cond_char: return self.cond_expr(ty, depth, se)
            ls = self.call_expr(ty, depth, se)
            return ls or self.leaf(ty)
        if is_ptr(ty): return self.ptr_expr(ty, depth)
        return self.leaf(ty)

    def ptr_expr(self, ty, depth):
        vs = self.vars_of(ty)
        if vs and self.ch(0.4): return N('var', ty, v=self.pick(vs).name)
        if self.f.ptr_member and self.ch(0.3):
            ls = [l for l in self.lvalues(ty, False) if isinstance(l, N) and l.k in ('member', 'arrow')]
            if ls: return self.pick(ls).copy()
        a = self.addressable(ty[1])
        return a

    def addressable(self, t):
        ls = []
        for v in self.visible():
            if v.glob and not self.f.ptr_global: continue
            if v.ty == t and not v.ro: ls.append((v, N('var', t, v=v.name)))
            elif self.f.addr_elem and is_arr(v.ty) and not v.ro and v.dims and base_and_dims(v.ty)[0] == t: ls.append((v, None))
        if not ls: return None
        v, e = self.pick(ls)
        if e is None: e = self.index_all(N('var', v.ty, v=v.name), v.dims, 0)
        v.taken = True
        return N('addr', ptr(t), [e])

    def rvalue_member(self, ty, depth, se):
        """A scalar member of a structure value that is not an object: f(x).m, (c ? a : b).m.in"""
        f, ways = self.f, []
        for name in self.structs:
            self.struct_paths(N('hole', ('struct', name)), ('struct', name), ty, ways, 'member')
        ways = [w for w in ways if isinstance(w, N)]
        if f.rvalue_member == 'call': ways = [w for w in ways if w.c[0].k == 'hole']
        self.r.shuffle(ways)
        for w in ways[:4]:
            h = w
            while h.c[0].k != 'hole': h = h.c[0]
            t = h.c[0].ty
            b = None
            c = [x for x in self.fns if x.ret == t] if se else []
            if c and self.ch(0.8): b = self.call(self.pick(c), depth)
            elif f.cond and f.rvalue_member != 'call':
                ls = [l for l in self.lvalues(t, False) if isinstance(l, N)]
                q = self.condition(depth - 1, False) if ls else None
                if q is not None: b = N('cond', t, [q, self.pick(ls).copy(), self.pick(ls).copy()])
            if b is not None:
                h.c[0] = b
                return w
        return None

    def call_expr(self, ty, depth, se):
        f = self.f
        if f.rvalue_member and self.structs and self.ch(0.6 if f.rvalue_member == 'call' else 0.35):
            e = self.rvalue_member(ty, depth, se)
            if e is not None: return e
        if se and f.funcs and self.fns and self.ch(0.5):
            c = [x for x in self.fns if x.ret == ty]
            if c: return self.call(self.pick(c), depth)
        return None

    def call(self, fn, depth):
        args = []
        for i, (t, n) in enumerate(fn.params):
            if fn.rec and i == 0:
                args.append(lit(self.r.randint(0, 5)))
                continue
            a = self.arg(t, depth - 1)
            if a is None: return None
            args.append(a)
        return N('call', fn.ret, args, fn.name)

    def arg(self, t, depth):
        if is_fun(t):
            c = [x for x in self.fns if x.ret == t[1] and tuple(p for p, _ in x.params) == t[2] and not x.rec and x.name != getattr(self, 'curname', None)]
            c = [N('fname', t, v=x.name) for x in c] + [N('var', t, v=v.name) for v in self.visible() if v.ty == t]
            return self.pick(c) if c else None
        if is_arr(t):
            vs = [v for v in self.visible() if v.ty == t]
            if t == arr(CHAR) and (not vs or self.ch(0.5)) and self.f.strings: return N('str', t, v=self.text(1))
            if vs:
                v = self.pick(vs)
                v.taken = True
                return N('var', t, v=v.name)
            if self.f.array_init_arg and t in (arr(INT), arr(FLOAT)):
                return N('init', t, [self.lit_for(t[1]) for _ in range(self.r.randint(1, 4))])
            return None
        if t == INT and (self.f.chars or self.f.char_small) and self.f.char_arg and self.ch(0.1): return self.char_object() or self.expr(t, depth, False)
        if t == CHAR and self.f.char_arg and self.ch(0.2): return lit(self.r.randint(32, 126))
        if is_struct(t) and self.f.struct_init_arg and self.f.struct_init and self.ch(0.25): return self.elem_init(t, False)
        if is_struct(t):
            ls = [l for l in self.lvalues(t, False) if isinstance(l, N)]
            if ls and self.f.rvalue_member is True and self.f.cond and self.ch(0.15):
                q = self.condition(depth, False)
                if q is not None: return N('cond', t, [q, self.pick(ls).copy(), self.pick(ls).copy()])
            return self.pick(ls).copy() if ls else None
        if is_ptr(t):
            return self.addressable(t[1]) or None
        return self.expr(t, depth, False)

    def lit_for(self, t):
        e = self.literal(t)
        if t == INT: e.v = abs(e.v)
        if t == FLOAT: e.v = abs(e.v)
        return e

    def guard(self, *xs):
        return all(x is not None for x in xs)

    def int_expr(self, depth, se):
        f, d = self.f, depth - 1
        for _ in range(6):
            r = self.r.random()
            if r < 0.40:
                op = self.pick(['+', '-', '*', '+', '-', '&', '|', '^'] + (['%'] if f.rem else []) + ['/'])
                if op in ('/', '%'):
                    l = self.expr(INT, d, se)
                    q = lit(self.pick([1, 2, 3, 5, 7, 10, 16, -2, -3]))
                    e = N('bin', INT, [l, q], op) if l is not None else None
                else:
                    a, b = self.mix(lambda i, s: self.arith(d, s), se)
                    if f.char_small and self.guard(a, b) and (a.ty == CHAR and is_enum(b.ty) or is_enum(a.ty) and b.ty == CHAR): a = None
                    if f.char_small and self.guard(a, b) and a.ty == CHAR == b.ty and op not in '+&|^': op = '+'
                    e = N('bin', INT, [a, b], op) if self.guard(a, b) else None
            elif r < 0.47 and f.shift:
                l = self.expr(INT, d, se)
                if l is not None and self.ch(0.4):
                    l = N('bin', INT, [l, lit(self.pick([255, 1023, 65535, 15]))], '&')
                e = N('bin', INT, [l, lit(self.r.randint(0, 6))], self.pick(['<<', '>>'])) if l is not None else None
            elif r < 0.53:
                x = self.expr(INT, d, se)
                e = N('un', INT, [x], self.pick(['-', '~'] if f.bitnot else ['-'])) if x is not None else None
            elif r < 0.57 and f.abs:
                x = self.expr(INT, d, se)
                e = N('abs', INT, [x]) if x is not None else None
            elif r < 0.64 and f.cond and f.cond_value: e = self.cond_expr(INT, d, se)
            elif r < 0.70 and se and f.incdec and f.assign_expr:
                ls = self.lvalues(INT, True)
                e = N(self.pick(['preinc', 'postinc']), INT, [self.realize(self.pick(ls), 0)], self.pick(['++', '--'])) if ls else None
            elif r < 0.76 and se and f.assign_expr: e = self.assign(INT, d, nested=True)
            elif r < 0.80 and f.upb:
                vs = [v for v in self.visible() if is_arr(v.ty)]
                e = None
                if vs:
                    v = self.pick(vs)
                    e = N('var', v.ty, v=v.name)
                    if f.sub_arr and is_arr(v.ty[1]) and v.dims and not isinstance(v.dims[0], tuple) and self.ch(0.4):
                        e = N('index', v.ty[1], [e, lit(self.r.randrange(v.dims[0]))])
                    e = N('upb', INT, [e])
            elif r < 0.84 and f.mathfn and f.floats and f.int_cast_float:
                x = self.expr(FLOAT, d, False)
                e = N('bcall', INT, [x], 'round') if x is not None else None
            elif r < 0.90: e = self.call_expr(INT, d, se)
            elif r < 0.93 and f.comma and se:
                a = self.assign(INT, d, nested=True) if f.assign_expr else None
                b = self.expr(INT, d, False)
                e = N('bin', INT, [a, b], ',') if self.guard(a, b) else None
            elif r < 0.96 and f.strfn and f.strings:
                ss = [self.strexpr() for _ in range(2)]
                e = N('bcall', INT, ss, 'strcmp') if self.ch(0.6) else N('bcall', INT, ss + [lit(self.r.randint(0, 5))], 'strncmp')
            else: e = self.leaf(INT)
            if e is not None: return e
        return self.leaf(INT)

    def strexpr(self):
        vs = self.vars_of(arr(CHAR))
        if vs and self.ch(0.6): return N('var', arr(CHAR), v=self.pick(vs).name)
        return N('str', arr(CHAR), v=self.text(1))

    def char_object(self):
        ls = self.lvalues(CHAR, False)
        return self.realize(self.pick(ls), 0) if ls else None

    def arith(self, d, se):
        """Operand of integer arithmetic: int, sometimes char or enum."""
        f = self.f
        if f.char_small and self.ch(0.1): return self.char_object()
        if f.chars and f.char_arith and self.ch(0.08): return self.expr(CHAR, d, se)
        if f.enum and self.enums and self.ch(0.05):
            t = ('enum', self.pick(sorted(self.enums)))
            return self.leaf(t)
        return self.expr(INT, d, se)

    def float_expr(self, depth, se):
        f, d = self.f, depth - 1
        for _ in range(6):
            r = self.r.random()
            if r < 0.45:
                op = self.pick(['+', '-', '*', '+', '-', '/'])
                def mk(i, s):
                    if f.mixed and self.ch(0.2) and not (i == 0 and False): return self.expr(INT, d, s)
                    return self.expr(FLOAT, d, s)
                if op == '/':
                    l = self.expr(FLOAT, d, se)
                    e = N('bin', FLOAT, [l, N('float', FLOAT, v=self.pick([2.0, 4.0, 0.5, 3.0, -1.5, 10.0]))], op) if l is not None else None
                else:
                    a, b = self.mix(mk, se)
                    e = None
                    if self.guard(a, b):
                        if a.ty != FLOAT and b.ty != FLOAT: a = self.expr(FLOAT, 0)
                        e = N('bin', FLOAT, [a, b], op)
            elif r < 0.52:
                x = self.expr(FLOAT, d, se)
                e = N('un', FLOAT, [x], '-') if x is not None else None
            elif r < 0.57 and f.abs:
                x = self.expr(FLOAT, d, se)
                e = N('abs', FLOAT, [x]) if x is not None else None
            elif r < 0.63 and f.cond and f.cond_value: e = self.cond_expr(FLOAT, d, se)
            elif r < 0.69 and se and f.assign_expr: e = self.assign(FLOAT, d, nested=True)
            elif r < 0.73 and se and f.incdec and f.assign_expr:
                ls = self.lvalues(FLOAT, True)
                e = N(self.pick(['preinc', 'postinc']), FLOAT, [self.realize(self.pick(ls), 0)], self.pick(['++', '--'])) if ls else None
            elif r < 0.80 and f.mathfn:
                x = self.expr(FLOAT, d, False)
                n = self.pick(['sqrt', 'sin', 'cos', 'exp', 'log', 'log10', 'asin'])
                if n in ('sqrt', 'log', 'log10'): x = N('abs', FLOAT, [x]) if f.abs else x
                e = N('bcall', FLOAT, [x], n)
            elif r < 0.86: e = self.call_expr(FLOAT, d, se)
            else: e = self.leaf(FLOAT)
            if e is not None: return e
        return self.leaf(FLOAT)

    def bool_expr(self, depth, se):
        f, d = self.f, depth - 1
        for _ in range(6):
            r = self.r.random()
            if r < 0.50:
                t = FLOAT if f.floats and f.float_cond and self.ch(0.25) else INT
                if (f.chars or f.char_small) and self.ch(0.1): t = CHAR
                if f.enum and self.enums and f.enum_cmp and self.ch(0.1): t = ('enum', self.pick(sorted(self.enums)))
                def mk(i, s):
                    if t == CHAR and f.char_small and i == 0: return self.char_object()
                    if t == FLOAT and f.mixed and i == 1 and self.ch(0.2): return self.expr(INT, d, s)
                    return self.expr(t, d, s)
                a, b = self.mix(mk, se)
                ops = ['==', '!='] if is_enum(t) else ['<', '>', '<=', '>=', '==', '!=']
                e = N('bin', BOOL, [a, b], self.pick(ops)) if self.guard(a, b) else None
            elif r < 0.72:
                # both operands are sequenced, so effects are fine on either side
                a = self.logic_operand(d, se)
                b = self.logic_operand(d, se)
                e = N('bin', BOOL, [a, b], self.pick(['&&', '||'])) if self.guard(a, b) else None
            elif r < 0.80 and f.unary_not:
                x = self.logic_operand(d, se)
                e = N('un', BOOL, [x], '!') if x is not None else None
            elif r < 0.84 and f.bool_eq:
                a, b = self.mix(lambda i, s: self.expr(BOOL, d, s), se)
                e = N('bin', BOOL, [a, b], self.pick(['==', '!='])) if self.guard(a, b) else None
            elif r < 0.88 and f.cond and f.cond_value and f.boolvars: e = self.cond_expr(BOOL, d, se)
            elif r < 0.92 and f.ptr and f.null_cmp:
                ps = [v for v in self.visible() if is_ptr(v.ty)]
                e = None
                if ps:
                    v = self.pick(ps)
                    e = N('bin', BOOL, [N('var', v.ty, v=v.name), N('null', 'nullt')], self.pick(['==', '!=']))
            elif r < 0.95: e = self.call_expr(BOOL, d, se)
            elif f.boolvars: e = self.leaf(BOOL)
            else: e = None
            if e is not None: return e
        return N('bin', BOOL, [self.leaf(INT), self.int_lit()], self.pick(['<', '>', '==', '!=']))

    def logic_operand(self, d, se):
        if self.f.int_truth and self.ch(0.15): return self.leaf(INT)
        return self.expr(BOOL, d, se) if self.f.boolvars or d > 0 else self.bool_expr(1, se)

    def condition(self, depth, se=True):
        if self.f.int_truth and self.ch(0.1): return self.expr(INT, min(depth, 1), se)
        return self.bool_expr(max(depth, 1), se)

    def cond_expr(self, ty, d, se):
        c = self.condition(d, False)
        a = self.expr(ty, d, se)
        b = self.expr(ty, d, se)
        if ty == FLOAT and self.f.mixed and self.ch(0.15): b = self.expr(INT, d, False)
        return N('cond', ty, [c, a, b]) if self.guard(c, a, b) else None

    # ------------------------------------------------------------ assignments
    def assign(self, ty, depth, nested=False):
        f = self.f
        ls = self.lvalues(ty, True)
        if nested and not f.nested_assign: return None
        if not ls: return None
        l = self.realize(self.pick(ls), 1)
        op = '='
        if f.compound and self.ch(0.4):
            if ty == INT:
                op = self.pick(['+=', '-=', '*=', '&=', '|=', '^='] + (['/=', '%='] if f.rem else ['/=']) + (['<<=', '>>='] if f.shift else []))
            elif ty == FLOAT: op = self.pick(['+=', '-=', '*=', '/='])
        if op in ('/=', '%='):
            r = lit(self.pick([2, 3, 5, 10, -3])) if ty == INT else N('float', FLOAT, v=self.pick([2.0, 0.5, 4.0]))
        elif op in ('<<=', '>>='): r = lit(self.r.randint(0, 5))
        else:
            def mk(s):
                if ty == FLOAT and f.mixed and self.ch(0.2): return self.expr(INT, depth, s)
                if ty == INT and f.chars and f.char_arith and self.ch(0.04): return self.expr(CHAR, depth, s)
                return self.expr(ty, depth, s)
            r = mk(not nested)
            if r is not None and has_effect(r):
                w = written(r, set())
                m = mentions(l, set())
                ok = not (m & w) and not (through(l) and any(not self.private(n) for n in w))
                if '()' in w or '*' in w:
                    ok = l.k == 'var' and (self.private(l.v) or ('*' not in w and op == '=' and False))
                if l.k != 'var' and l.k != 'member' and ('*' in w or '()' in w): ok = False
                if not ok: r = mk(False)
            if r is not None and has_effect(r) and nested: r = self.expr(ty, 0)
        if r is None: return None
        return N('assign', ty, [l, r], op)

    # ------------------------------------------------------------ output
    def show(self, e):
        """A statement that makes the value of the expression observable."""
        f, t = self.f, e.ty
        if f.print and self.ch(0.5): 
            return N('block', c=[N('expr', c=[N('bcall', VOID, [e], 'print')]), N('expr', c=[N('bcall', VOID, [N('char', CHAR, v=10)], 'print')])]) if self.ch(0.3) else N('expr', c=[N('bcall', VOID, [e, N('char', CHAR, v=32)], 'print')])
        if t == BOOL:
            e = N('cond', INT, [e, lit(1), lit(0)]) if f.cond_value else None
            if e is None: return N('null')
            t = INT
        if is_enum(t) and f.print: return N('expr', c=[N('bcall', VOID, [e], 'print')])
        ph = {INT: 'i', CHAR: 'c', FLOAT: 'f'}.get(t, 'i')
        if is_arr(t): ph = 's'
        if f.unicode and f.uniph and self.ch(0.1): ph = {'i': 'ц', 'c': 'л', 'f': 'в', 's': 'с'}[ph]
        txt = self.text(0, 3).replace('%', '')
        return N('expr', c=[N('bcall', INT, [N('str', arr(CHAR), v=txt + '%' + ph + self.pick(['\n', ' ', '%%\n'])), e], 'printf')])

    def printable(self):
        return [v for v in self.visible() if self.can_print(v.ty)]

    def can_print(self, t):
        if t in (INT, FLOAT, CHAR, BOOL): return True
        if is_arr(t): return self.can_print(t[1])
        if is_struct(t): return all(self.can_print(ft) for _, ft, _ in self.structs[t[1]])
        return is_enum(t) and False

    # ------------------------------------------------------------ statements
    def block(self, depth, n=None, scope=True):
        if scope: self.scopes.append([])
        out = []
        for _ in range(n or self.r.randint(1, 4)):
            if self.budget <= 0: break
            out.extend(self.stmt(depth))
        if scope: self.scopes.pop()
        if not out: out.append(N('null'))
        return N('block', c=out)

    def body(self, depth):
        """A statement used as the body of if/loops: usually a block, sometimes a single statement."""
        if self.ch(0.2):
            self.scopes.append([])
            s = self.simple(depth)
            self.scopes.pop()
            if s is not None and len(s) == 1 and s[0].k not in ('decl', 'decls'): return s[0]
        return self.block(depth)

    def stmt(self, depth):
        self.budget -= 2
        f = self.f
        r = self.r.random()
        if r < 0.22: return self.declare()
        if r < 0.62 or depth <= 0: return self.simple(depth)
        if r < 0.74:
            c = [self.condition(2), self.body(depth - 1)]
            if self.ch(0.5): c.append(self.body(depth - 1))
            return [N('if', c=c)]
        if r < 0.90: return self.loop_stmt(depth)
        if r < 0.95 and f.switch and (f.switch_nested or not self.inswitch): return self.switch(depth)
        return [self.block(depth - 1)]

    inswitch = 0
    protect = ()

    def simple(self, depth):
        f = self.f
        for _ in range(5):
            r = self.r.random()
            if f.char_small and self.ch(0.08):
                c = [v for v in self.vars_of(CHAR, True) if v.name not in self.protect]
                k = [v for v in self.vars_of(INT, True) if v.name not in self.protect]
                if c and k:
                    c, k = N('var', CHAR, v=self.pick(c).name), N('var', INT, v=self.pick(k).name)
                    ini = lit(self.r.randint(0, 255)) if self.ch(0.6) else N('bin', INT, [self.expr(INT, 1), lit(127)], '&')
                    if ini.k == 'int' or ini.c[0] is not None:
                        return [N('expr', c=[N('assign', CHAR, [c, ini], '=')]), N('expr', c=[N('assign', INT, [k, c.copy()], '=')]),
                                N('expr', c=[N('assign', CHAR, [c.copy(), self.literal(CHAR)], '=')]), self.show(k.copy())]
            if r < 0.40:
                ty = self.pick([INT] * 5 + ([FLOAT] * 2 if f.floats else []) + ([CHAR] if f.chars or f.char_small else []) + ([BOOL] if f.boolvars else []) + [('enum', n) for n in sorted(self.enums)])
                a = self.assign(ty, 2)
                if a is not None: return [N('expr', c=[a])]
            elif r < 0.50 and f.incdec:
                ty = self.pick([INT, INT, FLOAT] if f.floats else [INT])
                ls = self.lvalues(ty, True)
                if ls: return [N('expr', c=[N(self.pick(['preinc', 'postinc']), ty, [self.realize(self.pick(ls), 0)], self.pick(['++', '--']))])]
            elif r < 0.75:
                ty = self.pick([INT] * 4 + ([FLOAT] * 2 if f.floats else []) + ([CHAR] if f.chars or f.char_small else []) + ([BOOL] if f.bools else []))
                e = self.expr(ty, 3, True)
                if e is not None: return [self.show(e)]
            elif r < 0.80:
                vs = self.printable()
                if vs:
                    v = self.pick(vs)
                    if f.printid and self.ch(0.6): return [N('expr', c=[N('bcall', VOID, [N('var', v.ty, v=v.name)], 'printid')])]
                    if f.print: return [N('expr', c=[N('bcall', VOID, [N('var', v.ty, v=v.name)], 'print')])]
                    if f.strings and v.ty == arr(CHAR): return [self.show(N('var', v.ty, v=v.name))]
            elif r < 0.85 and f.funcs and self.fns:
                e = self.call(self.pick(self.fns), 2)
                if e is not None: return [N('expr', c=[e])]
            elif r < 0.89 and f.struct_assign and self.structs:
                s = self.struct_assign()
                if s: return s
            elif r < 0.92 and f.ptr:
                vs = [v for v in self.visible() if is_ptr(v.ty) and not v.ro]
                if vs:
                    v = self.pick(vs)
                    a = self.addressable(v.ty[1])
                    # a pointer must not outlive its target: only point at objects of the same or an outer scope
                    if a is not None and self.level(v.name) >= self.level(root(a)): return [N('expr', c=[N('assign', v.ty, [N('var', v.ty, v=v.name), a], '=')])]
            elif r < 0.94 and self.loop and depth < 3:
                return [N('if', c=[self.condition(1), N(self.pick(['break', 'continue']))])]
            elif r < 0.96 and f.strings:
                return [N('expr', c=[N('bcall', INT, [N('str', arr(CHAR), v=self.text(1).replace('%', ''))], 'printf')])]
            elif r < 0.98 and f.comma and f.assign_expr:
                a, b = self.assign(INT, 1), self.assign(INT, 1)
                if self.guard(a, b): return [N('expr', c=[N('bin', INT, [a, b], ',')])]
            elif f.getid and self.ch(0.3):
                vs = [v for v in self.visible() if v.ty in (INT, FLOAT) and not v.ro]
                if vs:
                    v = self.pick(vs)
                    if not self.p.input: self.p.input = ''.join('%d\n' % self.r.randint(-99, 99) for _ in range(60))
                    return [N('expr', c=[N('bcall', VOID, [N('var', v.ty, v=v.name)], 'getid')])]
            elif f.assert_ and self.ch(0.3):
                # almost always true
                e = self.leaf(INT)
                return [N('expr', c=[N('bcall', VOID, [N('bin', BOOL, [e, lit(self.pick([-2147483647, -1000, 3]))], '>='), N('str', arr(CHAR), v='msg' + self.text(0, 3))], 'assert')])]
        return [N('null')] if self.ch(0.3) else [self.show(self.leaf(INT))]

    def level(self, name):
        for i in range(len(self.scopes) - 1, -1, -1):
            if any(v.name == name for v in self.scopes[i]): return i
        return 99

    def struct_assign(self):
        ts = [('struct', n) for n, fs in self.structs.items() if not any(is_arr(t) for _, t, _ in self.flat(n))]
        self.r.shuffle(ts)
        for t in ts:
            ls = [l for l in self.lvalues(t, True)]
            if len(ls) < 2: continue
            a, b = self.realize(self.pick(ls), 0), self.realize(self.pick(ls), 0)
            cs = [x for x in self.fns if x.ret == t]
            if cs and self.ch(0.3):
                c = self.call(self.pick(cs), 1)
                if c is not None and a.k == 'var': b = c
            return [N('expr', c=[N('assign', t, [a, b], '=')])]
        return None

    def flat(self, n):
        for fn, ft, fb in self.structs[n]:
            yield fn, ft, fb
            if is_struct(ft): yield from self.flat(ft[1])

    # --- declarations
    def scalar_type(self):
        f = self.f
        ts = [INT] * 5
        if f.floats: ts += [FLOAT] * 3
        if f.chars or f.char_small: ts += [CHAR] * 2
        if f.boolvars: ts += [BOOL] * 2
        if f.enum: ts += [('enum', n) for n in sorted(self.enums)]
        return self.pick(ts)

    def declare(self, glob=False):
        f = self.f
        r = self.r.random()
        if r < 0.50 or not (f.arrays or f.structs or f.ptr): return self.decl_scalar(glob)
        if r < 0.72 and f.arrays and (not glob or f.global_arr): return self.decl_array(glob)
        if r < 0.86 and f.structs and self.structs and (not glob or f.global_struct): return self.decl_struct(glob)
        if r < 0.95 and f.ptr and not glob: return self.decl_ptr(glob)
        return self.decl_scalar(glob)

    def add(self, v):
        # inner declarations with the same name replace the outer in visibility
        self.scopes[-1].append(v)
        return v

    def decl_scalar(self, glob):
        f = self.f
        t = self.scalar_type()
        if t == BOOL and glob and not f.global_bool: t = INT
        if f.decls and self.ch(0.12) and not is_enum(t):
            names = [self.name() for _ in range(self.r.randint(2, 3))]
            inits = [self.ginit(t, glob) for _ in names]
            for n in names: self.add(Var(n, t, glob=glob))
            return [N('decls', c=inits, v=(t, names))]
        name = self.name() if glob else self.vname()
        const = f.const and self.ch(0.15) and t in (INT, FLOAT)
        if not const and self.ch(0.2):
            if glob:
                self.add(Var(name, t, glob=True))
                return [N('decl', v=(t, name, None, False))]
            d = N('decl', v=(t, name, None, False))
            i = self.expr(t, 1)
            if name in mentions(i, set()): i = self.literal(t)
            self.add(Var(name, t))
            return [d, N('expr', c=[N('assign', t, [N('var', t, v=name), i], '=')])]
        i = self.ginit(t, glob)
        if const and i.ty != t: i = self.literal(t)
        if name in mentions(i, set()): i = self.literal(t)
        self.add(Var(name, t, ro=const, glob=glob))
        return [N('decl', c=[i], v=(t, name, None, const))]

    def ginit(self, t, glob):
        if glob:
            if t == FLOAT: return self.lit_for(t)
            if t == INT: return self.int_lit()
            return self.literal(t)
        f = self.f
        if t == FLOAT and f.mixed and self.ch(0.2): return self.expr(INT, 1)
        return self.expr(t, 2, not glob)

    def elem_init(self, t, glob):
        if is_struct(t): return N('init', t, [self.elem_init(ft, glob) for _, ft, _ in self.structs[t[1]]])
        if t == FLOAT and self.f.mixed and self.ch(0.2): return lit(self.r.randint(0, 9))
        if is_ptr(t): return N('null', 'nullt')
        if glob or self.ch(0.7): return self.literal(t)
        return self.expr(t, 1)

    def arr_init(self, t, dims, glob):
        if not is_arr(t): return self.elem_init(t, glob)
        return N('init', t, [self.arr_init(t[1], dims[1:], glob) for _ in range(dims[0])])

    def decl_array(self, glob):
        f = self.f
        nd = 1 if self.ch(0.65) else self.r.randint(1, f.dims)
        el = [INT] * 4 + ([FLOAT] * 2 if f.floats else []) + ([CHAR] if f.chars and f.char_arr else []) + ([BOOL] if f.boolvars and f.bools and f.bool_eq else [])
        if f.struct_arr_elem: el += [('struct', n) for n in self.structs if not any(is_arr(t) or is_ptr(t) for _, t, _ in self.flat(n))]
        b = self.pick(el)
        t = b
        dims = []
        for _ in range(nd):
            t = arr(t)
            dims.append(self.r.randint(1, 5 if nd < 3 else 3))
        name = self.name() if glob else self.vname()
        if b == CHAR and nd == 1 and f.strings and self.ch(0.7):
            s = self.text(1)
            self.add(Var(name, t, dims=[len(s)], glob=glob))
            return [N('decl', c=[N('str', t, v=s)], v=(t, name, [None] if f.empty_bound else [lit(len(s))], False))]
        if f.arr_copy and not glob and nd == 1 and self.ch(0.15):
            vs = [v for v in self.visible() if v.ty == t and v.name != name and v.dims and not isinstance(v.dims[0], tuple)]
            if vs:
                v = self.pick(vs)
                self.add(Var(name, t, dims=list(v.dims)))
                return [N('decl', c=[N('var', t, v=v.name)], v=(t, name, [None], False))]
        bounds = [lit(x) for x in dims]
        if f.dynbound and not glob and self.ch(0.25):
            i = self.r.randrange(nd)
            bounds[i] = N('bin', INT, [lit(dims[i] + 2), lit(2)], '-')
        if self.ch(0.5) and f.arr_init:
            if f.empty_bound and self.ch(0.3): bounds[-1] = None
            i = self.arr_init(t, dims, glob)
            if name in mentions(i, set()): i = self.arr_init(t, dims, True)
            self.add(Var(name, t, dims=dims, glob=glob))
            return [N('decl', c=[i], v=(t, name, bounds, False))]
        if glob:
            self.add(Var(name, t, dims=dims, glob=True))
            return [N('decl', v=(t, name, bounds, False))]
        v = self.add(Var(name, t, dims=dims))
        return [N('decl', v=(t, name, bounds, False))] + self.fill(N('var', t, v=name), t, dims)

    def fill(self, e, t, dims):
        """Loops that assign every element."""
        if not is_arr(t):
            if is_struct(t):
                out = []
                for fn, ft, fb in self.structs[t[1]]:
                    out += self.fill(N('member', ft, [e.copy()], fn), ft, [x.v for x in fb] if fb else [])
                return out
            if is_ptr(t):
                a = self.addressable(t[1])
                if a is not None and self.level(root(e)) < self.level(root(a)): a = None
                return [N('expr', c=[N('assign', t, [e, a if a is not None else N('null', 'nullt')], '=')])]
            return [N('expr', c=[N('assign', t, [e, self.expr(t, 1)], '=')])]
        i = self.name('i')
        self.scopes.append([Var(i, INT, ro=True, dims=dims[0])])
        inner = self.fill(N('index', t[1], [e, N('var', INT, v=i)]), t[1], dims[1:])
        self.scopes.pop()
        body = inner[0] if len(inner) == 1 and inner[0].k == 'expr' and self.ch(0.4) else N('block', c=inner)
        return [N('for', c=[N('decl', c=[lit(0)], v=(INT, i, None, False)), N('bin', BOOL, [N('var', INT, v=i), lit(dims[0])], '<'), N('postinc', INT, [N('var', INT, v=i)], '++'), body])]

    def decl_struct(self, glob):
        f = self.f
        n = self.pick(sorted(self.structs))
        t = ('struct', n)
        flat = list(self.flat(n))
        name = self.name() if glob else self.vname()
        if glob and any(is_ptr(ft) for _, ft, _ in flat): return self.decl_scalar(glob)
        if f.struct_init and not any(is_arr(ft) or is_ptr(ft) for _, ft, _ in flat) and self.ch(0.45):
            i = self.elem_init(t, glob)
            if name in mentions(i, set()): i = self.elem_init(t, True)
            self.add(Var(name, t, glob=glob))
            return [N('decl', c=[i], v=(t, name, None, False))]
        if not glob and self.ch(0.3) and not any(is_arr(ft) for _, ft, _ in flat):
            ls = [l for l in self.lvalues(t, False) if isinstance(l, N) and root(l) != name]
            cs = [x for x in self.fns if x.ret == t]
            i = None
            if cs and self.ch(0.6): i = self.call(self.pick(cs), 1)
            if i is None and ls: i = self.pick(ls).copy()
            if i is not None and name not in mentions(i, set()):
                self.add(Var(name, t))
                return [N('decl', c=[i], v=(t, name, None, False))]
        self.add(Var(name, t, glob=glob))
        d = [N('decl', v=(t, name, None, False))]
        if glob: return d
        # hide the struct while its members are computed
        v = self.scopes[-1].pop()
        hidden = [w for w in self.scopes if any(x.name == name for x in w)]
        save = [(w, list(w)) for w in self.scopes]
        for w in self.scopes: w[:] = [x for x in w if x.name != name]
        out = self.fill(N('var', t, v=name), t, [])
        for w, c in save: w[:] = c
        self.scopes[-1].append(v)
        return d + out

    def decl_ptr(self, glob):
        f = self.f
        ts = [INT] * 3 + ([FLOAT] if f.floats else []) + ([('struct', n) for n in sorted(self.structs)] if f.struct_ptr else [])
        t = self.pick(ts)
        a = self.addressable(t)
        if a is None: return self.decl_scalar(glob)
        name = self.name('p')
        self.add(Var(name, ptr(t)))
        return [N('decl', c=[a], v=(ptr(t), name, None, False))]

    # --- loops
    def loop_stmt(self, depth):
        f = self.f
        k = self.r.randint(1, 4)
        kind = self.pick(['for', 'for', 'while'] + (['do'] if f.dowhile else []))
        i = self.name('i')
        self.loop += 1
        iv = N('var', INT, v=i)
        sw, self.inswitch = self.inswitch, 0
        if kind == 'for':
            decl = f.loop_decl and self.ch(0.6)
            up = self.ch(0.75)
            self.scopes.append([Var(i, INT, ro=True, dims=k)])
            self.scopes.append([])
            body = self.body(depth - 1)
            self.scopes.pop()
            self.scopes.pop()
            init = N('decl', c=[lit(0 if up else k - 1)], v=(INT, i, None, False)) if decl else N('assign', INT, [iv.copy(), lit(0 if up else k - 1)], '=')
            cond = N('bin', BOOL, [iv.copy(), lit(k)], '<') if up else N('bin', BOOL, [iv.copy(), lit(0)], '>=')
            inc = N(self.pick(['preinc', 'postinc']), INT, [iv.copy()], '++' if up else '--') if self.ch(0.7) or not f.compound else N('assign', INT, [iv.copy(), lit(1)], '+=' if up else '-=')
            pre = []
            if not decl:
                pre.append(N('decl', v=(INT, i, None, False)))
                if f.for_partial and self.ch(0.2):
                    pre.append(N('expr', c=[init]))
                    init = None
            if f.for_partial and self.ch(0.12) and body.k == 'block':
                # no condition: leave by break
                body = N('block', c=[N('if', c=[N('un', BOOL, [cond], '!') if f.unary_not and self.ch(0.5) else neg(cond), N('break')])] + body.c)
                cond = None
            if f.for_partial and self.ch(0.1) and body.k == 'block' and not has_continue(body):
                body = N('block', c=body.c + [N('expr', c=[inc])])
                inc = None
            out = pre + [N('for', c=[init, cond, inc, body])]
            if not decl: self.add(Var(i, INT, ro=True, dims=None))
        else:
            self.scopes.append([])
            body = self.block(depth - 1, scope=False)
            self.scopes.pop()
            d = N('decl', c=[lit(k)], v=(INT, i, None, False))
            if kind == 'while':
                if self.ch(0.5):
                    out = [d, N('while', c=[N('bin', BOOL, [N('postinc', INT, [iv.copy()], '--'), lit(0)], '>'), body])]
                else:
                    body.c.insert(0, N('expr', c=[N('assign', INT, [iv.copy(), lit(1)], '-=')]))
                    out = [d, N('while', c=[N('bin', BOOL, [iv.copy(), lit(0)], '>'), body])]
            else:
                out = [d, N('do', c=[body, N('bin', BOOL, [N('preinc', INT, [iv.copy()], '--'), lit(0)], '>')])]
            self.add(Var(i, INT, ro=True))
        self.loop -= 1
        self.inswitch = sw
        return out

    def switch(self, depth):
        f = self.f
        self.inswitch += 1
        e = self.expr(INT, 1)
        if f.chars and f.char_arith and self.ch(0.15): e = self.expr(CHAR, 1)
        n = self.r.randint(1, 4)
        labs = self.r.sample(range(-2, 9), 8)
        if e.ty == CHAR: labs = self.r.sample(range(97, 107), 8)
        elif self.ch(0.5): e = N('bin', INT, [N('abs', INT, [e]), lit(5)], '%') if f.abs and f.rem else e
        cases, lp = [], self.loop
        for j in range(n):
            nl = 2 if f.fallthrough and self.ch(0.2) else 1
            ls = []
            for _ in range(nl):
                v = labs.pop()
                ls.append(N('char', CHAR, v=v) if e.ty == CHAR and self.ch(0.7) else lit(v) if self.ch(0.8) or v < 1 else N('bin', INT, [lit(v - 1), lit(1)], '+'))
            cases.append(ls)
        if self.ch(0.7): cases.insert(self.r.randrange(len(cases) + 1) if f.default_mid and self.ch(0.3) else len(cases), [None])
        out = []
        self.scopes.append([])
        for j, ls in enumerate(cases):
            self.scopes.append([])
            self.loop = lp
            b = []
            for _ in range(self.r.randint(1, 2)): b.extend(self.nodecl(depth - 1))
            self.scopes.pop()
            if not (f.fallthrough and self.ch(0.25)) and not (j == len(cases) - 1 and self.ch(0.5)): b.append(N('break'))
            out.append(N('case', c=b, v=ls))
        self.scopes.pop()
        self.inswitch -= 1
        return [N('switch', c=[e] + out)]

    def nodecl(self, depth):
        self.scopes.append([])
        s = self.stmt(depth) if depth > 0 else self.simple(depth)
        self.scopes.pop()
        if any(x.k in ('decl', 'decls') for x in s): return [N('block', c=s)]
        return s

    # ------------------------------------------------------------ top level
    def struct_def(self):
        f = self.f
        name = self.name('S')
        fields = []
        for _ in range(self.r.randint(1, 4)):
            t = self.pick([INT] * 3 + ([FLOAT] * 2 if f.floats else []) + ([CHAR] if f.chars or f.char_small else []) + ([BOOL] if f.boolvars else []))
            b = None
            if f.struct_arr and self.ch(0.15) and t in (INT, FLOAT, CHAR):
                b = [lit(self.r.randint(1, 4))]
                t = arr(t)
            elif f.nested and self.structs and self.ch(0.2):
                c = [n for n in sorted(self.structs) if not any(is_arr(x) for _, x, _ in self.flat(n))]
                if c: t = ('struct', self.pick(c))
            elif f.ptr and f.ptr_member and self.ch(0.1): t = ptr(INT)
            fields.append((self.name('m'), t, b))
        self.structs[name] = fields
        self.p.items.append(('struct', name, fields))

    def enum_def(self):
        name = self.name('E')
        el, v = [], 0
        for _ in range(self.r.randint(1, 4)):
            show = self.ch(0.3)
            if show: v = self.r.randint(0, 40)
            el.append((self.name('K'), v, show))
            v += 1
        self.enums[name] = el
        self.p.items.append(('enum', name, el))

    def func_types(self):
        f = self.f
        ts = [INT] * 5 + ([FLOAT] * 3 if f.floats else []) + ([CHAR] if f.chars or f.char_small else []) + ([BOOL] if f.boolvars else [])
        return ts

    def fname(self):
        """A name of a function, sometimes one written the same way in Latin letters as another."""
        if self.f.unicode and self.ch(0.25):
            free = [n for c in (self.pick(ALIKE), self.pick(ALIKE)) for n in c if n not in self.used]
            if free:
                n = self.pick(free)
                self.used.add(n)
                return n
        return self.name('f')

    def func(self):
        f = self.f
        name = self.fname()
        rec = f.recursion and self.ch(0.3)
        rts = [t for t in self.func_types() if t != CHAR or not f.char_small] + [VOID] * 2
        if f.struct_ret: rts += [('struct', n) for n in sorted(self.structs) if not any(is_arr(t) or is_ptr(t) for _, t, _ in self.flat(n))]
        ret = self.pick(rts) if not rec else self.pick([INT, INT, FLOAT if f.floats else INT, VOID])
        params = []
        if rec: params.append((INT, self.name('n')))
        for _ in range(self.r.randint(0, 3)):
            r = self.r.random()
            t = self.pick(self.func_types())
            if r < 0.12 and f.arrays and f.arr_param: t = arr(self.pick([INT, FLOAT] if f.floats else [INT]))
            elif r < 0.17 and f.arrays and f.arr_param and f.strings and f.char_arr: t = arr(CHAR)
            elif r < 0.27 and f.ptr and f.ptr_param: t = ptr(self.pick([INT, FLOAT] if f.floats else [INT]))
            elif r < 0.37 and self.structs and f.struct_param:
                c = [n for n in sorted(self.structs) if not any(is_arr(x) or is_ptr(x) for _, x, _ in self.flat(n))]
                if c: t = ('struct', self.pick(c))
            elif r < 0.43 and f.funcparam:
                c = [x for x in self.fns if not x.rec and all(isinstance(p, str) for p, _ in x.params) and isinstance(x.ret, str)]
                if c:
                    x = self.pick(c)
                    t = ('func', x.ret, tuple(p for p, _ in x.params))
            params.append((t, self.name('a')))
        fn = Fn(name, ret, params, rec)
        proto = f.proto and self.ch(0.25) and not is_ptr(ret)
        if proto: self.p.items.append(('proto', name))
        scope = []
        for i, (t, n) in enumerate(params):
            if is_fun(t): scope.append(Var(n, t, ro=True))
            else: scope.append(Var(n, t, ro=(rec and i == 0) or t == arr(CHAR), dims=[('upb', n)] if is_arr(t) else None))
        self.curname = name
        save = self.fns
        self.fns = list(save)
        for t, n in params:
            if is_fun(t): self.fns.append(Fn(n, t[1], [(p, '_') for p in t[2]]))
        self.scopes.append(scope)
        self.protect = {n for _, n in params}
        self.budget = int(self.r.randint(10, 45) * self.size)
        out = []
        if rec:
            n = params[0][1]
            r = [N('return', ret, [self.expr(ret, 1)] if ret != VOID else [])]
            out.append(N('if', c=[N('bin', BOOL, [N('var', INT, v=n), lit(0)], '<='), N('block', c=r)]))
        for t, n in params:
            if is_arr(t) and self.ch(0.7) and self.f.upb:
                i = self.name('i')
                self.scopes.append([Var(i, INT, ro=True, dims=('upb', n))])
                self.scopes.append([])
                self.loop += 1
                b = self.block(1, 2)
                self.loop -= 1
                self.scopes.pop()
                self.scopes.pop()
                out.append(N('for', c=[N('decl', c=[lit(0)], v=(INT, i, None, False)), N('bin', BOOL, [N('var', INT, v=i), N('upb', INT, [N('var', t, v=n)])], '<'), N('postinc', INT, [N('var', INT, v=i)], '++'), b]))
        for _ in range(self.r.randint(1, 4)): out.extend(self.stmt(2))
        if ret != VOID and self.ch(0.3):
            out.append(N('if', c=[self.condition(1), N('return', ret, [self.ret_expr(ret)])]))
        if rec:
            args = [N('bin', INT, [N('var', INT, v=params[0][1]), lit(1)], '-')]
            for t, n in params[1:]: args.append(N('var', t, v=n))
            # a parameter may be shadowed in the body only inside nested blocks, so its name is still visible here
            c = N('call', ret, args, name)
            if ret == VOID:
                out.append(N('expr', c=[c]))
                for _ in range(self.r.randint(0, 1)): out.extend(self.stmt(1))
            else:
                o = self.pick(['+', '-'])
                k = self.literal(ret)
                if ret == INT: k = lit(self.r.randint(0, 5))
                out.append(N('return', ret, [N('bin', ret, [c, k] if self.ch(0.5) else [k, c], o)]))
        elif ret != VOID:
            out.append(N('return', ret, [self.ret_expr(ret)]))
        elif self.ch(0.2): out.append(N('return', VOID, []))
        self.scopes.pop()
        self.protect = ()
        self.fns = save
        self.fns.append(fn)
        self.p.funcs[name] = Func(name, ret, params, N('block', c=out))
        self.p.items.append(('func', name))
        self.curname = None

    def ret_expr(self, ret):
        if is_struct(ret):
            ls = [l for l in self.lvalues(ret, False) if isinstance(l, N)]
            if ls and (self.ch(0.7) or not self.f.struct_init): return self.pick(ls).copy()
            return None or self.struct_value(ret)
        if ret == INT and (self.f.chars or self.f.char_small) and self.f.char_arg and self.ch(0.1): return self.char_object() or self.expr(ret, 2)
        if ret == CHAR and self.f.char_arg and self.ch(0.2): return lit(self.r.randint(32, 126))
        return self.expr(ret, 2)

    def struct_value(self, t):
        # no struct rvalue without a variable: fall back to a global one
        for v in self.scopes[0]:
            if v.ty == t: return N('var', t, v=v.name)
        name = self.name('g')
        self.scopes[0].append(Var(name, t, glob=True))
        self.p.items.append(('global', N('decl', v=(t, name, None, False))))
        return N('var', t, v=name)

    def program(self):
        f = self.f
        if f.structs:
            for _ in range(self.r.choice([0, 0, 1, 1, 2, 3])): self.struct_def()
        if f.enum and self.ch(0.3): self.enum_def()
        self.budget = 60
        for _ in range(self.r.randint(0, 4)):
            for d in self.declare(True): self.p.items.append(('global', d))
        if f.funcs:
            for _ in range(self.r.choice([0, 1, 1, 2, 2, 3, 4])): self.func()
        self.scopes.append([])
        self.budget = int(self.r.randint(20, 120) * self.size)
        out = []
        for _ in range(self.r.randint(2, 8)): out.extend(self.stmt(3))
        # make the final state observable
        for v in self.visible():
            if v.ty in (INT, FLOAT, CHAR, BOOL): out.append(self.show(N('var', v.ty, v=v.name)))
            elif is_arr(v.ty) and v.dims and base_and_dims(v.ty)[0] in (INT, FLOAT) and len(v.dims) == 1 and not isinstance(v.dims[0], tuple):
                for k in range(v.dims[0]): out.append(self.show(N('index', v.ty[1], [N('var', v.ty, v=v.name), lit(k)])))
        self.scopes.pop()
        self.p.funcs['main'] = Func('main', VOID, [], N('block', c=out))
        self.p.items.append(('func', 'main'))
        return self.p


def neg(c):
    return N('bin', BOOL, c.c, {'<': '>=', '>=': '<'}[c.v])


def root(e):
    while e.k not in ('var',):
        if not e.c: return ''
        e = e.c[0]
    return e.v


def has_continue(s):
    if s.k == 'continue': return True
    if s.k in ('while', 'do', 'for'): return False
    return any(isinstance(x, N) and has_continue(x) for x in s.c)


def generate(rnd, feat=None, size=1.0, tries=25, exclude=None):
    """A program with a defined meaning, its output, status and operation counts."""
    for _ in range(tries):
        g = Gen(rnd, feat, size)
        p = g.program()
        if static.check(p): continue
        if exclude and exclude(p): continue
        it = Interp(p)
        try:
            out, st = it.run()
        except Undef:
            continue
        return p, out, st, it.counts
    return None


def nodes(p):
    """All nodes of a program."""
    st = [f.body for n, f in p.funcs.items()] + [i[1] for i in p.items if i[0] == 'global']
    while st:
        n = st.pop()
        yield n
        for x in n.c:
            if isinstance(x, N): st.append(x)
        if n.k == 'decl' and n.v[2]: st.extend(b for b in n.v[2] if b is not None)
        if n.k == 'case': st.extend(l for l in n.v if l is not None)
