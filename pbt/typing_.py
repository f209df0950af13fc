"""The typing rules of the language (docs/Language.md, chapters 5, 7, 9, 10) as an executable model.

Expressions are tuples; `check` gives the type of one, raises Bad when a rule is broken and Unknown when the
rules do not say."""

INT, CHAR, FLOAT, BOOL, VOID, NULL = 'int', 'char', 'float', 'bool', 'void', 'null'


class Bad(Exception): pass
class Unknown(Exception): pass


def con(t): return ('const', t)
def ptr(t): return ('ptr', t)
def arr(t): return ('arr', t)
def enum(n): return ('enum', n)
def struct(n): return ('struct', n)
def fn(r, *ps): return ('fn', r) + ps


def kind(t): return t[0] if isinstance(t, tuple) else t
def is_const(t): return kind(t) == 'const'
def unq(t): return t[1] if is_const(t) else t
def is_int(t): return unq(t) in (INT, CHAR) or kind(unq(t)) == 'enum'
def is_float(t): return unq(t) == FLOAT
def is_arith(t): return is_int(t) or is_float(t)
def is_ptr(t): return kind(unq(t)) == 'ptr'
def is_arr(t): return kind(unq(t)) == 'arr'
def is_struct(t): return kind(unq(t)) == 'struct'
def is_bool(t): return unq(t) == BOOL


STRUCTS = {
    'A': [('x', INT), ('y', FLOAT), ('t', BOOL), ('z', arr(INT)), ('p', ptr(INT)), ('w', enum('E'))],
    'B': [('x', INT), ('c', CHAR)],
    'D': [('k', con(INT)), ('v', INT)],
    'L': [('n', ptr(struct('A'))), ('a', struct('B')), ('m', arr(struct('B')))],
}

PRELUDE = '''enum E { E0, E1 = 5 };
enum F { F0, F1 };
struct A { int x; float y; bool t; int z[2]; int *p; E w; };
struct B { int x; char c; };
struct D { const int k; int v; };
struct L { A *n; B a; B m[2]; };
typedef int whole; typedef B pair;
int i = 1; char c = 'a'; float f = 1.5; bool b = true; E e = E0; F g = F1;
const int ki = 1; const char kc = 'b'; const float kf = 2.5; const bool kb = false; const E ke = E1;
A a; B s; L l; D d = { 1, 2 }; const B ks = { 1, 'c' };
B s1 = { 1, 'c' };
int *p = &i; const int *pc = &ki; int *const cp = &i; const int *const cpc = &ki; float *pf = &f; char *ph = &c; bool *pb = &b; E *pe = &e;
A *pa = &a; B *ps = &s; const B *pks = &ks; L *pl = &l;
int r[3] = { 1, 2, 3 }; const int cr[2] = { 1, 2 }; int rr[2][3]; float fr[2]; B sr[2]; int *pr[2]; char str[] = "abc"; bool br[2]; E er[2]; const B ksr[1] = { { 1, 'x' } };
whole wh = 3; pair pp;
int fi(int x) { return x; } float ff(float x, int y) { return x; } void fv() { } bool fb(bool x) { return x; } char fc() { return 'c'; }
E fe(E x) { return x; } B fs(B x) { return x; } A fa() { return a; } int *fp(int *x) { return x; } B *fps() { return &s; } int fk(const int *x) { return *x; }
int ap(int (*h)(int), int x) { return h(x); } int fst(char x[]) { return 1; } void fm(int x, float y, bool z) { }
'''

VARS = {
    'i': INT, 'c': CHAR, 'f': FLOAT, 'b': BOOL, 'e': enum('E'), 'g': enum('F'), 'ki': con(INT), 'kc': con(CHAR), 'kf': con(FLOAT), 'kb': con(BOOL), 'ke': con(enum('E')),
    'a': struct('A'), 's': struct('B'), 'l': struct('L'), 'd': struct('D'), 'ks': con(struct('B')), 's1': struct('B'),
    'p': ptr(INT), 'pc': ptr(con(INT)), 'cp': con(ptr(INT)), 'cpc': con(ptr(con(INT))), 'pf': ptr(FLOAT), 'ph': ptr(CHAR), 'pb': ptr(BOOL), 'pe': ptr(enum('E')),
    'pa': ptr(struct('A')), 'ps': ptr(struct('B')), 'pks': ptr(con(struct('B'))), 'pl': ptr(struct('L')),
    'r': arr(INT), 'cr': arr(con(INT)), 'rr': arr(arr(INT)), 'fr': arr(FLOAT), 'sr': arr(struct('B')), 'pr': arr(ptr(INT)), 'str': arr(CHAR), 'br': arr(BOOL), 'er': arr(enum('E')), 'ksr': arr(con(struct('B'))),
    'wh': INT, 'pp': struct('B'),
}
FUNS = {
    'fi': fn(INT, INT), 'ff': fn(FLOAT, FLOAT, INT), 'fv': fn(VOID), 'fb': fn(BOOL, BOOL), 'fc': fn(CHAR), 'fe': fn(enum('E'), enum('E')), 'fs': fn(struct('B'), struct('B')), 'fa': fn(struct('A')),
    'fp': fn(ptr(INT), ptr(INT)), 'fps': fn(ptr(struct('B'))), 'fk': fn(INT, ptr(con(INT))), 'ap': fn(INT, fn(INT, INT), INT), 'fst': fn(INT, arr(CHAR)), 'fm': fn(VOID, INT, FLOAT, BOOL),
}
LITS = {'1': INT, '0': INT, '7': INT, "'q'": CHAR, '2.5': FLOAT, 'true': BOOL, 'false': BOOL, 'null': NULL, '"txt"': arr(CHAR), 'E0': enum('E'), 'F1': enum('F')}

ARITH2 = ['*', '/', '+', '-']
INT2 = ['%', '<<', '>>', '&', '^', '|']
REL = ['<', '>', '<=', '>=']
EQ = ['==', '!=']
LOG = ['&&', '||']
ASG = ['=', '*=', '/=', '+=', '-=', '%=', '<<=', '>>=', '&=', '^=', '|=']


def need(ok):
    if not ok: raise Bad


def assign(t, e, decl=True):
    """e may initialise (or be assigned to) an object of type t."""
    if not decl: need(not is_const(t))
    u = unq(t)
    if e[0] == 'list':
        if kind(u) == 'struct':
            ms = STRUCTS[u[1]]
            need(len(ms) == len(e[1]))
            for (_, mt), x in zip(ms, e[1]):
                if not decl and is_const(mt): raise Unknown
                assign(mt, x)
        elif kind(u) == 'arr':
            for x in e[1]:
                if not decl and is_const(u[1]): raise Unknown
                assign(u[1], x)
        else: raise Bad
        return
    if kind(u) == 'fn':
        if e[0] != 'name' or e[1] not in FUNS: raise Bad
        need(FUNS[e[1]] == u)
        return
    s = check(e)[0]
    if kind(s) == 'fn': raise Bad
    v = unq(s)
    if is_float(u) and is_int(v): return
    if kind(u) == 'enum' and v != u and is_int(v): raise Unknown
    if is_int(u) and is_int(v): return
    if kind(u) == 'ptr' and v == NULL: return
    if kind(u) == 'ptr' and kind(v) == 'ptr':
        if is_const(u[1]) and v[1] == unq(u[1]): return
        need(u == v)
        return
    need(u == v)


def compatible(x, y):
    return unq(x) == unq(y)


def check(e):
    """(type, whether an object that may be assigned to as far as its category goes)"""
    k = e[0]
    if k == 'lit': return LITS[e[1]], False
    if k == 'name':
        if e[1] in VARS: return VARS[e[1]], True
        if e[1] in FUNS: return FUNS[e[1]], None
        raise Bad
    if k == 'list': raise Unknown
    if k == 'par': return check(e[1])
    if k == 'un':
        op = e[1]
        t, lv = check(e[2])
        if kind(t) == 'fn' and op in ('&', '!'): raise Unknown
        if op in ('++', '--', 'p++', 'p--'):
            if lv is None and not kind(t) == 'fn' and is_arith(t): raise Unknown
            need(lv is not False and kind(t) != 'fn' and is_arith(t))
            need(not is_const(t))
            return t, False
        if op == '&':
            if lv is None: raise Unknown
            need(lv)
            return ptr(t), False
        if op == '*':
            need(is_ptr(t))
            if unq(t)[1] == VOID: raise Unknown
            return unq(t)[1], True
        if op in ('-', 'abs'):
            need(is_arith(t))
            return unq(t), False
        if op == '~':
            need(is_int(t))
            return INT, False
        if op == '!':
            if t == NULL: raise Unknown
            need(is_bool(t) or is_int(t) or is_ptr(t))
            return BOOL, False
        if op == 'upb':
            need(is_arr(t))
            return INT, False
    if k == 'sub':
        t, lv = check(e[1])
        j, _ = check(e[2])
        need(is_arr(t) and is_int(j))
        x = unq(t)[1]
        if is_const(t) and not is_const(x): x = con(x)
        return x, True if lv else None
    if k == 'dot':
        t, lv = check(e[1])
        need(is_struct(t))
        return member(t, e[2]), lv
    if k == 'arrow':
        t, _ = check(e[1])
        need(is_ptr(t) and is_struct(unq(t)[1]))
        return member(unq(t)[1], e[2]), True
    if k == 'call':
        t, _ = check(e[1])
        need(kind(t) == 'fn')
        need(len(t) - 2 == len(e[2]))
        for pt, x in zip(t[2:], e[2]): assign(pt, x)
        return t[1], False
    if k == 'print':
        need(e[1])
        for x in e[1]:
            t, _ = check(x)
            if kind(t) == 'fn' or t in (VOID, NULL): raise Unknown
            need(not is_ptr(t))
        return VOID, False
    if k == 'printf':
        want = spec(e[1])
        need(len(want) == len(e[2]))
        for t, x in zip(want, e[2]): assign(t, x)
        return INT, False
    if k == 'bin':
        op = e[1]
        if op in ASG:
            t, lv = check(e[2])
            if lv is None or kind(t) == 'fn': raise Unknown
            need(lv)
            if op == '=' and is_struct(t) and any(is_const(m) for _, m in STRUCTS[unq(t)[1]]): raise Unknown
            if op != '=' and kind(unq(t)) == 'enum': need(not is_const(t)); need(is_int(check(e[3])[0])); raise Unknown
            if op != '=' and e[3][0] == 'list': raise Bad
            assign(t, e[3], decl=False)
            if op == '=': return t, False
            u, _ = check(e[3])
            if op[:-1] in INT2: need(is_int(t) and is_int(u))
            else: need(is_arith(t) and is_arith(u))
            return t, False
        x, _ = check(e[2])
        y, _ = check(e[3])
        if op == ',': return y, None
        if op in ARITH2:
            need(is_arith(x) and is_arith(y))
            return FLOAT if is_float(x) or is_float(y) else INT, False
        if op in INT2:
            need(is_int(x) and is_int(y))
            return INT, False
        if op in REL:
            need(is_arith(x) and is_arith(y))
            return BOOL, False
        if op in LOG:
            if NULL in (x, y):
                other = y if x == NULL else x
                if other != NULL: need(scalar(other))
                raise Unknown
            need(scalar(x) and scalar(y))
            return BOOL, False
        if op in EQ:
            both(x, y)
            return BOOL, False
    if k == 'cond':
        x, _ = check(e[1])
        if e[2][0] == 'list' or e[3][0] == 'list': raise Bad
        y, _ = check(e[2])
        z, _ = check(e[3])
        if x == NULL: raise Unknown
        need(scalar(x))
        return both(y, z), False
    raise AssertionError(k)


def both(x, y):
    """The common type of the operands of == and of the branches of ?:"""
    if is_arith(x) and is_arith(y): return FLOAT if is_float(x) or is_float(y) else INT
    if is_ptr(x) and y == NULL: return x
    if is_ptr(y) and x == NULL: return y
    if x == y and (x in (VOID, NULL) or kind(x) == 'fn'): raise Unknown
    need(compatible(x, y))
    if is_arr(x) or is_struct(x): raise Unknown
    return unq(x)


def scalar(t): return is_bool(t) or is_int(t) or is_ptr(t)


def member(t, name):
    for n, mt in STRUCTS[unq(t)[1]]:
        if n == name: return con(mt) if is_const(t) and not is_const(mt) else mt
    raise Bad


def spec(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '%':
            i += 1
            if i == len(s): raise Bad
            c = s[i]
            if c in 'iцcл': out.append(INT)
            elif c in 'fв': out.append(FLOAT)
            elif c in 'sс': out.append(arr(CHAR))
            elif c != '%': raise Bad
        i += 1
    return out


def text(e, top=False):
    k = e[0]
    if k in ('lit', 'name'): return e[1]
    if k == 'list': return '{ ' + ', '.join(arg(x) for x in e[1]) + ' }'
    if k == 'par': return '(' + text(e[1], True) + ')'
    if k == 'call': return sub(e[1]) + '(' + ', '.join(arg(x) for x in e[2]) + ')'
    if k == 'print': return 'print(' + ', '.join(arg(x) for x in e[1]) + ')'
    if k == 'printf': return 'printf("' + e[1] + '"' + ''.join(', ' + arg(x) for x in e[2]) + ')'
    if k == 'sub': return sub(e[1]) + '[' + text(e[2], True) + ']'
    if k == 'dot': return sub(e[1]) + '.' + e[2]
    if k == 'arrow': return sub(e[1]) + '->' + e[2]
    if k == 'un':
        if e[1] in ('p++', 'p--'): r = sub(e[2]) + e[1][1:]
        elif e[1] in ('abs', 'upb'): r = e[1] + '(' + text(e[2], True) + ')'
        else: r = e[1] + sub(e[2])
    elif k == 'bin': r = sub(e[2]) + ' ' + e[1] + ' ' + (text(e[3]) if e[3][0] == 'list' else sub(e[3]))
    elif k == 'cond': r = sub(e[1]) + ' ? ' + sub(e[2]) + ' : ' + sub(e[3])
    return r


def arg(e): return '(' + text(e) + ')' if e[0] == 'bin' and e[1] == ',' else text(e)


def sub(e):
    return text(e) if e[0] in ('lit', 'name', 'par', 'call', 'print', 'printf', 'sub', 'dot', 'arrow', 'list') else '(' + text(e, True) + ')'


def verdict(f, *a, **k):
    """'ok', 'bad' or None"""
    try: f(*a, **k)
    except Bad: return 'bad'
    except Unknown: return None
    return 'ok'
