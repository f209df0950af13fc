"""A constant expression has the value its evaluation at run time would give."""
from .. import exprs, lang, oracle
from ..core import Case, Fail, Prop, digest
from ..lang import *

VALS = [0, 1, 2, 3, 5, 7, 10, 31, 64, 100, 255, 1000, 65535, 2147483647, 1073741824]


class C07(Prop):
    id = 'C07'
    quick = (12000, 45)
    thorough = (300000, 600)
    chunk = 16
    rule = ('a case is up to 6 constant expressions, each written with literals, with the literals hoisted into variables, and in '
            'the places that require constants; non-trivial: at least 3 expressions and 6 distinct operators')
    assumptions = ['expressions whose evaluation overflows, divides by zero or shifts out of range have no defined value and are not generated','the sign of a floating zero given to abs is left open']

    def setup(self):
        self.vm = oracle.VM()

    def expr(self, rnd):
        def leaf(ty):
            if ty == INT:
                k = rnd.random()
                if k < 0.1: return N('char', INT, v=rnd.choice([48, 65, 97, 10, 1078]))
                if k < 0.2: return N('enumc', INT, v=rnd.choice(['A0', 'A1', 'A7']))
                v = rnd.choice(VALS) if rnd.random() < 0.7 else rnd.getrandbits(rnd.randint(1, 20))
                return N('int', INT, v=v)
            if ty == FLOAT: return N('float', FLOAT, v=rnd.randint(0, 64) / rnd.choice([1, 2]))
            return N('bool', BOOL, v=rnd.random() < 0.5)
        g = exprs.ExprGen(rnd, leaf, cond=rnd.random() < 0.5)
        ev = Interp(Program())
        ev.enum = {'A0': 0, 'A1': 1, 'A7': 7}
        for _ in range(60):
            ty = rnd.choice([INT, INT, INT, FLOAT, BOOL])
            e = g.gen(ty, rnd.randint(1, 4))
            try:        # also operands that would not be evaluated must have a value
                for x in walk(e):
                    v = ev.ev(x, [])
                    if x.k == 'abs' and v == 0: raise Undef('sign of zero')
                v = ev.ev(e, [])
            except Undef: continue
            if ty == INT and not INT_MIN < v <= INT_MAX: continue
            if any(x.k == 'char' and p.k in ('un', 'abs') for p in walk(e) for x in p.c): continue
            return e, v
        return N('int', INT, v=1), 1

    def build(self, es):
        """es: list of [expression, value]; returns source and expected output"""
        pr = Printer(Program())
        decl, body, want, enums = [], [], [], []
        for i, (e, v) in enumerate(es):
            txt = pr.e(e)
            h = e.copy()
            n = 0
            for x in exprs.leaves(h):
                if x.k == 'bool' or x.k == 'enumc' and False: pass
                name = 'h%d_%d' % (i, n)
                n += 1
                if x.k == 'enumc': decl.append('\tint %s = %s;' % (name, x.v))
                elif x.k == 'char': decl.append('\tint %s = %s;' % (name, char_lit(x.v)))
                elif x.k == 'int': decl.append('\tint %s = %s;' % (name, pr.e(x)))
                elif x.k == 'float': decl.append('\tfloat %s = %s;' % (name, pr.e(x)))
                elif x.k == 'bool': decl.append('\tbool %s = %s;' % (name, pr.e(x)))
                x.k, x.v = 'var', name
            s = 'true' if v is True else 'false' if v is False else fmt17(v) if e.ty == FLOAT else str(v)
            if chars(e): want.append(s)
            else:
                body.append('\tprint(%s, " ");' % txt)
                want.append(s + ' ' + s)
            body.append('\tprint(%s, "\\n");' % pr.e(h))
            if e.ty == INT:
                plain = all(x.k not in ('cond', 'char') for x in walk(e))
                if plain and e.k != 'enumc' and v != INT_MAX:
                    enums.append('enum T%d { B%d = %s };' % (i, i, txt))
                    body.append('\tint e%d = B%d;\n\tprint(e%d, "\\n");' % (i, i, i))
                    want.append(str(v))
                if plain or e.k == 'char':
                    body.append('\tint s%d = %s;\n\tswitch (s%d)\n\t{\n\t\tcase %s:\n\t\t\tprint("hit\\n");\n\t\t\tbreak;\n\t\tdefault:\n\t\t\tprint("miss\\n");\n\t}' % (i, v if v >= 0 else '0 - %d' % -v, i, txt))
                    want.append('hit')
        src = 'enum K { A0, A1, A7 = 7 };\n' + '\n'.join(enums) + ('\n' if enums else '') + 'void main()\n{\n' + '\n'.join(decl + body) + '\n}\n'
        return src, '\n'.join(want) + '\n'

    def judge(self, src, want):
        return self.vm.judge(src, '', want, 'ok')

    def case(self, rnd, i):
        es = [self.expr(rnd) for _ in range(rnd.randint(1, 6))]
        src, want = self.build(es)
        w = self.judge(src, want)
        o = set()
        for e, _ in es: exprs.ops(e, o)
        c = Case(trivial=len(es) < 3 or len(o) < 6, key=digest(src), sample=[Printer(Program()).e(e) for e, _ in es], tags={k + v: 1 for k, v in o})
        if w: c.fail = Fail(why=w, data={'source': src, 'want': want, 'es': [[e.to_json(), v] for e, v in es]})
        return c

    def replay(self, d): return self.judge(d['source'], d['want'])

    def shrink(self, d, why, deadline):
        best = (d, why)
        for j, v in d.get('es', []):
            e = N.from_json(j)
            src, want = self.build([(e, v)])
            w = self.judge(src, want)
            if not w: continue
            # hoist failing subexpressions
            ev = Interp(Program())
            ev.enum = {'A0': 0, 'A1': 1, 'A7': 7}
            again = True
            while again:
                again = False
                for x in e.c:
                    try: xv = ev.ev(x, [])
                    except Undef: continue
                    s2, w2 = self.build([(x, xv)])
                    r = self.judge(s2, w2)
                    if r:
                        e, v, src, want, w, again = x, xv, s2, w2, r, True
                        break
            return {'source': src, 'want': want}, w
        return best

    def describe(self, d): return {'c': d['source']}


def chars(e):
    """whether the expression may have the type of characters"""
    return e.k == 'char' or e.k == 'cond' and any(chars(x) for x in e.c[1:])


def walk(e):
    out = [e]
    for x in e.c: out += walk(x)
    return out


prop = C07()
