"""Literals denote the value they spell."""
from fractions import Fraction

from .. import oracle, shrink
from ..core import Case, Fail, Prop, digest

INTS = [0, 1, 7, 8, 9, 10, 15, 16, 99, 127, 128, 255, 256, 1023, 1024, 32767, 32768, 65535, 65536, 99999, 16777215, 16777216,
        0x7fffffff, 0x7ffffffe, 1000000000, 0x40000000, 9000, 9455, 123456789, 2000000000]
SPECIAL = [0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0x400, 0x401, 0x451, 0x410, 0x44f, 0x20ac, 0x2192, 0x4e2d, 0x1f600, 0xe9, 0xfeff, 0x416, 0xa0, 0x2028]


def digits(rnd, n): return ''.join(rnd.choice('0123456789') for _ in range(n))


def case_mix(rnd, s): return ''.join(rnd.choice([c.lower(), c.upper()]) for c in s)


def integer(rnd):
    v = rnd.choice(INTS) if rnd.random() < 0.4 else rnd.getrandbits(rnd.randint(1, 31))
    k = rnd.choice('dDxXoObB..e')
    z = '0' * rnd.choice([0, 0, 0, 1, 3])
    if k == '.': return z + str(v), v
    if k == 'e':
        m, e = rnd.randint(0, 999), rnd.randint(0, 6)
        return '%d%s%s%d' % (m, rnd.choice('eE'), rnd.choice(['', '+']), e), m * 10 ** e
    d = {'d': str(v), 'x': case_mix(rnd, '%x' % v), 'o': '%o' % v, 'b': bin(v)[2:]}[k.lower()]
    return '0' + k + z + d, v


def floating(rnd):
    if rnd.random() < 0.15:     # an integer too long for an integer literal, or one that is converted
        n = rnd.choice([1, 5, 9, 10, 15, 17, 18, 19, 20, 21, 25, 40])
        s = str(rnd.randint(1, 9)) + digits(rnd, n - 1)
        if 2 ** 63 <= int(s) < 12 * 10 ** 18: s = '5' + s[1:]      # known finding
        f = digits(rnd, rnd.randint(0, 4)) if rnd.random() < 0.3 else None
        return (s, Fraction(int(s))) if f is None else (s + '.' + f, Fraction(int(s)) + (Fraction(int(f), 10 ** len(f)) if f else 0))
    ip = '0' * rnd.choice([0, 0, 1]) + digits(rnd, rnd.randint(0, 9)) if rnd.random() < 0.9 else ''
    fp = digits(rnd, rnd.randint(1 if not ip else 0, 12))
    s = ip + '.' + fp
    v = Fraction(int(ip or '0')) + (Fraction(int(fp), 10 ** len(fp)) if fp else 0)
    r = rnd.random()
    if r < 0.4:
        e = rnd.randint(0, 30) if rnd.random() < 0.7 else rnd.randint(0, 250)
        sign = rnd.choice(['', '+', '-', '-'])
        s += rnd.choice('eE') + sign + rnd.choice(['', '', '0']) + str(e)
        v *= Fraction(10) ** (-e if sign == '-' else e)
    elif r < 0.5:
        ip = str(rnd.randint(1, 10 ** rnd.randint(1, 9)))
        e = rnd.randint(1, 40)
        s = ip + rnd.choice('eE') + '-' + str(e)
        v = Fraction(int(ip), 10 ** e)
    return s, v


def codepoint(rnd):
    r = rnd.random()
    if r < 0.4: return rnd.randint(0x20, 0x7e)
    if r < 0.65: return rnd.randint(0x410, 0x44f)
    if r < 0.8: return rnd.choice(SPECIAL)
    while True:
        c = rnd.randint(0xa0, 0xffff) if rnd.random() < 0.8 else rnd.randint(0x10000, 0x10ffff)
        if not 0xd800 <= c < 0xe000: return c


ESCAPES = [('\\n', 10), ('\\t', 9), ('\\\\', 92), ("\\'", 39), ('\\"', 34), ('\\н', 10), ('\\т', 9), ('\\0', 0)]


def element(rnd, quote):
    if rnd.random() < 0.2: return rnd.choice(ESCAPES if quote == "'" else ESCAPES[:-1])     # \\0 in strings: known finding
    c = codepoint(rnd)
    ch = chr(c)
    return ('\\' + ch if ch in ('\\', quote) else ch), c


def literal(rnd):
    """(kind, text, value)"""
    k = rnd.choice(['int', 'int', 'float', 'float', 'char', 'string', 'string'])
    if k == 'int': return [k, *integer(rnd)]
    if k == 'float':
        while True:
            s, v = floating(rnd)
            if v == 0 or Fraction(1, 10 ** 290) < v < Fraction(10) ** 290: return [k, s, [v.numerator, v.denominator]]
    if k == 'char': return [k] + (lambda t, c: ["'" + t + "'", c])(*element(rnd, "'"))
    el = [element(rnd, '"') for _ in range(rnd.choice([0, 1, 2, 3, 5, 9, 30]))]
    parts, txt = [[]], ''
    for e in el:
        if parts[-1] and rnd.random() < 0.1: parts.append([])
        parts[-1].append(e)
    return [k, rnd.choice([' ', '\n', '']).join('"' + ''.join(t for t, _ in p) + '"' for p in parts), [c for p in parts for _, c in p]]


def program(lits):
    out = ['void main()', '{']
    for n, (k, t, v) in enumerate(lits):
        if k == 'int': out.append('\tint v%d = %s;\n\tprint(v%d, "\\n");' % (n, t, n))
        elif k == 'float': out.append('\tfloat v%d = %s;\n\tprint(v%d, "\\n");' % (n, t, n))
        elif k == 'char': out.append('\tint v%d = %s;\n\tprint(v%d, "\\n");' % (n, t, n))
        else: out.append('\tchar v%d[] = %s;\n\tint n%d = upb(v%d);\n\tprint(n%d);\n\tfor (int i = 0; i < n%d; i++)\n\t{\n\t\tint c = v%d[i];\n\t\tprint(" ", c);\n\t}\n\tprint("\\n");' % (n, t, n, n, n, n, n))
    return '\n'.join(out + ['}', ''])


class C06(Prop):
    id = 'C06'
    quick = (24000, 45)
    thorough = (200000, 500)
    chunk = 16
    rule = 'a case is a program of up to 16 literals printed at run time; non-trivial: at least 3 literals of at least 2 kinds'
    assumptions = ['floating literals may differ from the decimal value by a relative error of 1e-13 (the compiler accumulates digits in binary)']

    def setup(self):
        self.vm = oracle.VM()

    def judge(self, lits):
        out, st = self.vm.run(program(lits))
        if out is None: return st
        if not st.startswith('ok'): return 'run ended with ' + st
        lines = out.decode('utf-8', 'replace').split('\n')
        for (k, t, v), l in zip(lits, lines):
            if k in ('int', 'char'): good = l == str(v)
            elif k == 'string': good = l == ' '.join(str(x) for x in [len(v)] + v)
            else:
                try: x = Fraction(float(l))
                except (ValueError, OverflowError): x = None
                f = Fraction(*v)
                good = x is not None and abs(x - f) <= f / 10 ** 13
            if not good: return 'literal %s: expected %s, got %s' % (t, float(Fraction(*v)) if k == 'float' else v, l)
        return None

    def case(self, rnd, i):
        lits = [literal(rnd) for _ in range(rnd.randint(1, 16))]
        w = self.judge(lits)
        c = Case(trivial=len(lits) < 3 or len({l[0] for l in lits}) < 2, key=digest(repr(lits)), sample=[l[1][:60] for l in lits], tags={l[0]: 1 for l in lits})
        if w: c.fail = Fail(why=w, data=lits)
        return c

    def replay(self, d): return self.judge(d)

    def shrink(self, d, why, deadline):
        for l in d:
            w = self.judge([l])
            if w: return [l], w
        return d, why

    def describe(self, d): return {'c': program(d)}


prop = C06()
