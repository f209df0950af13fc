"""Random typed expressions over a given set of leaves."""
from .lang import *

ARITH = ['+', '-', '*', '/']
INTOPS = ['+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>']
REL = ['<', '>', '<=', '>=', '==', '!=']


class ExprGen:
    """leaf(ty) returns a leaf of type INT, FLOAT or BOOL; small: bias to small values for shifts"""

    def __init__(self, rnd, leaf, floats=True, cond=True, bools=True, unary=True):
        self.r, self.leaf, self.floats, self.cond, self.bools, self.unary = rnd, leaf, floats, cond, bools, unary

    def gen(self, ty, d):
        r = self.r
        if d <= 0 or r.random() < 0.08: return self.leaf(ty)
        k = r.random()
        if ty == INT:
            if k < 0.62:
                op = r.choice(INTOPS)
                a = self.gen(INT, d - 1)
                b = N('int', INT, v=r.randint(0, 31)) if op in ('<<', '>>') and r.random() < 0.7 else self.gen(INT, d - 1)
                return N('bin', INT, [a, b], op)
            if k < 0.85 and self.unary:
                op = r.choice(['-', '-', '~', 'abs'])
                a = self.gen(INT, d - 1)
                if op == 'abs': return N('abs', INT, [a])
                return N('un', INT, [a], op)
            if self.cond and self.bools: return N('cond', INT, [self.gen(BOOL, d - 1), self.gen(INT, d - 1), self.gen(INT, d - 1)])
            return N('bin', INT, [self.gen(INT, d - 1), self.gen(INT, d - 1)], r.choice(['+', '-', '*', '&', '|', '^']))
        if ty == FLOAT:
            if k < 0.7:
                ts = r.choice([(FLOAT, FLOAT), (FLOAT, FLOAT), (FLOAT, INT), (INT, FLOAT)])
                return N('bin', FLOAT, [self.gen(ts[0], d - 1), self.gen(ts[1], d - 1)], r.choice(ARITH))
            if k < 0.88 and self.unary:
                a = self.gen(FLOAT, d - 1)
                return N('un', FLOAT, [a], '-') if r.random() < 0.7 else N('abs', FLOAT, [a])
            if self.cond and self.bools: return N('cond', FLOAT, [self.gen(BOOL, d - 1), self.gen(FLOAT, d - 1), self.gen(FLOAT, d - 1)])
            return N('bin', FLOAT, [self.gen(FLOAT, d - 1), self.gen(FLOAT, d - 1)], r.choice(ARITH))
        if ty == BOOL:
            if k < 0.55:
                ts = r.choice([(INT, INT)] * 4 + [(FLOAT, FLOAT), (FLOAT, INT)]) if self.floats else (INT, INT)
                op = r.choice(REL)
                return N('bin', BOOL, [self.gen(ts[0], d - 1), self.gen(ts[1], d - 1)], op)
            if k < 0.85:
                ts = [r.choice([BOOL, BOOL, INT]) for _ in range(2)]
                return N('bin', BOOL, [self.gen(ts[0], d - 1), self.gen(ts[1], d - 1)], r.choice(['&&', '||']))
            if k < 0.95 and self.unary: return N('un', BOOL, [self.gen(r.choice([BOOL, INT]), d - 1)], '!')
            return N('bin', BOOL, [self.gen(BOOL, d - 1), self.gen(BOOL, d - 1)], r.choice(['==', '!=']))
        raise ValueError(ty)


def leaves(e):
    if not e.c: yield e
    for x in e.c: yield from leaves(x)


def size(e): return 1 + sum(size(x) for x in e.c)


def ops(e, acc=None):
    acc = set() if acc is None else acc
    if e.k in ('bin', 'un'): acc.add((e.k, e.v))
    elif e.k in ('cond', 'abs'): acc.add((e.k, ''))
    for x in e.c: ops(x, acc)
    return acc
