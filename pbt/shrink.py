"""Shrinking of programs (AST level) and of token or line lists."""
import time

from . import static
from .lang import *


def program_edits(p):
    """Yields smaller variants of a program, most aggressive first."""
    # drop whole items
    for i, it in reversed(list(enumerate(p.items))):
        if it[0] == 'func' and it[1] == 'main': continue
        q = p.copy()
        del q.items[i]
        if it[0] == 'func': q.items = [x for x in q.items if not (x[0] == 'proto' and x[1] == it[1])]
        yield q
    for i, it in enumerate(p.items):
        if it[0] in ('struct', 'enum') and len(it[2]) > 1:
            for j in range(len(it[2])):
                q = p.copy()
                q.items[i] = (it[0], it[1], it[2][:j] + it[2][j + 1:])
                yield q
        if it[0] == 'global' and it[1].k == 'decl' and it[1].c and it[1].v[2] is None:
            q = p.copy()
            q.items[i][1].c = []
            yield q
    # statement and expression edits, addressed by preorder position
    roots = [('f', n) for n in p.funcs if ('func', n) in p.items] + [('g', i) for i, it in enumerate(p.items) if it[0] == 'global']
    for r in roots:
        node = p.funcs[r[1]].body if r[0] == 'f' else p.items[r[1]][1]
        for path in list(paths(node)):
            for edit in edits_at(get(node, path)):
                q = p.copy()
                base = q.funcs[r[1]].body if r[0] == 'f' else q.items[r[1]][1]
                tgt = get(base, path)
                edit(tgt)
                yield q
    for n, f in p.funcs.items():        # unused parameters
        for j in range(len(f.params)):
            q = p.copy()
            q.funcs[n].params = f.params[:j] + f.params[j + 1:]
            for g in q.funcs.values(): drop_arg(g.body, n, j)
            for it in q.items:
                if it[0] == 'global': drop_arg(it[1], n, j)
            yield q


def drop_arg(x, fn, j):
    for y in x.c:
        if isinstance(y, N): drop_arg(y, fn, j)
    if x.k == 'call' and x.v == fn and j < len(x.c): del x.c[j]
    if x.k == 'decl' and x.v[2]:
        for b in x.v[2]:
            if b is not None: drop_arg(b, fn, j)


def paths(n, pre=()):
    yield pre
    for i, x in enumerate(n.c):
        if isinstance(x, N): yield from paths(x, pre + (i,))


def get(n, path):
    for i in path: n = n.c[i]
    return n


def become(t, o):
    t.k, t.ty, t.c, t.v = o.k, o.ty, o.c, o.v


STM = ('expr', 'decl', 'decls', 'block', 'if', 'while', 'do', 'for', 'switch', 'break', 'continue', 'return', 'null')


def edits_at(n):
    out = []
    k = n.k
    if k in ('block', 'case'):
        m = len(n.c)
        size = m // 2
        while size >= 1:
            for lo in range(0, m, size):
                if m - size > 0 or k == 'block':
                    out.append(lambda t, lo=lo, size=size: t.c.__delitem__(slice(lo, lo + size)))
            size //= 2
        for i, s in enumerate(n.c):
            if s.k == 'block': out.append(lambda t, i=i: t.c.__setitem__(slice(i, i + 1), t.c[i].c))
            elif s.k in ('if', 'while', 'do', 'for', 'switch'):
                subs = [j for j, y in enumerate(s.c) if isinstance(y, N) and (y.k in STM)]
                for j in subs: out.append(lambda t, i=i, j=j: t.c.__setitem__(i, t.c[i].c[j]))
                for j, y in enumerate(s.c):
                    if isinstance(y, N) and y.k not in STM and y.k != 'case': out.append(lambda t, i=i, j=j: t.c.__setitem__(i, N('expr', c=[t.c[i].c[j]])))
                if s.k == 'switch':
                    for j in range(1, len(s.c)): out.append(lambda t, i=i, j=j: t.c.__setitem__(i, N('block', c=t.c[i].c[j].c)))
    if k == 'if' and len(n.c) == 3: out.append(lambda t: t.c.pop())
    if k == 'switch' and len(n.c) > 2:
        for j in range(1, len(n.c)): out.append(lambda t, j=j: t.c.pop(j))
    if k == 'case' and len(n.v) > 1:
        for j in range(len(n.v)): out.append(lambda t, j=j: setattr(t, 'v', t.v[:j] + t.v[j + 1:]))
    if k == 'for':
        for j in (0, 1, 2):
            if n.c[j] is not None and j != 1: out.append(lambda t, j=j: t.c.__setitem__(j, None))
    if k == 'decl' and n.c and not n.v[2]: out.append(lambda t: setattr(t, 'c', []))
    if k == 'decls' and len(n.c) > 1:
        for j in range(len(n.c)):
            def f(t, j=j):
                t.v = (t.v[0], t.v[1][:j] + t.v[1][j + 1:])
                t.c.pop(j)
            out.append(f)
    if k in STM or k == 'case': return out
    # expressions
    if n.ty is None: return out
    if k in ('bin', 'un', 'cond', 'abs', 'call', 'bcall', 'assign', 'preinc', 'postinc', 'index', 'member', 'deref', 'arrow', 'upb', 'var'):
        for i, y in enumerate(n.c):
            if y.ty == n.ty: out.append(lambda t, i=i: become(t, t.c[i]))
        for i, y in enumerate(n.c):
            for j, z in enumerate(y.c):
                if z.ty == n.ty: out.append(lambda t, i=i, j=j: become(t, t.c[i].c[j]))
        if k in ('call', 'bcall', 'bin', 'un', 'cond', 'abs', 'upb', 'var', 'index', 'member', 'deref', 'arrow') and isinstance(n.ty, str) and n.ty in (INT, FLOAT, CHAR, BOOL):
            kinds = {INT: [('int', 0), ('int', 1)], FLOAT: [('float', 1.0)], CHAR: [('char', 97)], BOOL: [('bool', True), ('bool', False)]}[n.ty]
            for kk, vv in kinds: out.append(lambda t, kk=kk, vv=vv: become(t, N(kk, t.ty, [], vv)))
        if k == 'assign' and n.v != '=': out.append(lambda t: setattr(t, 'v', '='))
        if k == 'bcall' and n.v == 'print' and len(n.c) > 1:
            for j in range(len(n.c)): out.append(lambda t, j=j: t.c.pop(j))
        if k == 'bcall' and n.v == 'printf' and n.c and n.c[0].k == 'str' and len(n.c) == 2:
            i = n.c[0].v.find('%')
            small = n.c[0].v[i:i + 2]
            if small != n.c[0].v and i >= 0: out.append(lambda t: setattr(t.c[0], 'v', small))
    if k == 'int':
        for v in {0, 1, n.v // 2}:
            if abs(v) < abs(n.v): out.append(lambda t, v=v: setattr(t, 'v', v))
        if n.v < 0: out.append(lambda t: setattr(t, 'v', -t.v))
    if k == 'float' and n.v not in (0.0, 1.0):
        for v in (1.0, float(int(n.v))):
            if v != n.v: out.append(lambda t, v=v: setattr(t, 'v', v))
    if k == 'str' and len(n.v) > 1 and '%' not in n.v:
        out.append(lambda t: setattr(t, 'v', t.v[:len(t.v) // 2]))
    return out


def size(p):
    return len(p.source())


def shrink_program(p, still, deadline):
    """Greedy fixpoint; still(program) re-validates with the oracle and re-runs the check."""
    cur = p
    improved = True
    while improved and time.time() < deadline:
        improved = False
        for q in program_edits(cur):
            if time.time() > deadline: break
            try:
                if static.check(q): continue
                if size(q) >= size(cur): continue
                if still(q):
                    cur = q
                    improved = True
                    break
            except (Undef, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError):
                continue
    return cur


def shrink_list(xs, still, deadline):
    """Delta debugging over a list."""
    xs = list(xs)
    size = max(1, len(xs) // 2)
    while size >= 1 and time.time() < deadline:
        i, changed = 0, False
        while i < len(xs) and time.time() < deadline:
            ys = xs[:i] + xs[i + size:]
            if ys != xs and still(ys):
                xs, changed = ys, True
            else: i += size
        if not changed or size > 1:
            if size == 1 and not changed: break
            size = max(1, size // 2) if size > 1 else (1 if changed else 0)
    return xs
