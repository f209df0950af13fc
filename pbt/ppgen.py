"""Generator of preprocessor inputs (node lists of pp.py)."""

# macro names and ordinary identifiers are taken from one pool, so that names are prefixes of each other and look alike
POOL = ['A', 'AB', 'ABC', 'B', 'BA', 'a', 'ab', 'x', 'xx', 'x1', 'e5', 'b1', '_', '__', 'N', 'n', 'n1', 'N1', 'foo', 'foo1', 'fo', 'Foo', 'сумма', 'СУММА', 'Сумма', 'сум', 'я', 'ё', 'Ё',
        'макс', 'if', 'int', 'define', 'eval', 'line', 'print', 'size_t', 'max_value_of_everything', 'q1w2e3', 'p', 'f', 'g', 'h', 'k', 'ш1', 'arg', 'ARG', 'L', 'u']
PARAMS = ['x', 'y', 'z', 'b1', 'арг', '_x', 'x1', 'A', 'n']
NUMS = ['0', '1', '2', '7', '42', '1e5', '0x1', '0xAB', '0b1', '3.5', '10', '1.e5', '2L']
OPS = ['+', '-', '*', ',', ';', '=', '<', '>', '!', '?', ':', '[', ']', '{', '}', '.', '%', '&', '|', '^', '~', '==', '<=', '&&']
STRS = ['"s"', '""', '"a b"', '"A"', '"f(x)"', '"\\n"', '"\\\\"', '"q\\"q"', '"//"', '"/* */"', '"#"', "'c'", "'\\n'", "'\\''", "'\"'", '"\'"', '"да"', "'ю'", '"a,b)"', '"  "']


class Gen:
    """Macros have a fixed rank, kind and number of parameters; bodies mention macros of lower rank only (or, in #macro, the same one under a falling counter)."""

    def __init__(self, rnd, n=None, blocks=True, includes=None):
        self.r = rnd
        names = POOL[:]
        rnd.shuffle(names)
        n = n or rnd.randint(3, 9)
        self.macros = []        # [name, kind, params]
        for i in range(n):
            kind = rnd.choices(['int', 'ifun', 'text', 'fun', 'fun', 'empty'], [4, 2, 3, 3, 3, 1])[0]
            params = None
            if kind in ('ifun', 'fun'): params = rnd.sample([p for p in PARAMS if p != names[i]], rnd.randint(1, 3))
            elif rnd.random() < 0.1: params = []
            self.macros.append([names[i], kind, params])
        self.plain = names[n:n + 8]
        self.blocks = blocks
        self.ml = False
        self.free = names[n + 8:]

    def wt(self, **kw):
        return self.r.choices(list(kw), list(kw.values()))[0]

    # -- integer expressions ---------------------------------------------
    def number(self):
        v = self.r.choice([0, 0, 1, 1, 2, 3, 5, 7, 8, 10, 15, 31, 100, 255, 1000, 65535, 4294967295, 123456789012])
        k = self.r.random()
        if k < 0.65: s = str(v)
        elif k < 0.75: s = '0x%x' % v
        elif k < 0.8: s = '0X%X' % v
        elif k < 0.85: s = '0b' + bin(v)[2:]
        elif k < 0.9: s = '0o%o' % v
        elif k < 0.95: s = '0d%d' % v
        else: return "'%s'" % self.r.choice(['a', 'Z', '0', ' ', '\\n', '\\\\', "\\'", '\\0', '"'])
        return s + (self.r.choice(['u', 'L', 'UL', 'll', 'lu', 'LLU']) if self.r.random() < 0.08 else '')

    def expr(self, depth, rank, params=(), macros=True):
        r = self.r
        if depth <= 0 or r.random() < 0.2:
            c = [lambda: self.number()]
            if params: c += [lambda: r.choice(params)] * 3
            if macros:
                ints = [m for m in self.macros[:rank] if m[1] == 'int' and m[0] not in params]
                if ints: c += [lambda: (lambda m: m[0])(r.choice(ints))] * 2
                if r.random() < 0.1: c.append(lambda: r.choice(self.plain))
            return r.choice(c)()
        k = self.wt(bin=6, un=2, par=1, fun=1 if macros else 0)
        if k == 'bin':
            op = r.choice(['+', '-', '*', '/', '%', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '^', '|', '&&', '||', '+', '-', '*'])
            a, b = self.expr(depth - 1, rank, params, macros), self.expr(depth - 1, rank, params, macros)
            if op in ('<<', '>>') and r.random() < 0.8: b = str(r.randint(0, 12))
            if r.random() < 0.35: a = '(' + a + ')'
            if r.random() < 0.35: b = '(' + b + ')'
            sp = r.choice(['', ' ', ' ', ' '])
            if not (b[0].isdigit() or b[0] in "('"): sp = sp or ' '      # the edges of replacements may merge with operators: recorded finding
            return a + sp + op + sp + b
        if k == 'un':
            op = r.choice('-!~!+')
            a = self.expr(depth - 1, rank, params, macros)
            if r.random() < 0.6 and not a.startswith('('): a = '(' + a + ')'
            return op + (' ' if not (a[0].isdigit() or a[0] in "('") or r.random() < 0.2 else '') + a
        if k == 'fun':
            fs = [m for m in self.macros[:rank] if m[1] == 'ifun' and m[0] not in params]
            if fs:
                m = r.choice(fs)
                return m[0] + r.choice(['', ' ']) + '(' + ', '.join(self.expr(depth - 1, rank, params, macros) for _ in m[2]) + ')'
        return '(' + self.expr(depth - 1, rank, params, macros) + ')'

    # -- token sequences ---------------------------------------------------
    def element(self, depth, rank, params, ops, inarg):
        r = self.r
        k = self.wt(plain=3, num=2, op=4, str=2, obj=3, fun=3 if depth else 0, par=1 if depth else 0, param=5 if params else 0)
        if k == 'plain': return r.choice(self.plain)
        if k == 'num': return r.choice(NUMS)
        if k == 'str': return r.choice(STRS)
        if k == 'op':
            o = r.choice(OPS)
            return '+' if inarg and o == ',' else o
        if k == 'param': return r.choice(params)
        if k == 'obj':
            ms = [m for m in self.macros[:rank] if not m[2] and m[0] not in params]
            if ms:
                m = r.choice(ms)
                return m[0] + ('()' if m[2] is not None and r.random() < 0.7 else '')
        if k == 'fun':
            ms = [m for m in self.macros[:rank] if m[2] and m[0] not in params]
            if ms: return self.callof(r.choice(ms), depth, rank, params, ops)
        if k == 'par': return '(' + (self.tokens(r.randint(1, 3), depth - 1, rank, params, ops, False) or '1') + ')'
        return r.choice(self.plain)

    def callof(self, m, depth, rank, params, ops):
        r = self.r
        def sp(): return r.choice(['', '', '', ' ', '\n' if self.ml else ' '])
        if m[1] == 'ifun': args = [self.expr(1, rank, params) for _ in m[2]]
        else: args = [self.tokens(r.choice([0, 1, 1, 2, 3]), depth - 1, rank, params, ops, True) for _ in m[2]]
        return m[0] + r.choice(['', '', ' ']) + '(' + sp() + (sp() + ',' + sp()).join(args) + sp() + ')'

    def tokens(self, n, depth, rank, params=(), ops=False, inarg=False):
        """Space is put wherever two neighbours could otherwise make another token."""
        r, out, prev = self.r, '', ''
        for _ in range(n):
            e = self.element(depth, rank, list(params), ops, inarg)
            if ops and params and r.random() < 0.2:
                if r.random() < 0.5 and prev and prev[-1] not in '"\')':
                    e = r.choice([' ', '']) + '##' + r.choice(['', ' ']) + r.choice(params)
                    out += e
                    prev = e
                    if r.random() < 0.7: out += ' '
                    continue
                e = '#' + r.choice(['', ' ']) + r.choice(params)
                out += (' ' if out and not out.endswith(' ') else '') + e + ' '
                prev = e
                continue
            if out and not out.endswith(' '):
                glue = r.random() < 0.3 and (prev[-1] in ');,(=[]{}' or e[0] in ');,[]{}=') and not (e[0] == '(' and (prev[-1].isalnum() or prev[-1] == '_')) and not (prev[-1] == ')' and (e[0].isalnum() or e[0] in '_#.'))
                out += '' if glue else ' '
            if e[0] == '(' and prev[-1:].strip() and (prev[-1].isalnum() or prev[-1] == '_'): out += '; '
            out += e
            prev = e
        return out.strip(' ')

    def line(self, n, depth, rank, params=()):
        """A line of text: the brackets of a call may go over several lines."""
        self.ml = True
        t = self.tokens(n, depth, rank, params)
        self.ml = False
        return t

    # -- nodes ---------------------------------------------------------------
    def body(self, m, i):
        r = self.r
        name, kind, params = m
        if kind == 'int':
            e = self.expr(r.choice([0, 0, 1, 2]), i)
            if r.random() < 0.15: return '#eval ' + e
            return e if e.isalnum() or e.startswith('(') and e.endswith(')') and e.count('(') == 1 else '(' + e + ')'
        if kind == 'ifun': return '(' + self.expr(2, i, params) + ')'
        if kind == 'empty': return ''
        t = self.tokens(r.choice([1, 1, 2, 3, 5]), 2, i, params or (), bool(params))
        if r.random() < 0.06: t = (t + ' #eval ' + self.expr(1, i, (), True)).strip()
        if t.startswith('##'): t = '1 ' + t
        return t

    def define(self, i, redefine=False):
        m = self.macros[i]
        return ['define', 'set' if redefine and self.r.random() < 0.7 else 'define', m[0], m[2], self.body(m, i)]

    def blockdef(self, i):
        """#macro: the body has lines and directives of its own."""
        r = self.r
        name, kind, params = self.macros[i]
        ps = params or []
        nodes = []
        if ps and r.random() < 0.25:        # recursion under a falling counter
            p = ps[0]
            rest = [r.choice([q, self.tokens(1, 0, i, ps, False, True) or q]) for q in ps[1:]]
            call = name + '(' + ', '.join([p + ' - 1'] + rest) + ')'
            inner = [['text', self.line(r.randint(1, 3), 1, i, ps)], ['text', call]]
            if r.random() < 0.5: inner.reverse()
            self.recursive.add(name)
            return ['macro', name, params, [['if', [['if', '(' + p + ') > 0', inner]], None]]]
        for _ in range(r.randint(1, 3)):
            k = self.wt(text=5, iff=2, ifdef=1, define=1, eval=1, loop=0.5)
            if k == 'text': nodes.append(['text', self.line(r.randint(1, 5), 2, i, ps)])
            elif k == 'iff':
                nodes.append(['if', [['if', self.expr(2, i, ()), [['text', self.line(2, 1, i, ps)]]]], [['text', self.line(2, 1, i, ps)]] if r.random() < 0.6 else None])
            elif k == 'ifdef':
                nodes.append(['if', [[r.choice(['ifdef', 'ifndef']), r.choice([m for m in [m[0] for m in self.macros] + self.plain if m not in ps] or ['ab']), [['text', self.line(2, 1, i, ps)]]]], None])
            elif k == 'define':
                lower = [j for j in range(i) if self.macros[j][0] not in ps and not set(self.macros[j][2] or []) & set(ps)]
                if lower:
                    j = r.choice(lower)
                    d = self.define(j, True)
                    if '#' not in d[4]: nodes.append(d)
            elif k == 'eval': nodes.append(['eval', self.expr(2, i)])
            elif k == 'loop': nodes += self.loop(0, i, ps)
        return ['macro', name, params, nodes]

    def loop(self, depth, rank=None, params=()):
        r = self.r
        if not self.free: return []
        v = self.free.pop()
        if v in params: return []
        n = r.choice([0, 1, 2, 3, 5])
        step = r.choice([v + ' + 1', v + '+1', '(' + v + ') + 1'])
        inner = self.nodes(r.randint(1, 3), depth - 1, loop=v) if rank is None else [['text', self.line(2, 1, rank, params)]]
        inner.insert(r.randint(0, len(inner)), ['text', v + ' ' + (self.tokens(1, 1, len(self.macros)) if rank is None else '')])
        inner.insert(r.randint(0, len(inner)), ['define', r.choice(['set', 'set', 'define']), v, None, r.choice(['#eval ', '#eval ']) + step])
        return [['define', 'define', v, None, '0'], ['while', r.choice(['%s < %d' % (v, n), '%d > %s' % (n, v), '!(%s >= %d)' % (v, n), '%s != %d' % (v, n)]), inner]]

    def cond(self):
        r = self.r
        if r.random() < 0.35: return [r.choice(['ifdef', 'ifndef']), r.choice([m[0] for m in self.macros] + self.plain)]
        return ['if', self.expr(r.choice([0, 1, 2, 3]), len(self.macros))]

    def junk(self):
        """What may stand in a group that is skipped."""
        return ['raw', self.r.choice(["don't", 'say "hi', '#define', '#nonsense here', '#if', '#eval 1 / 0', '#include "nowhere"', 'f(', '#undef', "'"])]

    def nodes(self, n, depth, loop=None):
        r, out = self.r, []
        for _ in range(n):
            k = self.wt(text=6, define=3, undef=0.5, block=1.2 if self.blocks else 0, iff=2.2 if depth > 0 else 0, loop=0.7 if depth > 0 else 0, eval=1)
            if k == 'text': out.append(['text', self.line(r.randint(1, 7), 2, len(self.macros))])
            elif k == 'define':
                i = r.randrange(len(self.macros))
                if self.macros[i][0] not in self.used_block or r.random() < 0.5: out.append(self.define(i, True))
            elif k == 'undef':
                # a function of integers stays defined: its name without a definition is no expression
                ms = [m[0] for m in self.macros if m[1] != 'ifun'] + self.plain[:2]
                if ms: out.append(['undef', r.choice(ms)])
            elif k == 'block':
                i = [j for j, m in enumerate(self.macros) if m[1] in ('text', 'fun')]
                if i:
                    i = r.choice(i)
                    self.used_block.add(self.macros[i][0])
                    out.append(self.blockdef(i))
            elif k == 'iff':
                arms = [self.cond() + [self.nodes(r.randint(0, 3), depth - 1, loop)]]
                for _ in range(r.choice([0, 0, 0, 1, 2])): arms.append(['elif', self.expr(r.choice([0, 1, 2]), len(self.macros)), self.nodes(r.randint(0, 2), depth - 1, loop)])
                out.append(['if', arms, self.nodes(r.randint(0, 2), depth - 1, loop) if r.random() < 0.5 else None])
            elif k == 'loop': out += self.loop(depth)
            elif k == 'eval': out.append(['eval', self.expr(r.choice([1, 2, 3, 4]), len(self.macros))])
        return out

    def program(self, size):
        self.used_block, self.recursive = set(), set()
        out = []
        for i, m in enumerate(self.macros):
            if m[1] == 'ifun' or self.r.random() < 0.75: out.append(self.define(i))
        return out + self.nodes(size, 2)
