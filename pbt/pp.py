"""Reference model of the preprocessor, written from docs/Language.md chapter 12, and a generator of inputs for it.

A file is a list of nodes:
  ['text', line]                                   line may contain line ends inside the brackets of a macro call
  ['define', 'define'|'set', name, params|None, body]
  ['undef', name]
  ['macro', name, params|None, [node]]
  ['if', [[kind, condition, [node]], ...], [node]|None]      kind: if, ifdef, ifndef (first), elif
  ['while', condition, [node]]
  ['eval', expression]
  ['include', quote, path]
"""
import re

LETTER = 'A-Za-z_\u0410-\u044f\u0401\u0451'
TOKEN = re.compile(r'(?P<cmt>//(?:\\\r?\n|[^\n])*|/\*.*?\*/)|(?P<str>"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\')|(?P<num>[0-9][0-9.%s]*)'
                   r'|(?P<id>[%s][0-9%s]*)|(?P<ws>(?:[\s\x01]|\\\r?\n)+)|(?P<op>.)' % (LETTER, LETTER, LETTER), re.S)
MAX_DEPTH = 256
BLOCK = '\x01'       # white space at the ends of what a multi-line macro gives
MAX_ITER = 32768
MAX_NEST = 32


class Undefined(Exception):
    """The documentation does not say what happens, or it is an error."""


def lex(text):
    return [(m.lastgroup, m.group()) for m in TOKEN.finditer(text)]


def words(text):
    return [t for k, t in lex(text) if k not in ('cmt', 'ws')]


def wordy(c):
    return c.isalnum() or c in ('_', BLOCK)


def squeeze(text):
    """White space and comments to one space, none at the ends."""
    out = ''
    for k, t in lex(text): out += ' ' if k in ('cmt', 'ws') else t
    return collapse(out)


def collapse(text):
    out = []
    for k, t in lex(text):
        if k in ('ws', 'cmt'):
            if '\x01' in t: out.append(BLOCK)
            elif out and out[-1] not in (' ', BLOCK): out.append(' ')
        else: out.append(t)
    return ''.join(out).strip(' ')


ESC = {'n': 10, 't': 9, '0': 0, '\\': 92, "'": 39, '"': 34}
LEVEL = {'||': 1, '&&': 2, '|': 3, '^': 4, '&': 5, '==': 6, '!=': 6, '<': 7, '>': 7, '<=': 7, '>=': 7, '<<': 8, '>>': 8, '+': 9, '-': 9, '*': 10, '/': 10, '%': 10}
XTOK = re.compile(r"\s*(?:(?P<num>[0-9][0-9A-Za-z]*)|(?P<id>[%s][0-9%s]*)|(?P<chr>'(?:\\.|[^'\\])')|(?P<op>\|\||&&|==|!=|<=|>=|<<|>>|[-+*/%%&|^~!<>()]))" % (LETTER, LETTER))


class DivZero(Undefined): pass
class Missing(Undefined): pass


def number(t):
    m = re.fullmatch(r'(0[xX][0-9a-fA-F]+|0[oO][0-7]+|0[bB][01]+|0[dD][0-9]+|[0-9]+)([uU]?[lL]{0,2}|[lL]{1,2}[uU]?)', t)
    if not m: raise Undefined('number ' + t)
    s = m.group(1)
    v = int(s[2:], {'x': 16, 'o': 8, 'b': 2, 'd': 10}[s[1].lower()]) if len(s) > 1 and s[1].isalpha() else int(s)
    if v >= 2 ** 63: raise Undefined('large')
    return v


def evaluate(text):
    """Value of an expression whose macros are replaced already."""
    toks, p = [], 0
    text = squeeze(text)
    while p < len(text):
        m = XTOK.match(text, p)
        if not m: raise Undefined('token at ' + text[p:p + 10])
        p = m.end()
        toks.append((m.lastgroup, m.group(m.lastgroup)))
    pos = 0

    def peek(): return toks[pos] if pos < len(toks) else (None, None)

    def rng(v):
        if not -2 ** 63 < v < 2 ** 63 - 1: raise Undefined('overflow')
        return v

    def unary():
        nonlocal pos
        k, t = peek()
        if k is None: raise Undefined('operand')
        pos += 1
        if k == 'num': return number(t)
        if k == 'id': return 0
        if k == 'chr': return ESC[t[2]] if t[1] == '\\' else ord(t[1])
        if t == '(':
            v = binary(1)
            if peek()[1] != ')': raise Undefined('bracket')
            pos += 1
            return v
        if t == '-': return rng(-unary())
        if t == '+': return unary()
        if t == '~': return ~unary()
        if t == '!': return int(not unary())
        raise Undefined('operand ' + t)

    def binary(lv):
        nonlocal pos
        a = unary()
        while True:
            k, t = peek()
            if k != 'op' or LEVEL.get(t, 0) < lv: return a
            pos += 1
            b = binary(LEVEL[t] + 1)
            if t in ('/', '%'):
                if b == 0: raise DivZero('division')
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                a = rng(q) if t == '/' else a - q * b
            elif t in ('<<', '>>'):
                if not 0 <= b < 63 or a < 0: raise Undefined('shift')
                a = rng(a << b) if t == '<<' else a >> b
            else:
                a = {'+': lambda: rng(a + b), '-': lambda: rng(a - b), '*': lambda: rng(a * b), '<': lambda: int(a < b), '>': lambda: int(a > b),
                     '<=': lambda: int(a <= b), '>=': lambda: int(a >= b), '==': lambda: int(a == b), '!=': lambda: int(a != b),
                     '&': lambda: a & b, '|': lambda: a | b, '^': lambda: a ^ b, '&&': lambda: int(bool(a and b)), '||': lambda: int(bool(a or b))}[t]()

    v = binary(1)
    if pos != len(toks): raise Undefined('extra')
    return v


def stringize(raw):
    out = ''
    if BLOCK in raw: raise Undefined('lines in a string')
    for k, t in lex(raw):
        out += t.replace('\\', '\\\\').replace('"', '\\"') if k == 'str' else t
    return '"' + out + '"'


class Macro:
    def __init__(self, params, body, block=False):
        self.params, self.body, self.block = params, body, block


class Model:
    def __init__(self, files=None, dirs=(), main='main.c', budget=200000):
        self.env, self.files, self.dirs, self.cur = {}, files or {}, list(dirs), main
        self.seen = {main}
        self.depth, self.nest, self.budget = 0, 0, budget
        self.stats = {}

    def count(self, k): self.stats[k] = self.stats.get(k, 0) + 1

    def spend(self, n):
        self.budget -= n
        if self.budget < 0: raise Undefined('too long')

    # -- text -----------------------------------------------------------
    def expand(self, text):
        toks, out, i = lex(text), [], 0
        self.spend(len(toks))
        while i < len(toks):
            k, t = toks[i]
            i += 1
            if k == 'cmt': out.append(' '); continue
            m = self.env.get(t) if k == 'id' else None
            if m is None: out.append(t); continue
            self.count('call')
            t0 = t
            if self.depth > MAX_DEPTH: raise Undefined('depth')
            j = i
            while j < len(toks) and toks[j][0] in ('ws', 'cmt'): j += 1
            if not m.params:
                if j < len(toks) and toks[j][1] == '(':
                    n = j + 1
                    while n < len(toks) and toks[n][0] in ('ws', 'cmt'): n += 1
                    if n < len(toks) and toks[n][1] == ')': i = n + 1
                args = []
            else:
                if j >= len(toks) or toks[j][1] != '(': raise Undefined('no arguments')
                args, level, cur = [], 0, ''
                j += 1
                while True:
                    if j >= len(toks): raise Undefined('unterminated')
                    k, t = toks[j]
                    j += 1
                    if level == 0 and t in (',', ')'):
                        args.append(collapse(cur))
                        cur = ''
                        if t == ')': break
                        continue
                    level += (t == '(') - (t == ')')
                    cur += ' ' if k == 'cmt' else t
                i = j
                if len(args) != len(m.params): raise Undefined('number of arguments')
                self.count('args')
            self.depth += 1
            # a macro replaced inside the text of a line is set off from what surrounds it only as its own tokens are
            x = self.call(t0, m, args)
            self.depth -= 1
            # whether a replacement forms one token with what touches it is left open
            if i < len(toks) and (toks[i][0] in ('id', 'num') or toks[i][1] == '.') and wordy(x[-1:]): raise Undefined('replacement touches a word')
            if out and wordy(out[-1][-1:]) and wordy(x[:1]): raise Undefined('replacement touches a word')
            out.append(x)
        return ''.join(out)

    def call(self, name, m, args):
        vals = {p: (a, self.expand(a)) for p, a in zip(m.params or [], args)}
        if self.env.get(name) is not m: raise Undefined('redefined by its own arguments')
        if m.block:
            out = []
            self.run([self.bind(n, vals) for n in m.body], out)
            return BLOCK + '\n'.join(out) + BLOCK
        return self.expand(self.substitute(m.body, vals))

    def substitute(self, body, vals, ops=True):
        toks, out, i = lex(body), '', 0
        while i < len(toks):
            k, t = toks[i]
            if ops and k == 'ws' and i + 2 < len(toks) and toks[i + 1][1] == '#' and toks[i + 2][1] == '#':
                i += 1
                continue
            if ops and t == '#':
                paste = i + 1 < len(toks) and toks[i + 1][1] == '#'
                j = i + (2 if paste else 1)
                while toks[j][0] == 'ws': j += 1
                p = toks[j][1]
                if p not in vals: raise Undefined('# not before a parameter')
                if paste and (out[-1:] == BLOCK or BLOCK in vals[p][0]): raise Undefined('lines pasted')
                if paste: out += vals[p][0]; self.count('paste')
                else: out += stringize(vals[p][0]); self.count('string')
                i = j + 1
                continue
            out += vals[t][1] if k == 'id' and t in vals else t
            i += 1
        return out

    def bind(self, n, vals):
        """A node of a macro's body with its parameters replaced."""
        def sub(t):
            t = self.substitute(t, vals, False)
            if BLOCK in t: raise Undefined('lines in a directive')
            return t
        k = n[0]
        if k == 'text': return [k, self.substitute(n[1], vals, False)]
        if k == 'define': return [k, n[1], n[2], n[3], sub(n[4])]
        if k in ('eval',): return [k, sub(n[1])]
        if k == 'while': return [k, sub(n[1]), [self.bind(x, vals) for x in n[2]]]
        if k == 'if':
            return [k, [[kk, c if kk in ('ifdef', 'ifndef') else sub(c), [self.bind(x, vals) for x in b]] for kk, c, b in n[1]],
                    None if n[2] is None else [self.bind(x, vals) for x in n[2]]]
        return n

    def value(self, expr):
        v = self.expand(expr)
        if not v.strip(): raise Undefined('no expression')
        return evaluate(v)

    # -- directives -----------------------------------------------------
    def run(self, nodes, out):
        last = ''
        for n in nodes:
            self.spend(1)
            k = n[0]
            if k == 'text':
                w = words(n[1])
                if w and w[0] == '(' and last in self.env: raise Undefined('brackets on the next line')
                last = w[-1] if w else last
            if k == 'text': out.append(self.expand(n[1]))
            elif k == 'define':
                body = squeeze(n[4])
                e = re.search(r'#\s*eval\b', body)
                if e: body = body[:e.start()] + str(self.value(body[e.end():])); self.count('defeval')
                if n[2] in self.env: self.count('redefine')
                if body.startswith('##'): raise Undefined('## at the edge')
                if n[3]: self.substitute(body, {p: ('0', '0') for p in n[3]})       # raises if # or ## does not stand before a parameter
                self.env[n[2]] = Macro(n[3], body)
            elif k == 'undef': self.env.pop(n[1], None)
            elif k == 'macro':
                if junk(n[3]): raise Undefined('junk')
                self.env[n[1]] = Macro(n[2], n[3], True)
            elif k == 'if':
                taken = None
                for kk, c, b in n[1]:
                    good = (c in self.env) == (kk == 'ifdef') if kk in ('ifdef', 'ifndef') else self.value(c) != 0
                    if good: taken = b; break
                else: taken = n[2]
                self.count('taken' if taken is not None else 'none')
                if taken: self.run(taken, out)
            elif k == 'while':
                it = 0
                while self.value(n[1]) != 0:
                    it += 1
                    if it > MAX_ITER: raise Undefined('iterations')
                    self.count('iteration')
                    self.run(n[2], out)
            elif k == 'eval': out.append(str(self.value(n[1]))); self.count('eval')
            elif k == 'include': self.include(n, out)
            else: raise Undefined(k)         # junk in a group that is not skipped

    # -- files ----------------------------------------------------------
    def resolve(self, n):
        import posixpath
        here = posixpath.dirname(self.cur)
        local, dirs = posixpath.normpath(posixpath.join(here, n[2])), [posixpath.normpath(posixpath.join(d, n[2])) for d in self.dirs]
        return next((p for p in ([local] + dirs if n[1] == '"' else dirs + [local]) if p in self.files), None)

    def include(self, n, out):
        p = self.resolve(n)
        if p is None: raise Missing('no such file')
        if p in self.seen: self.count('again'); return
        if self.nest >= MAX_NEST: raise Missing('depth')
        self.count('include')
        if n[1] == '<': self.count('angle')
        self.seen.add(p)
        old, self.cur = self.cur, p
        self.nest += 1
        self.count('nested') if self.nest > 1 else None
        self.run(self.files[p], out)
        self.nest -= 1
        self.cur = old

    def translate(self, mains, out):
        for m in mains:
            self.cur = m
            self.seen.add(m)
            self.run(self.files[m], out)


# -- rendering ----------------------------------------------------------
KEYS = {'include': ('#include', '#INCLUDE', '#подключить', '#ПОДКЛЮЧИТЬ'), 'define': ('#define', '#DEFINE', '#определить', '#ОПРЕДЕЛИТЬ'),
        'set': ('#set', '#SET', '#переопределить', '#ПЕРЕОПРЕДЕЛИТЬ'), 'undef': ('#undef', '#UNDEF', '#разопределить', '#РАЗОПРЕДЕЛИТЬ'),
        'macro': ('#macro', '#MACRO', '#макро', '#МАКРО'), 'endm': ('#endm', '#ENDM', '#конецм', '#КОНЕЦМ'),
        'ifdef': ('#ifdef', '#IFDEF', '#еслибыл', '#ЕСЛИБЫЛ'), 'ifndef': ('#ifndef', '#IFNDEF', '#еслинебыл', '#ЕСЛИНЕБЫЛ'),
        'if': ('#if', '#IF', '#если', '#ЕСЛИ'), 'elif': ('#elif', '#ELIF', '#инесли', '#ИНЕСЛИ'), 'else': ('#else', '#ELSE', '#иначе', '#ИНАЧЕ'),
        'endif': ('#endif', '#ENDIF', '#конецесли', '#КОНЕЦЕСЛИ'), 'eval': ('#eval', '#EVAL', '#вычислить', '#ВЫЧИСЛИТЬ'),
        'while': ('#while', '#WHILE', '#пока', '#ПОКА'), 'endw': ('#endw', '#ENDW', '#конецп', '#КОНЕЦП')}


class Plain:
    """Renders with no variation."""
    def key(self, k): return KEYS[k][0]
    def gap(self): return ' '
    def text(self, t): return t
    def expr(self, t): return t
    def end(self): return '\n'
    def between(self): return ''


class Styled(Plain):
    """Random but equivalent spelling of directives, spaces and comments."""
    def __init__(self, rnd, rate=0.3, crlf=False):
        self.r, self.rate, self.crlf = rnd, rate, crlf

    def hit(self): return self.r.random() < self.rate

    def key(self, k):
        w = self.r.choice(KEYS[k]) if self.hit() else KEYS[k][0]
        if self.hit(): w = '#' + self.r.choice([' ', '  ', '\t', '/* c */ ']) + w[1:]
        return (self.r.choice([' ', '\t', '   ', '/* c */ ']) if self.hit() else '') + w

    def gap(self): return self.r.choice(['  ', '\t', ' /* c */ ', ' \\\n ', '/**/ ']) if self.hit() else ' '

    def spaces(self, t, cont):
        out = ''
        for k, x in lex(t):
            if k == 'ws' and '\n' not in x and self.hit():
                x = self.r.choice(['  ', '\t', ' /* A "b */ ', '   '] + ([' \\\n '] if cont else []))
            out += x
        return out

    def text(self, t): return self.spaces(t, False)

    def expr(self, t): return self.spaces(t, True)

    def end(self):
        return (self.r.choice([' ', '\t', ' // tail A', ' /* tail */', '  ']) if self.hit() else '') + ('\r\n' if self.crlf else '\n')

    def between(self):
        if self.r.random() < self.rate / 4: return self.r.choice(['\n', '// note A "\n', '/* two\n lines */\n', '   \n', '/**/\n'])
        return ''


def render(nodes, st):
    out = []

    def go(ns):
        for n in ns:
            out.append(st.between())
            k = n[0]
            if k == 'text': out.append(st.text(n[1]) + st.end())
            elif k == 'define':
                p = '' if n[3] is None else '(' + ', '.join(n[3]) + ')'
                out.append(st.key(n[1]) + st.gap() + n[2] + p + (st.gap() + st.expr(n[4]) if n[4] else '') + st.end())
            elif k == 'undef': out.append(st.key(k) + st.gap() + n[1] + st.end())
            elif k == 'macro':
                out.append(st.key(k) + st.gap() + n[1] + ('' if n[2] is None else '(' + ', '.join(n[2]) + ')') + st.end())
                go(n[3])
                out.append(st.key('endm') + st.end())
            elif k == 'if':
                for kk, c, b in n[1]:
                    out.append(st.key(kk) + st.gap() + (c if kk in ('ifdef', 'ifndef') else st.expr(c)) + st.end())
                    go(b)
                if n[2] is not None:
                    out.append(st.key('else') + st.end())
                    go(n[2])
                out.append(st.key('endif') + st.end())
            elif k == 'while':
                out.append(st.key(k) + st.gap() + st.expr(n[1]) + st.end())
                go(n[2])
                out.append(st.key('endw') + st.end())
            elif k == 'eval': out.append(st.key(k) + st.gap() + st.expr(n[1]) + st.end())
            elif k == 'include': out.append(st.key(k) + st.gap() + n[1] + n[2] + ('"' if n[1] == '"' else '>') + st.end())
            elif k == 'raw': out.append(n[1] + '\n')
    go(nodes)
    return ''.join(out)


LINE = re.compile(r'^#line[^\n]*\n?', re.M)


def observed(text):
    """Tokens of what the preprocessor wrote."""
    return words(LINE.sub('', text))


# -- shrinking -------------------------------------------------------------
def junk(nodes):
    """Is there a line that cannot be run anywhere?"""
    return "['raw'" in repr(nodes)


def smaller(nodes):
    """Node lists with a little less in them."""
    for i, n in enumerate(nodes):
        rest = lambda x: nodes[:i] + x + nodes[i + 1:]
        yield rest([])
        k = n[0]
        if k == 'macro':
            for b in smaller(n[3]): yield rest([n[:3] + [b]])
        elif k == 'while':
            yield rest(n[2])
            for b in smaller(n[2]): yield rest([[k, n[1], b]])
        elif k == 'if':
            for _, _, b in n[1]: yield rest(b)
            if n[2] is not None:
                yield rest(n[2])
                yield rest([[k, n[1], None]])
                for b in smaller(n[2]): yield rest([[k, n[1], b]])
            for j in range(len(n[1])):
                if j: yield rest([[k, n[1][:j] + n[1][j + 1:], n[2]]])
                for b in smaller(n[1][j][2]): yield rest([[k, n[1][:j] + [n[1][j][:2] + [b]] + n[1][j + 1:], n[2]]])
                if n[1][j][0] in ('if', 'elif'):
                    for t in cut(n[1][j][1]): yield rest([[k, n[1][:j] + [[n[1][j][0], t, n[1][j][2]]] + n[1][j + 1:], n[2]]])
        for at in {'text': 1, 'define': 4, 'eval': 1, 'while': 1}.get(k, None),:
            if at is not None:
                for t in cut(n[at]): yield rest([n[:at] + [t] + n[at + 1:]])


def cut(text):
    """Texts with a token or a bracketed group taken out."""
    toks = [t for _, t in lex(text)]
    n = len(toks)
    w = n // 2
    while w >= 1:
        for i in range(0, n - w + 1, max(1, w // 2)):
            yield ''.join(toks[:i] + toks[i + w:])
        w //= 2
    for i in range(n):
        if toks[i] == '(':
            d = 0
            for j in range(i, n):
                d += (toks[j] == '(') - (toks[j] == ')')
                if d == 0:
                    if i + 1 < j: yield ''.join(toks[:i + 1] + toks[j:])
                    yield ''.join(toks[:i] + toks[i + 1:j] + toks[j + 1:])
                    yield ''.join(toks[:i] + toks[j + 1:])
                    break


def minimise(nodes, bad, deadline):
    import time
    again = True
    while again and time.time() < deadline:
        again = False
        for c in smaller(nodes):
            if time.time() > deadline: break
            if bad(c):
                nodes, again = c, True
                break
    return nodes
