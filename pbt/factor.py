"""Rewrites the text of a program with preprocessor means so that its tokens stay the same."""
from . import surface

NAMES = ['M', 'MM', 'M1', 'm_', '_m', 'CAT', 'MK', 'макрос', 'Ж', 'ЖЖ', 'подст', 'ё1', 'zz', 'Zz', 'zZ', 'ZZ', 'e7', 'x7F', 'b01', 'o7', 'd9', 'длинное_имя_макроса', 'K', 'K2']
PARAMS = ['p', 'pp', 'q', 'пар', 'e3', 'x3', '_']


class Factor:
    """Pieces: ('t', token) | ('l', text) where l stands on lines of its own."""

    def __init__(self, rnd, src, kinds=('object', 'function', 'paste', 'cond', 'eval', 'block', 'include', 'flag', 'loop', 'files')):
        self.r = rnd
        self.toks = surface.tokens(src)
        used = {t for k, t in self.toks if k == 'id'}
        self.names = [n for n in NAMES if n not in used]
        rnd.shuffle(self.names)
        self.params = [p for p in PARAMS if p not in used]
        self.kinds = kinds
        self.plain = {t for _, t in self.toks}
        self.files, self.flags, self.done = {}, [], {}
        self.head = []

    def join(self, toks):
        out = ''
        for n, t in enumerate(toks):
            if t.startswith('\n'): out += t; continue
            out += t + ('\n' if t in (';', '{', '}') and self.ml or n % 40 == 39 and self.ml else ' ')
        return out

    def name(self):
        return self.names.pop() if self.names else None

    def span(self, lo, hi, n=None):
        """A span of plain tokens."""
        r = self.r
        a = r.randrange(lo, hi)
        b = min(hi, a + (n or r.choice([1, 1, 2, 3, 5, 9, 20])))
        return a, b

    @staticmethod
    def line(toks):
        return ' '.join(toks)

    def balanced(self, toks):
        d = 0
        for t in toks:
            d += (t == '(') - (t == ')')
            if d < 0 or t == ',' and d == 0: return False
        return d == 0

    def apply(self, n):
        """Rewrites n times; the text is kept as tokens, where those starting with a line end are whole lines."""
        r = self.r
        toks = [t for _, t in self.toks]
        self.ml = True
        for _ in range(n):
            k = r.choice(self.kinds)
            a, b = self.span(0, len(toks))
            s = toks[a:b]
            if any(t.startswith('\n') or '\n' in t for t in s) or not s: continue
            # a directive may not stand between a name and the brackets of its call once it became an argument; keep spans simple
            if k == 'files': continue         # done by build()
            # a name without arguments swallows a following () whatever that came from: rewrite only before a known token
            if k in ('object', 'function', 'flag', 'block') and b < len(toks) and (toks[b] == '(' or toks[b] not in self.plain): continue
            new = getattr(self, 'do_' + k)(s)
            if new is None: continue
            self.done[k] = self.done.get(k, 0) + 1
            toks[a:b] = new
        return toks

    def do_object(self, s):
        m = self.name()
        if m is None: return None
        d = self.r.choice(['#define', '#определить', '#DEFINE'])
        if self.r.random() < 0.3: return ['\n%s %s %s\n' % (d, m, self.line(s)), m]
        self.head.append('%s %s %s' % (d, m, self.line(s)))
        return [m]

    def do_flag(self, s):
        m = self.name()
        if m is None: return None
        self.flags.append('-D%s=%s' % (m, self.line(s)))
        return [m]

    def do_function(self, s):
        m = self.name()
        if m is None or len(s) < 2: return None
        r = self.r
        body, args, i, ps = [], [], 0, self.params[:]
        r.shuffle(ps)
        while i < len(s):
            j = i + r.choice([1, 1, 2, 3])
            if ps and len(args) < 4 and r.random() < 0.5 and self.balanced(s[i:j]):
                p = ps.pop()
                args.append((p, s[i:j]))
                body.append(p)
                i = j
            else:
                body.append(s[i])
                i += 1
        if not args: return None
        order = args[:]
        r.shuffle(order)
        self.head.append('#define %s(%s) %s' % (m, r.choice([',', ', ', ' , ']).join(p for p, _ in order), self.line(body)))
        call = [m, '(']
        for n, (p, a) in enumerate(order):
            call += ([','] if n else []) + a
        return [' '.join(call) + ' )']

    def do_paste(self, s):
        # neither piece may be a name that this module defines itself: it would be replaced
        taken = set(NAMES) | set(PARAMS)
        cuts = [(i, n) for i, t in enumerate(s) if len(t) > 1 and t.isidentifier() and t not in taken for n in range(1, len(t))
                if t[:n] not in taken and t[n:] not in taken]
        m = self.name()
        if not cuts or m is None or not self.params: return None
        i, n = self.r.choice(cuts)
        t, p = s[i], self.params[0]
        self.head.append('#define %s(%s) %s##%s' % (m, p, t[:n] + self.r.choice(['', ' ']), self.r.choice(['', ' ']) + p))
        return s[:i] + ['%s(%s)' % (m, t[n:])] + s[i + 1:]

    def do_eval(self, s):
        i = next((i for i, t in enumerate(s) if t.isdigit() and len(t) < 10), None)
        m = self.name()
        if i is None or m is None: return None
        v, r = int(s[i]), self.r
        x = r.randint(0, 1000)
        e = r.choice(['%d + %d' % (v - x, x) if v >= x else '%d - %d' % (v + x, x), '(%d) * 1' % v, '~~%d' % v, '%d ^ %d' % (v ^ x, x), '-(0 - %d)' % v, '(%d << 2) / 4' % v, '!0 * 0x%x' % v, '%d %% %d' % (v, v + 1 + x)])
        self.head.append('#define %s #eval %s' % (m, e))
        return s[:i] + [m] + s[i + 1:]

    JUNK = ['int junk ) ) (', "don't", 'x x x 1 2 3 "never"', '#error', '']

    def do_cond(self, s):
        r = self.r
        t = r.choice(['1', '!0', '2 > 1', '-1', '(1)', '!(1 - 1)', '0 || 3', '1 && 1', "'a' == 97", '0x10 == 16', '~0', '7 % 4 == 3', '1 << 3 > 7', 'neverdefined == 0'])
        f = r.choice(['0', '!1', '1 > 2', '!(2)', '0 && 1', 'neverdefined', '5 - 5', '(1 == 2)', '1 & 2'])
        j = r.choice(self.JUNK)
        text = ' '.join(s)
        k = r.randrange(6)
        if k == 0: x = '\n#if %s\n%s\n#endif\n' % (t, text)
        elif k == 1: x = '\n#if %s\n%s\n#else\n%s\n#endif\n' % (t, text, j)
        elif k == 2: x = '\n#if %s\n%s\n#elif %s\n%s\n#else\n%s\n#endif\n' % (f, j, t, text, j)
        elif k == 3: x = '\n#ifndef neverdefined\n%s\n#endif\n' % text
        elif k == 4: x = '\n#ifdef neverdefined\n%s\n#else\n%s\n#endif\n' % (j, text)
        else: x = '\n#if %s\n%s\n#if %s\n#endif\n#endif\n%s\n' % (f, j, t, text)
        return [x]

    def do_block(self, s):
        m = self.name()
        if m is None: return None
        h = self.r.randint(0, len(s))
        self.head.append('#macro %s\n%s\n%s\n#endm' % (m, self.line(s[:h]), self.line(s[h:])))
        return [m]

    def do_loop(self, s):
        m = self.name()
        if m is None: return None
        return ['\n#define %s 0\n#while %s < 1\n%s\n#set %s #eval %s + 1\n#endw\n#undef %s\n' % (m, m, ' '.join(s), m, m, m)]

    def do_include(self, s):
        n = 'inc%d.h' % len(self.files)
        if self.r.random() < 0.3: n = 'sub/' + n
        self.files[n] = self.join(s)
        return ['\n#include %s\n' % ('"%s"' % n if self.r.random() < 0.6 else '<%s>' % n)]

    def split(self, toks):
        """Cuts the program into files at the outermost level."""
        parts, cur, d = [], [], 0
        for t in toks:
            cur.append(t)
            d += t.count('{') - t.count('}') if not t.startswith('\n') and t[0] not in '"\'' else 0
            if d == 0 and t in (';', '}') and self.r.random() < 0.3:
                parts.append(cur)
                cur = []
        if cur: parts.append(cur)
        return parts

    def build(self, n):
        """{file name: text}, [files for the command line], [flags]"""
        toks = self.apply(n)
        head = ''.join(h + '\n' for h in self.head)
        names = ['main.c']
        if 'files' in self.kinds and self.r.random() < 0.3:
            parts = self.split(toks)
            names = []
            for i, p in enumerate(parts):
                names.append('part%d.c' % i)
                self.files[names[-1]] = (head if i == 0 else '') + self.join(p)
            if len(parts) > 1: self.done['files'] = 1
        else: self.files['main.c'] = head + self.join(toks)
        return self.files, names, self.flags
