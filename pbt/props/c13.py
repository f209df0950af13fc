"""Conditional groups, loops and expressions of the preprocessor."""
import itertools

from .. import pp, ppgen
from ..core import Case, Fail, digest
from .ppsem import PPProp

BINARY = ['+', '-', '*', '/', '%', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '^', '|', '&&', '||']
UNARY = ['-', '+', '~', '!']
JUNK = ["don't", 'say "hi', 'f(', ')', '#define', '#nonsense here', '#eval 1 / 0', '#include "nowhere"', '#undef', "'", '#', '##', '"a" "b', '#set', '#define f(x, x) x', '#define f(',
        '#include', '#eval', '#eval ((', '// # endif', '/* #endif */', '"#endif"', "'#endif'", '#endifx', '#elsewhere', '#endi f', '#line 3', '@ $ `', '\\', '#while_', "it's // #else"]
DEADCOND = ['1 / 0', ')(', '', '"s"', '1 +', '? :', '1.5', '((']


class Skips(ppgen.Gen):
    """Groups that are never taken hold what would be wrong anywhere else."""
    TRUE = ['1', '!0', '2 > 1', '-1', '(1)', '!(1 - 1)', '0 || 3', '~0', "'a' == 97", '1 << 3 > 7', '0 - 1', '-7', '256', '65536', '4294967296', '1 << 40', '0 - 65536', '~255', '(-(1 << 32))', '1 << 62', '-2147483648']
    FALSE = ['0', '!1', '1 > 2', '!(2)', '0 && 1', 'undefined_name', '5 - 5', '(1 == 2)', '1 & 2', '!~0', "'a' - 97", '3 >> 2']

    def dead(self, depth):
        """A group that is skipped: nothing in it is looked at except what opens and closes groups."""
        r, out = self.r, []
        for _ in range(r.randint(0, 4)):
            if depth and r.random() < 0.4:
                k = r.choice(['if', 'ifdef', 'ifndef'])
                arms = [[k, r.choice(DEADCOND[:2] + DEADCOND[3:] if k == 'if' else ['a', 'b']), self.dead(depth - 1)]]
                for _ in range(r.choice([0, 0, 1, 2])): arms.append(['elif', r.choice(DEADCOND), self.dead(depth - 1)])
                out.append(['if', arms, self.dead(depth - 1) if r.random() < 0.5 else None])
            elif depth and r.random() < 0.15: out.append(['while', r.choice(['1', '1 / 0', '((']), self.dead(depth - 1)])
            elif depth and r.random() < 0.15: out.append(['macro', r.choice(self.plain), r.choice([None, ['x']]), self.dead(depth - 1)])
            else: out.append(['raw', r.choice(['', '  ', '\t']) + r.choice(JUNK)])
        return out

    def live(self, depth):
        r, out = self.r, []
        for _ in range(r.randint(1, 3) if depth < 4 else 3):
            if depth and r.random() < 0.75: out.append(self.chain(depth - 1))
            elif depth and r.random() < 0.2: out += self.loop(1)
            elif r.random() < 0.2: out.append(['while', r.choice(self.FALSE), self.dead(depth)])
            else: out.append(['text', self.line(r.randint(1, 3), 0, len(self.macros))])
        return out

    def chain(self, depth):
        """if / elif / else of which the group at a chosen place is taken."""
        r = self.r
        n = r.choice([1, 1, 2, 2, 3, 5])
        at = r.randrange(n + 1)
        arms = []
        for i in range(n):
            kind = 'elif' if i else r.choice(['if', 'if', 'ifdef', 'ifndef'])
            body = self.live(depth) if i == at else self.dead(depth)
            if i <= at:
                if kind in ('ifdef', 'ifndef'):
                    c = self.macros[0][0] if (kind == 'ifdef') == (i == at) else 'undefined_name'
                else: c = r.choice(self.TRUE if i == at else self.FALSE)
            else: c = r.choice(DEADCOND + self.TRUE + self.FALSE)
            arms.append([kind, c, body])
        last = (self.live(depth) if at == n else self.dead(depth)) if r.random() < 0.7 else None
        return ['if', arms, last]

    def skipping(self):
        self.used_block, self.recursive = set(), set()
        return [['define', 'define', self.macros[0][0], None, '1']] + self.live(4)

    def expressions(self, n):
        """Definitions of integers, then expressions over them in every place an expression may stand."""
        r = self.r
        self.used_block, self.recursive = set(), set()
        model, out = pp.Model(budget=10 ** 7), []

        def keep(nodes):
            try: model.run(nodes, [])
            except (pp.Undefined, IndexError):
                model.depth = 0
                return
            out.extend(nodes)
        for i, m in enumerate(self.macros):
            if m[1] in ('int', 'ifun'): keep([self.define(i)])
        k = len(self.macros)
        for _ in range(n):
            e = self.expr(r.choice([1, 2, 3, 3, 4, 5]), k)
            x = r.random()
            if x < 0.5: keep([['eval', e]])
            elif x < 0.7: keep([['if', [['if', e, [['text', 'yes']]]], [['text', 'no']]]])
            elif x < 0.85: keep([['if', [['if', '0', []], ['elif', e, [['text', 'yes']]]], [['text', 'no']]]])
            else: keep([['define', 'define', 'result', None, '#eval ' + e], ['text', 'result']])
        return out


def plain_text(nodes): return pp.render(nodes, pp.Plain())


BROKEN = [
    '#if 1\n@\n', '#endif\n@', '@\n#else\n', '#elif 1\n@', '#if 1\n#else\n#else\n#endif\n', '#if 0\n#else\n#elif 1\n#endif\n', '#if 0\n#else\n#else\n#endif\n', '#if 1\n#else\n#elif 1\n#endif\n',
    '#while 0\n@\n', '#while 1\n@', '#endw\n', '#if 1\n#endw\n#endif\n', '#if 0\n#endw\n#endif\n', '#while 0\n#endif\n#endw\n', '#if 1\n#while 0\n#endif\n#endw\n', '#endm\n', '#macro a\n@\n',
    '#if 0\n#endm\n#endif\n', '#ifdef a\n', '#ifndef a\n@\n#else\n', '#if\n#endif\n', '#while\n#endw\n', '#eval\n', '#ifdef\n#endif\n', '#ifdef 1\n#endif\n', '#undef\n',
    '#while 1\n#endw\n', '#define v 0\n#while v < 32769\n#set v #eval v + 1\n#endw\n', '#macro zzf(x)\nzzf(x)\n#endm\nzzf(1)\n', '#define zzf zzf\nzzf\n', '#define zzf(x) zzg(x)\n#define zzg(x) zzf(x)\nzzf(1)\n',
    '#foo\n', '#\n', 'a #if 1\n', '#if 0\n#elif\n#endif\n', '#if 1\n#if 0\n#endif\n']
BADEXPR = ['1 +', '* 1', '(1', '1)', '()', '1 2', '1 ? 2 : 3', '1.5', '1e2', '"s"', '= 1', '1 = 1', '1 += 1', '1 / 0', '1 % 0', '1 / (2 - 2)', '0 && 1 / 0', '1 || 1 % 0', '!', '~', '(1) (2)', '1 (2)',
           'zza zzb', 'zzf(1)', '1 ! 2', '1 ~ 2', '- ', '[1]', '1, 2', '{1}', '1;', "'a", '0x', '1 <<', '&& 1', '@', '1 $ 2', '((1)', '(1))', '1 + + ']


class C13(PPProp):
    id = 'C13'
    quick = (16000, 90)
    thorough = (400000, 600)
    chunk = 16
    rule = ('a case is a file with expressions, conditional groups or loops (or a program rewritten with them, or a file that must be rejected); non-trivial: at least 5 expressions '
            'are evaluated or 3 groups are chosen, or the program is rewritten in at least 3 places')
    assumptions = ['expressions that overflow 64 bits, shift by a negative amount or by more than 62 are not generated: their value is not documented',
                   'the output of -E is compared as a sequence of tokens; its #line marks, white space and comments are ignored']

    def case(self, rnd, i):
        k = rnd.random()
        if k < 0.35: return self.modelled(Skips(rnd, blocks=False).expressions(rnd.randint(5, 25)), rnd, lambda st: st.get('eval', 0) + st.get('taken', 0) + st.get('defeval', 0) < 5)
        if k < 0.65: return self.modelled(Skips(rnd, blocks=False).skipping(), rnd, lambda st: st.get('taken', 0) + st.get('none', 0) < 3)
        if k < 0.75: return self.modelled(self.counting(rnd), rnd, lambda st: st.get('iteration', 0) < 3)
        if k < 0.85: return self.broken(rnd)
        return self.factored(rnd, ('cond', 'cond', 'eval', 'loop', 'block'))

    def counting(self, rnd):
        """Loops with counters, nested; the variables of outer loops change in inner ones."""
        v = ['i', 'j', 'k', 'счёт']
        rnd.shuffle(v)

        def loop(d):
            c, n, step = v[d], rnd.randint(0, 5), rnd.choice([1, 1, 2, 3])
            down = rnd.random() < 0.3
            start, cond, inc = (n, c + ' > 0', '%s - 1' % c) if down else (0, '%s < %d' % (c, n), '%s + %d' % (c, step))
            k = rnd.random()
            if k < 0.25:                # from below zero up to zero: the counter itself is the condition
                step = 1 if n > 3 else rnd.choice([1, n or 1])
                start, cond, inc = '(%d)' % -n, rnd.choice([c, '%s != 0' % c, '%s * 4294967296' % c, '0 - ' + c]), '%s + %d' % (c, step)
            elif k < 0.5:               # any value but zero holds
                cond = '(%s) * %s' % (cond, rnd.choice(['2', '-1', '(-2)', '256', '-256', '65536', '2147483648', '(1 << 32)', '4294967296', '(-4294967296)', '-(1 << 40)', '(1 << 62)']))
            inner = [['text', ' , '.join(v[:d + 1])]]
            if d < 2 and rnd.random() < 0.7: inner.insert(rnd.randint(0, 1), loop(d + 1))
            if rnd.random() < 0.5: inner.insert(rnd.randint(0, len(inner)), ['if', [['if', '%s %% 2 == %d' % (c, rnd.randint(0, 1)), [['text', 'odd']]]], [['text', 'even']]])
            if rnd.random() < 0.4: inner.insert(rnd.randint(0, len(inner)), ['eval', '%s * %s + %d' % (c, rnd.choice(v[:d + 1]), rnd.randint(0, 9))])
            if rnd.random() < 0.3: inner.insert(0, ['if', [['if', '%s == %d' % (c, rnd.randint(0, 3)), [['define', 'set', 'sum', None, '#eval sum + %d' % rnd.randint(1, 9)]]]], None])
            inner.append(['define', rnd.choice(['set', 'set', 'define']), c, None, '#eval ' + inc])
            return ['if', [['if', '1', [['define', 'define', c, None, str(start)], ['while', cond, flat(inner)], ['text', c]]]], None]

        def flat(ns): return ns
        out = [['define', 'define', 'sum', None, '0']]
        if rnd.random() < 0.01:       # near the bound
            n = rnd.choice([32768, 32767, 30000])
            return out + [['define', 'define', 'i', None, '0'], ['while', 'i < %d' % n, [['define', 'set', 'i', None, '#eval i + 1']]], ['text', 'i']]
        for _ in range(rnd.randint(1, 3)): out.append(loop(0))
        if rnd.random() < 0.4:          # recursion, several ways deep
            n = rnd.randint(1, 6)
            kind = rnd.randrange(3)
            body = [[['text', 'x'], ['text', 'rec(x - 1)']], [['text', 'rec(x - 1)'], ['text', 'x']], [['text', 'rec((x) - 2)'], ['text', '<'], ['text', 'rec((x) - 1)']]][kind]
            out += [['macro', 'rec', ['x'], [['if', [['if', '(x) > 0', body]], None]]], ['text', 'rec(%d)' % n]]
        return out + [['text', 'sum']]

    def broken(self, rnd):
        """A good file with one thing in it that must be diagnosed."""
        g = Skips(rnd, blocks=False)
        before, after = plain_text(g.skipping()), plain_text(Skips(rnd, blocks=False).skipping())
        if rnd.random() < 0.5:
            e = rnd.choice(BADEXPR)
            if rnd.random() < 0.3: e = '(' + e + ')' if e not in ('1)', "'a", '(1))') else e
            bad = rnd.choice(['#if %s\n#endif\n', '#eval %s\n', '#if 0\n#elif %s\n#endif\n', '#while %s\n#endw\n', '#define zzz %s\n#if zzz\n#endif\n', '#define zzz #eval %s\n']) % e
        else: bad = rnd.choice(BROKEN).replace('@', rnd.choice(['int a;', 'x', '"s"']))
        return self.rejected({'main.c': before + bad + (after if rnd.random() < 0.5 else '')}, ['main.c'], bad)

    def extra(self, tier, seed):
        """Every pair of binary operators, with every unary operator at every operand, in both groupings and with brackets."""
        import random
        rnd = random.Random(seed)
        vals = [0, 1, 2, 3, 5, 7, 12, 31, 100, 255]
        exprs = []
        for a, b in itertools.product(BINARY, BINARY):
            for _ in range(6 if tier == 'quick' else 30):
                x, y, z = [rnd.choice(vals) for _ in range(3)]
                for p in (0, 1, 2):
                    u = [rnd.choice(['', '', '', '-', '~', '!', '- -', '!!', '~-', '+']) for _ in range(3)]
                    X, Y, Z = u[0] + str(x), u[1] + str(y), u[2] + str(z)
                    exprs.append(['%s %s %s %s %s', '(%s %s %s) %s %s', '%s %s (%s %s %s)'][p] % (X, a, Y, b, Z))
        good = []
        for e in exprs:
            try: good.append((e, pp.words(str(pp.evaluate(e)))))
            except pp.Undefined: pass
        for i in range(0, len(good), 200):
            part = good[i:i + 200]
            t = ''.join('#eval %s\n' % e for e, _ in part)
            w = self.compare({'main.c': t}, ['main.c'], sum((v for _, v in part), []))
            c = Case(key=digest(t), sample=t[:200], tags={'operator-table': 1}, n=len(part))
            if w:
                for e, v in part:
                    t = '#eval %s\n' % e
                    w = self.compare({'main.c': t}, ['main.c'], v)
                    if w:
                        c.fail = Fail(why=e + ': ' + w, data={'kind': 'tokens', 'files': {'main.c': t}, 'args': ['main.c'], 'want': v})
                        break
            yield c
            if c.fail: return


prop = C13()
