"""The meaning of a program does not depend on how it is spelled."""
import random
import re

from .. import build, gen, lang, oracle, surface
from ..core import Case, Fail, Prop, digest

TARGETS = ('-VM', '-VM', '-LLVM', '-MIPS')
KINDS = ('space', 'keyword', 'builtin', 'parens', 'number', 'string', 'rename', 'all')


def rename(rnd, toks):
    """Consistently give every user identifier another name."""
    m, used = {}, set()
    out = []
    style = rnd.choice(['short', 'short', 'anagram', 'family', 'mixed'])
    stem = ''.join(rnd.choice('abcxyzWабвюя_') for _ in range(rnd.choice([3, 8, 20, 40, 70])))
    tail = ''.join(rnd.choice('pqrstПРСТ012') for _ in range(7))

    def fresh():
        if style == 'anagram':                          # equal length, equal sum of codes, a long common beginning
            t = list(tail)
            rnd.shuffle(t)
            return 'n' + stem + ''.join(t)
        if style == 'family': return 'v' + stem + 'ab' * rnd.randint(0, 40) + rnd.choice(['', '1', '_', 'я'])
        if style == 'mixed':                            # words that almost are keywords
            w = rnd.choice(sorted(ALLWORDS))
            return rnd.choice([w + rnd.choice('1_aя'), '_' + w, w[:-1], w[0].upper() + w[1:], w[:-1] + w[-1].upper(), w[::-1]])
        return ''.join(rnd.choice('abcdxyzABCабвгдежзэюяЁ_QW') for _ in range(rnd.randint(1, 3))) + rnd.choice(['', '', '1', '_', '7я'])
    for k, t in toks:
        if k == 'id' and t not in surface.KEYWORDS and t not in surface.BUILTINS:
            if t not in m:
                while True:
                    n = fresh()
                    if len(n.strip('_')) < 1 or n[0].isdigit() or n in used or n in RESERVED: continue
                    used.add(n)
                    m[t] = n
                    break
            t = m[t]
        out.append((k, t))
    return out


ALLWORDS = {w for d in (surface.KEYWORDS, surface.BUILTINS) for kv in d.items() for w in kv} | {'strcpy', 'strlen'}


RESERVED = ALLWORDS | {w.upper() for w in ALLWORDS} | {'numTh', 'data', 'msg_info'}


def split_strings(rnd, toks):
    """Adjacent string literals are one literal; Russian escapes are synonyms."""
    out = []
    for k, t in toks:
        if k == 'str':
            body = re.findall(r'\\.|.', t[1:-1])
            body = [rnd.choice([x, {'\\n': '\\н', '\\t': '\\т'}.get(x, x)]) for x in body]
            while len(body) > 1 and rnd.random() < 0.6:
                n = rnd.randint(1, len(body) - 1)
                out.append((k, '"' + ''.join(body[:n]) + '"'))
                body = body[n:]
            out.append((k, '"' + ''.join(body) + '"'))
        else: out.append((k, t))
    return out


def plain(toks):
    """Tokens on lines of moderate length; no two literals run together."""
    out, n = [], 0
    for k, t in toks:
        out.append(t)
        n += 1
        out.append('\n' if t in (';', '{', '}') or n % 12 == 0 else ' ')
    return ''.join(out) + '\n'


def _main(body, pre=''): return pre + 'void main()\n{\n' + body + '\n}\n'


CALLS = {w: _main('\tfloat x = %s(1.0);' % w) for w in ('asin', 'cos', 'sin', 'exp', 'log', 'log10', 'sqrt')}
CALLS.update({
    'rand': _main('\tfloat x = rand();'), 'round': _main('\tint x = round(1.5);'), 'assert': _main('\tassert(true, "x");'),
    'strcmp': _main('\tint x = strcmp("a", "b");'), 'strncmp': _main('\tint x = strncmp("a", "b", 1);'), 'strstr': _main('\tint x = strstr("a", "b");'),
    'strncpy': _main('\tchar s[] = strncpy("abc", 2);'), 'strcat': _main('\tchar s[] = strcat("abc", "d");'),
    'send_int_to_robot': _main('\tint a[2];\n\tsend_int_to_robot(1, a);'), 'send_float_to_robot': _main('\tfloat a[2];\n\tsend_float_to_robot(1, a);'),
    'send_string_to_robot': _main('\tsend_string_to_robot(1, "s");'), 'receive_int_from_robot': _main('\tint x = receive_int_from_robot(1);'),
    'receive_float_from_robot': _main('\tfloat x = receive_float_from_robot(1);'), 'receive_string_from_robot': _main('\treceive_string_from_robot(1);'),
    't_create': _main('\tint n = t_create(f);', 'void * f(void * x)\n{\n\tt_exit();\n\treturn x;\n}\n'), 't_getnum': _main('\tint n = t_getnum();'), 't_sleep': _main('\tt_sleep(5);'), 't_join': _main('\tt_join(1);'),
    't_exit': _main('\tt_exit();'), 't_init': _main('\tt_init();'), 't_destroy': _main('\tt_destroy();'), 't_sem_create': _main('\tint s = t_sem_create(1);'),
    't_sem_wait': _main('\tt_sem_wait(1);'), 't_sem_post': _main('\tt_sem_post(1);'),
    'fopen': _main('\tfile *f = fopen("a", "r");'), 'fgetc': _main('\tfile *f = fopen("a", "r");\n\tint c = fgetc(f);'),
    'fputc': _main('\tfile *f = fopen("a", "w");\n\tfputc(65, f);'), 'fclose': _main('\tfile *f = fopen("a", "r");\n\tfclose(f);'),
    'printf': _main('\tprintf("x");'), 'print': _main('\tprint(1);'), 'printid': _main('\tint a;\n\tprintid(a);'), 'getid': _main('\tint a;\n\tgetid(a);'),
    'file': _main('\tfile *f;'), 'double': _main('\tdouble x = 1.5;\n\tprint(x);'), 'long': _main('\tlong x = 5;\n\tprint(x);'),
})


class C05(Prop):
    id = 'C05'
    quick = (16000, 60)
    thorough = (300000, 700)
    chunk = 16
    rule = ('a case is a program and another spelling of it; it is non-trivial when the spelling differs from the '
            'original in at least 10 places and the program has at least two functions or 60 tokens')
    assumptions = ['for the MIPS target comments of the assembly text, which quote names of the source, are ignored']

    def setup(self):
        self.ruc = build.ruc('rel')

    def output(self, src, target):
        r, o = oracle.compile_(self.ruc, src, target)
        if r.timeout: return 'timeout', b''
        if r.rc: return 'exit %d: %s' % (r.rc, oracle.plain(r.err)[:500]), b''
        with open(o, 'rb') as f: b = f.read()
        if target == '-MIPS': b = re.sub(rb'(?m)^\s*#.*\n?', b'', b)
        return 'ok', b

    def differ(self, a, b, target, kind):
        sa, oa = self.output(a, target)
        sb, ob = self.output(b, target)
        if sa != 'ok': return None if sb != 'ok' else 'skip'
        if sb != 'ok': return 'the other spelling is not accepted: ' + sb
        if kind == 'rename' and target == '-VM':
            la, lb = oa.split(b'\n'), ob.split(b'\n')
            ha, hb = la[1].split(), lb[1].split()
            # the names themselves live in the last tables
            if la[2:4] != lb[2:4] or ha[:2] != hb[:2] or ha[5:6] != hb[5:6]: return 'code differs after renaming identifiers'
            return None
        if oa != ob:
            i = next((i for i, (x, y) in enumerate(zip(oa.split(), ob.split())) if x != y), min(len(oa.split()), len(ob.split())))
            return 'output for %s differs from word %d on: %r / %r' % (target, i, b' '.join(oa.split()[i:i + 8]), b' '.join(ob.split()[i:i + 8]))
        return None

    def case(self, rnd, i):
        kind = rnd.choice(KINDS)
        target = rnd.choice(TARGETS)
        # the MIPS back end writes indeterminate operands for structures (known finding of C16)
        f = gen.Feat(structs=False, struct_param=False, struct_ret=False) if target == '-MIPS' else gen.Feat()
        g = gen.generate(rnd, f, size=rnd.choice([0.3, 0.6, 1.0]))
        if g is None: return Case(trivial=True)
        p = g[0]
        if kind == 'rename' and target == '-LLVM': target = '-VM'
        a = p.source()
        st = lang.Style()
        sp = lambda w: surface.spelling(rnd, w)
        if kind in ('keyword', 'all'): st.kw = sp
        if kind in ('builtin', 'all'): st.builtin = lambda w: w if w == 'exit' else sp(w)
        if kind in ('parens', 'all'): st.parens = lambda e: e.k != 'init' and rnd.random() < 0.25
        if kind in ('number', 'all'):
            st.floatfmt = lambda t: t + rnd.choice(['', '0', '00', '000000']) + rnd.choice(['', '', 'e0', 'E0', 'e+0', 'E-00']) if '.' in t and 'e' not in t else t
            st.intfmt = lambda v: rnd.choice(['%d', '0d%d', '0x%x', '0X%X', '0o%o', '00%d', '0D0%d', '0O%o', '0x00%x'])  % v if rnd.random() < 0.8 else rnd.choice(['0b', '0B']) + bin(v)[2:]
        b = p.source(st)
        if kind in ('space', 'string', 'rename', 'all'):
            # numbers written in other bases are not tokenised by the plain tokenizer
            toks = surface.tokens(a) if kind != 'all' else surface.tokens(b)
            if kind == 'rename': toks = rename(rnd, toks)
            if kind in ('string', 'all'): toks = split_strings(rnd, toks)
            b = surface.respace(rnd, toks, rnd.choice([0.05, 0.3, 0.8])) if kind in ('space', 'all') else plain(toks)
        w = self.differ(a, b, target, kind)
        if w == 'skip': w = 'accepted only in the other spelling'
        ta, tb = surface.tokens(a), b.split()
        changed = sum(1 for x, y in zip(a.split(), tb) if x != y) + abs(len(a.split()) - len(tb))
        c = Case(trivial=changed < 10 or len(ta) < 60, key=digest(b + target), sample={'kind': kind, 'target': target, 'original': a[:700], 'other': b[:900]}, tags={kind: 1, target: 1})
        if w: c.fail = Fail(why=w, data={'a': a, 'b': b, 'target': target, 'kind': kind})
        return c

    def extra(self, tier, seed):
        # every spelling of every keyword and built-in, exhaustively
        for w, ru in list(surface.KEYWORDS.items()) + list(surface.BUILTINS.items()):
            a = CALLS.get(w)
            if not a: continue
            for alt in (w.upper(), ru, ru.upper()):
                b = re.sub(r'\b%s\b' % w, alt, a)
                c = Case(key=digest(b), n=1, tags={'spelling-table': 1})
                x = self.differ(a, b, '-VM', 'keyword')
                if x: c.fail = Fail(why='%s / %s: %s' % (w, alt, x), data={'a': a, 'b': b, 'target': '-VM', 'kind': 'keyword'})
                yield c

    def replay(self, d):
        w = self.differ(d['a'], d['b'], d['target'], d['kind'])
        return 'accepted only in the other spelling' if w == 'skip' else w

    def describe(self, d):
        return {'a.c': d['a'], 'b.c': d['b']}


prop = C05()
