"""The width of the numbers in an image changes how values are stored and nothing else."""
import os
import random
import re

from .. import build, fuzz, gen, oracle
from ..core import Case, Fail, digest, sh
from .sem import Semantics

WIDTHS = {'-i64': 64, '-i32': 32, '-i16': 16, '-i8': 8, '-u64': 64, '-u32': 32, '-u16': 16, '-u8': 8}
ERROR = 'невозможно сжать таблицы до заданного размера'


def operands():
    r = {}
    for base in (9001, 9201):
        for i in range(11): r[base + i] = 1; r[base + 11 + i] = 0
    for base in (9051, 9251):
        for i in range(6, 11): r[base + i] = 1; r[base + 11 + i] = 0
    for i in range(18): r[9023 + i] = 0
    for i in range(8, 18): r[9073 + i] = 0
    for i in range(8):
        for base in (9041, 9091, 9241, 9291): r[base + i] = 1 if i < 4 else 0
    for c in (9049, 9099, 9052, 9053, 9453, 9459, 9460, 9461, 9465, 9468, 9473, 9474, 9475, 9588): r[c] = 0
    for c in (9455, 9457, 9458, 9462, 9464, 9466, 9467, 9469, 9470, 9471, 9472, 9481, 9305, 9307, -27, -26, -25, -24, -23): r[c] = 1
    r.update({9454: 7, 9456: 2, 9463: 2, 9477: 4, 9478: 2, 9304: 2, 9306: 2, 9308: 3})
    for i in range(30): r[9534 + i] = 0
    for c in list(range(9589, 9596)) + list(range(9651, 9656)): r[c] = 0
    return r


OPS = operands()
LABEL = {9469: [1], 9470: [1], 9471: [1], 9463: [2], 9454: [4], 9478: [2]}     # operands that are addresses


class Odd(Exception): pass


def tables(image):
    lines = image.decode('utf-8').split('\n')
    if len(lines) != 8 or lines[7] != '' or lines[0] != '#!/usr/bin/ruc-vm': raise Odd('the image has %d lines' % len(lines))
    return [[int(x) for x in l.split()] for l in lines[1:7]]


class Image:
    """An image of the default width, taken apart: values, floating values (two words) and addresses."""

    def __init__(self, image):
        self.head, self.mem, self.functions, *self.rest = tables(image)
        m, n = self.mem, len(self.mem)
        self.items = [[0, 'v', x] for x in m[:4]]        # place, kind, value
        for i in range(4): self.items[i][0] = i
        self.floats = self.strings = 0
        pc, last = 4, None
        while pc < n:
            op = m[pc]
            if op not in OPS: raise Odd('unknown instruction %d at %d' % (op, pc))
            end = pc + 1 + OPS[op]
            begin = len(self.items)
            self.items.append([pc, 'v', op])
            if op == 9456:
                self.items.append([pc + 1, 'd', (m[pc + 1] & 0xffffffff) | (m[pc + 2] & 0xffffffff) << 32])
                self.floats += 1
            else:
                for i in range(1, OPS[op] + 1):
                    label = i in LABEL.get(op, ()) and not (op == 9454 and m[pc + i] == 0)
                    self.items.append([pc + i, 'a' if label else 'v', m[pc + i]])
            if op == 9469 and last is not None and self.items[last][2] == 9455 and self.items[last + 1][2] == pc + 3 and pc + 2 < n and 0 <= m[pc + 2] < 9000:
                over, size = m[pc + 1], m[pc + 2]
                self.items[last + 1][1] = 'a'
                self.items.append([pc + 2, 'v', size])
                words = over - pc - 3
                if words == size:
                    self.items += [[pc + 3 + i, 'v', m[pc + 3 + i]] for i in range(size)]
                    self.strings += 1
                elif words == 2 * size: self.items += [[pc + 3 + 2 * i, 'd', (m[pc + 3 + 2 * i] & 0xffffffff) | (m[pc + 4 + 2 * i] & 0xffffffff) << 32] for i in range(size)]
                else: raise Odd('a literal of %d elements has %d words' % (size, words))
                end = over
            last, pc = begin, end

    def stored(self, width):
        """The tables as they have to be stored in numbers of a width."""
        k = 64 // width
        place, at = {}, 0
        for p, kind, _ in self.items:
            place[p] = at
            at += k if kind == 'd' else 1
        mem = []
        for _, kind, v in self.items:
            if kind == 'd': mem += [v >> width * i & ((1 << width) - 1) for i in range(k)]
            elif kind == 'a':
                if v not in place: raise Odd('the address %d is in the middle of something' % v)
                mem.append(place[v])
            else: mem.append(v)
        signed = set()
        at = 0
        for _, kind, v in self.items:
            if kind == 'd': signed.update(range(at, at + k)); at += k
            else: at += 1
        return mem, signed, [place[f] if f else 0 for f in self.functions]

    def expected(self, flag):
        """(does it fit, tables)"""
        width, sign = WIDTHS[flag], flag[1] == 'i'
        mem, parts, functions = self.stored(width)
        if sign: mem = [v - (1 << width) if i in parts and v >> (width - 1) else v for i, v in enumerate(mem)]
        # the machine that builds images keeps its numbers in 64 bits with a sign
        elif width == 64: mem = [v - (1 << 64) if i in parts and v >> 63 else v for i, v in enumerate(mem)]
        lo, hi = (-(1 << width - 1), (1 << width - 1) - 1) if sign else (0, min(1 << width, 1 << 63) - 1)
        ts = [mem, functions] + self.rest
        return all(lo <= x <= hi for t in ts for x in t), [[len(t) for t in ts] + self.head[5:]] + ts


class C21(Semantics):
    id = 'C21'
    swarm = [k for k, v in gen.Feat.DEFAULT.items() if v is True]
    quick = (5000, 60)
    thorough = (100000, 700)
    chunk = 4
    rule = 'a case is a program compiled with every width (or a list of numbers stored in every width); non-trivial: it has floating constants and strings, or a number next to the limit of a width; distinct means distinct image'
    assumptions = ['the default width is 32 bits with a sign, and floating values take 64 bits in parts of the width, the low part first']

    def setup(self):
        self.ruc = build.ruc('rel')
        self.item = build.driver('item.cpp', 'item', ['utils'], fuzz.FLAGS)

    def one(self, src, flags):
        r, o = oracle.compile_(self.ruc, src, flags=flags)
        return r, open(o, 'rb').read() if os.path.exists(o) else b''

    def judge(self, src, *rest):
        return self.look(src)[0]

    def look(self, src):
        r, image = self.one(src, [])
        if r.timeout: return 'the compiler did not terminate', None, None, {}
        if r.rc: return 'the compiler rejected the program (exit %d): %s' % (r.rc, oracle.plain(r.err)[:300]), None, None, {}
        tags = {}
        try:
            im = Image(image)
            for flag in WIDTHS:
                fits, want = im.expected(flag)
                r, got = self.one(src, [flag])
                err = oracle.plain(r.err + r.out)
                if r.timeout or r.rc not in (0, 70): return 'with %s the compiler ends with %d' % (flag, r.rc), im, image, tags
                if (r.rc == 0) != fits: return 'with %s the compiler ends with %d, but the tables %s' % (flag, r.rc, 'fit' if fits else 'do not fit'), im, image, tags
                tags[('fits' if fits else 'does-not-fit') + flag] = 1
                if not fits:
                    if ERROR not in err: return 'with %s there is no diagnostic' % flag, im, image, tags
                    continue
                if err.strip() and ERROR in err: return 'with %s there is a diagnostic: %s' % (flag, err[:80]), im, image, tags
                got = tables(got)
                for name, a, b in zip(('header', 'memory', 'functions', 'identifiers', 'representations', 'types'), got, want):
                    if a != b:
                        at = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
                        return 'with %s the table of %s differs at %d: %s instead of %s' % (flag, name, at, a[at:at + 4], b[at:at + 4]), im, image, tags
        except Odd as e: return 'the image is malformed: %s' % e, None, image, tags
        rnd = random.Random(digest(src))
        two = rnd.sample(sorted(WIDTHS), 2)
        if rnd.random() < 0.2:
            a, b = self.one(src, two[:1]), self.one(src, two[:1] * 2)
            if a[0].rc != b[0].rc or a[1] != b[1]: return 'with %s repeated the outcome changes' % two[0], im, image, tags
        else:
            r, got = self.one(src, two)
            if r.timeout or r.rc != 70 or ERROR not in oracle.plain(r.err + r.out): return 'with %s the compiler ends with %d' % (' '.join(two), r.rc), im, image, tags
        for target in rnd.sample(['-LLVM', '-MIPS'], 1):
            flag = rnd.choice(sorted(WIDTHS))
            a, b = [self.one(src, [target] + f) for f in ([], [flag])]
            if a[0].rc != b[0].rc or a[1] != b[1]: return 'with %s the output for %s changes' % (flag, target), im, image, tags
        return None, im, image, tags

    def pad(self, rnd, src):
        """Make a number of the image lie near a limit."""
        how = rnd.randrange(4)
        if how == 0: return re.sub(r'\bvoid main', 'int limit%d = %d;\nvoid main' % (rnd.randrange(9), rnd.choice([32767, 32768, 65535, 65536, -32768, -32769, 127, 128, -128, 2147483647, -2147483648 + 1])), src, count=1)
        if how == 1: return src.rstrip()[:-1] + '\tprint("%s");\n}\n' % rnd.choice('翿耀￿一🙂я')
        r, image = self.one(src, [])
        if r.rc: return src
        try: n = len(Image(image).stored(rnd.choice([16, 16, 32, 64]))[0])
        except Odd: return src
        # addresses behind the string: LI, its address, B, its target, length, text, PRINT type, RETURNVOID, CALL1, CALL2 main STOP
        size = max(1, 32767 - n + rnd.randint(-14, 8))
        parts = []
        while size > 0:
            k = min(size, 4000)
            parts.append('\tprint("%s");\n' % ('x' * k))
            size -= k + 7
        return src.rstrip()[:-1] + ''.join(parts) + '}\n'

    def numbers(self, rows):
        """None or why values are not stored and restored as they have to be; rows of (status, value, variable)."""
        r = sh([self.item], stdin=''.join('%d %d %d\n' % tuple(x) for x in rows).encode(), env=fuzz.SENV)
        lines = r.out.decode().split('\n')
        for i, (st, v, x) in enumerate(rows):
            got = lines[i] if i < len(lines) else ''
            if not 0 <= st < 8: want = 'none 1'
            else:
                w, signed = (64, 32, 16, 8)[st % 4], st < 4
                parts = [(v >> w * k) & ((1 << w) - 1) for k in range(64 // w)]
                if signed or w == 64: parts = [p - (1 << w) if p >> (w - 1) else p for p in parts]
                lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, min(1 << w, 1 << 63) - 1)
                d = 0x7fefffffffffffff if v == (1 << 63) - 1 else v
                want = '%s | %d %d %d %d %d 1' % (' '.join(map(str, parts)), v, d, lo, hi, lo <= x <= hi)
            if got != want: return 'numbers: status %d, value %d, variable %d give "%s" instead of "%s"%s' % (st, v, x, got, want, '; %s in %s' % (fuzz.site(r.err)[0], fuzz.site(r.err)[1][:1]) if fuzz.site(r.err) else ''), [st, v, x]
        return None, None

    def extra(self, tier, seed):
        rnd = random.Random('numbers %d' % seed)
        edge = [s * ((1 << k) + d) for k in (0, 7, 8, 15, 16, 31, 32, 62, 63) for d in (-1, 0, 1) for s in (1, -1)]
        ok = lambda v: max(-(1 << 63), min((1 << 63) - 1, v))
        for k in range(100 if tier == 'thorough' else 10):
            rows = []
            for _ in range(2000):
                v = rnd.choice([rnd.getrandbits(64) - (1 << 63), rnd.choice(edge), rnd.getrandbits(rnd.randint(1, 63)), sum(rnd.choice([0, 0x7f, 0x80, 0xff, 0x55]) << 8 * b for b in range(8)) - (1 << 63)])
                rows.append((rnd.choice(range(8)) if rnd.random() < 0.97 else rnd.choice([-1, 8, 9]), ok(v), ok(rnd.choice(edge + [v]))))
            why, row = self.numbers(rows)
            yield Case(key=digest(repr(rows)), n=len(rows), tags={'numbers': len(rows)}, fail=Fail(why=why, data={'numbers': row}) if why else None)

    def replay(self, d):
        return self.numbers([d['numbers']])[0] if 'numbers' in d else super().replay(d)

    def describe(self, d):
        return {} if 'numbers' in d else super().describe(d)

    def lists(self, rnd, src):
        """Add lists of values as arguments, which are stored next to the code."""
        one = lambda: rnd.choice(['%d.%d' % (rnd.randint(0, 999), rnd.randint(0, 99)), '0.1', '1e%d' % rnd.randint(-20, 20), '-%d.5' % rnd.randint(0, 9), '3.0'])
        calls = ''
        for _ in range(rnd.randint(1, 3)):
            fs, ns = [one() for _ in range(rnd.randint(1, 5))], [str(rnd.choice([0, 1, -1, 77, 32767, 9455, rnd.randint(-40000, 40000)])) for _ in range(rnd.randint(1, 5))]
            calls += '\tlists9({%s}, {%s});\n' % (', '.join(fs), ', '.join(ns))
        return src.replace('void main', 'void lists9(float x9[], int y9[])\n{\n\tprint(x9[0], y9[0]);\n}\nvoid main', 1).rstrip()[:-1] + calls + '}\n'

    def kind(self, w): return re.sub(r'[-\d]+', 'N', w)[:50]

    def case(self, rnd, i):
        seed = rnd.getrandbits(60)
        g = self.make(seed)
        if g is None: return Case(trivial=True)
        src = g[0].source()
        data = {'source': src, 'input': '', 'want': '', 'status': 'ok', 'seed': seed}
        if rnd.random() < 0.3:
            data['source'] = src = self.lists(rnd, src)
            data.pop('seed', None)
        near = rnd.random() < 0.3
        if near:
            data['source'] = src = self.pad(rnd, src)
            data.pop('seed', None)
        w, im, image, tags = self.look(src)
        if w: return Case(fail=Fail(why=w, data=data))
        if near: tags['near-a-limit'] = 1
        return Case(trivial=not near and not (im.floats and im.strings), key=digest(image), tags=tags, sample={'source': src[:800], 'cells': len(im.mem), 'floating constants': im.floats, 'strings': im.strings})


prop = C21()
