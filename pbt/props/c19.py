"""The conversions of characters and strings against the codecs of Python."""
import os
import struct
import subprocess

from .. import build, fuzz
from ..core import Case, Fail, Prop, Scratch, digest

OPS = ['from-cp866', 'from-cp1251', 'to-cp866', 'to-cp1251', 'transliteration', 'characters', 'encodings', 'kinds']
BATCH = 60
ALL = 0x110000
LETTERS = dict(zip('абвгдежзийклмнопрстуфхцчшщъыьэюяё', 'a b v g d e zh z i i k l m n o p r s t u f kh ts ch sh shch ie y  e iu ia e'.split(' ')))
LETTERS.update({k.upper(): v[:1].upper() + v[1:] for k, v in list(LETTERS.items())})
PAGE = {p: ''.join(bytes([b]).decode(p, 'replace') for b in range(1, 256)) for p in ('cp866', 'cp1251')}
EDGES = [0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0x3fff, 0x4000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff]


def page(c, p):
    try: return c.encode(p)
    except UnicodeEncodeError: return b'\x1a'


def kind(c):
    ru = c in LETTERS
    asc = ord(c) < 128
    up = c.upper() if asc or ru else c
    digit = c in '0123456789'
    hexa = asc and c in '0123456789abcdefABCDEF'
    k = ru | (ru or asc and c.isalpha() or c == '_') << 1 | digit << 2 | hexa << 3 | (c in 'eEеЕ') << 4
    return k, up, int(c, 16) if hexa else 0


def expect(op, data):
    """What the request returns, as text."""
    if op < 2:
        r = data.decode(['cp866', 'cp1251'][op], 'replace').encode()
        return '%d %s' % (len(r), (r + b'\0').hex())
    if op < 5:
        t = data.decode()
        r = b''.join(page(c, ['cp866', 'cp1251'][op - 2]) for c in t) if op < 4 else ''.join(LETTERS.get(c, c) for c in t).encode()
        return '%d %s' % (len(r), (r + b'\0').hex())
    if op == 5:
        at, a, b = 0, [], []
        for c in data.decode():
            n = len(c.encode())
            a.append('%d:%x:%d,' % (at, ord(c), n))
            b += ['%d,' % at] * n
            at += n
        return ''.join(a) + '- ' + ''.join(b) + '-'
    lo, hi = struct.unpack('<II', data)
    out = []
    for k in range(lo, hi):
        if op == 6: out.append('' if 0xd800 <= k < 0xe000 else (chr(k).encode() + b'\0').hex())
        elif k < ALL:
            q, up, n = kind(chr(k))
            if q or up != chr(k) or n: out.append('%x:%d:%x:%d,' % (k, q, ord(up), n))
    return ''.join(out) + '-'


class C19(Prop):
    id = 'C19'
    quick = (1200, 40)
    thorough = (60000, 600)
    chunk = 4
    rule = ('a case is one string converted between UTF-8 and a code page or transliterated, one string taken apart into characters, or one range of characters encoded or classified, in buffers of exactly the size needed, '
            'compared with the codecs of Python; non-trivial: it has a character outside of ASCII')
    assumptions = ['strings are well-formed UTF-8 without U+0000', 'surrogates and characters from U+110000 on, which do not exist, are not judged']

    def setup(self):
        self.exe = build.driver('utf8.cpp', 'utf8', ['utils'], fuzz.FLAGS)

    def char(self, r):
        k = r.random()
        if k < 0.2: return chr(r.randint(1, 127))
        if k < 0.4: return r.choice(list(LETTERS))
        if k < 0.55: return r.choice(PAGE['cp866'])
        if k < 0.7: return r.choice(PAGE['cp1251'])
        if k < 0.8: return chr(max(1, min(0x10ffff, r.choice(EDGES) + r.randint(-2, 2)))) if r.random() < 0.7 else chr(r.choice(EDGES))
        return chr(r.choice([r.randint(0x80, 0x7ff), r.randint(0x800, 0xd7ff), r.randint(0xe000, 0xffff), r.randint(0x10000, 0x10ffff)]))

    def gen(self, r):
        op = r.choice([0, 1, 2, 3, 4, 4, 5, 5, 6, 7])
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 40, 200, 1000]) if r.random() < 0.5 else r.randint(1, 30)
        if op < 2: return op, bytes(r.choice([r.randint(1, 255), r.randint(128, 255)]) for _ in range(n))
        if op < 6: return op, ''.join(c if not 0xd800 <= ord(c) <= 0xdfff else 'ё' for c in (self.char(r) for _ in range(n))).encode()
        lo = r.choice(EDGES + [0x41, 0x61, 0x401, 0x410, 0x451, r.randint(0, 0x10ffff)])
        lo = max(0, lo - r.randint(0, 40))
        return op, struct.pack('<II', lo, min(ALL, lo + r.randint(1, 80)))

    def run(self, datas):
        f = os.path.join(Scratch.dir(), 'utf8.bin')
        want = [expect(op, d) for op, d in datas]
        with open(f, 'wb') as fh:
            for (op, d), w in zip(datas, want): fh.write(struct.pack('<III', op, int(w.split(' ')[0]) if op < 5 else 0, len(d)) + d)
        res, at = [None] * len(datas), 0
        while at < len(datas):
            try: p = subprocess.run([self.exe, f, str(at)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=fuzz.SENV, timeout=120); out, err, hang = p.stdout, p.stderr, False
            except subprocess.TimeoutExpired as e: out, err, hang = e.stdout or b'', b'', True
            began = at
            for l in out.decode('utf-8', 'replace').split('\n'):
                w = l.split(' ', 2)
                if w[0] == 'B': began = int(w[1])
                elif w[0] == 'R' and len(w) == 3 and (w[2].endswith('-') or ' ' in w[2]):
                    i = int(w[1])
                    if w[2] != want[i]:
                        k = next((k for k, (a, b) in enumerate(zip(w[2], want[i])) if a != b), min(len(w[2]), len(want[i])))
                        res[i] = '%s: expected ...%s, got ...%s' % (OPS[datas[i][0]], want[i][max(0, k - 10):k + 30], w[2][max(0, k - 10):k + 30])
            if not hang and p.returncode == 0: break
            s = fuzz.site(err)
            res[began] = '%s: %s' % (OPS[datas[began][0]], 'the conversion does not end' if hang else 'invalid memory access: %s in %s' % (s[0], ' < '.join(s[1])) if s else 'the conversion is killed (%d)' % p.returncode)
            at = began + 1
        return res

    def data(self, q): return {'op': q[0], 'octets': q[1].hex()}

    def case(self, rnd, i):
        batch = [self.gen(rnd) for _ in range(BATCH)]
        res = self.run(batch)
        c = Case(key=[digest(repr(q)) for q in batch if q[0] >= 6 or any(b > 127 for b in q[1])], n=BATCH)
        for q, why in zip(batch, res):
            c.tags[OPS[q[0]]] = c.tags.get(OPS[q[0]], 0) + 1
            if why and not c.fail: c.fail = Fail(why=why, data=self.data(q))
        q = batch[0]
        c.sample = {'conversion': OPS[q[0]], 'input': list(struct.unpack('<II', q[1])) if q[0] >= 6 else q[1][:30].hex()}
        return c

    def extra(self, tier, seed):
        """Every character once: its encoding and its kinds, every octet of the code pages, every letter."""
        qs = [(op, struct.pack('<II', lo, lo + 0x1000)) for op in (6, 7) for lo in range(0, ALL, 0x1000)]
        qs += [(op, bytes([b])) for op in (0, 1) for b in range(1, 256)] + [(op, c.encode()) for op in (2, 3, 4, 5) for c in sorted(set(PAGE['cp866'] + PAGE['cp1251'] + ''.join(LETTERS)))]
        for (op, d), why in zip(qs, self.run(qs)):
            yield Case(key=digest(repr((op, d))), sample={'conversion': OPS[op], 'all of': d.hex()}, tags={'exhaustive-' + OPS[op]: 1}, fail=Fail(why=why, data=self.data((op, d))) if why else None)

    def replay(self, data):
        return self.run([(data['op'], bytes.fromhex(data['octets']))])[0]

    def shrink(self, data, why, deadline):
        import time
        op, d = data['op'], bytes.fromhex(data['octets'])
        head = why.split(':')[0] + ':' + why.split(':')[1][:10]

        def parts(d):
            if op >= 6:
                lo, hi = struct.unpack('<II', d)
                m = (lo + hi) // 2
                return [struct.pack('<II', lo, m), struct.pack('<II', m, hi)] if hi - lo > 1 else []
            t = d if op < 2 else d.decode()
            enc = (lambda x: x) if op < 2 else str.encode
            n = max(1, len(t) // 2)
            out = []
            while n:
                out += [enc(t[:i] + t[i + n:]) for i in range(0, len(t), n)]
                n //= 2
            return [x for x in out if x != d]
        while time.time() < deadline:
            qs = parts(d)
            q = next((q for q, w in zip(qs, self.run([(op, q) for q in qs])) if w and w.startswith(head)), None) if qs else None
            if q is None: break
            d = q
        data = self.data((op, d))
        return data, self.replay(data) or why

    def describe(self, data):
        d = bytes.fromhex(data['octets'])
        return {'input.txt': '%s: %s\n' % (OPS[data['op']], d.hex() if data['op'] < 2 else d.decode() if data['op'] < 6 else 'U+%04X..U+%04X' % tuple(struct.unpack('<II', d)))}


prop = C19()
