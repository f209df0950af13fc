"""The containers of the compiler against reference models."""
import os
import struct
import subprocess

from .. import build, fuzz
from ..core import Case, Fail, Prop, Scratch, digest

KINDS = ['vector', 'stack', 'hash', 'map', 'strings', 'tree']
BATCH = 60
EDGE = [0, 1, 2, -1, 2**63 - 1, -2**63, 2**62, 255, 256, 257, 2**31, 2**32, 0x7ff0000000000000, 0x7ff8000000000001, 0x3ff0000000000000]


class C18(Prop):
    id = 'C18'
    kinds = KINDS
    quick = (1500, 60)
    thorough = (24000, 800)
    chunk = 2
    rule = ('a case is a sequence of up to 120 operations on one container (vector, stack, hash table, map of names, string table, syntax tree), compared with a reference model after every operation; '
            'non-trivial: at least 5 operations changed the container')
    assumptions = ['an argument of a tree node is added to the node made last, and nodes that are swapped with their children are not nested',
                   'strings given to a container are well-formed and lie outside it; sizes stay far below the limits of memory', 'the key of a hash table is not its marker of removed records (the largest item)']

    def setup(self):
        self.exe = build.driver('cont.cpp', 'cont', ['utils'], fuzz.FLAGS)

    def gen(self, rnd):
        kind = rnd.randrange(6)
        n = rnd.choice([rnd.randint(1, 12), rnd.randint(10, 50), rnd.randint(40, 120)])
        few = rnd.random() < 0.5
        pool = [rnd.getrandbits(64) - 2**63 for _ in range(rnd.randint(2, 30))]
        if kind == 2:
            keys = [rnd.choice([rnd.randrange(8), 256 * rnd.randrange(6) + rnd.randrange(2), -256 * rnd.randrange(4), rnd.getrandbits(64) - 2**63]) for _ in range(rnd.randint(1, 14))] + rnd.choice([[], [-1, -2**63, 2**63 - 2]])
        allowed = rnd.choice([None, None, [rnd.randrange(18) for _ in range(6)]])
        ops = []
        for _ in range(n):
            op = rnd.choice(allowed) if allowed and rnd.random() < 0.8 else rnd.randrange(18 * 17)
            a = rnd.choice(pool) if few or rnd.random() < 0.3 else rnd.getrandbits(64) - 2**63
            if kind == 2: a = rnd.choice(keys)
            b = rnd.choice(EDGE) if rnd.random() < 0.2 else rnd.choice([rnd.getrandbits(64) - 2**63, rnd.randint(-9, 300)])
            ops.append([op, a, b])
        return {'kind': kind, 'ops': ops}

    def run(self, datas):
        """For each sequence (reason or None, changes, tags)."""
        f = os.path.join(Scratch.dir(), 'ops.bin')
        with open(f, 'wb') as fh:
            for d in datas:
                fh.write(struct.pack('<II', d['kind'], len(d['ops'])) + b''.join(struct.pack('<qqq', *o) for o in d['ops']))
        res, at = [None] * len(datas), 0
        while at < len(datas):
            try: p = subprocess.run([self.exe, f, str(at)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=fuzz.SENV, timeout=60); err, out, hang = p.stderr, p.stdout, False
            except subprocess.TimeoutExpired as e: out, err, hang = e.stdout or b'', b'', True
            began = at
            for l in out.decode('utf-8', 'replace').split('\n'):
                w = l.split(' ')
                if w[0] == 'B': began = int(w[1])
                elif w[0] == 'R' and w[2] == 'ok': res[int(w[1])] = (None, int(w[3]), w[4:])
                elif w[0] == 'R': res[int(w[1])] = ('%s: %s' % (self.kinds[datas[int(w[1])]['kind']], ' '.join(w[3:])), 9, [])
            if not hang and p.returncode == 0: break
            s = fuzz.site(err)
            res[began] = ('%s: %s' % (self.kinds[datas[began]['kind']], 'the operation does not end' if hang else 'invalid memory access: %s in %s' % (s[0], ' < '.join(s[1])) if s else 'the operation is killed (%d)' % p.returncode), 9, [])
            at = began + 1
        return res

    def case(self, rnd, i):
        batch = [self.gen(rnd) for _ in range(BATCH)]
        res = self.run(batch)
        c = Case(key=[digest(repr(d)) for d, r in zip(batch, res) if r[1] >= 5], n=BATCH)
        for d, (why, n, tags) in zip(batch, res):
            for t in [self.kinds[d['kind']]] + ['%s-%s' % (self.kinds[d['kind']], t) for t in tags if t]: c.tags[t] = c.tags.get(t, 0) + 1
            if why and not c.fail: c.fail = Fail(why=why, data=d)
        c.sample = {'container': self.kinds[batch[0]['kind']], 'operations': len(batch[0]['ops']), 'first': batch[0]['ops'][:4], 'changes': res[0][1], 'features': res[0][2]}
        return c

    def replay(self, data):
        return self.run([data])[0][0]

    def shrink(self, data, why, deadline):
        import time
        head = why.split(':')[0] + (':' + why.split(':')[1][:22])

        def first(cands):
            for lo in range(0, len(cands), 40):
                for q, r in zip(cands[lo:lo + 40], self.run(cands[lo:lo + 40])):
                    if r[0] and r[0].startswith(head): return q
            return None
        size = max(1, len(data['ops']) // 2)
        while time.time() < deadline:
            ops = data['ops']
            q = first([dict(data, ops=ops[:i] + ops[i + size:]) for i in range(0, len(ops), size)])
            if q: data = q
            elif size == 1: break
            else: size //= 2
        for small in range(2):
            for j in range(len(data['ops'])):
                for f in (1, 2):
                    if time.time() > deadline: break
                    v = data['ops'][j][f]
                    c = [w for w in (0, 1, 2, 3, 5, 8, 256, v % 8, v % 64, v % 4096) if abs(w) < abs(v)]
                    q = first([dict(data, ops=data['ops'][:j] + [[w if g == f else x for g, x in enumerate(data['ops'][j])]] + data['ops'][j + 1:]) for w in c])
                    if q: data = q
        return data, self.replay(data) or why

    def describe(self, data):
        return {'operations.txt': '%s\n' % self.kinds[data['kind']] + ''.join('%d %d %d\n' % tuple(o) for o in data['ops'])}


prop = C18()
