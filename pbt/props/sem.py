"""Shared part of the checks that run generated programs against the reference interpreter."""
import random

from .. import gen, lang, oracle, shrink
from ..core import Case, Fail, Prop, digest


class Semantics(Prop):
    """Generate a program, run it on a back end, compare with the reference interpreter."""
    flags = {}
    swarm = ()                  # features a case may switch off
    rule = ('a case is non-trivial when the reference run executed at least 12 distinct kinds of operation and '
            'produced output; distinct means distinct source text')
    backend = None

    def feat(self, r):
        fl = dict(self.flags)
        if r.random() < 0.6:
            for k in self.swarm:
                if r.random() < 0.3: fl[k] = False
        return gen.Feat(**fl)

    def make(self, seed):
        r = random.Random(seed)
        f = self.feat(r)
        size = r.choice([0.5, 0.8, 1.0, 1.2, 1.7, 2.5])
        return gen.generate(r, f, size=size, exclude=self.exclude)

    def exclude(self, p): return False

    def setup(self):
        self.be = self.backend()

    def judge(self, src, inp, want, status):
        return self.be.judge(src, inp, want, status)

    def case(self, rnd, i):
        seed = rnd.getrandbits(60)
        g = self.make(seed)
        if g is None: return Case(trivial=True)
        p, out, st, counts = g
        src = p.source()
        w = self.judge(src, p.input, out, st)
        c = Case(trivial=len(counts) < 12 or not out, key=digest(src),
                 sample={'source': src[:1500], 'input': p.input, 'output': out[:300]},
                 tags={k: 1 for k in counts})
        if w: c.fail = Fail(why=w, data={'source': src, 'input': p.input, 'want': out, 'status': st, 'seed': seed})
        return c

    def replay(self, d):
        st = d['status']
        return self.judge(d['source'], d['input'], d['want'], tuple(st) if isinstance(st, list) else st)

    def describe(self, d):
        return {'c': d['source']}

    def kind(self, w):
        """Coarse class of a failure, kept while shrinking."""
        for k in ('the compiler rejected', 'the compiler did not', 'wrote no output'):
            if k in w: return k
        return w.split(' with output')[1][-1:] and ('bad' if 'got "bad' in w else 'fault' if 'got fault' in w else 'output')

    def shrink(self, d, why, deadline):
        if 'seed' not in d: return d, why
        g = self.make(d['seed'])
        if not g or g[0].source() != d['source']: return d, why
        kind = self.kind(why)

        def still(q):
            if self.exclude(q): return False
            o, t = lang.Interp(q).run()
            w = self.judge(q.source(), q.input, o, t)
            return bool(w) and self.kind(w) == kind

        p = shrink.shrink_program(g[0], still, deadline)
        o, t = lang.Interp(p).run()
        w = self.judge(p.source(), p.input, o, t)
        if not w: return d, why
        return {'source': p.source(), 'input': p.input, 'want': o, 'status': t}, w
