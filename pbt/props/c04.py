"""Every image written for the virtual machine is well formed."""
import re

from .. import build, gen, oracle
from ..core import Case, Fail, digest, sh
from .sem import Semantics


class C04(Semantics):
    id = 'C04'
    swarm = [k for k, v in gen.Feat.DEFAULT.items() if v is True]
    quick = (24000, 45)
    thorough = (400000, 700)
    chunk = 16
    rule = ('a case is non-trivial when the image holds at least two functions, 60 instructions and 4 jumps; distinct means '
            'distinct image')
    assumptions = ['the image format is the one the code generator documents: a header and five tables of decimal numbers']

    def setup(self):
        self.ruc = build.ruc('rel')
        self.vm = build.tool('rucvm.cpp')

    def look(self, src):
        r, o = oracle.compile_(self.ruc, src)
        if r.timeout: return 'the compiler did not terminate', None, None
        if r.rc: return 'the compiler rejected the program (exit %d): %s' % (r.rc, oracle.plain(r.err)[:600]), None, None
        x = sh([self.vm, 'verify', o])
        m = re.search(rb'#ok instrs=(\d+) funcs=(\d+) jumps=(\d+) literals=(\d+) idents=(\d+)', x.err)
        with open(o, 'rb') as f: image = f.read()
        if not m: return 'the image is malformed: ' + x.err.decode('utf-8', 'replace')[:500], None, image
        return None, [int(v) for v in m.groups()], image

    def judge(self, src, *rest):
        return self.look(src)[0]

    def kind(self, w): return re.sub(r'[-\d]+', 'N', w)[:60]

    def case(self, rnd, i):
        seed = rnd.getrandbits(60)
        g = self.make(seed)
        if g is None: return Case(trivial=True)
        p, out, st, counts = g
        src = p.source()
        w, n, image = self.look(src)
        if w: return Case(fail=Fail(why=w, data={'source': src, 'input': '', 'want': '', 'status': 'ok', 'seed': seed}))
        return Case(trivial=n[1] < 2 or n[0] < 60 or n[2] < 4, key=digest(image), sample={'source': src[:1200], 'image': dict(zip(('instructions', 'functions', 'jumps', 'literals', 'identifiers'), n))},
                    tags={'instructions': n[0], 'functions': n[1], 'jumps': n[2], 'literals': n[3], 'identifiers': n[4]})


prop = C04()
