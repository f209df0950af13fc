"""Common parts of the preprocessor properties C12, C13, C14."""
import os
import shutil

from .. import build, gen, oracle, pp
from ..core import Case, Fail, Prop, Scratch, digest, sh


def put(files):
    """Writes files below a fresh directory of this worker."""
    d = os.path.join(Scratch.dir(), 'pp')
    shutil.rmtree(d, ignore_errors=True)
    for n, t in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(t if isinstance(t, bytes) else t.encode('utf-8', 'surrogateescape'))
    return d


class PPProp(Prop):
    def setup(self):
        self.ruc = build.ruc('rel')

    def preprocess(self, files, args, cwd=''):
        """(exit code, tokens, messages) of -E over the files; @ in an argument stands for their directory."""
        d = put(files)
        os.makedirs(os.path.join(d, cwd), exist_ok=True)
        r = sh([self.ruc, '-E'] + [a.replace('@', d) for a in args] + ['-o', 'out.i'], cwd=os.path.join(d, cwd))
        if r.timeout: return 'timeout', []
        p = os.path.join(d, cwd, 'out.i')
        t = ''
        if os.path.exists(p):
            with open(p, encoding='utf-8', errors='replace') as f: t = f.read()
        return r.rc, pp.observed(t), oracle.plain(r.err + r.out)

    def image(self, files, args):
        d = put(files)
        r = sh([self.ruc, '-VM'] + args + ['-o', 'out.vm'], cwd=d)
        if r.timeout: return 'timeout', b''
        if r.rc: return 'exit %d: %s' % (r.rc, oracle.plain(r.err + r.out)[:600]), b''
        with open(os.path.join(d, 'out.vm'), 'rb') as f: return 'ok', f.read()

    def compare(self, files, args, want, cwd=''):
        """None or the reason why -E does not write the tokens wanted."""
        x = self.preprocess(files, args, cwd)
        if x[0] == 'timeout': return 'the preprocessor did not terminate'
        rc, got, err = x
        if not rc and 'ошибка' in err: return 'an error is reported and the exit code is 0: ' + err[:300]
        if rc: return 'rejected (exit %d): %s' % (rc, err[:500])
        if got != want:
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            return 'token %d: expected %s, got %s' % (i, ' '.join(want[max(0, i - 3):i + 8]), ' '.join(got[max(0, i - 3):i + 8]))
        return None

    def same_image(self, src, files, args):
        a, ia = self.image({'main.c': src}, ['main.c'])
        if a != 'ok': return None
        b, ib = self.image(files, args)
        if b != 'ok': return 'the factored program is not accepted: ' + b
        if ia != ib: return 'the factored program gives another image'
        return None

    def modelled(self, nodes, rnd, trivial):
        """One case of the relation to the reference model."""
        w = self.model(nodes)
        if w is None: return Case(trivial=True)
        st = pp.Styled(rnd, rnd.choice([0.1, 0.3]), crlf=rnd.random() < 0.05) if rnd.random() < 0.5 else pp.Plain()
        src = pp.render(nodes, st)
        bad = self.compare({'main.c': src}, ['main.c'], w[0])
        c = Case(trivial=trivial(w[1]), key=digest(src), sample=src[:900], tags=dict({'model': 1}, **{k: 1 for k in w[1]}))
        if bad: c.fail = Fail(why=bad, data={'kind': 'nodes', 'nodes': nodes, 'src': src, 'want': w[0]})
        return c

    def rejected(self, files, args, core=None):
        """One case where a diagnostic is due."""
        c = Case(trivial=False, key=digest(repr(files)), sample=str(files)[:600], tags={'rejected': 1})
        w = self.rejects(files, args)
        if w: c.fail = Fail(why=w, data={'kind': 'reject', 'files': files, 'args': args, 'core': core})
        return c

    def model(self, nodes):
        """(tokens, statistics) or None."""
        m = pp.Model()
        out = []
        try: m.run(nodes, out)
        except (pp.Undefined, RecursionError, IndexError): return None       # the last: cut by the shrinker into nonsense
        return pp.words('\n'.join(out)), m.stats

    def nodes_fail(self, nodes, src=None):
        w = self.model(nodes)
        if w is None: return None
        return self.compare({'main.c': src or pp.render(nodes, pp.Plain())}, ['main.c'], w[0])

    def replay(self, d):
        if d['kind'] == 'nodes': return self.compare({'main.c': d['src']}, ['main.c'], d['want'])
        if d['kind'] == 'image': return self.same_image(d['plain'], d['files'], d['args'])
        if d['kind'] == 'tokens': return self.compare(d['files'], d['args'], d['want'])
        if d['kind'] == 'reject': return self.rejects(d['files'], d['args'])
        raise ValueError(d['kind'])

    def rejects(self, files, args, cwd=''):
        x = self.preprocess(files, args, cwd)
        if x[0] == 'timeout': return 'the preprocessor did not terminate'
        if x[0] != 65: return 'expected a diagnostic and exit code 65, got exit code %s' % x[0]
        if 'ошибка' not in x[2]: return 'rejected without a diagnostic'
        return None

    def shrink(self, d, why, deadline):
        if d['kind'] == 'reject' and d.get('core') and self.rejects({'main.c': d['core']}, ['main.c']):
            return dict(d, files={'main.c': d['core']}), why + ' (%s)' % d['core'].strip()
        if d['kind'] != 'nodes' or 'nodes' not in d: return d, why
        if self.nodes_fail(d['nodes']) is None: return d, why       # depends on the spelling
        kind = why.split(' ')[0]
        if self.nodes_fail(d['nodes']).split(' ')[0] != kind: return d, why
        ns = pp.minimise(d['nodes'], lambda n: (self.nodes_fail(n) or '').startswith(kind), deadline)
        return {'kind': 'nodes', 'nodes': ns, 'src': pp.render(ns, pp.Plain()), 'want': self.model(ns)[0]}, self.nodes_fail(ns)

    def describe(self, d):
        if 'src' in d: return {'c': d['src'], 'expected.txt': ' '.join(d.get('want', []))}
        out = {n.replace('/', '_'): t for n, t in d['files'].items()}
        if 'plain' in d: out['plain.c'] = d['plain']
        out['command.txt'] = ' '.join(d['args'])
        return out

    def factored(self, rnd, kinds, dirs=('.', )):
        """One case of the end-to-end relation."""
        from .. import factor
        g = gen.generate(rnd, gen.Feat(), size=rnd.choice([0.2, 0.4, 0.7]))
        if g is None: return Case(trivial=True)
        src = g[0].source()
        f = factor.Factor(rnd, src, kinds)
        files, names, flags = f.build(rnd.randint(3, 25))
        args = names + flags + ['-I' + d for d in dirs]
        for d in dirs: files[d + '/empty.txt'] = ''
        w = self.same_image(src, files, args)
        c = Case(trivial=sum(f.done.values()) < 3, key=digest(repr(sorted(files.items()))), sample={'files': {k: v[:500] for k, v in list(files.items())[:3]}, 'args': args},
                 tags=dict({'factored': 1}, **{'by-' + k: v for k, v in f.done.items()}))
        if w: c.fail = Fail(why=w, data={'kind': 'image', 'plain': src, 'files': files, 'args': args})
        return c
