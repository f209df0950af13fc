"""Check runner: seeded parallel case generation, evidence, shrinking, replay, known findings."""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import build

VERIF = build.VERIF
CASE_TIMEOUT = 30


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK): return d
    return tempfile.gettempdir()


class Scratch:
    """A private directory of this process, removed with the check's own root."""
    root = None
    own = None
    pid = None

    @classmethod
    def dir(cls):
        if cls.own is None or cls.pid != os.getpid():
            if cls.root is None:
                cls.root = tempfile.mkdtemp(prefix='rucpbt-', dir=scratch_root())
            cls.pid = os.getpid()
            cls.own = os.path.join(cls.root, str(cls.pid))
            os.makedirs(cls.own, exist_ok=True)
        return cls.own

    @classmethod
    def cleanup(cls):
        if cls.root: shutil.rmtree(cls.root, ignore_errors=True)


ENV = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'LC_ALL': 'C.UTF-8', 'HOME': '/nonexistent',
       'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:handle_abort=1',
       'UBSAN_OPTIONS': 'print_stacktrace=0:exitcode=99'}


class Run:
    __slots__ = ('rc', 'out', 'err', 'timeout')

    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))


def sh(cmd, cwd=None, stdin=None, timeout=CASE_TIMEOUT, env=None):
    """Run a command; output is captured through files so that nothing can block."""
    p = subprocess.Popen(cmd, cwd=cwd or Scratch.dir(), stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV, preexec_fn=_limits if False else None)
    waited = 0
    while True:
        try:
            out, err = p.communicate(stdin, timeout=timeout)
            return Run(p.returncode, out, err)
        except subprocess.TimeoutExpired:
            stdin, waited = None, waited + timeout
            # a busy machine is not an endless loop: the time counts only when the process had half of it
            if waited < 6 * timeout and _cpu(p.pid) < timeout / 2: continue
            p.kill()
            out, err = p.communicate()
            return Run(-9, out, err, True)


def _cpu(pid):
    """Processor time a process has used, in seconds."""
    try:
        with open('/proc/%d/stat' % pid) as f: t = f.read().rpartition(')')[2].split()
        return (int(t[11]) + int(t[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError): return 1e9


class Case:
    """Outcome of one generated case."""
    __slots__ = ('trivial', 'key', 'sample', 'fail', 'tags', 'n')

    def __init__(self, trivial=False, key=None, sample=None, fail=None, tags=None, n=1):
        self.trivial, self.key, self.sample, self.fail, self.tags, self.n = trivial, key, sample, fail, tags or {}, n


class Fail(dict):
    """A property violation: 'why' (text) and 'data' (JSON-able input that reproduces it)."""


def digest(s):
    if isinstance(s, str): s = s.encode('utf-8', 'surrogateescape')
    return hashlib.sha1(s).hexdigest()[:16]


_prop = None


def _worker(args):
    seed, lo, hi, deadline = args
    res = []
    for i in range(lo, hi):
        if time.time() > deadline: break
        rnd = random.Random('%d/%s/%d' % (seed, _prop.id, i))
        try:
            c = _prop.case(rnd, i)
        except Exception:
            return ('error', traceback.format_exc(), i)
        if c is None: continue
        if c.fail: c.fail['index'] = i
        res.append((c.trivial, c.key, c.sample if (i % 97 == 0 or c.fail) else None, c.fail, c.tags, c.n))
        if c.fail: break
    return ('ok', res, None)


class Prop:
    """One property.  Subclasses define id, technique data and case()/shrink()/replay()."""
    id = None
    rule = ''
    level = 'exploration'
    assumptions = []
    quick = (2000, 60)          # cases, seconds
    thorough = (40000, 600)
    chunk = 8

    def setup(self): pass
    def case(self, rnd, i): raise NotImplementedError
    def replay(self, data):
        """Judge recorded input again: None if the property holds, else a reason."""
        raise NotImplementedError

    def shrink(self, data, why, deadline):
        return data, why

    def extra(self, tier, seed):
        """Further deterministic parts of the check: yields Case."""
        return ()

    def describe(self, data):
        """Human-readable files to put beside a replay: {name: bytes}."""
        return {}


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    with open(p, encoding='utf-8') as f: return json.load(f)['findings']


def save_replay(prop, data, why):
    d = os.path.join(VERIF, 'replays', prop.id)
    os.makedirs(d, exist_ok=True)
    body = json.dumps({'property': prop.id, 'why': why, 'data': data}, ensure_ascii=False, indent=1, sort_keys=True)
    p = os.path.join(d, digest(body) + '.json')
    with open(p, 'w', encoding='utf-8', errors='surrogateescape') as f: f.write(body + '\n')
    for n, b in prop.describe(data).items():
        with open(p[:-5] + '.' + n, 'wb') as f: f.write(b if isinstance(b, bytes) else b.encode('utf-8', 'surrogateescape'))
    return p


def run_check(prop, tier, seed):
    global _prop
    _prop = prop
    t0 = time.time()
    Scratch.dir()
    prop.tier, prop.seed = tier, seed
    prop.setup()
    cases, secs = prop.quick if tier == 'quick' else prop.thorough
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    cases = int(cases * scale)
    deadline = time.time() + secs
    evals, trivial, keys, samples, tags, fails = 0, 0, set(), [], collections.Counter(), []

    def take(trv, key, sample, fail, tg, n):
        nonlocal evals, trivial
        evals += n
        if trv: trivial += 1
        elif isinstance(key, (tuple, list)): keys.update(key)
        elif key is not None: keys.add(key)
        for k, v in tg.items(): tags[k] += v
        if sample is not None and not trv and len(samples) < 8: samples.append(sample)
        if fail: fails.append(fail)

    for c in prop.extra(tier, seed):
        take(c.trivial, c.key, c.sample, c.fail, c.tags, c.n)
    if not fails and cases:
        jobs = [(seed, lo, min(lo + prop.chunk, cases), deadline) for lo in range(0, cases, prop.chunk)]
        workers = min(int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4)), 16)
        with mp.get_context('fork').Pool(workers) as pool:
            for kind, res, i in pool.imap_unordered(_worker, jobs):
                if kind == 'error':
                    pool.terminate()
                    sys.stderr.write('case %s of %s: internal error\n%s' % (i, prop.id, res))
                    return 2
                for r in res: take(*r)
                if fails:
                    pool.terminate()
                    break
    violations = []
    if fails:
        f = fails[0]
        data, why = f['data'], f['why']
        # a violation is believed only if it reproduces every time
        if all(prop.replay(data) for _ in range(3)):
            try:
                d2, w2 = prop.shrink(data, why, time.time() + (60 if tier == 'quick' else 180))
                if all(prop.replay(d2) for _ in range(2)): data, why = d2, w2
            except Exception:
                sys.stderr.write('shrinking failed: ' + traceback.format_exc())
            violations.append((data, why))
        else:
            sys.stderr.write('case %s did not reproduce: %s\n' % (f.get('index'), why))
            tags['unreproducible'] += 1
    lines = []
    for k in known_findings():
        if k['property'] != prop.id or k['status'] != 'known': continue
        w = prop.replay(k['repro'])
        if w: lines.append('KNOWN-FINDING: property=%s %s (%s)' % (prop.id, k['what'], k['id']))
        else: lines.append('note: the recorded finding %s no longer reproduces' % k['id'])
        evals += 1
    for k in known_findings():
        if k['property'] != prop.id or k['status'] != 'fixed' or not k.get('repro') or violations: continue
        w = prop.replay(k['repro'])
        evals += 1
        if w: violations.append((k['repro'], w))
    for l in lines: print(l)
    vio = []
    for data, why in violations:
        p = save_replay(prop, data, why)
        vio.append({'replay': p, 'why': why[:2000]})
        print(why[:1500])
        print('VIOLATION property=%s replay=%s' % (prop.id, p))
    ev = {'property': prop.id, 'tier': tier, 'seed': seed, 'level': prop.level,
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': prop.rule,
                       'samples': samples, 'trivial': trivial, 'features': dict(sorted(tags.items())[:200])},
          'assumptions': prop.assumptions, 'violations': len(vio), 'violation_list': vio, 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', prop.id + '.json')
    with open(p + '.tmp', 'w', encoding='utf-8') as f:
        json.dump(ev, f, ensure_ascii=True, indent=1)
        f.write('\n')
    os.replace(p + '.tmp', p)
    print('%s %s: %d evaluations, %d distinct non-trivial, %.1fs%s' % (prop.id, tier, evals, len(keys), time.time() - t0, '' if not violations else ', VIOLATED'))
    return 1 if violations else 0


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    sys.setrecursionlimit(20000)
    prop = importlib.import_module('pbt.props.' + a.id.lower()).prop
    try:
        if a.replay:
            Scratch.dir()
            prop.tier, prop.seed = a.tier, a.seed
            prop.setup()
            with open(a.replay, encoding='utf-8', errors='surrogateescape') as f: data = json.load(f)['data']
            w = prop.replay(data)
            print(w or 'the property holds on this input')
            if w: print('VIOLATION property=%s replay=%s' % (prop.id, a.replay))
            return 1 if w else 0
        return run_check(prop, a.tier, a.seed)
    finally:
        Scratch.cleanup()
