#!/usr/bin/env python3
"""seed.py ID...: make seeded/<ID>/ from tools/seeds_table.py, confirm it in a scratch copy, and run checks against it.

A scratch copy of /repo is made in /tmp/w/m (build.sh and run_tests.py of /opt/vp are run on it with the path replaced)."""
import json
import os
import shutil
import subprocess
import sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUT, MT = '/tmp/w/m', '/tmp/w/mt'
SEEDS = {}


def sh(cmd, **k): return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


PRE = '''#!/bin/bash
# exit 0: the behaviour is right; run in the repository's root after the build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
ruc=$PWD/_build/Release/ruc
export LC_ALL=C.UTF-8
'''


def vm(src, want, inp=''):
    """demonstration: a program, run on the harness's VM interpreter"""
    return {'prog.c': src, 'want.txt': want, 'input.txt': inp, 'rucvm.cpp': open(HERE + '/harness/rucvm.cpp', encoding='utf-8').read()}, PRE + '''g++ -O1 -w "$here/rucvm.cpp" -o "$t/vm" || exit 3
"$ruc" -VM "$here/prog.c" -o "$t/out" || exit 1
timeout 20 "$t/vm" run "$t/out" 4000000 "$here/input.txt" >"$t/got" 2>"$t/status"
cat "$t/status"
grep -q '^#status ok' "$t/status" || exit 1
cmp "$t/got" "$here/want.txt" || exit 1
'''


def ll(src, want):
    return {'prog.c': src, 'want.txt': want}, PRE + '''"$ruc" -LLVM "$here/prog.c" -o "$t/out.ll" || exit 1
clang++-14 "$t/out.ll" -o "$t/exe" 2>"$t/err" || { cat "$t/err"; exit 1; }
timeout 20 "$t/exe" >"$t/got"
cmp "$t/got" "$here/want.txt" || exit 1
'''


def same(a, b, target='-VM'):
    return {'a.c': a, 'b.c': b}, PRE + '''"$ruc" %s "$here/a.c" -o "$t/a" || exit 1
"$ruc" %s "$here/b.c" -o "$t/b" || exit 1
cmp "$t/a" "$t/b" || exit 1
''' % (target, target)


def script(text, files={}): return dict(files), PRE + text


def driver(src, libs, text='', cxx=False, flags=''):
    """demonstration: a small C program linked with libraries of the tree"""
    srcs = ' '.join('$PWD/libs/%s/*.c' % l for l in libs)
    incs = ' '.join('-I$PWD/libs/%s' % l for l in libs)
    return {'demo.c': src}, PRE + 'gcc -std=gnu11 -w %s -D_POSIX_C_SOURCE=200809L %s "$here/demo.c" %s -o "$t/demo" -lm || exit 3\ncd "$t"\ntimeout 60 ./demo || exit 1\n' % (flags, incs, srcs) + text


def seed(id, prop, edits, needs, breaks, demo): SEEDS[id] = (prop, edits, needs, breaks, demo)


exec(open(os.path.join(HERE, 'tools', 'seeds_table.py'), encoding='utf-8').read())


def pristine():
    if not os.path.isdir(MUT):
        shutil.copytree('/repo', MUT, symlinks=True, ignore=shutil.ignore_patterns('_build'))
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (MUT, MUT))


def main(ids, checks, quick):
    for id in ids:
        prop, edits, needs, breaks, demo = SEEDS[id]
        pristine()
        if not quick:
            sh(['bash', MT + '/build.sh'])
        d = os.path.join(HERE, 'seeded', id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        files, text = demo
        for n, c in files.items():
            with open(os.path.join(d, n), 'wb') as f: f.write(c if isinstance(c, bytes) else c.encode('utf-8'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f: f.write(text)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        with open(os.path.join(d, 'meta.json'), 'w') as f: json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, f, ensure_ascii=False, indent=1)
        if not quick:
            r = sh(['bash', d + '/demo.sh'], cwd=MUT)
            clean = r.returncode
            if clean: print(id, 'demo fails on the unchanged tree', r.stdout[-600:])
        for f, old, new in edits:
            p = os.path.join(MUT, f)
            b = open(p, 'rb').read()
            o, n = old.encode(), new.encode()
            if b'\r\n' in b: o, n = o.replace(b'\n', b'\r\n'), n.replace(b'\n', b'\r\n')
            assert b.count(o) == 1, (id, f, old, b.count(o))
            open(p, 'wb').write(b.replace(o, n))
        r = subprocess.run(['git', '-C', MUT, 'diff', '--binary'], stdout=subprocess.PIPE)
        open(os.path.join(d, 'patch.diff'), 'wb').write(r.stdout)
        if not quick:
            r = sh(['bash', MT + '/build.sh'])
            if r.returncode:
                print(id, 'BUILD FAILS', r.stdout[-1500:])
                continue
            r = sh(['bash', d + '/demo.sh'], cwd=MUT)
            sh(['python3', MT + '/run_tests.py', '/tmp/w/mt/out.json'], env=dict(os.environ, LC_ALL='C.UTF-8'))
            t = json.load(open('/tmp/w/mt/out.json'))
            lost = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(t['passed'])
            print(id, prop, 'demo clean=%d mutant=%d, lost tests: %d %s' % (clean, r.returncode, len(lost), sorted(lost)[:2]), '' if clean == 0 and r.returncode and not lost else '  <-- INVALID')
        for c in (checks or [prop]):
            r = sh([HERE + '/check', c], cwd=HERE, env=dict(os.environ, RUC_REPO=MUT, RUC_BUILD='/tmp/w/mbuild', VERIF_SEED='1'))
            RES = HERE + '/tools/seed_results.json'
            res = json.load(open(RES)) if os.path.exists(RES) else {}
            res.setdefault(id, {})[c] = {0: 'missed', 1: 'caught'}.get(r.returncode, 'error')
            with open(RES, 'w') as f: json.dump(res, f, indent=1, sort_keys=True)
            print('   ', c, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'ERROR'), '|', ' / '.join(l[:160] for l in r.stdout.strip().splitlines()[-3:-1] if 'KNOWN' not in l), '|', r.stdout.strip().splitlines()[-1][-40:])
            sys.stdout.flush()
    pristine()


if __name__ == '__main__':
    a = sys.argv[1:]
    quick = '-q' in a
    checks = [x[1:] for x in a if x.startswith('+')]
    ids = [x for x in a if x[0] not in '-+'] or list(SEEDS)
    main(ids, checks, quick)
