#!/usr/bin/env python3
"""Makes and confirms a planted bug: seeded/<id>/{patch.diff,demo.sh,demo.c,meta.json}.

mk(id, prop, edits, demo, needs, breaks) edits a scratch copy of /repo under /tmp,
takes the diff, checks that the removed lines belong to the original repository, builds
both trees, runs the demonstration on each, and the repository's stable tests on the
changed one. Nothing is ever written to /repo.
"""
import json, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '/tmp/seed-base'
DEMO_SH = '''#!/bin/bash
# Exit 0 when the property holds on the tree built in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
dir=$(mktemp -d) || exit 3
trap 'rm -rf "$dir"' EXIT
gcc -g -O1 -w -D_GNU_SOURCE -D_DEBUG %(flags)s -Iinc "$here/demo.c" %(lib)s \\
  -o "$dir/demo" -lpthread -lrt -lm -ldl || exit 3
export TZ=UTC
ulimit -c 0
cd "$dir" && timeout %(tmo)d ./demo
'''
LIB = '_build/main/deploy/debug/linux_x64/liblcu_a.a'

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)

def copy(dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst + '/repo')
    sh(f'git -C /repo archive HEAD | tar -x -C {dst}/repo', check=True)
    for f in ('build.sh', 'test.sh', 'run_demo.py', 'results.py'):
        s = re.sub(r'/repo\b', dst + '/repo', open('/opt/vp/' + f).read()).replace('/opt/vp', dst)
        open(f'{dst}/{f}', 'w').write(s)

def base():
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    mark = BASE + '/head'
    if not (os.path.exists(mark) and open(mark).read() == head):
        copy(BASE)
        r = sh(f'bash {BASE}/build.sh')
        assert r.returncode == 0, r.stdout[-2000:] + r.stderr[-2000:]
        open(mark, 'w').write(head)

def mk(id, prop, edits, demo, needs, breaks, flags='', lib=LIB, tmo=60, tests=True, checks=True):
    base()
    out = f'{VERIF}/seeded/{id}'
    dst = f'/tmp/seed-{id}'
    copy(dst)
    os.makedirs(out, exist_ok=True)
    root = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
    for path, a, b in edits:
        p = f'{dst}/repo/{path}'
        s = open(p, newline='').read()
        if '\r\n' in s:
            a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        assert s.count(a) == 1, (id, path, s.count(a), a)
        open(p, 'w', newline='').write(s.replace(a, b))
    # diff
    files = sorted({e[0] for e in edits})
    diff = ''
    for f in files:
        d = subprocess.run(['diff', '-u', '--label', 'a/' + f, '--label', 'b/' + f, f'{BASE}/repo/{f}', f'{dst}/repo/{f}'],
                           capture_output=True).stdout
        diff += f'diff --git a/{f} b/{f}\n' + d.decode('latin-1')
    open(f'{out}/patch.diff', 'w', encoding='latin-1', newline='').write(diff)
    r = sh(f'git -C /repo apply --check {out}/patch.diff')
    assert r.returncode == 0, (id, r.stderr)
    # removed lines must be the original's
    bl = {}
    for f in files:
        cur = None
        o = sh(f'git -C /repo blame -l --root HEAD -- {f}').stdout.split('\n')
        bl[f] = [l.split(' ')[0].lstrip('^') for l in o]
    f = None; mine = 0; orig = 0
    for l in diff.split('\n'):
        if l.startswith('--- a/'): f = l[6:].rstrip('\r'); continue
        m = re.match(r'@@ -(\d+)', l)
        if m: n = int(m[1]); continue
        if l.startswith('-') and not l.startswith('---'):
            if bl[f][n - 1].startswith(root[:30]): orig += 1
            else: mine += 1
            n += 1
        elif l.startswith(' '): n += 1
    open(f'{out}/demo.c', 'w').write(demo)
    open(f'{out}/demo.sh', 'w').write(DEMO_SH % dict(flags=flags, lib=lib, tmo=tmo))
    os.chmod(f'{out}/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f'{out}/meta.json', 'w'), indent=1)
    r = sh(f'bash {dst}/build.sh')
    assert r.returncode == 0, (id, r.stdout[-3000:] + r.stderr[-1000:])
    demo_copy = f'/tmp/seed-{id}/demo'
    shutil.copytree(out, demo_copy)
    d0 = sh(f'bash {demo_copy}/demo.sh', cwd=f'{BASE}/repo')
    d1 = sh(f'bash {demo_copy}/demo.sh', cwd=f'{dst}/repo')
    res = f'{id}: removed orig={orig} mine={mine} demo base={d0.returncode} patched={d1.returncode}'
    if d0.returncode: res += '\n BASE OUT ' + (d0.stdout + d0.stderr)[-600:]
    ok = d0.returncode == 0 and d1.returncode not in (0, 3) and orig > 0 and mine == 0
    if tests:
        r = sh(f'bash {dst}/test.sh {dst}/o.json')
        b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(f'{dst}/o.json'))
        miss = set(b['stable']) - set(o['passed'])
        res += f' tests missing={sorted(miss)}'
        ok = ok and not miss
    if checks:
        r = sh(f'VP_REPO={dst}/repo VP_OUT={dst}/out VERIF_SEED=1 timeout 900 python3 {VERIF}/run.py {prop} quick')
        v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
        res += f' check exit={r.returncode} {v[:1]}'
        if r.returncode != 1: res += '\n  MISSED ' + r.stdout[-300:]
    print(('OK  ' if ok else 'BAD ') + res, flush=True)
    shutil.rmtree(dst, ignore_errors=True)
    return ok
