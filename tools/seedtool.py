#!/usr/bin/env python3
"""Make and confirm planted bugs (see DESIGN.md, 'Planted bugs').

  seedtool.py mk FILE.py     FILE.py calls mk(id, prop, needs, breaks, edits, pkg, demo)
  seedtool.py verify ID...   confirm everything about planted bugs (works in /repo, undoes it)
"""
import json, os, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('SEED_REPO', '/repo')
DEMO = '''#!/bin/bash
# Runs demo_test.go inside package %(pkg)s; it fails when the property is broken.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" HOME="${HOME:-/root}"
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export TMPDIR=$w
r=$PWD
echo "{\\"Replace\\": {\\"$r/src/%(pkg)s/zz_demo_test.go\\": \\"$d/demo_test.go\\"}}" > "$w/o.json"
cd "$r/src" && go test -vet=off -count=1 -timeout 120s %(flags)s -overlay "$w/o.json" -run '^TestDemo' ./%(pkg)s
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def mk(id, prop, needs, breaks, edits, pkg, demo, flags=''):
    d = f'{V}/seeded/{id}'
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert sh(f'git -C {R} status --porcelain').stdout == '', 'repo not clean'
    try:
        for f, old, new in edits:
            p = f'{R}/src/{f}'
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(f'{d}/patch.diff', 'w').write(sh(f'git -C {R} diff').stdout)
    finally:
        sh(f'git -C {R} checkout -- .')
    open(f'{d}/demo.sh', 'w').write(DEMO % dict(pkg=pkg, flags=flags)); os.chmod(f'{d}/demo.sh', 0o755)
    open(f'{d}/demo_test.go', 'w').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
    print('made', id)

base = json.load(open('/opt/vp/BASELINE.json'))

def stable(b):
    return b if isinstance(b, list) else b.get('tests') or b.get('stable') or b.get('passed')

def verify(id, check=True):
    d = f'{V}/seeded/{id}'
    prop = json.load(open(f'{d}/meta.json'))['property']
    out = [id, prop]
    assert sh(f'git -C {R} status --porcelain').stdout == '', 'repo not clean'
    r = sh(f'bash {d}/demo.sh', cwd=R)
    out.append('demo-clean:' + ('ok' if r.returncode == 0 else 'BAD'))
    if r.returncode: print(r.stdout[-2000:], r.stderr[-2000:])
    try:
        r = sh(f'git -C {R} apply {d}/patch.diff'); assert r.returncode == 0, r.stderr
        # must change lines of the original repository
        root = sh(f'git -C {R} rev-list --max-parents=0 HEAD').stdout.strip()
        orig = set()
        for f in sh(f'git -C {R} ls-tree -r --name-only {root} src').stdout.split():
            orig |= {l.strip() for l in sh(f'git -C {R} show {root}:{f}').stdout.splitlines()}
        minus = [l[1:].strip() for l in open(f'{d}/patch.diff') if l.startswith('-') and not l.startswith('---')]
        own = [l for l in minus if l and l not in orig]
        out.append('orig:%d/own:%d' % (len([l for l in minus if l in orig]), len(own)))
        r = sh('bash /opt/vp/build.sh'); out.append('build:' + ('ok' if r.returncode == 0 else 'BAD ' + r.stderr[:300]))
        r = sh('bash /opt/vp/test.sh /tmp/seed-o.json')
        res = json.load(open('/tmp/seed-o.json'))
        b = stable(base)
        failed = [t for t in b if res_status(res, t) != 'pass']
        out.append('tests:' + ('ok' if not failed else 'BAD %s' % failed[:3]))
        r = sh(f'bash {d}/demo.sh', cwd=R); out.append('demo-bug:' + ('ok' if r.returncode != 0 else 'BAD'))
        if 'build failed' in r.stdout + r.stderr: out.append('DEMO DOES NOT BUILD'); print(r.stderr[-800:])
        if check and os.path.exists(f'{V}/h/cmd/{prop.lower()}/CLAIM'):
            r = sh(f'./check.sh {prop} quick', cwd=V)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            out.append('check:' + ('CAUGHT' if r.returncode == 1 and any(f'property={prop}' in l for l in v) else 'MISSED rc=%d' % r.returncode))
            if v:
                i = r.stdout.splitlines().index(v[0])
                print('   ', '\n    '.join(r.stdout.splitlines()[max(0, i-4):i+3])[:700])
    finally:
        sh(f'git -C {R} checkout -- .')
    print(' '.join(out), flush=True)
    if check:
        caught = 'yes' if 'check:CAUGHT' in out else 'no'
        rf = f'{V}/seed-results.txt'
        m = dict(l.split() for l in open(rf)) if os.path.exists(rf) else {}
        m[id] = caught
        open(rf, 'w').write(''.join(f'{k} {v}\n' for k, v in sorted(m.items())))

def res_status(res, t):
    if isinstance(res, dict):
        if 'passed' in res: return 'pass' if t in set(res['passed']) else 'fail'
        for k in ('tests', 'results'):
            if k in res: return res[k].get(t)
    raise SystemExit('unknown results format')

if __name__ == '__main__':
    if sys.argv[1] == 'mk':
        exec(open(sys.argv[2]).read())
    else:
        ids = sys.argv[2:] or sorted(os.listdir(f'{V}/seeded'))
        for i in ids: verify(i, True)
