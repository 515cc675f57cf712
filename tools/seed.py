#!/usr/bin/env python3
"""seed.py make BATCH.py...   write /verif/seeded/<id> from batch files (lists of dicts)
seed.py confirm ID...      applies, builds, passes the tests, demo good on /repo and bad on the change
seed.py detect ID...       run the property's quick check on a changed copy
Copies live below /tmp/seed and are removed."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
SEEDED = '/verif/seeded'
TMP = '/tmp/seed'
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off')
DEMO = r'''#!/bin/bash
# Exit status 0: /repo (the working directory) behaves as the property says.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cp "$here"/main.go "$tmp"/
printf 'module github.com/google/licensecheck/demo\n\ngo 1.21\n\nrequire github.com/google/licensecheck v0.0.0\n\nreplace github.com/google/licensecheck => %s\n' "$repo" >"$tmp"/go.mod
cd "$tmp" && go build @FLAGS@-o demo . && @RUN@./demo
'''

def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, shell=isinstance(cmd, str))
    return p.returncode, p.stdout.decode('utf8', 'replace')

def make(batch):
    ns = {}
    exec(open(batch).read(), ns)
    for b in ns['BUGS']:
        d = f"{SEEDED}/{b['id']}"
        w = f"{TMP}/make.{b['id']}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        sh(f'git -C /repo archive HEAD | tar x -C {w}')
        sh('git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x', cwd=w)
        ok = True
        for f, old, new in b['edits']:
            s = open(f'{w}/{f}').read()
            if s.count(old) != 1:
                print(b['id'], 'edit occurs', s.count(old), 'times:', old[:60]); ok = False; continue
            open(f'{w}/{f}', 'w').write(s.replace(old, new))
        if not ok: continue
        rc, fm = sh('gofmt -l ' + ' '.join({e[0] for e in b['edits']}), cwd=w)
        for f in fm.split():
            if f in ('licenses/getcc.go','scan.go','license.go','internal/match/regexp.go','internal/match/rematch.go','internal/match/dict.go','old/license.go','licenses/getspdx.go','gen_data.go','internal/match/resyntax.go','old/normalize.go'):
                pass # doc comment style differs from new gofmt
        os.makedirs(d, exist_ok=True)
        rc, diff = sh('git diff', cwd=w)
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/meta.json', 'w').write(json.dumps({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n')
        if 'demo_sh' in b:
            open(f'{d}/demo.sh', 'w').write(b['demo_sh'])
        else:
            open(f'{d}/demo.sh', 'w').write(DEMO.replace('@FLAGS@', b.get('flags', '')).replace('@RUN@', b.get('run', '')))
        os.chmod(f'{d}/demo.sh', 0o755)
        for name, text in b.get('files', {}).items():
            open(f'{d}/{name}', 'w').write(text)
        if 'demo' in b:
            open(f'{d}/main.go', 'w').write(b['demo'])
            sh(f'gofmt -w {d}/main.go')
        shutil.rmtree(w)
        print('made', b['id'])

def copy(id, tag):
    w = f'{TMP}/{tag}.{id}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    sh(f'git -C /repo archive HEAD | tar x -C {w}')
    rc, out = sh(f'git init -q && git apply {SEEDED}/{id}/patch.diff', cwd=w)
    return w, (rc, out)

def confirm(id):
    w, (rc, out) = copy(id, 'c')
    try:
        if rc: return id, 'DOES NOT APPLY ' + out
        rc, out = sh('go build ./... && for f in gen_data.go licenses/getcc.go licenses/getspdx.go; do go build -o /dev/null $f || exit 1; done', cwd=w)
        if rc: return id, 'DOES NOT BUILD ' + out[-500:]
        rc, out = sh("go test -vet=off -count=1 $(go list ./... | grep -v '/old$')", cwd=w)
        if rc: return id, 'FAILS TESTS ' + out[-600:]
        d = f'{TMP}/d.{id}'
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(f'{SEEDED}/{id}', d)
        for f in ('patch.diff', 'meta.json'): os.remove(f'{d}/{f}')
        rc0, out0 = sh(f'{d}/demo.sh', cwd='/repo', timeout=300)
        rc1, out1 = sh(f'{d}/demo.sh', cwd=w, timeout=300)
        shutil.rmtree(d)
        if rc0: return id, 'DEMO FAILS ON CLEAN ' + out0[-500:]
        if not rc1: return id, 'DEMO PASSES ON CHANGE ' + out1[-300:]
        return id, 'ok: ' + out1.strip()[-150:].replace('\n', ' / ')
    finally:
        shutil.rmtree(w, ignore_errors=True)

def detect(id, props=None):
    w, (rc, out) = copy(id, 'w')
    prop = json.load(open(f'{SEEDED}/{id}/meta.json'))['property']
    res = []
    for p in props or [prop]:
        t = time.time()
        env = dict(ENV, VERIF_REPO=w, VERIF_OUT=f'{TMP}/out.{id}')
        try:
            q = subprocess.run(['/verif/run.sh', p, 'quick'], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            rc, out = q.returncode, q.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, out = 'timeout', ''
        hit = rc == 1 and f'VIOLATION property={p}' in out
        res.append(f"{p} {'CAUGHT' if hit else 'missed rc=%s' % rc} {time.time()-t:.0f}s")
        if not hit: res.append(out[-400:] if rc not in (0,) else '')
    shutil.rmtree(w, ignore_errors=True)
    shutil.rmtree(f'{TMP}/out.{id}', ignore_errors=True)
    return id, ' '.join(res)

if __name__ == '__main__':
    cmd, args = sys.argv[1], sys.argv[2:]
    os.makedirs(TMP, exist_ok=True)
    if cmd == 'make':
        for a in args: make(a)
    else:
        props = None
        if cmd == 'detect' and args and args[0].startswith('-p'):
            props = args[0][2:].split(','); args = args[1:]
        if not args or args == ['all']: args = sorted(os.listdir(SEEDED))
        f = confirm if cmd == 'confirm' else (lambda i: detect(i, props))
        with ThreadPoolExecutor(4 if cmd == 'confirm' else 1) as ex:
            for id, r in ex.map(f, args): print(id, r, flush=True)
