"""plant(id, prop, [(file, old, new)], demo files {name: text}, needs, breaks): verify and save"""
import json, os, subprocess, shutil, sys
W='/tmp/plant/repo'
GODEMO='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
cp "$here/main.go.txt" "$d/main.go"
sort -u "$repo/go.sum" "$repo/v2/go.sum" > "$d/go.sum"
cat > "$d/go.mod" <<M
module demo

go 1.23

require (
	github.com/loopholelabs/polyglot v0.0.0
	github.com/loopholelabs/polyglot/v2 v2.0.0
)

replace github.com/loopholelabs/polyglot => $repo

replace github.com/loopholelabs/polyglot/v2 => $repo/v2
M
cd "$d" && timeout 250 go run RACEFLAG .
'''
def sh(c, cwd=None, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
BASE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def fresh():
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    sh(f'cp -a /repo {W}')
def plant(id, prop, edits, files, needs, breaks, race=False):
    out=f'/verif/seeded/{id}'
    os.makedirs(out, exist_ok=True)
    for n,t in files.items():
        open(f'{out}/{n}','w').write(t)
    if 'demo.sh' not in files:
        open(f'{out}/demo.sh','w').write(GODEMO.replace('RACEFLAG','-race' if race else ''))
    os.chmod(f'{out}/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(f'{out}/meta.json','w'),indent=1)
    fresh()
    r0=sh(f'bash {out}/demo.sh',cwd=W)
    for f,o,n in edits:
        s=open(f'{W}/{f}').read()
        c=s.count(o)
        if c!=1: print(id,'EDIT matches',c,f); return
        open(f'{W}/{f}','w').write(s.replace(o,n))
    d=sh('git diff',cwd=W).stdout
    open(f'{out}/patch.diff','w').write(d)
    r1=sh(f'bash {out}/demo.sh',cwd=W)
    # tests on /repo itself, then undone
    r=sh(f'git -C /repo apply {out}/patch.diff')
    try:
        b=sh('bash /opt/vp/build.sh')
        t=sh('bash /opt/vp/test.sh /tmp/plant/t.json')
        p=set(json.load(open('/tmp/plant/t.json'))['passed'])
    finally:
        sh('git -C /repo checkout -- .')
    bad=BASE-p
    print(id, 'demo clean',r0.returncode,'demo bug',r1.returncode,(r1.stdout+r1.stderr)[-150:].strip().replace('\n',' | '),'build',b.returncode,'tests broken',len(bad),list(bad)[:3], r.stderr[:100])
    if r0.returncode: print('   CLEAN OUTPUT', (r0.stdout+r0.stderr)[-600:])
    shutil.rmtree(W, ignore_errors=True)
def try_(id):
    m=json.load(open(f'/verif/seeded/{id}/meta.json'))
    r=sh(f'git -C /repo apply /verif/seeded/{id}/patch.diff')
    try:
        c=subprocess.run(['/verif/check',m['property']],capture_output=True,text=True,timeout=900)
    finally:
        sh('git -C /repo checkout -- .')
    print(id,m['property'],'rc',c.returncode,[l[:220] for l in c.stdout.splitlines()][:3], c.stderr[-300:] if c.returncode not in(0,1) else '', flush=True)
if __name__=='__main__':
    ids=sys.argv[1:] or sorted(os.listdir('/verif/seeded'))
    for i in ids: try_(i)
