import os, subprocess, json, shutil, sys, textwrap
BUGS=[]
DEMO_SH='''#!/bin/bash
# Runs the demonstration beside this script against the tree in the current directory.
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOWORK=off
printf '{"Replace": {"%s/@PKG@/zz_demo_test.go": "%s/demo_test.go"}}\\n' "$PWD" "$D" > "$T/overlay.json"
go test @RACE@-overlay "$T/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' ./@PKG@
'''
PRE='''package @PKGNAME@_test

import (
@IMPORTS@
)

'''
def bug(id, prop, edits, needs, breaks, pkg, imports, demo, race=False, pkgname=None):
    BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,pkg=pkg,imports=imports.split(),demo=textwrap.dedent(demo),race=race,pkgname=pkgname or pkg.split('/')[-1]))
SEEDED='/verif/seeded'
def sh(cmd,cwd=None,timeout=900,env=None):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(cmd,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=timeout,env=e)
    return p.returncode,p.stdout
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def make(b,base):
    d=f'{SEEDED}/{b["id"]}'
    os.makedirs(d,exist_ok=True)
    wt=f'/tmp/wt.{b["id"]}'
    shutil.rmtree(wt,ignore_errors=True)
    sh(f'cp -a {base} {wt}')
    for f,old,new in b['edits']:
        p=f'{wt}/{f}'; s=open(p).read()
        if s.count(old)!=1: return f'edit of {f}: {s.count(old)} matches: {old[:60]!r}'
        open(p,'w').write(s.replace(old,new))
    rc,diff=sh('git diff',cwd=wt)
    open(f'{d}/patch.diff','w').write(diff)
    imps=[]
    for i in b['imports']:
        imps.append('\t"%s"'%i)
    open(f'{d}/demo_test.go','w').write(PRE.replace('@PKGNAME@',b['pkgname']).replace('@IMPORTS@','\n'.join(imps))+b['demo'].lstrip())
    sh(f'gofmt -w {d}/demo_test.go')
    open(f'{d}/demo.sh','w').write(DEMO_SH.replace('@PKG@',b['pkg']).replace('@RACE@','-race ' if b['race'] else ''))
    os.chmod(f'{d}/demo.sh',0o755)
    json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']},open(f'{d}/meta.json','w'),indent=1)
    return None
def verify(b,base):
    d=f'{SEEDED}/{b["id"]}'; wt=f'/tmp/wt.{b["id"]}'
    rc,o=sh(f'{d}/demo.sh',cwd=base)
    if rc!=0: return 'demo fails on the unchanged tree:\n'+o[-1500:]
    env=dict(GOPROXY='off',GOTOOLCHAIN='local',GOFLAGS='-mod=readonly')
    rc,o=sh('go build ./... && go vet ./body ./response ./handler; go test -json ./... > /tmp/wt.%s.json'%b['id'],cwd=wt,env=env)
    rc2,_=sh('go build ./...',cwd=wt,env=env)
    if rc2: return 'does not build '+o[-800:]
    ok=set()
    for l in open('/tmp/wt.%s.json'%b['id']):
        try: j=json.loads(l)
        except: continue
        if j.get('Action')=='pass' and j.get('Test'): ok.add(j['Package']+'/'+j['Test'])
    os.remove('/tmp/wt.%s.json'%b['id'])
    if STABLE-ok: return 'stable tests fail: %s'%(STABLE-ok)
    rc,o=sh(f'{d}/demo.sh',cwd=wt)
    if rc==0: return 'demo passes with the patch'
    return None
def check(b,props=None,tier='quick',extra=''):
    wt=f'/tmp/wt.{b["id"]}'
    r={}
    for p in props or [b['prop']]:
        rc,o=sh(f'REPO={wt} VERIF_SEED=1 /verif/check.sh {p} {tier} {extra}',cwd='/verif')
        v=[l for l in o.splitlines() if l.startswith('VIOLATION')]
        r[p]=(rc, len(v), o[-600:] if (rc not in (0,1) or (rc==1 and not v)) else '')
    return r
