#!/usr/bin/env python3
# newseed.py: plants a bug in a scratch copy, confirms it (build, stable tests, demo) and keeps it under /verif/seeded/<id>.
# usage: as a module: seed(id, prop, needs, breaks, [(file, old, new)...], lisp, expected)
import os,subprocess,json,shutil,tempfile,sys
DEMO='''#!/bin/bash
# cwd /repo, after the build: exit 0 when the interpreter behaves, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
go build -o "$work/gl" ./cmd/gmnlisp || exit 3
cd "$work"
timeout 60 ./gl "$here/demo.lsp" </dev/null >"$work/out" 2>"$work/err"
rc=$?
if ! diff "$here/expected.txt" "$work/out"; then tail -5 "$work/err"; exit 1; fi
exit 0
'''
def sh(cmd,cwd=None,timeout=300):
    r=subprocess.run(cmd,shell=True,cwd=cwd,capture_output=True,text=True,timeout=timeout)
    return r.returncode,r.stdout+r.stderr
GODEMO='''#!/bin/bash
# cwd /repo, after the build: exit 0 when the interpreter behaves, nonzero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
export GOFLAGS=-mod=mod
work=$(mktemp -d) || exit 3
trap 'rm -rf "$work"' EXIT
printf '{"Replace":{"%s/cmd/zzdemo/main.go":"%s/demo.go.txt"}}' "$PWD" "$here" >"$work/overlay.json"
go build -overlay "$work/overlay.json" -o "$work/demo" ./cmd/zzdemo || exit 3
cd "$work"
timeout 60 ./demo </dev/null
'''
def seed(id,prop,needs,breaks,edits,lisp,expected,go=None):
    d='/verif/seeded/'+id
    w=tempfile.mkdtemp(prefix='seed')
    try:
        sh('cp -a /repo/. %s/'%w)
        sh('git checkout -q -- . && git clean -fdq',w)
        for f,o,n in edits:
            s=open(w+'/'+f).read()
            assert s.count(o)==1,(id,f,s.count(o),o)
            open(w+'/'+f,'w').write(s.replace(o,n))
        sh('gofmt -l .',w)
        rc,patch=sh('git diff',w)
        # lines of the original repository must change
        base=sh('git log --format=%h | tail -1',w)[1].strip()
        os.makedirs(d,exist_ok=True)
        open(d+'/patch.diff','w').write(patch)
        open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
        if go is None:
            open(d+'/demo.lsp','w').write(lisp.strip()+'\n')
            open(d+'/expected.txt','w').write(expected)
        else:
            open(d+'/demo.sh','w').write(GODEMO)
            open(d+'/demo.go.txt','w').write(go)
        json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
        rc,o=sh('GOFLAGS=-mod=mod go build ./... && go vet ./... 2>&1 | head -3',w); 
        ok=True
        if rc: print(id,'BUILD',o); ok=False
        rc1,o1=sh('bash %s/demo.sh'%d,w)
        rc0,o0=sh('bash %s/demo.sh'%d,'/repo')
        if rc0: print(id,'demo fails on the unchanged tree',o0); ok=False
        if rc1==0 or rc1==3: print(id,'demo passes with the patch' ,o1); ok=False
        # stable tests
        sh('go test -json -vet=off -count=1 -timeout 3m ./... </dev/null > %s/.t.json'%w,w)
        sh('go build -o %s/.gl ./cmd/gmnlisp && mkdir -p %s/.tw && python3 /opt/vp/lisptests.py %s/.gl %s/.tw > %s/.l.txt'%(w,w,w,w,w),w)
        sh('python3 /opt/vp/results.py %s/.o.json gojson:%s/.t.json lines:%s/.l.txt'%(w,w,w),w)
        b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(w+'/.o.json'))
        base=b['stable']

        miss=[t for t in base if t not in r['passed']]
        if miss: print(id,'STABLE TESTS FAIL',miss[:5]); ok=False
        print(id,'ok' if ok else 'BAD')
        return ok
    finally:
        shutil.rmtree(w,ignore_errors=True)
