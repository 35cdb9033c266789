#!/usr/bin/env python3
"""seed.py ID PROP FILE OLD NEW DEMO_GO NEEDS BREAKS  (development helper: makes /verif/seeded/ID and confirms it)
DEMO_GO is the body of a Go test function using parser.Parse; it must t.Fatal when the property is broken."""
import sys, os, subprocess, json, shutil
def seed(id, prop, edits, demo, needs, breaks, imports=()):
    W='/tmp/seed/'+id
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(['cp','-a','/repo',W])
    for f,old,new in edits:
        p=os.path.join(W,f); s=open(p).read()
        if s.count(old)!=1: raise SystemExit('%s: %d matches in %s' % (id, s.count(old), f))
        open(p,'w').write(s.replace(old,new))
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    diff=subprocess.check_output(['git','-C',W,'diff'],text=True)
    open(d+'/patch.diff','w').write(diff)
    imps=''.join('\t"%s"\n'%i for i in sorted(set(['testing','github.com/shellyln/go-open-soql-parser/soql/parser'])|set(imports)))
    open(d+'/demo_test.go.txt','w').write('package parser_test\n\nimport (\n'+imps+')\n\nfunc TestDemo(t *testing.T) {\n'+demo.rstrip()+'\n}\n')
    open(d+'/demo.sh','w').write('''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOWORK=off CGO_ENABLED=0
repo=$(pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$repo/soql/parser/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" > "$tmp/ov.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/ov.json" -run 'TestDemo$' ./soql/parser
''')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+'/meta.json','w'), indent=1)
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=W,capture_output=True,text=True)
    env=dict(os.environ,GOFLAGS='-mod=mod -buildvcs=false',GOPROXY='off',GOTOOLCHAIN='local',GOSUMDB='off')
    rt=subprocess.run(['go','test','-vet=off','-count=1','./...'],cwd=W,env=env,capture_output=True,text=True)
    ok = r0.returncode==0 and r1.returncode!=0 and 'FAIL' not in rt.stdout.replace('no test files','')
    print(id,'OK' if ok else 'BAD', r0.returncode, r1.returncode, rt.returncode)
    if not ok: print(r0.stdout[-1500:], r0.stderr[-500:], r1.stdout[-800:], rt.stdout[-800:])
    else: print('   ', [l for l in r1.stdout.splitlines() if 'zz_demo' in l or 'panic' in l][:2])
    shutil.rmtree(W, ignore_errors=True)
    return ok
if __name__=='__main__':
    exec(open(sys.argv[1]).read())
