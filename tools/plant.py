#!/usr/bin/env python3
"""plant.py: makes one planted bug. usage: plant.py SPEC.py; SPEC defines ID, PROP, FILE edits, DEMO, PKG, NEEDS, BREAKS.
Works in a scratch copy of /repo, keeps the bug under /verif/seeded/ID only when everything is confirmed."""
import sys,os,subprocess,json,shutil,runpy
s=runpy.run_path(sys.argv[1]); ID=s['ID']
W='/tmp/plant-'+ID
shutil.rmtree(W,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',W])
def sh(c,cwd=W,env=None):
    r=subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,env=env); return r.returncode,r.stdout+r.stderr
for f,a,b in s['EDITS']:
    t=open(f'{W}/{f}').read(); assert t.count(a)==1,(f,a,t.count(a)); open(f'{W}/{f}','w').write(t.replace(a,b))
sh('gofmt -l pkg cmd')
D='/verif/seeded/'+ID
os.makedirs(D,exist_ok=True)
rc,d=sh('git diff'); open(D+'/patch.diff','w').write(d)
open(D+'/demo_test.go.txt','w').write(s['DEMO'])
env=s.get('ENV','')
open(D+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the code behaves, nonzero when it does not
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp /tmp/vfdemo.XXXXXX)
export HOME="${{HOME:-/root}}"
cat > "$o" <<EOF
{{"Replace": {{"$PWD/{s['PKG']}/zz_demo_test.go": "$d/demo_test.go.txt"}}}}
EOF
GOFLAGS= GOPROXY=off GOTOOLCHAIN=local {env} timeout 200 go test -vet=off -count=1 -overlay "$o" -run '^TestZZDemo$' ./{s['PKG']}{s.get('POST','')}
''')
json.dump({"property":s['PROP'],"needs":s['NEEDS'],"what_it_breaks":s['BREAKS']},open(D+'/meta.json','w'),indent=1)
ok=True
rc,o=sh(f'bash {D}/demo.sh',cwd='/repo')
if rc: ok=False; print('demo fails on unchanged',o[-1500:])
rc,o=sh(f'bash {D}/demo.sh')
if rc==0: ok=False; print('demo passes with patch',o[-500:])
elif s.get('SHOW'): print(o[-1500:])
rc,o=sh('go vet ./pkg/... >/dev/null 2>&1; go build ./... && GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/wasm && go test -count=3 ./... 2>&1 | grep -v "no test files"')
if rc or 'FAIL' in o: ok=False; print('build/tests',o[-1500:])
shutil.rmtree(W)
if not ok:
    shutil.rmtree(D)
print(ID,'KEPT' if ok else 'DROPPED')
