#!/usr/bin/env python3
"""seed.py ID PROP PKG NEEDS WHAT: turn the diff in /tmp/wt (a scratch copy of /repo) and
/tmp/demo_test.go into /verif/seeded/ID, after checking that it builds, passes the stable
tests and that the demonstration fails with it and passes without it."""
import json,os,subprocess,sys,shutil
sid,prop,pkg,needs,what=sys.argv[1:6]
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',TZ='UTC')
d='/verif/seeded/'+sid
diff=subprocess.run(['git','-C','/tmp/wt','diff'],capture_output=True,text=True).stdout
assert diff.strip(),'no diff'
os.makedirs(d,exist_ok=True)
open(d+'/patch.diff','w').write(diff)
shutil.copy('/tmp/demo_test.go',d+'/demo_test.go.txt')
open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0 when the property holds on this input, nonzero when it does not
D="$(cd "$(dirname "$0")" && pwd)"
export PATH=/usr/local/go/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TZ=UTC
R="$(pwd)"
mkdir -p client/dist/assets; [ -e client/dist/assets/.dummy ] || touch client/dist/assets/.dummy
T="$(mktemp -d)"; trap 'rm -rf "$T"' EXIT
cp "$D/demo_test.go.txt" "$T/demo_test.go"
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$R" "$T" > "$T/o.json"
TMPDIR="$T" go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s -run 'TestDemo$' ./PKG
'''.replace('PKG',pkg))
os.chmod(d+'/demo.sh',0o755)
json.dump(dict(property=prop,needs=needs,what_it_breaks=what),open(d+'/meta.json','w'),indent=1)
def run(cmd,cwd): return subprocess.run(cmd,cwd=cwd,env=env,capture_output=True,text=True)
r=run(['bash',d+'/demo.sh'],'/repo')
if r.returncode: print('DEMO FAILS ON BASE',r.stdout[-1500:],r.stderr[-500:]); sys.exit(1)
r=run(['bash',d+'/demo.sh'],'/tmp/wt')
if r.returncode==0: print('DEMO PASSES WITH PATCH'); sys.exit(1)
print('demo with patch:',r.stdout[-400:])
if 'build failed' in r.stdout: print('DEMO BUILD FAILED'); sys.exit(1)
r=run(['go','build','./...'],'/tmp/wt')
if r.returncode: print('BUILD',r.stderr); sys.exit(1)
r=run(['go','test','-vet=off','-count=1','./...'],'/tmp/wt')
bad=[l for l in r.stdout.split('\n') if l.startswith('--- FAIL') or l.startswith('FAIL')]
if bad: print('TESTS FAIL',bad[:10]); sys.exit(1)
subprocess.run(['git','-C','/tmp/wt','checkout','-q','--','.'])
print('OK',sid)
