#!/usr/bin/env python3
# plant.py SPEC.py [--nocheck]: makes /verif/seeded/<id> from a spec (ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO=go test body),
# confirms it on /repo (must be clean): builds, stable tests pass, demo passes without and fails with it; then runs the property's quick check.
import sys, os, json, subprocess, re
spec = {}; exec(open(sys.argv[1]).read(), spec)
ID, PROP = spec['ID'], spec['PROP']
R = '/repo'; D = f'/verif/seeded/{ID}'
def sh(c, **k): return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
assert sh(f'git -C {R} status --porcelain').stdout == '', 'repo not clean'
os.makedirs(D, exist_ok=True)
DEMO_SH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export GOFLAGS="-mod=mod -buildvcs=false"
T=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$T"' EXIT
cp "$D/demo.go.txt" "$T/zz_demo_test.go"
echo "{\\"Replace\\":{\\"$PWD/zygo/zz_demo_test.go\\":\\"$T/zz_demo_test.go\\"}}" > "$T/o.json"
timeout 250 go test -vet=off -count=1 -timeout 200s -overlay "$T/o.json" -run TestZZDemo ./zygo
'''
PRE = '''package zygo

import (
	"fmt"
	"testing"
)

var _ = fmt.Sprint

// zz evaluates src and returns its printed value, or "error".
func zz(env *Zlisp, src string) (s string) {
	v, err := env.EvalString(src + "\\n")
	if err != nil {
		return "error"
	}
	return v.SexpString(nil)
}

func zzStd() *Zlisp {
	env := NewZlisp()
	env.StandardSetup()
	return env
}

func zzWant(t *testing.T, got, want string) {
	t.Helper()
	if got != want {
		t.Fatalf("got %s, want %s", got, want)
	}
}

'''
pre = PRE
imps = spec.get('IMPORTS', [])
if imps: pre = pre.replace('	"testing"\n', '	"testing"\n' + ''.join(f'	"{i}"\n' for i in imps))
open(D+'/demo.go.txt','w').write(pre + 'func TestZZDemo(t *testing.T) {\n' + spec['DEMO'].strip('\n') + '\n}\n' + spec.get('EXTRA',''))
open(D+'/demo.sh','w').write(DEMO_SH); os.chmod(D+'/demo.sh',0o755)
json.dump({"property":PROP,"needs":spec['NEEDS'],"what_it_breaks":spec['BREAKS']}, open(D+'/meta.json','w'), indent=1)
ok = True
r = sh(f'bash {D}/demo.sh', cwd=R)
if r.returncode != 0: print('DEMO FAILS ON CLEAN TREE\n', r.stdout[-1500:], r.stderr[-800:]); ok = False
try:
    for f, a, b in spec['EDITS']:
        p = f'{R}/{f}'; s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p,'w').write(s.replace(a,b))
    open(D+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
    b = sh('bash /opt/vp/build.sh')
    if b.returncode != 0: print('NO BUILD', b.stderr[-1500:]); ok = False
    else:
        r = sh(f'bash {D}/demo.sh', cwd=R)
        if r.returncode == 0: print('DEMO PASSES WITH PATCH'); ok = False
        else: print('demo:', [l for l in r.stdout.splitlines() if 'got' in l or 'panic' in l][:2] or r.stdout[-300:])
        t = sh('bash /verif/tools/tests.sh').stdout
        if 'missing: []' not in t: print('TESTS', t); ok = False
        if ok and '--nocheck' not in sys.argv:
            c = sh(f'timeout 900 ./run.sh check {PROP} quick', cwd='/verif')
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            print('CAUGHT' if c.returncode == 1 and v else f'*** MISSED rc={c.returncode}', ID, PROP, len(v), 'violations')
            if v: print('   ', '\n    '.join(c.stdout.splitlines()[1:4]))
            elif c.returncode: print(c.stdout[-600:], c.stderr[-600:])
finally:
    sh(f'git -C {R} checkout -- .')
blame = 0
print('ok' if ok else '*** NOT OK', ID)
