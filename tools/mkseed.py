#!/usr/bin/env python3
"""mkseed.py: build seeded/<id> from a python description: edits [(file, old, new)], demo go test."""
import os,subprocess,sys,json,shutil,tempfile
STUB='''# a stand-in for the one dependency that is not in the module cache
mkdir -p "$t/sectools/pkg/converters"
printf 'module github.com/hyp3rd/sectools\\n\\ngo 1.25\\n' > "$t/sectools/go.mod"
cat > "$t/sectools/pkg/converters/c.go" <<'EOF'
package converters

import "errors"

var errR = errors.New("out of range")

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func ToUint32[T integer](v T) (uint32, error) {
	if v < 0 || uint64(v) > 1<<32-1 {
		return 0, errR
	}
	return uint32(v), nil
}
func ToUint[T integer](v T) (uint, error) {
	if v < 0 {
		return 0, errR
	}
	return uint(v), nil
}
func ToInt[T integer](v T) (int, error) {
	if v > 0 && uint64(v) > 1<<63-1 {
		return 0, errR
	}
	return int(v), nil
}
func ToInt64[T integer](v T) (int64, error) {
	if v > 0 && uint64(v) > 1<<63-1 {
		return 0, errR
	}
	return int64(v), nil
}
EOF
cp go.mod "$t/m.mod"; cp go.sum "$t/m.sum"
printf '\\nreplace github.com/hyp3rd/sectools => %s/sectools\\n' "$t" >> "$t/m.mod"
'''
def seed(id,prop,needs,breaks,edits,pkg,test,extra="",stub=False):
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    t=tempfile.mkdtemp(); subprocess.check_call(['cp','-a','/repo',t+'/repo'])
    for f,o,n in edits:
        p=t+'/repo/'+f; s=open(p).read()
        assert s.count(o)>=1,(id,f,'not found',o)
        assert s.count(o)==1,(id,f,'ambiguous',s.count(o))
        open(p,'w').write(s.replace(o,n))
    gof=subprocess.run(['gofmt','-l']+sorted({t+'/repo/'+f for f,_,_ in edits}),capture_output=True,text=True)
    if gof.stdout or gof.stderr: print(id,'gofmt:',gof.stdout,gof.stderr)
    diff=subprocess.check_output(['git','-C',t+'/repo','diff']).decode()
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo_test.go','w').write(test)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    mod=STUB if stub else ''
    if stub: extra='-modfile "$t/m.mod" '+extra
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# exit 0 when the property holds on the given input, nonzero when it is broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d)
trap 'rm -r "$t"' EXIT
printf '{{"Replace":{{"%s/{pkg}/zz_seed_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$d" > "$t/o.json"
{mod}export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local
go test -vet=off -count=1 -timeout 200s -overlay "$t/o.json" -run 'TestSeedDemo$' {extra} ./{pkg}/
''')
    shutil.rmtree(t)
