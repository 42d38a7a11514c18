#!/bin/bash
# seed.sh ID PKG PROPERTY "needs" "breaks": records the working-tree change of /tmp/seed/repo (a copy of /repo)
# as /verif/seeded/ID with the demonstration /tmp/seed/demo_test.go (package PKG, test TestDemo), after checking it.
ID=$1 PKG=$2 PROP=$3
D=/verif/seeded/$ID
R=/tmp/seed/repo
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
mkdir -p $D
git -C $R diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/seed/demo_test.go $D/demo_test.go
cat > $D/demo.sh <<X
#!/bin/bash
# run in the root of the repository: 0 if the property holds for the demonstrated input
D=\$(cd "\$(dirname "\$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
ov=\$(mktemp)
printf '{"Replace":{"%s/$PKG/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$D" > "\$ov"
timeout 200 go test -vet=off -count=1 -overlay "\$ov" -run '^TestDemo\$' ./$PKG
rc=\$?
rm -f "\$ov"
exit \$rc
X
python3 - "$D" "$PROP" "$4" "$5" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[4-1],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
X
cd $R
pk=$(go list -e ./... | grep -v '/examples$')
go build $(go list -e -f '{{if or .GoFiles .CgoFiles}}{{.ImportPath}}{{end}}' ./... | grep -v '/examples$') || { echo BUILD FAILS; exit 1; }
go test -json -vet=off -count=1 -timeout 10m $pk > /tmp/seed/log 2>/dev/null
python3 /opt/vp/results.py /tmp/seed/t.json gojson:/tmp/seed/log
python3 - <<'X'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/seed/t.json'))
p=set(t.get('passed') or [k for k,v in t.items() if v in('pass','passed')])
m=[x for x in b if x not in p]; print('stable tests broken:',m)
X
bash $D/demo.sh > /tmp/seed/d1 2>&1; a=$?
git -C $R checkout -q -- .
bash $D/demo.sh > /tmp/seed/d0 2>&1; b=$?
echo "demo with patch: $a  without: $b"
grep -m3 -E 'demo|panic' /tmp/seed/d1
[ $b = 0 ] || tail -5 /tmp/seed/d0
