#!/bin/bash
# seed.sh new ID PROP PKG 'needs' 'breaks'   : /tmp/sw (an edited copy of /repo) + /tmp/demo_test.go -> seeded/ID, then verify
# seed.sh check [ID...]                       : re-verify seeds and run their checks
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
V=/verif/seeded
fresh() { rm -rf /tmp/sw; cp -a /repo /tmp/sw; }
tests() { (cd "$1" && go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | grep -v "^ok" ); }
verify() { # ID
  id=$1; fresh
  (cd /tmp/sw && bash $V/$id/demo.sh >/tmp/demo.out 2>&1) || { echo "$id: demo FAILS on the unchanged tree"; tail -5 /tmp/demo.out; return 1; }
  git -C /tmp/sw apply $V/$id/patch.diff || { echo "$id: patch does not apply"; return 1; }
  (cd /tmp/sw && go build ./...) || { echo "$id: does not build"; return 1; }
  t=$(tests /tmp/sw); [ -z "$t" ] || { echo "$id: TESTS FAIL"; echo "$t" | head -8; return 1; }
  (cd /tmp/sw && bash $V/$id/demo.sh >/tmp/demo.out 2>&1) && { echo "$id: demo PASSES with the patch"; return 1; }
  p=$(python3 -c "import json;print(json.load(open('$V/$id/meta.json'))['property'])")
  r=$(timeout 900 /tmp/gtcheck -prop $p -repo /tmp/sw -verif /tmp/gtev 2>&1); rc=$?
  echo "$id ($p): valid; check exit $rc: $(echo "$r" | grep -v VIOLATION | grep -i "fail\|viol\|:" | head -${LINES_OUT:-1} | cut -c1-230)"
}
(cd /verif/checker && go build -o /tmp/gtcheck ./cmd/gtcheck) || exit 1
mkdir -p /tmp/gtev/evidence; cp /verif/known-findings.txt /tmp/gtev/
case $1 in
fresh) fresh;;
new) id=$2; d=$V/$id; mkdir -p $d
  git -C /tmp/sw diff > $d/patch.diff
  cp /tmp/demo_test.go $d/demo_test.go
  cat > $d/demo.sh <<X
#!/bin/bash
here="\$(cd "\$(dirname "\$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
o="\$(mktemp)"
echo "{\"Replace\":{\"\$PWD/$4/zz_demo_test.go\":\"\$here/demo_test.go\"}}" > "\$o"
go test ${GOTESTFLAGS} -overlay "\$o" -vet=off -run '^TestDemo\$' -count=1 -timeout 120s ./$4
rc=\$?
rm -f "\$o"
exit \$rc
X
  P=$3 N="$5" B="$6" python3 - > $d/meta.json <<'X'
import json,os
print(json.dumps({"property":os.environ["P"],"needs":os.environ["N"],"what_it_breaks":os.environ["B"]},indent=1))
X
  verify $id;;
check) shift; for id in ${@:-$(ls $V)}; do verify $id; done;;
esac
