#!/bin/bash
# seedadd.sh ID PKG: the planted bug is the uncommitted change in /tmp/wt, its demonstration /tmp/demo.go.txt,
# its description /tmp/meta.json; keeps it under seeded/ID when everything about it is confirmed.
set -u
id=$1; pkg=$2; wt=/tmp/wt; d=/verif/seeded/$id
mkdir -p "$d"
git -C $wt diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp /tmp/demo.go.txt "$d/demo.go.txt"; cp /tmp/meta.json "$d/meta.json"
python3 -c "import json;json.load(open('$d/meta.json'))" || exit 1
dir=./$pkg; [ "$pkg" = . ] && dir=.
RACE=${RACE:-}
cat > "$d/demo.sh" <<S
#!/bin/sh
# exit 0: the property holds on this input
D=\$(cd "\$(dirname "\$0")" && pwd)
O=\$(mktemp)
printf '{"Replace": {"%s/$pkg/zz_demo_test.go": "%s/demo.go.txt"}}' "\$PWD" "\$D" > "\$O"
go test $RACE -overlay "\$O" -vet=off -count=1 -timeout 200s -run '^TestDemo' $dir
rc=\$?
rm -f "\$O"
exit \$rc
S
chmod +x "$d/demo.sh"
cd $wt || exit 1
go build ./... || exit 1
go vet . ./engine >/dev/null 2>&1 || echo "note: vet complains"
go test -count=1 ./... > /tmp/seedtest.log 2>&1 || { echo "EXISTING TESTS FAIL"; tail -20 /tmp/seedtest.log; exit 1; }
"$d/demo.sh" > /tmp/demo.log 2>&1 && { echo "DEMO PASSES WITH THE BUG"; tail /tmp/demo.log; exit 1; }
grep -q "build failed" /tmp/demo.log && { echo "DEMO DOES NOT BUILD"; tail /tmp/demo.log; exit 1; }
git -C $wt checkout -q -- .
for i in 1 2 3; do "$d/demo.sh" > /tmp/demo0.log 2>&1 || { echo "DEMO FAILS WITHOUT THE BUG"; tail -20 /tmp/demo0.log; exit 1; }; done
git -C /repo apply --check "$d/patch.diff" || exit 1
grep -m3 -E "^\s+zz_demo|panic:|demo" /tmp/demo.log
echo "kept $id"
