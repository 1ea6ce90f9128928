#!/bin/bash
# newbug.sh ID PROPERTY PKGDIR "needs" "breaks": makes seeded/ID from the edited tree in /tmp/edit (patch) and /tmp/demo_test.go.
here="$(cd "$(dirname "$0")/.." && pwd)"
s="$here/seeded/$1"; mkdir -p "$s"
git -C /tmp/edit diff > "$s/patch.diff"
cp /tmp/demo_test.go "$s/demo_test.go"
python3 - "$s" "$2" "$4" "$5" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cat > "$s/demo.sh" <<D
#!/bin/bash
# Run in the repository: exit 0 when the property holds for this case.
d="\$(cd "\$(dirname "\$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t="\$(mktemp -d)"; trap 'rm -rf "\$t"' EXIT
printf '{"Replace":{"%s/zz_verif_demo_test.go":"%s/demo_test.go"}}' "\$PWD/$3" "\$d" > "\$t/overlay.json"
go test ${RACE:+-race }-overlay "\$t/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestVerifDemo' ./$3
D
git -C /tmp/edit checkout -q -- .
rm -f /tmp/demo_test.go
