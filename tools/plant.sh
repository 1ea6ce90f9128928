#!/bin/bash
# plant.sh ID...: confirms planted bugs (seeded/ID) in a scratch copy of /repo: builds, stable tests pass, demo fails only with the patch; then which checks catch it.
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")/.." && pwd)"
w=/tmp/plant.$$; rm -rf "/tmp/plant.$$"; trap 'rm -rf "/tmp/plant.$$"' EXIT
cp -a /repo "$w"
for id in "$@"; do
  s="$here/seeded/$id"
  cp -a "$s" "$w.demo" 2>/dev/null || { rm -rf "$w.demo"; cp -a "$s" "$w.demo"; }
  git -C "$w" checkout -q -- . && git -C "$w" clean -fdq
  if [ -z "$QUICK" ]; then
  (cd "$w" && timeout 300 bash "$w.demo/demo.sh" >/tmp/demo0.$id.log 2>&1); d0=$?
  git -C "$w" apply "$s/patch.diff" || { echo "$id: does not apply"; rm -rf "$w.demo"; continue; }
  (cd "$w" && go build ./...) >/dev/null 2>&1; b=$?
  (cd "$w" && go test -json -p 4 -vet=off -count=1 -timeout 10m ./... ) >"$w.json" 2>/dev/null
  t=$(python3 - "$w.json" <<'P'
import json,sys
st=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set()
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except Exception: continue
    if e.get('Action')=='pass' and e.get('Test'): ok.add(e['Package']+'/'+e['Test'])
m=[x for x in st if x not in ok and x.rsplit('/',0)]
print(len(m), m[:2] if m else '')
P
)
  (cd "$w" && timeout 300 bash "$w.demo/demo.sh" >/tmp/demo1.$id.log 2>&1); d1=$?
  echo "$id: demo-clean=$d0 build=$b stable-missing=$t demo-patched=$d1"
  else
  git -C "$w" apply "$s/patch.diff"
  fi
  bash "$here/check.sh" setup
  mkdir -p "$w.v/evidence"; cp "$here/known-findings.txt" "$w.v/" 2>/dev/null
  VERIF_DIR="$w.v" "$here/checker/bin/athenzcheck" -repo "$w" -check all >"$w.out" 2>&1
  echo "$id: property $(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])") caught by: $(grep -o 'VIOLATION property=[A-Z0-9]*' "$w.out" | sed 's/.*=//' | tr '\n' ' ')"
  [ -n "$SHOW" ] && grep -v '^ ' "$w.out" | cut -c1-300
  rm -rf "$w.demo" "$w.json" "$w.v" "$w.out"
done
