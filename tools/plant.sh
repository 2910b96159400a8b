#!/bin/bash
# plant.sh ID [CHECK...]: confirms the planted change /verif/seeded/ID (applies, builds, stable tests pass,
# demo passes clean and fails patched) and runs the named checks (its own property's by default) against it.
# Everything happens in copies of /repo under /tmp.
id=${1:?}; shift
dir=/verif/seeded/$id
wt=$(mktemp -d /tmp/plant.XXXXXX); clean=$(mktemp -d /tmp/plantc.XXXXXX)
trap 'rm -rf "$wt" "$clean"' EXIT
cp -a /repo/. "$wt"; cp -a /repo/. "$clean"
prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$dir/meta.json")
git -C "$wt" apply "$dir/patch.diff" || { echo "$id: APPLY FAILS"; exit 1; }
. /opt/vp/env.sh
(cd "$wt" && go build ./...) || { echo "$id: BUILD FAILS"; exit 1; }
if [ -z "$SKIPTEST" ]; then
  (cd "$wt" && go test -json -race -cpu=1 -vet=off -count=1 -timeout 2m ./... > "$wt/.t.json" 2>/dev/null; python3 /opt/vp/results.py "$wt/.o.json" "gojson:$wt/.t.json" >/dev/null
   python3 - "$wt/.o.json" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x,k): return set(x.get(k,[]))
st=None
for k in ('stable','tests','passed','pass'):
    if k in b: st=set(b[k]); break
ps=set(o.get('passed',o.get('pass',[])))
m=st-ps
if m: print("  TESTS FAIL:",len(m),sorted(m)[:6]); sys.exit(1)
P
  ) || { echo "$id: TESTS"; exit 1; }
  t=$(mktemp -d); cp -r "$dir/." "$t"; rm -f "$t"/*.diff "$t"/meta.json
  (cd "$clean" && timeout 300 bash "$t/demo.sh" > "$t/c.out" 2>&1) || { echo "$id: DEMO FAILS CLEAN"; tail -20 "$t/c.out"; exit 1; }
  (cd "$wt" && timeout 300 bash "$t/demo.sh" > "$t/p.out" 2>&1) && { echo "$id: DEMO PASSES PATCHED"; exit 1; }
  rm -rf "$t"
fi
for c in ${*:-$prop}; do
  s=$(date +%s)
  out=$(VERIF_REPO=$wt VERIF_SEED=${VERIF_SEED:-1} timeout 900 /verif/check $c quick 2>&1); rc=$?
  echo "$id: $c rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -m1 VIOLATION)"
  [ $rc = 2 ] && echo "$out" | tail -5
done
