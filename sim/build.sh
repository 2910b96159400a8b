#!/bin/bash
# build.sh OUT [-race]: instruments /repo's working tree and builds the harness into OUT.
# Exit 0: OUT/harness exists. Anything else: 2.
out=$(realpath -m "${1:?}"); shift
race=""; [ "$1" = "-race" ] && race="-race"
sim=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=1
mkdir -p "$out" || exit 2
fail() { echo "build.sh: $*" >&2; exit 2; }

# an unchanged copy of the sources (not the tests): type information comes from here
mkdir -p "$out/src"
(cd "$repo" && find . -name .git -prune -o \( -name '*.go' -a ! -name '*_test.go' -o -name go.mod -o -name go.sum -o -name '*.s' -o -name '*.h' \) -print0 | tar --null -T - -cf -) | tar -C "$out/src" -xf - || fail "copying sources"
rm -rf "$out/src/examples" "$out/src/util/test"
cd "$out/src" || fail cd
(cd "$sim/instr" && go build -o "$out/instr" .) || fail "building instr"
mod=$(go list -m) || fail "module path"

instrument() { # $1: extra flag
  rm -rf "$out/stream" "$out/workiva" "$out/deque" "$out/h"
  "$out/instr" -src "$out/src" -out "$out/stream" -exports "$out/src" -module "$mod" $1 > "$out/instr.json" || return 1
  cp go.sum "$out/stream/go.sum"
  { cat go.mod; printf '\nrequire verif.local/rt v0.0.0\n'; } > "$out/stream/go.mod"
  repl=""
  for d in github.com/workiva/go-datastructures=queue=workiva github.com/gammazero/deque=.=deque; do
    IFS== read -r path only name <<< "$d"
    dir=$(go list -m -f '{{.Dir}}' "$path" 2>/dev/null)
    [ -n "$dir" ] || continue
    "$out/instr" -src "$dir" -out "$out/$name" -only "$only" -exports "$out/src" -module "$path" -reset=false $1 > "$out/instr.$name.json" || return 1
    { echo "module $path"; echo; sed -n '/^go /p' "$dir/go.mod" 2>/dev/null || echo "go 1.18"; printf '\nrequire verif.local/rt v0.0.0\n'; } > "$out/$name/go.mod"
    grep -q '^go ' "$out/$name/go.mod" || sed -i '2i go 1.18' "$out/$name/go.mod"
    repl="$repl
replace $path => $out/$name"
  done
  mkdir -p "$out/h" && cp "$sim"/harness/*.go "$out/h/" && cp go.sum "$out/h/go.sum"
  { printf 'module verif.local/harness\n\ngo 1.23\n\nrequire (\n'
    printf '\tverif.local/rt v0.0.0\n\t%s v0.0.0\n)\n\n' "$mod"
    sed -n '/^require (/,/^)/p' go.mod
    printf 'replace verif.local/rt => %s\nreplace %s => %s\n%s\n' "$sim/rt" "$mod" "$out/stream" "$repl"
  } > "$out/h/go.mod"
  (cd "$out/h" && go build -trimpath $race -o "$out/harness" . ) 2> "$out/build.err"
}
instrument "" || { cat "$out/build.err" >&2 2>/dev/null; echo "build.sh: retrying with plain instrumentation" >&2; instrument -plain; } || { cat "$out/build.err" >&2; fail "harness does not build"; }
exit 0
