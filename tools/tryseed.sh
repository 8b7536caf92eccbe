#!/bin/bash
# tools/tryseed.sh ID... : confirm planted bugs in a scratch copy of /repo and
# show which checks report them. Never touches /repo.
. /opt/vp/env.sh
here=$(cd "$(dirname "$0")/.." && pwd)
t=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$t"' EXIT
cp -a /repo "$t/r"
runtests() { (cd "$t/r" && go test -vet=off -count=1 ./... 2>&1 | grep -E '^(\s*--- FAIL|FAIL|ok)' | sed -E 's/\t[0-9.]+s.*//; s/\([0-9.]+s\)//; s/\(cached\)//' | sort); }
base=/tmp/seed.base.$(git -C /repo rev-parse HEAD)
[ -f $base ] || runtests > $base
for id in "$@"; do
  s=$here/seeded/$id
  git -C "$t/r" checkout -q -- . ; git -C "$t/r" clean -fdq
  cp -a "$s" "$t/demo"; rm -f "$t/demo"/*.diff "$t/demo/meta.json"
  d0=0; (cd "$t/r" && timeout 300 bash "$t/demo/demo.sh") >"$t/d0.log" 2>&1 || d0=$?
  if ! git -C "$t/r" apply "$s/patch.diff"; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$t/demo"; continue; fi
  b=0; (cd "$t/r" && go build ./... ) >"$t/b.log" 2>&1 || b=$?
  runtests > "$t/tests"; tt=same; cmp -s "$t/tests" $base || tt=DIFFER
  d1=0; (cd "$t/r" && timeout 300 bash "$t/demo/demo.sh") >"$t/d1.log" 2>&1 || d1=$?
  al=$("$here/bin/check" -dir "$t/r" -out "" 2>&1 | grep -oE 'VIOLATION property=C[0-9]+' | sed 's/.*=//' | sort -u | tr '\n' ' ')
  want=$(grep -oE '"property": *"C[0-9]+"' "$s/meta.json" | grep -oE 'C[0-9]+')
  st=MISSED; [[ " $al " == *" $want "* ]] && st=caught
  echo "$id ($want): build=$b tests=$tt demo clean=$d0 patched=$d1 alarms=[${al% }] $st"
  [ $d0 = 0 ] || tail -5 "$t/d0.log"
  [ $b = 0 ] || tail -5 "$t/b.log"
  [ $tt = same ] || diff "$t/tests" $base | head
  [ $d1 = 0 ] && tail -5 "$t/d1.log"
  rm -rf "$t/demo"
done
