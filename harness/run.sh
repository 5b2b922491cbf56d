#!/bin/bash
# run.sh <property>: looks for a failing input of the property on the real code in $REPO.
# Called after the verifier has rejected an obligation. Exit 1 and a line FAILING-INPUT when
# one was found; exit 0 otherwise (also when the drivers do not compile against this tree).
cd "$(dirname "$0")" || exit 0
H=$PWD; P=$1; R=${REPO:-/repo}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off PROP=$P
case $P in
  C01|C02|C03|C04|C05|C06) PK="riblt" ;;
  C22) PK="riblt lt iblt" ;;
  C07|C08) PK="lt iblt ldpc" ;;
  C09|C10|C11) PK="lt iblt" ;;
  C12|C13|C14|C15) PK="ldpc" ;;
  C16) PK="des" ;;
  C17) PK="newsim" ;;
  C18|C19) PK="newsim" ;;
  C20) PK="simulator" ;;
  C21) PK="node" ;;
  C23) PK="testbed" ;;
esac
W=$(mktemp -d /tmp/verif_replay.XXXXXX) || exit 0
trap 'rm -rf "$W"' EXIT
found=0
for k in $PK; do
  for f in "$H/$k"/*_test.go; do
    [ -f "$f" ] || continue
    grep -q "func Test$P(" "$f" || continue
    # the package's own tests are left out, the driver is put in their place
    { echo '{"Replace":{'
      for o in "$R/$k"/*_test.go; do [ -f "$o" ] && echo "\"$o\":\"\","; done
      echo "\"$R/$k/$(basename "$f")\":\"$f\"}}"; } > "$W/ov.json"
    timeout -k 5 95 go test -C "$R" -mod=mod -overlay "$W/ov.json" -vet=off -count=1 -timeout 90s -run "^Test$P\$" "./$k" > "$W/out" 2>&1
    rc=$?
    if grep -q "FAILING-INPUT" "$W/out"; then
      echo "package $k, driver harness/$k/$(basename "$f"), Test$P"
      grep -m3 "FAILING-INPUT" "$W/out" | cut -c1-4000
      found=1
    elif grep -q "^fatal error: sync: " "$W/out"; then
      echo "package $k, driver harness/$k/$(basename "$f"), Test$P"
      echo "FAILING-INPUT the driver's calls crash the program: $(grep -m1 "^fatal error: sync: " "$W/out")"
      grep "^CASE" "$W/out" | tail -1
      found=1
    else
      echo "package $k: no failing input found by $(basename "$f") (exit $rc)"; tail -5 "$W/out" | cut -c1-300
    fi
  done
done
exit $found
