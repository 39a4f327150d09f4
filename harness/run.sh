#!/bin/bash
# usage: run.sh <ID> <out.json>   compiles one property's harness into package docx of /repo through an
# overlay (nothing is written to /repo) and runs it.
# exit 0: ran, no failure; 1: a case failed; 2: did not compile; 3: died without a report
set -u
ID=$1; OUT=$(realpath -m "$2"); R=${VERIF_REPO:-/repo}
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d /tmp/verifh.XXXXXX); trap 'rm -rf "$T"' EXIT
lc=$(echo "$ID" | tr 'A-Z' 'a-z')
{ echo '{"Replace":{'; first=1
for f in "$D"/common_test.go "$D"/gen_test.go "$D"/u_*_test.go "$D/${lc}_test.go"; do [ -f "$f" ] || continue
[ $first = 1 ] || echo ','; first=0; echo "\"$R/zz_verif_$(basename $f)\": \"$f\""; done
echo '}}'; } > "$T/ov.json"
rm -f "$OUT" "$OUT.cur"
cd "$R" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off
[ "${VERIF_RACE:-}" = 1 ] && RACE=-race || RACE=
go test $RACE -overlay "$T/ov.json" -vet=off -c -o "$T/h.test" . || exit 2
mkdir "$T/w"; cd "$T/w"
ulimit -c 0
VERIF_OUT="$OUT" timeout -k 5 "${VERIF_TIMEOUT:-300}" "$T/h.test" -test.run "^TestVerif$ID\$" -test.count=1 -test.timeout 0
rc=$?
[ -f "$OUT" ] || exit 3
[ $rc = 0 ] && exit 0
exit 1
