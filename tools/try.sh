#!/bin/sh
# try.sh PKG TESTRE FILE...: runs a harness against /repo
pkg=$1; re=$2; shift 2
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
python3 - "$pkg" "$t" "$@" <<'P'
import json,sys
pkg,t,*fs=sys.argv[1:]
r={f"/repo/{pkg}/zz_{f}":f"/verif/replay/{f}" for f in fs}
r["/repo/internal/verifkit/kit.go"]="/verif/replay/kit/kit.go"
json.dump({"Replace":r},open(t+"/o.json","w"))
P
cd /repo && VERIF_STATS=$t/s TMPDIR=$t go test -count=1 -timeout 880s -vet=off -overlay $t/o.json -run "$re" ./$pkg; cut -c1-700 $t/s; echo
