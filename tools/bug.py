#!/usr/bin/env python3
"""bug.py ID PROPERTY: makes seeded/ID from a description on stdin (JSON):
{"edits":[{"file","old","new"}], "pkg": "./token", "demo": "<go test source>", "needs":..., "breaks":...}
checks that it builds, passes the tests, and that the demo fails only with it."""
import json, os, shutil, subprocess, sys, tempfile
V = "/verif"
bid, prop = sys.argv[1:3]
d = json.load(sys.stdin)
out = f"{V}/seeded/{bid}"
os.makedirs(out, exist_ok=True)
w = tempfile.mkdtemp(prefix="bug-")
def run(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)
try:
    run("cp", "-a", "/repo", w + "/repo")
    r = w + "/repo"
    for e in d["edits"]:
        p = r + "/" + e["file"]
        s = open(p).read()
        assert s.count(e["old"]) == 1, (e["file"], e["old"], s.count(e["old"]))
        open(p, "w").write(s.replace(e["old"], e["new"]))
    g = run("gofmt", "-l", ".", cwd=r)
    if g.stdout.strip(): print("gofmt:", g.stdout)
    diff = run("git", "diff", cwd=r).stdout
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo_test.go", "w").write(d["demo"])
    pkg = d["pkg"]
    open(out + "/demo.sh", "w").write(f'''#!/bin/sh
# exit 0: the property holds on the demonstrated case
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
printf '{{"Replace":{{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}}}' "$repo" "{pkg}" "$here" >"$t/o.json"
TMPDIR="$t" timeout 250 go test -count=1 {d.get("flags","")} -vet=off -overlay "$t/o.json" -run '^TestDemo$' ./{pkg}
''')
    os.chmod(out + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    b = run("go", "build", "./...", cwd=r)
    if b.returncode: print("BUILD FAILS", b.stderr); sys.exit(1)
    t = run("go", "test", "./...", cwd=r)
    if t.returncode: print("TESTS FAIL", t.stdout[-1500:]); sys.exit(1)
    x = run("sh", out + "/demo.sh", cwd=r)
    print("with the bug: demo exits", x.returncode, (x.stdout+x.stderr)[-300:] if x.returncode else "NOT SHOWN")
    x = run("sh", out + "/demo.sh", cwd="/repo")
    print("without: demo exits", x.returncode, (x.stdout+x.stderr)[-800:] if x.returncode else "")
finally:
    shutil.rmtree(w)
