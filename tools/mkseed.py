#!/usr/bin/env python3
"""Development tool. mkseed.py FILE: FILE is a python file with
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO=go source of main."""
import json, os, subprocess, sys, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; non-zero: it does not. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
tmp=$(mktemp -d /tmp/boo-demo-XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go" "$tmp/main.go"
cp "$repo/go.sum" "$tmp/go.sum"
cat > "$tmp/go.mod" <<EOF
module demo

go 1.22.0

require (
	github.com/rmera/boo v0.0.0
	gonum.org/v1/gonum v0.15.0
)

replace github.com/rmera/boo => $repo
EOF
cd "$tmp" || exit 9
go build %s -o demo . || exit 9
timeout 120 ./demo
'''
def make(ns):
    d = os.path.join(H, "seeded", ns["ID"])
    tmp = tempfile.mkdtemp(prefix="mk-")
    repo = os.path.join(tmp, "repo")
    subprocess.check_call(["cp", "-a", "/repo", repo])
    for f, old, new in ns["EDITS"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == 1, (ns["ID"], f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", repo, "diff"], text=True)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH % ns.get("FLAGS", ""))
    open(os.path.join(d, "main.go"), "w").write(ns["DEMO"].lstrip())
    json.dump({"property": ns["PROP"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(tmp)
    print("made", ns["ID"])
for f in sys.argv[1:]:
    src = open(f).read()
    for part in src.split("\n#----\n"):
        ns = {}
        exec(part, ns)
        make(ns)
