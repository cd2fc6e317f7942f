#!/usr/bin/env python3
"""Development tool: try planted bugs in a scratch copy of /repo.
seedtest.py [ids...]: applies, builds, runs the stable tests, the demo with and
without the patch, and the property's check (VERIF_REPO)."""
import json, os, subprocess, sys, shutil, tempfile, glob, re
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
env = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off",
           GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod", HOME="/root")
def run(cmd, cwd, e=env, t=900):
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, shell=isinstance(cmd, str), timeout=t)
    return p.returncode, p.stdout + p.stderr
def one(sid, checks=None):
    sd = os.path.join(H, "seeded", sid)
    meta = json.load(open(os.path.join(sd, "meta.json")))
    tmp = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(tmp, "repo")
    out = [sid, meta["property"]]
    try:
        run(["cp", "-a", "/repo", repo], "/")
        demo = os.path.join(tmp, "demo")
        shutil.copytree(sd, demo)
        rc, o = run(["bash", os.path.join(demo, "demo.sh")], repo)
        out.append("demo-clean:%d" % rc)
        if rc: out.append(o[-600:])
        rc, o = run(["git", "apply", os.path.join(sd, "patch.diff")], repo)
        if rc: return out + ["NOAPPLY", o]
        rc, o = run("go build ./... && go vet . ./utils ./cv ./confu >/dev/null 2>&1; go build -tags verif ./...", repo)
        out.append("build:%d" % rc)
        if rc: out.append(o[-600:])
        rc, o = run(["go", "test", "-count=1", "-run", "^(TestSubSample|TestArgSort|TestMatrixFunctions|TestSampleSlice)$", ".", "./utils"], repo)
        out.append("tests:%d" % rc)
        rc, o = run(["bash", os.path.join(demo, "demo.sh")], repo)
        out.append("demo-bug:%d" % rc)
        for c in (checks or [meta["property"]]):
            rc, o = run([sys.executable, "check.py", c, "quick"], H, dict(env, VERIF_REPO=repo))
            m = re.findall(r"VIOLATION.*\n.*|CHECK-ERROR[^\n]*(?:\n.*){0,6}", o)
            out.append("%s:%d %s" % (c, rc, m[0][:300] if m else ""))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out
if __name__ == "__main__":
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(H, "seeded")))
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, ids):
            print(" | ".join(str(x) for x in r), flush=True)
