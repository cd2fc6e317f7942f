#!/usr/bin/env python3
"""For each repaired defect: take the repair away in a scratch worktree and see
that the check of its property reports it. revertfix.py [commit ...]"""
import os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/boo-revert"
def run(*a, **k): return subprocess.run(a, capture_output=True, text=True, **k)
want = sys.argv[1:]
for ln in open(os.path.join(H, "known_findings.txt")):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", ln)
    if not m or (want and m.group(2) not in want and m.group(1) not in want):
        continue
    pid, c, what = m.groups()
    run("git", "-C", "/repo", "worktree", "remove", "--force", WT)
    run("git", "-C", "/repo", "worktree", "add", "-q", "--detach", WT, "HEAD")
    r = run("git", "-C", WT, "revert", "-n", c)
    if r.returncode:
        print(pid, c, "CONFLICT", what[:80], flush=True)
    else:
        try:
            r = run("python3", "check.py", pid, "quick", cwd=H, env=dict(os.environ, VERIF_REPO=WT), timeout=900)
            print(pid, c, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, "?"), what[:80], flush=True)
            if r.returncode == 2: print(r.stdout[-500:])
        except subprocess.TimeoutExpired:
            print(pid, c, "TIMEOUT", what[:80], flush=True)
    run("git", "-C", "/repo", "worktree", "remove", "--force", WT)
