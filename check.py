#!/usr/bin/env python3
"""Decide one property: check.py <ID> [quick|thorough]

Builds the harness from /repo's working tree (hooks on), model checks the
specification, runs the real code on generated scenarios and has TLC decide
whether each recorded run is a behaviour of the specification.

exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check
itself failed (never a verdict)."""
import resource
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["HOME"] = "/root"
    e.update(GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GONOSUMDB="*",
             GOCACHE="/root/.cache/go-build", GOMODCACHE="/root/go/pkg/mod")
    return e


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.dir = tempfile.mkdtemp(prefix="boo-verif-%s-" % pid)
        self.states = self.trans = self.traces = 0
        self.models = []      # (module, states, transitions)
        self.samples = []
        self.notes = {}
        self.bins = {}
        self.t0 = time.time()
        self.violations = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---- building ---------------------------------------------------------
    def build(self, race=False):
        if race in self.bins:
            return self.bins[race]
        mod = os.path.join(self.dir, "go.mod")
        if not os.path.exists(mod):
            s = open(os.path.join(HERE, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(mod, "w").write(s)
            shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(self.dir, "go.sum"))
        out = os.path.join(self.dir, "vh-race" if race else "vh")
        cmd = ["go", "build", "-modfile", mod, "-tags", "verif", "-o", out]
        if race:
            cmd.insert(2, "-race")
        p = subprocess.run(cmd + ["."], cwd=os.path.join(HERE, "harness"), env=goenv(), capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("harness build failed:\n" + p.stdout + p.stderr)
        self.bins[race] = out
        return out

    # ---- running the real code --------------------------------------------
    def drive(self, driver, race=False, scen=None, args=(), timeout=600, kinds=None, env=None):
        exe = self.build(race)
        out = os.path.join(self.dir, "%s%d.ndjson" % (driver, len(os.listdir(self.dir))))
        scr = os.path.join(self.dir, "scratch-" + driver)
        os.makedirs(scr, exist_ok=True)
        cmd = [exe, driver, "-seed", str(self.seed), "-tier", self.tier, "-out", out, "-scratch", scr] + list(args)
        if scen:
            cmd += ["-scen", scen]
        e = dict(os.environ)
        e["GORACE"] = "halt_on_error=1 exitcode=66"
        e["GOTRACEBACK"] = "all"
        if env:
            e.update(env)
        errf = os.path.join(self.dir, driver + ".stderr")
        with open(errf, "w") as ef, open(os.path.join(self.dir, driver + ".stdout"), "w") as of:
            try:
                # what eats up all the memory ends with a stack, and not killed (race detectors reserve a lot)
                lim = None if race else (lambda: resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30)))
                p = subprocess.run(cmd, cwd=scr, env=e, stdout=of, stderr=ef, timeout=timeout, preexec_fn=lim)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("driver %s timed out" % driver)
        err = open(errf, errors="replace").read()
        cases = []
        if os.path.exists(out):
            for ln in open(out):
                if ln.endswith("\n"):
                    cases.append(json.loads(ln))
        if rc != 0:
            if rc == 3 or "HARNESS-ERROR" in err:
                raise CheckError("driver %s: %s" % (driver, err[-3000:]))
            # the harness never panics with what the right code gives it
            if (rc == 66 or "DATA RACE" in err or "panic:" in err or "fatal error:" in err):
                what = "data race" if "DATA RACE" in err else "the code under test crashed"
                raise Violation(what + " in driver " + driver, {"driver": driver, "cmd": cmd[1:], "rc": rc, "stderr": err[:20000],
                                "last_complete_case": cases[-1] if cases else None})
            raise CheckError("driver %s exit %d: %s" % (driver, rc, err[-3000:]))
        if not cases:
            raise CheckError("driver %s recorded nothing" % driver)
        if kinds:
            cases = [c for c in cases if c["kind"] in kinds]
            with open(out, "w") as f:
                for c in cases:
                    f.write(json.dumps(c) + "\n")
        return out, cases

    # ---- TLC --------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=8, timeout=800, extra=()):
        e = dict(os.environ)
        md = tempfile.mkdtemp(dir=self.dir, prefix="tlc")
        e.update(TRACE="", MODE="", SHOWL="0", JAVA_TOOL_OPTIONS="-Xss256m -Djava.io.tmpdir=" + md)
        e.update(env or {})
        cmd = ["tlc", "-workers", str(workers), "-noGenerateSpecTE", "-metadir", md, "-config", cfg] + list(extra) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        finally:
            shutil.rmtree(md, ignore_errors=True)
        out = "\n".join(s for s in p.stdout.split("\n") if not s.startswith(("Parsing file", "Semantic processing")))
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", out)
        gen, dist = (0, 0)
        if m:
            gen, dist = int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
        return p.returncode, out + p.stderr, gen, dist

    def model(self, module, cfg=None, env=None, **kw):
        """Exhaustive check of the design. A failure here is not a verdict on the code."""
        rc, out, gen, dist = self.tlc(module, cfg or module + ".cfg", env, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("model checking of %s failed (rc %d):\n%s" % (module, rc, out[-4000:]))
        self.states += dist
        self.trans += gen
        self.models.append({"module": module, "cfg": cfg or module + ".cfg", "distinct_states": dist, "states_generated": gen})

    def generate(self, module, cfg, env=None, extra=(), **kw):
        """Behaviours of the specification: TLC prints <<"SCEN", json>>."""
        rc, out, gen, dist = self.tlc(module, cfg, env, extra=extra, **kw)
        seen, path = [], os.path.join(self.dir, module + ".scen")
        for m in re.finditer(r'<<"SCEN", "((?:[^"\\]|\\.)*)">>', out):
            s = json.loads('"' + m.group(1) + '"')
            seen.append(s)
        seen = sorted(set(seen))
        if not seen or "Error:" in out:
            raise CheckError("no behaviours from %s (rc %d):\n%s" % (module, rc, out[-3000:]))
        with open(path, "w") as f:
            f.write("\n".join(seen) + "\n")
        self.states += dist
        self.trans += gen
        self.models.append({"module": module, "cfg": cfg, "behaviours_generated": len(seen), "distinct_states": dist, "states_generated": gen})
        return path, seen

    def validate(self, module, path, cases, mode="", cfg=None, timeout=800, env=None):
        """Which of the recorded runs are behaviours of the specification."""
        cfg = cfg or module + ".cfg"
        e = {"TRACE": path, "MODE": mode}
        e.update(env or {})
        rc, out, gen, dist = self.tlc(module, cfg, e, timeout=timeout)
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
        ok = "No error has been found" in out
        bad = [c for c in cases if c["id"] not in acc]
        if not ok:
            # an evaluation error (a logged value outside of the specification's
            # domain) hides the other cases: decide the remaining ones one by one
            rest, bad = bad, []
            t0 = time.time()
            for c in rest:
                rc1, out1, g1, d1 = self.tlc(module, cfg, dict(e, TRACE=self.one(c)), workers=1)
                gen, dist = gen + g1, dist + d1
                if ('<<"ACC", %d>>' % c["id"]) in out1 and "No error has been found" in out1:
                    acc.add(c["id"])
                else:
                    bad.append(c)
                    if "No error has been found" not in out1 and not re.search(r"Error: (The invariant|Invariant|Evaluating|TLC threw|Attempted|The following|In applying|The first|The second|Line|Temporal|Action property|In evaluation|evaluating)", out1):
                        raise CheckError("TLC failed on %s:\n%s" % (module, out1[-4000:]))
                    if len(bad) >= 3:
                        break
                if time.time() - t0 > 300 and not bad:
                    raise CheckError("TLC failed on %s:\n%s" % (module, out[-4000:]))
            if not bad:
                raise CheckError("TLC failed on %s:\n%s" % (module, out[-4000:]))
        self.states += dist
        self.trans += gen
        self.traces += len(acc)
        self.models.append({"module": module, "mode": mode, "traces": len(cases), "accepted": len(acc),
                            "distinct_states": dist, "states_generated": gen})
        if cases:
            small = min(cases, key=lambda c: abs(len(json.dumps(c)) - 700))
            self.samples.append({"module": module, "mode": mode, "case": small})
        for c in bad[:5]:
            rc1, out1, _, _ = self.tlc(module, cfg, dict(e, TRACE=self.one(c), SHOWL="1"), workers=1)
            at = [int(x) for x in re.findall(r'<<"AT", %d, (\d+)>>' % c["id"], out1)]
            pos = max(at) if at else 0
            err = re.findall(r"Error: .*", out1)
            rep = {"module": module, "mode": mode, "rejected_event": pos,
                   "event": c["ev"][pos - 1] if 0 < pos <= len(c["ev"]) else None,
                   "tlc": err[:4], "case": c,
                   "reproduce": "the case is the input (cfg) and what the code did (ev); run vh with this seed and tier and validate with spec/%s.tla MODE=%s" % (module, mode)}
            self.violations.append(rep)
        return not bad

    def one(self, c):
        p = os.path.join(self.dir, "one.ndjson")
        with open(p, "w") as f:
            f.write(json.dumps(c) + "\n")
        return p


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import props
    if pid not in props.CHECKS:
        print("unknown property", pid)
        return 2
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    ctx = Ctx(pid, tier, seed)
    rc = 0
    try:
        try:
            props.CHECKS[pid](ctx)
        except Violation as v:
            ctx.violations.append(dict(v.replay, what=v.what))
        if ctx.violations:
            known = props.known(pid)
            new = [v for v in ctx.violations if not any(k in json.dumps(v) for k in known)]
            for k in known:
                print("KNOWN-FINDING: property=%s %s" % (pid, k))
            for i, v in enumerate(new[:5]):
                rp = os.path.join(ev, "%s-replay-%d.json" % (pid, i + 1))
                json.dump(dict(v, property=pid, seed=seed, tier=tier), open(rp, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                print("  ", str(v.get("what") or v.get("event"))[:400])
                rc = 1
    except CheckError as x:
        print("CHECK-ERROR property=%s %s" % (pid, x))
        rc = 2
    except Exception as x:  # a bug of the check, never a verdict
        import traceback
        traceback.print_exc()
        print("CHECK-ERROR property=%s %s" % (pid, x))
        rc = 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", ctx.dir)
        else:
            shutil.rmtree(ctx.dir, ignore_errors=True)
    e = {"property": pid, "tier": tier, "seed": seed, "level": props.LEVEL.get(pid, "model_checking"),
         "coverage": {"states": ctx.states, "transitions": ctx.trans, "traces_validated_against_impl": ctx.traces,
                      "samples": ctx.samples[:4], "runs": ctx.models, "notes": ctx.notes},
         "assumptions": props.ASSUME.get(pid, []),
         "wall_s": round(time.time() - ctx.t0, 2), "violations": len(ctx.violations)}
    json.dump(e, open(os.path.join(ev, pid + ".json"), "w"), indent=1)
    if rc == 0:
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (pid, ctx.states, ctx.traces, e["wall_s"]))
    return rc


if __name__ == "__main__":
    sys.exit(main())
