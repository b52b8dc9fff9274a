#!/usr/bin/env python3
"""check.py ID [quick|thorough]  -- decide one property on /repo's working tree.

Pipeline of every check (see DESIGN.md):
  1. build the harness against /repo's current working tree,
  2. TLC explores the specification exhaustively within the bounds of the
     configuration and checks its invariants (design step); where the module
     exports behaviours ("cases"), TLC also writes them with the result the
     specification demands, and the harness replays them into the real code,
  3. the harness drives the real code with seeded inputs and records what it
     did; TLC (RecCheck.tla) judges every record against the specification.
Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
Anything else: the check itself failed.
"""
import json, os, re, shutil, subprocess, sys, time, glob

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
KNOWN = os.path.join(ROOT, "known-findings.txt")


class Broken(Exception):
    """the check itself failed (never a verdict)"""


PART = 40 << 20  # bytes of a trace file that TLC judges at a time


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, ".work", "%s-%s-%d" % (pid, tier, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(ROOT, "replays", pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.parts = []
        self.violations = []      # (what, payload)
        self.known_hits = {}      # finding id -> count
        self.known = {}
        if os.path.exists(KNOWN):
            for l in open(KNOWN):
                m = re.match(r"KNOWN-FINDING: property=(\S+) id=(\S+) (.*)", l.strip())
                if m and m.group(1) == pid:
                    self.known[m.group(2)] = {"what": m.group(3)}
        self.assumptions = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def p(self, name):
        return os.path.join(self.work, name)

    def log(self, *a):
        print("[%s %6.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, race=False):
        env = goenv()
        out = self.p("vh")
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        if race:
            env["CGO_ENABLED"] = "1"
        r = subprocess.run(cmd, cwd=HARN, env=env, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise Broken("harness build failed:\n" + r.stdout + r.stderr)
        self.vh = out
        self.log("harness built", "(race)" if race else "")

    # -------------------------------------------------------------- harness
    def harness(self, *args, timeout=400, ok=(0,), env_extra=None, confirm=True):
        """run the harness; a hang or fatal crash inside the library is a verdict
        only when it happens twice on the same input"""
        env = dict(os.environ)
        env["GOTRACEBACK"] = "single"
        env["GOMEMLIMIT"] = "8GiB"
        env["VV_SEED"] = str(self.seed)
        env["VV_TIER"] = self.tier
        env["VV_SCRATCH"] = self.work
        if env_extra:
            env.update(env_extra)
        cmd = [self.vh] + [str(a) for a in args]
        try:
            r = subprocess.run(cmd, cwd=self.work, env=env, capture_output=True, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken("harness timed out: %s" % " ".join(cmd))
        if r.returncode in ok:
            return r.stdout
        if "WARNING: DATA RACE" in r.stderr:
            # a report of the race detector is proof by itself
            at = r.stderr.find("WARNING: DATA RACE")
            self.violation("data race", {"stderr": r.stderr[at:at + 6000]})
            return None
        if not confirm:
            return None
        # crash or hang: rerun with a journal of the operation in progress
        j = self.p("journal")
        env["VV_JOURNAL"] = j
        try:
            r2 = subprocess.run(cmd, cwd=self.work, env=env, capture_output=True, text=True,
                                timeout=timeout * 2, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken("harness timed out on confirmation run: %s" % " ".join(cmd))
        if r2.returncode in ok:
            raise Broken("harness failed once (rc=%d) and not again: %s\n%s" % (
                r.returncode, " ".join(cmd), r.stderr[-3000:]))
        last = open(j, errors="replace").read() if os.path.exists(j) else ""
        hang = "VV-HANG" in r.stderr and "VV-HANG" in r2.stderr
        fatal = "fatal error:" in r.stderr and "fatal error:" in r2.stderr
        if (hang or fatal) and last.strip():
            self.violation("the library %s" % ("does not return" if hang else "crashes the process"),
                           {"operation": last[-20000:], "stderr": r2.stderr[-6000:]})
            return None
        raise Broken("harness failed rc=%d: %s\n%s" % (r.returncode, " ".join(cmd), r.stderr[-4000:]))

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg, name=None, env_extra=None, timeout=600, workers=8, extra=(),
            heap="6g", expect_ok=True):
        name = name or module
        d = self.p("tlc-" + name)
        os.makedirs(d, exist_ok=True)
        cfgf = os.path.join(d, name + ".cfg")
        open(cfgf, "w").write(cfg)
        env = dict(os.environ)
        env["VV_TIER"] = self.tier
        env["VV_SEED"] = str(self.seed)
        if env_extra:
            env.update(env_extra)
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC,
               "-cp", TLAJAR, "tlc2.TLC",
               "-config", cfgf, "-metadir", os.path.join(d, "states"), "-workers", str(workers),
               "-deadlock", "-noGenerateSpecTE", "-nowarning"] + list(extra) + [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=timeout,
                               errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken("TLC timed out on %s" % name)
        out = r.stdout
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        res = {"out": out, "generated": gen, "distinct": dist, "rc": r.returncode,
               "secs": time.time() - t}
        if expect_ok and (r.returncode != 0 or "Model checking completed. No error" not in out):
            at = out.find("Error:")
            raise Broken("TLC failed on %s (rc=%d)\n%s\n%s" % (name, r.returncode, out[max(at, 0):][:2500] if at >= 0 else out[-1500:], r.stderr[-500:]))
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        return res

    def design(self, module, cfg, name=None, **kw):
        """exhaustive exploration of the specification itself"""
        r = self.tlc(module, cfg, name, **kw)
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.parts.append({"part": "design " + (name or module), "distinct_states": r["distinct"],
                           "states_generated": r["generated"], "secs": round(r["secs"], 1)})
        self.log("design %s: %d distinct states, %.1fs" % (name or module, r["distinct"], r["secs"]))
        return r

    def judge(self, module, verdict, trace, name=None, consts="", **kw):
        """TLC judges every record of a trace file; returns list of (index, reason)"""
        name = name or ("judge-" + os.path.basename(trace).replace(".", "_"))
        lines = open(trace, errors="replace").read().split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        n = len(lines)
        if n == 0:
            raise Broken("empty trace " + trace)
        cfg = "SPECIFICATION Spec\nCONSTANT Verdict <- %s\n%s\n" % (verdict, consts)
        bad, secs, at = [], 0.0, 0
        while at < n:
            # a part of the file at a time: TLC keeps all records in memory
            end, size = at, 0
            while end < n and (end == at or size + len(lines[end]) < PART):
                size += len(lines[end])
                end += 1
            part, nm = trace, name
            if end - at < n:
                part, nm = "%s.%d" % (trace, at), "%s-%d" % (name, at)
                with open(part, "w") as f:
                    f.write("\n".join(lines[at:end]) + "\n")
            r = self.tlc(module, cfg, nm, env_extra={"VV_TRACE": part}, **kw)
            if r["distinct"] != end - at + 32:
                raise Broken("TLC judged %d of %d records of %s" % (r["distinct"] - 32, end - at, part))
            self.states += r["distinct"]
            self.transitions += r["generated"]
            secs += r["secs"]
            for m in re.finditer(r'^"@@ (\d+) (.*)"$', r["out"], re.M):
                bad.append((at + int(m.group(1)), m.group(2)))
            if part != trace:
                os.remove(part)
            at = end
        self.traces += n
        self.parts.append({"part": "conformance " + name, "records_judged": n, "rejected": len(bad),
                           "secs": round(secs, 1)})
        self.log("judged %d records of %s: %d rejected, %.1fs" % (n, os.path.basename(trace), len(bad), secs))
        if len(self.samples) < 3:
            for i in (0, n // 2):
                s = lines[i]
                self.samples.append(json.loads(s) if len(s) < 4000 else s[:1500] + "...")
        for i, why in bad:
            rec = json.loads(lines[i - 1])
            if why.startswith("known:"):
                self.known_hit(why.split(":")[1].split()[0], rec, why)
            else:
                self.violation(why, rec)
        return bad

    def export(self, res, name):
        """collect the JSON cases TLC printed (lines "##...") into an ndjson file"""
        path = self.p(name)
        n = 0
        with open(path, "w") as f:
            for l in res["out"].splitlines():
                if l.startswith('"##'):
                    f.write(json.loads(l)[2:] + "\n")
                    n += 1
        if n == 0:
            raise Broken("TLC exported no cases for " + name)
        return path

    # -------------------------------------------------------------- results
    def known_hit(self, fid, rec, why):
        if fid in self.known:
            self.known_hits[fid] = self.known_hits.get(fid, 0) + 1
        else:
            self.violation(why + " (not in known-findings.txt)", rec)

    def violation(self, what, payload):
        self.violations.append((what, payload))

    def replayed(self, outfile, part):
        """result file of a spec->code replay: one summary line, then mismatches"""
        lines = [json.loads(l) for l in open(outfile, errors="replace") if l.strip()]
        s = [l for l in lines if l.get("summary")]
        if len(s) != 1:
            raise Broken("replay %s wrote no summary" % part)
        s = s[0]
        self.traces += s["cases"]
        self.parts.append({"part": "replay " + part, "cases": s["cases"], "checks": s.get("checks", 0)})
        for x in (s.get("samples") or [])[:2]:
            if len(self.samples) < 4:
                self.samples.append(x)
        bad = [l for l in lines if not l.get("summary")]
        self.log("replayed %d cases of %s into the code: %d mismatches" % (s["cases"], part, len(bad)))
        for b in bad:
            if b.get("known"):
                self.known_hit(b["known"], b, "known:" + b["known"])
            else:
                self.violation(b.get("what", "mismatch"), b)

    def finish(self, err=None):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "samples": self.samples or ["none"], "parts": self.parts,
                           "known_findings_seen": self.known_hits},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        for fid, e in self.known.items():
            print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (
                self.pid, e["what"], self.known_hits.get(fid, 0)))
        rc = 0
        if self.violations:
            os.makedirs(self.replays, exist_ok=True)
            f = os.path.join(self.replays, "violation.json")
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed,
                       "count": len(self.violations),
                       "violations": [{"what": w, "payload": p} for w, p in self.violations[:20]]},
                      open(f, "w"), indent=1)
            for w, p in self.violations[:5]:
                print("  broken: %s  %s" % (w, json.dumps(p)[:600]))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(f, ROOT)))
            rc = 1
        else:
            print("OK property=%s %d states, %d records/behaviours bound to the code, %.1fs" % (
                self.pid, self.states, self.traces, time.time() - self.t0))
        shutil.rmtree(self.work, ignore_errors=True)
        return rc


def goenv():
    env = dict(os.environ)
    env["PATH"] = "/opt/veriftools/go1.25.14/bin:" + env.get("PATH", "")
    env.setdefault("HOME", "/root")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off")
    return env


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    sys.path.insert(0, ROOT)
    import checks
    c = Ctx(pid, tier, seed)
    try:
        checks.CHECKS[pid](c)
    except Broken as e:
        if c.violations:
            # a verdict from the real code stands; say what else went wrong
            c.log("after a violation, the rest of the check failed: %s" % e)
            return c.finish()
        print("CHECK-ERROR property=%s: %s" % (pid, e), file=sys.stderr)
        shutil.rmtree(c.work, ignore_errors=True)
        return 3
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
