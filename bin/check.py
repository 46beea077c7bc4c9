#!/usr/bin/env python3
"""Decides one property against /repo's current working tree.

    check.py PROPERTY quick|thorough

Three engines, all reading /repo's current source:
  kani    contracts (contracts/src) discharged by Kani/CBMC on the compiled real functions
  verus   real functions extracted from /repo, annotated and discharged by Verus
  replay  the same contract bodies executed natively: replays verifier counterexamples, looks
          for failing inputs, and stands in (bounded) where no verifier reaches

Exit 0: held on everything decided. Exit 1: VIOLATION line. Exit 2: could not be decided at all.
"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
import props as P  # noqa: E402

CRATE = os.path.join(VERIF, "contracts")
TARGET = os.path.join(VERIF, "target")
JOBS = 8


def log(*a):
    print(*a, flush=True)


def env_for(cfgs, kind, feats):
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    e["RUSTFLAGS"] = " ".join("--cfg " + c for c in cfgs)
    if not cfgs:
        e.pop("RUSTFLAGS")
    tag = hashlib.sha1(("%s|%s" % (sorted(cfgs), sorted(feats))).encode()).hexdigest()[:8]
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "%s-%s" % (kind, tag))
    return e


def run(cmd, timeout, **kw):
    """Runs cmd in its own process group; (rc, output, timed_out)."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out, False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return -9, out, True


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.spec = P.PROPS[prop]
        self.t0 = time.time()
        self.budget = 840 if tier == "quick" else 3000
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.notes, self.violations = [], []
        self.work = os.path.join(TARGET, "work-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work, exist_ok=True)
        self.rep_dir = os.path.join(VERIF, "replays")
        os.makedirs(self.rep_dir, exist_ok=True)
        self.kani = {"harnesses": [], "ran": False}
        self.verus = {"units": []}
        self.rep = {"stats": [], "bin": None, "cfgs": []}

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---- replay -------------------------------------------------------------
    def build_replay(self):
        """Builds the native driver; drops the hook cfgs if a hook no longer fits the code."""
        feats = self.spec.get("features", [])
        tries = [self.spec.get("cfgs", [])]
        if tries[0]:
            tries.append([])
        last = ""
        for cfgs in tries:
            cmd = ["cargo", "build", "--offline", "--bin", "replay"]
            if feats:
                cmd += ["--features", ",".join(feats)]
            env = env_for(cfgs, "native", feats)
            rc, out, to = run(cmd, max(60, self.left()), cwd=CRATE, env=env)
            if rc == 0:
                self.rep["bin"] = os.path.join(env["CARGO_TARGET_DIR"], "debug", "replay")
                self.rep["cfgs"] = cfgs
                return True
            last = out
            self.notes.append("native driver does not build with cfgs %s" % cfgs)
        log(last[-3000:])
        return False

    def search(self, secs, names=None, seed=None, fresh=False):
        """Runs the contracts on generated inputs; returns the replay file of a failure."""
        if not self.rep["bin"]:
            return None
        out = os.path.join(self.work, "found-%d" % time.time_ns())
        cmd = [self.rep["bin"], "search", self.prop, str(secs), str(seed or self.seed), out]
        if names:
            cmd.append(",".join(names))
        n = max(1, self.rep.get("n", 1))
        env = dict(os.environ, KV_FRESH="1") if fresh else None
        rc, txt, to = run(cmd, secs * 3 + 60 + 2 * n, cwd=self.work, env=env)
        try:
            self.rep["stats"] += [json.loads(l) for l in open(out + ".stats") if l.strip()]
        except OSError:
            pass
        if rc == 0 and not to:
            return None
        if not os.path.exists(out) and os.path.exists(out + ".current"):
            # The process died: the input that was running is on record.
            shutil.copy(out + ".current", out)
            with open(out, "a") as f:
                f.write("message=the process died (status %s)\n" % rc)
        if not os.path.exists(out):
            self.notes.append("search ended with status %s without a recorded input" % rc)
            log(txt[-1500:])
            return None
        return out

    def confirm(self, path):
        """Replays a recorded input; True if the contract fails again."""
        # More than once: some contracts run real threads.
        t0 = time.time()
        for _ in range(8):
            rc, txt, to = run([self.rep["bin"], "run", path], 60, cwd=self.work)
            if rc != 0:
                return True
            if time.time() - t0 > 100:
                break
        return False

    def keep(self, path, name):
        dst = os.path.join(self.rep_dir, "%s-%s.txt" % (self.prop, name))
        shutil.copy(path, dst)
        return dst

    # ---- kani ---------------------------------------------------------------
    def kani_cmd(self, filters, extra=()):
        cmd = ["cargo", "kani", "-Z", "stubbing", "-Z", "unstable-options",
               "--output-format", "terse"]
        feats = self.spec.get("features", [])
        if feats:
            cmd += ["--features", ",".join(feats)]
        for f in filters:
            cmd += ["--harness", f]
        return cmd + list(extra)

    def run_kani_once(self, filters, cfgs, extra, timeout):
        js = os.path.join(self.work, "kani-%d.json" % time.time_ns())
        env = env_for(cfgs, "kani", self.spec.get("features", []))
        if self.tier == "quick":
            ht = self.spec.get("harness_timeout", 240)
        else:
            ht = 1200
        cmd = self.kani_cmd(filters, ["-j", str(JOBS), "--export-json", js,
                                      "--harness-timeout", "%ds" % ht] + list(extra))
        self.kani["cmd"] = "RUSTFLAGS='%s' " % env.get("RUSTFLAGS", "") + " ".join(cmd)
        rc, out, to = run(cmd, timeout, cwd=CRATE, env=env)
        with open(os.path.join(self.work, "kani.log"), "a") as f:
            f.write(out)
        if not os.path.exists(js):
            return None, out
        return json.load(open(js)), out

    @staticmethod
    def classify(checks, status):
        """proved | violated | undecided, with the failed checks."""
        checks = checks or []
        fails = [c for c in checks if c["status"] == "Failure"]
        hard = [c for c in fails if "unwinding assertion" not in c["description"]
                and "recursion unwinding" not in c["description"]
                and c["category"] not in ("unsupported_construct", "unwind", "recursion")
                and "is not currently supported" not in c["description"]
                and "unsupported" not in c["description"].lower()]
        soft = [c for c in fails if c not in hard]
        if status == "Success":
            cov = [c for c in checks if "contract end reachable" in c["description"]]
            if cov and not any(c["status"] in ("Satisfied", "Success") for c in cov):
                return "vacuous", []
            return "proved", []
        if hard and not soft:
            return "violated", hard
        if hard:
            # Failures next to a failed unwinding assertion are only trusted after a re-run.
            return "maybe", hard
        return "undecided", soft

    def run_kani(self):
        filters = self.spec.get("kani", [])
        if self.tier == "thorough":
            filters = filters + self.spec.get("kani_thorough", [])
        if not filters:
            return
        hooks = self.spec.get("cfgs", [])
        data, out = self.run_kani_once(filters, hooks, [], max(60, self.left() - 60))
        if data is None and hooks:
            self.notes.append("kani build failed with hooks; retried without")
            data, out = self.run_kani_once(filters, [], [], max(60, self.left() - 60))
        if data is None:
            self.notes.append("kani produced no result (build failure or time out)")
            log(out[-2500:])
            return
        self.kani["ran"] = True
        stats = {c["harness_id"]: c.get("cbmc_stats") for c in data.get("cbmc") or []}
        again = []
        for r in (data.get("verification_results") or {}).get("results") or []:
            r["checks"] = r.get("checks") or []
            kind, fails = self.classify(r["checks"], r["status"])
            h = {"harness": r["harness_id"], "verdict": kind, "ms": r.get("duration_ms") or 0,
                 "obligations": len([c for c in r["checks"]
                                     if "contract end reachable" not in c["description"]]),
                 "discharged": len([c for c in r["checks"]
                                    if c["status"] in ("Success", "Unreachable")
                                    and "contract end reachable" not in c["description"]]),
                 "solver_s": round((stats.get(r["harness_id"]) or {}).get("runtime_decision_procedure_s") or 0, 3),
                 "fails": [f"{c['description']} in {c['function']} at {c['location']['file']}:{c['location']['line']}"
                           for c in fails][:5]}
            self.kani["harnesses"].append(h)
            if kind in ("maybe", "undecided") and fails:
                again.append(h)
        if again and self.left() > 120:
            # A loop grew (or was added): give it more iterations before judging.
            d2, _ = self.run_kani_once([h["harness"] for h in again], hooks,
                                       ["--unwind", "40"], max(60, min(300, self.left() - 60)))
            if d2:
                for r in (d2.get("verification_results") or {}).get("results") or []:
                    for h in again:
                        if h["harness"] == r["harness_id"]:
                            kind, fails = self.classify(r["checks"], r["status"])
                            if kind == "maybe":
                                kind = "undecided"
                            h["verdict"] = kind
                            h["fails"] = [f"{c['description']} in {c['function']} at {c['location']['file']}:{c['location']['line']}" for c in fails][:5]
        for h in self.kani["harnesses"]:
            if h["verdict"] == "maybe":
                h["verdict"] = "undecided"

    def playback(self, harness):
        """The verifier's counterexamples for a harness, as replay files."""
        env = env_for(self.spec.get("cfgs", []), "kani", self.spec.get("features", []))
        cmd = self.kani_cmd([harness], ["--exact", "-Z", "concrete-playback",
                                        "--concrete-playback=print"])
        rc, out, to = run(cmd, max(60, min(300, self.left() - 60)), cwd=CRATE, env=env)
        files = []
        for m in re.finditer(r"/// Check for `(\w+)`: (.*?)\n.*?concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n    \];",
                             out, re.S):
            if m.group(1) == "cover":
                continue
            vals = re.findall(r"^\s*vec!\[([0-9, ]*)\]", m.group(3), re.M)
            tape = "".join("%02x" % int(b) for v in vals for b in v.split(",") if b.strip())
            p = os.path.join(self.work, "ktape-%d" % len(files))
            with open(p, "w") as f:
                f.write("property=%s\ncontract=%s\nktape=%s\nmessage=%s\nharness=%s\n" % (
                    self.prop, harness.split("::")[-1], tape or "00", m.group(2).strip(), harness))
            files.append(p)
        return files

    # ---- verdict ------------------------------------------------------------
    def violation(self, path, what, no_input=False):
        self.violations.append(what)
        log("violated: " + what)
        log("VIOLATION property=%s replay=%s%s" % (
            self.prop, path, " no-failing-input-found" if no_input else ""))

    def decide(self):
        base_secs = self.spec.get("secs", 8) if self.tier == "quick" else self.spec.get("secs_thorough", 150)
        found = [None]

        def native():
            if self.build_replay():
                rc, txt, _ = run([self.rep["bin"], "list", self.prop], 20)
                self.rep["n"] = len(txt.splitlines())
                found[0] = self.search(base_secs)

        def verus():
            if self.spec.get("verus"):
                import verusrun
                self.verus = verusrun.run_units(self.spec["verus"], REPO, VERIF, self.work,
                                                max(60, min(400, self.left() - 60)))
                if self.tier == "thorough":
                    # No contract may be void: `assert(false)` at the start of a body has to fail.
                    for u in self.verus["units"]:
                        if u["status"] == "verified":
                            u["void_preconditions"] = verusrun.smoke(REPO, VERIF, self.work, u["unit"], 400)

        ts = [threading.Thread(target=native), threading.Thread(target=self.run_kani),
              threading.Thread(target=verus)]
        for t in ts:
            t.start()
        ts[0].join()
        sure = found[0] and self.confirm(found[0])
        for i in (1, 2):
            if found[0] and not sure and self.left() > 200:
                self.notes.append("a failure did not show again on the recorded input")
                found[0] = self.search(base_secs, seed=self.seed + i, fresh=True)
                sure = found[0] and self.confirm(found[0])
        if sure:
            p = self.keep(found[0], "input")
            txt = open(p).read()
            m = re.search(r"^message=(.*)", txt, re.M)
            c = re.search(r"^contract=(.*)", txt, re.M)
            for t in ts[1:]:
                t.join()
            failed = [h["harness"] for h in self.kani["harnesses"] if h["verdict"] == "violated"]
            failed += ["%s (verus)" % f["obligation"] for u in self.verus["units"] for f in u.get("failed", [])]
            with open(p, "a") as f:
                f.write("failed_obligations=%s\n" % ", ".join(failed))
            self.violation(p, "contract %s: %s" % (c and c.group(1), m and m.group(1)))
            return 1
        for t in ts[1:]:
            t.join()
        bad = [h for h in self.kani["harnesses"] if h["verdict"] == "violated"]
        for h in bad:
            log("failed obligation: %s: %s" % (h["harness"], "; ".join(h["fails"])))
        if bad and self.rep["bin"]:
            for h in bad[:3]:
                for f in self.playback(h["harness"]):
                    if self.confirm(f):
                        self.violation(self.keep(f, "input"), "%s: %s" % (h["harness"], "; ".join(h["fails"])))
                        return 1
            names = [h["harness"].split("::")[-1] for h in bad]
            f = self.search(min(40, max(10, self.left() - 30)), names, self.seed + 77)
            if f and self.confirm(f):
                self.violation(self.keep(f, "input"), "%s: %s" % (bad[0]["harness"], "; ".join(bad[0]["fails"])))
                return 1
        vbad = [f for u in self.verus["units"] for f in u.get("failed", [])]
        for f in vbad:
            log("failed obligation: %s: %s" % (f["obligation"], f["message"]))
        if vbad and not bad and self.rep["bin"]:
            f = self.search(min(60, max(10, self.left() - 30)), None, self.seed + 99)
            if f and self.confirm(f):
                self.violation(self.keep(f, "input"), "%s: %s" % (vbad[0]["obligation"], vbad[0]["message"]))
                return 1
        if bad or vbad:
            p = os.path.join(self.rep_dir, "%s-obligation.txt" % self.prop)
            with open(p, "w") as f:
                f.write("property=%s\n" % self.prop)
                for h in bad:
                    f.write("failed_obligation=%s\n" % h["harness"])
                    for x in h["fails"]:
                        f.write("  " + x + "\n")
                for v in vbad:
                    f.write("failed_obligation=%s\n%s\n" % (v["obligation"], v["output"]))
                f.write("rerun=%s\n" % (self.kani.get("cmd") if bad else self.verus.get("cmd")))
            self.violation(p, (bad and bad[0]["harness"]) or vbad[0]["obligation"], True)
            return 1
        decided = [h for h in self.kani["harnesses"] if h["verdict"] == "proved"] or \
                  [u for u in self.verus["units"] if u["status"] == "verified"] or \
                  [s for s in self.rep["stats"] if s["passed"]]
        if not decided:
            log("UNDECIDED property=%s: no engine gave an answer" % self.prop)
            return 2
        return 0

    def evidence(self, rc):
        sp = self.spec
        bounded = set(sp.get("bounded", {}))
        hs = self.kani["harnesses"]
        full = [h for h in hs if h["harness"].split("::")[-1] not in bounded]
        part = [h for h in hs if h["harness"].split("::")[-1] in bounded]
        vu = self.verus["units"]
        ob = sum(h["obligations"] for h in full) + sum(u.get("obligations", 0) for u in vu)
        di = sum(h["discharged"] for h in full if h["verdict"] == "proved") + \
            sum(u.get("discharged", 0) for u in vu)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": sp.get("level", "proof"),
            "coverage": {
                "obligations": ob, "discharged": di,
                "checker_cmd": (self.kani.get("cmd") or self.verus.get("cmd") or "%s search %s" % (self.rep["bin"], self.prop)),
                "trusted_base": P.TRUSTED + sp.get("trusted", []),
                "functions_under_contract": sp.get("functions", []),
                "kani_harnesses": [{k: h[k] for k in ("harness", "verdict", "obligations", "discharged", "solver_s", "ms")} for h in full],
                "bounded_harnesses": [dict({k: h[k] for k in ("harness", "verdict", "obligations", "discharged", "solver_s", "ms")},
                                           bound=sp["bounded"][h["harness"].split("::")[-1]]) for h in part],
                "verus_units": [{k: v for k, v in u.items() if k not in ("failed",)} for u in vu],
                "undecided": [{"harness": h["harness"], "why": h["verdict"], "fails": h["fails"]} for h in hs if h["verdict"] not in ("proved", "violated")],
                "contract_executions": self.rep["stats"],
                "contract_executions_note": "bounded stand-in / counterexample search: the same contract bodies run natively on generated inputs; never counted as proved",
                "hooks_used": self.rep["cfgs"],
                "notes": self.notes,
            },
            "assumptions": P.ASSUMPTIONS + sp.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        if ev["level"] != "proof":
            ev["coverage"]["evaluations"] = sum(s["runs"] for s in self.rep["stats"])
            ev["coverage"]["distinct_nontrivial"] = sum(s["distinct"] for s in self.rep["stats"])
            ev["coverage"]["rule"] = "inputs generated from the seed; counted are different input tapes on which every precondition held and the contract ran to its end"
            ev["coverage"]["samples"] = ["%s: tape %s" % (s["contract"], s["sample"]) for s in self.rep["stats"]] or ["none"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(prop, tier)
    try:
        rc = c.decide()
        for k in json.load(open(os.path.join(VERIF, "known-findings.json")))["findings"]:
            if k["property"] == prop and k["status"] == "open":
                log("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        c.evidence(rc)
        for h in c.kani["harnesses"]:
            log("  kani  %-9s %s (%d obligations, %.1f s)" % (h["verdict"], h["harness"], h["obligations"], h["ms"] / 1000))
        for u in c.verus["units"]:
            log("  verus %-9s %s (%s obligations)" % (u["status"], u["unit"], u.get("obligations")))
        log("  replay %d contracts, %d runs" % (len(c.rep["stats"]), sum(s["runs"] for s in c.rep["stats"])))
        for n in c.notes:
            log("  note: " + n)
        log("%s %s rc=%d in %.0f s" % (prop, tier, rc, time.time() - c.t0))
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(c.work, ignore_errors=True)
    sys.exit(rc)


if __name__ == "__main__":
    main()
