"""Shared machinery of the checks: build, drive the real code, judge with TLC, report."""
import concurrent.futures
import json, os, re, subprocess, sys, time, random, shutil, hashlib, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
SPEC = os.path.join(VERIF, "spec")
TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class Inconclusive(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def build(*targets, out=None, cxxflags=None):
    out = out or BUILD
    os.makedirs(out, exist_ok=True)
    cmd = ["make", "-s", "-j8", "-f", os.path.join(VERIF, "harness", "Makefile"),
           "REPO=" + REPO, "OUT=" + out]
    if cxxflags:
        cmd.append("CXXFLAGS=" + cxxflags)
    cmd += [t if t in ("core", "full") else os.path.join(out, t) for t in targets]
    env = dict(os.environ)
    for k in ("MAKEFLAGS", "CFLAGS", "CXXFLAGS", "MAKELEVEL"):
        env.pop(k, None)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    if r.returncode != 0:
        raise Inconclusive("build of %s failed:\n%s" % (targets, r.stdout[-4000:]))


def hash_key(obj):
    return hashlib.sha1(json.dumps(obj, sort_keys=True).encode()).hexdigest()[:12]


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.work = os.path.join(os.environ.get("VERIF_WORK", os.path.join(VERIF, "work")), prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work, exist_ok=True)
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.models = []          # model-checking runs of the specification itself
        self.bad = []             # (stage, case, reason)
        self.counts = {}
        self.assumptions = []
        self.known = load_known(prop)
        self.budget = float(os.environ.get("VERIF_BUDGET", "2400" if self.thorough else "600"))

    def rng(self, salt):
        return random.Random("%s/%s/%s" % (self.prop, salt, self.seed))

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.budget - (time.time() - self.t0)

    # ---- running the real code -------------------------------------------------
    def drive(self, exe, cases, stage, timeout=20, args=(), env=None):
        """Run the driver on every case.  A case on which the real code crashes or hangs is an
        observation too."""
        exe = os.path.join(BUILD, exe) if not os.path.isabs(exe) else exe
        e = dict(os.environ, **(env or {}))
        # keep the drivers independent of the machine's locale
        e.setdefault("LC_ALL", "C.UTF-8")
        parts = 8 if len(cases) >= 200 else 1
        obs = [None] * len(cases)
        with concurrent.futures.ThreadPoolExecutor(parts) as ex:
            fs = [ex.submit(self._drive, exe, cases[k::parts], "%s.%d" % (stage, k), timeout, list(args), e, 40 // parts)
                  for k in range(parts)]
            for k, f in enumerate(fs):
                obs[k::parts] = f.result()
        # a part that crashed too often has no observations for its last cases: drop those
        keep = [i for i in range(len(cases)) if obs[i] is not None]
        cases[:] = [cases[i] for i in keep]
        obs = {i + 1: obs[j] for i, j in enumerate(keep)}
        for i, c in enumerate(cases):
            c["id"] = i + 1
        res = []
        for c in cases:
            o = obs[c["id"]]
            r = dict(c)
            if "__crash" in o:
                r["crash"] = o["__crash"]
                r["obs"] = {}
                r["stderr"] = o["__stderr"]
            else:
                r["crash"] = ""
                r["obs"] = o
            res.append(r)
        return res

    def _drive(self, exe, cases, stage, timeout, args, e, maxrestarts):
        path = os.path.join(self.work, stage + ".cases.ndjson")
        outp = os.path.join(self.work, stage + ".obs.ndjson")
        with open(path, "w") as f:
            for i, c in enumerate(cases):
                f.write(json.dumps(dict(c, id=i + 1), separators=(",", ":")) + "\n")
        obs = [None] * len(cases)
        start = 1
        restarts = 0
        while start <= len(cases):
            if os.path.exists(outp):
                os.remove(outp)
            p = subprocess.run([exe, path, outp, str(start), str(timeout)] + args, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.work)
            last = start - 1
            if os.path.exists(outp):
                with open(outp, encoding="utf-8", errors="replace") as f:
                    for line in f:
                        if not line.endswith("\n"):
                            break
                        o = json.loads(line)
                        obs[o["id"] - 1] = o["obs"]
                        last = max(last, o["id"])
            if p.returncode == 0:
                if last != len(cases):
                    raise Inconclusive("driver %s ended early at %d/%d" % (exe, last, len(cases)))
                break
            if last >= len(cases):
                break
            if p.returncode in (2, 3):
                raise Inconclusive("driver %s: %s" % (exe, p.stderr.decode(errors="replace")[-2000:]))
            how = "hang" if p.returncode == -signal.SIGALRM else "crash"
            obs[last] = {"__crash": how, "__stderr": p.stderr.decode(errors="replace")[-1500:]}
            start = last + 2
            restarts += 1
            if restarts > maxrestarts:
                break
        return obs

    # ---- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg, stage, env=None, workers=8, timeout=None, extra=(), mem="12g"):
        meta = os.path.join(self.work, stage + ".meta")
        shutil.rmtree(meta, ignore_errors=True)
        e = dict(os.environ, **(env or {}))
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss512m", "-cp", TLAJARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-deadlock", "-config", os.path.join(SPEC, cfg)] + list(extra) + \
              [os.path.join(SPEC, module)]
        t0 = time.time()
        try:
            p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=self.work,
                               timeout=timeout)
        except subprocess.TimeoutExpired as ex:
            raise Inconclusive("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = p.stdout.decode(errors="replace")
        with open(os.path.join(self.work, stage + ".tlc.log"), "w") as f:
            f.write(out)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        return dict(rc=p.returncode, out=out, generated=gen, distinct=dist, wall=time.time() - t0)

    def model(self, module, cfg, stage=None, **kw):
        """Model-check the specification itself.  A failure here is about the specification
        (it does not depend on /repo), so it is never reported as a violation of the code."""
        stage = stage or "mc_" + cfg.replace(".cfg", "")
        r = self.tlc(module, cfg, stage, **kw)
        if r["rc"] != 0:
            raise Inconclusive("model %s/%s does not satisfy its properties:\n%s" % (module, cfg, r["out"][-3000:]))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.models.append({"module": module, "config": cfg, "distinct_states": r["distinct"],
                            "states_generated": r["generated"], "wall_s": round(r["wall"], 1)})
        log("  model %-28s %9d distinct states  %.1fs" % (cfg, r["distinct"], r["wall"]))
        return r

    def judge(self, module, cfg, records, stage, describe=None, expect=None, env=None, **kw):
        """Let TLC decide every recorded observation against the specification."""
        path = os.path.join(self.work, stage + ".trace.ndjson")
        with open(path, "w") as f:
            for r in records:
                r = {k: v for k, v in r.items() if k != "stderr"}
                f.write(json.dumps(r, separators=(",", ":")) + "\n")
        ee = {"CASES": path}
        ee.update(env or {})
        r = self.tlc(module, cfg, stage, env=ee, **kw)
        bad = {}
        # (a plain string: TLC breaks long tuples over several lines)
        for m in re.finditer(r'^"BAD (\d+) (.*)"$', r["out"], re.M):
            bad.setdefault(int(m.group(1)), m.group(2))
        if len(bad) != len(set(re.findall(r'"BAD"?,?\s+(\d+)', r["out"]))):
            raise Inconclusive("cannot read all the verdicts of %s" % stage)
        if r["rc"] != 0 and "Model checking completed. No error" not in r["out"]:
            raise Inconclusive("TLC failed on %s:\n%s" % (stage, r["out"][-5000:]))
        want = expect if expect is not None else len(records) + min(64, len(records)) + 1
        if r["distinct"] != want:
            raise Inconclusive("TLC judged %d states, expected %d (%s)" % (r["distinct"], want, stage))
        self.states += r["distinct"]
        self.transitions += r["generated"]
        self.traces += len(records)
        log("  judged %-28s %9d traces, %d rejected  %.1fs" % (stage, len(records), len(bad), r["wall"]))
        byid = {x["id"]: x for x in records}
        out = []
        for i, why in sorted(bad.items()):
            out.append((byid[i], why))
        if not self.samples and records:
            self.samples.append(trim(records[len(records) // 2]))
        return out

    def confirm(self, exe, bad, stage, module, cfg, key=None, timeout=20, args=(), env=None, jenv=None, prepare=None, **kw):
        """Re-run rejected cases from scratch, and keep only the ones that are rejected again."""
        if not bad:
            return
        strip = ("obs", "crash", "stderr", "id", "genout")
        cases = [{k: v for k, v in c.items() if k not in strip} for c, _ in bad[:200]]
        recs = self.drive(exe, cases, stage + ".again", timeout=timeout, args=args, env=env)
        if prepare: prepare(recs)
        again = self.judge(module, cfg, recs, stage + ".again", env=jenv, **kw)
        self.traces -= len(recs)
        for c, why in again:
            self.violation(stage, c, why, key=key)

    def violation(self, stage, case, why, key=None):
        k = key(case) if key else hash_key({a: b for a, b in case.items() if a not in ("obs", "crash", "stderr", "id", "genfail", "genout")})
        self.bad.append((stage, case, why, k))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    # ---- reporting -----------------------------------------------------------
    def finish(self, level="model_checking", extra=None):
        unlisted, listed = [], {}
        for stage, case, why, k in self.bad:
            hit = [e for e in self.known if e["key"] == k or k.startswith(e["key"] + ":")]
            if hit:
                listed.setdefault(hit[0]["key"], (hit[0], case, why))
            else:
                unlisted.append((stage, case, why, k))
        for key in sorted(listed):
            e, case, why = listed[key]
            log("KNOWN-FINDING: property=%s %s" % (self.prop, e["what"]))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
               "model_runs": self.models}
        cov.update({k: v for k, v in self.counts.items()})
        cov.update(extra or {})
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(unlisted)}
        evd = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(evd, exist_ok=True)
        with open(os.path.join(evd, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if unlisted:
            rdir = os.path.join(evd, "replay")
            os.makedirs(rdir, exist_ok=True)
            unlisted.sort(key=lambda x: len(json.dumps(x[1])))
            path = os.path.join(rdir, "%s.json" % self.prop)
            with open(path, "w") as f:
                json.dump([{"stage": s, "why": w, "key": k, "case": c} for s, c, w, k in unlisted[:25]], f, indent=1)
            for s, c, w, k in unlisted[:3]:
                log("  rejected [%s] key=%s: %s\n    %s" % (s, k, w, json.dumps(trim(c))[:900]))
            log("VIOLATION property=%s replay=%s" % (self.prop, path))
            return 1
        log("OK property=%s traces=%d states=%d wall=%.1fs" % (self.prop, self.traces, self.states, time.time() - self.t0))
        return 0


def trim(x, n=40):
    if isinstance(x, dict):
        return {k: trim(v, n) for k, v in list(x.items())[:n]}
    if isinstance(x, list):
        return [trim(v, n) for v in x[:n]] + (["... %d more" % (len(x) - n)] if len(x) > n else [])
    return x


def load_known(prop):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")
    res = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            e = json.loads(line)
            if e.get("status") == "known" and e["property"] == prop:
                res.append(e)
    return res
