#!/usr/bin/env python3
"""Runs one check:  check.py C03 [--replay FILE]   (tier and seed from VERIF_TIER / VERIF_SEED)

1. TLC model-checks the specification modules of the property (transducer = declarative rules,
   protocol invariants, ...).
2. TLC prints the complete state graphs / behaviours that serve as oracle and test suite.
3. The Go driver, built by overlay inside the current /repo tree, runs them against the real code
   and records traces of the real code.
4. TLC validates the recorded traces against the specification.

exit 0: held.  exit 1: VIOLATION line(s).  anything else: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
DATA = os.path.join(SPEC, "data")
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402
import generated  # noqa: E402
from common import Broken, env  # noqa: E402


def run(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace", **kw)
    except subprocess.TimeoutExpired:
        raise Broken("timed out after %ds: %s" % (timeout, " ".join(cmd)[:300]))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.tmp = tempfile.mkdtemp(prefix="uax29-verif-")
        self.tables = os.path.join(self.tmp, "tables")
        self.traces = os.path.join(self.tmp, "traces")
        os.mkdir(self.tables)
        os.mkdir(self.traces)
        self.tlc_runs = []
        self.t0 = time.time()

    # ------------------------------------------------------------------ TLC
    def tlc(self, name, module, cfg, workers=1, timeout=800, extra_env=None, heap="3g", post=False, simulate=None):
        out = os.path.join(self.tables, name + ".out")
        cfgp = os.path.join(self.tmp, name + ".cfg")
        text = open(os.path.join(SPEC, cfg["file"] + ".cfg")).read()
        for k, v in cfg.get("set", {}).items():
            text, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
            if n != 1:
                raise Broken("constant %s not in %s.cfg" % (k, cfg["file"]))
        open(cfgp, "w").write(text)
        e = env()
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Djava.io.tmpdir=%s" % (heap, self.tmp)
        e.update(extra_env or {})
        cmd = ["tlc", "-noGenerateSpecTE", "-metadir", os.path.join(self.tmp, "meta-" + name), "-workers", str(workers), "-config", cfgp]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate[0], "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd += [os.path.join(SPEC, module + ".tla")]
        t = time.time()
        with open(out, "w") as f:
            try:
                p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=self.tmp)
            except subprocess.TimeoutExpired:
                raise Broken("TLC timed out on %s" % name)
        head = tail = ""
        with open(out, errors="replace") as f:
            body = f.read()
        plain = [l for l in body.splitlines() if not l.startswith('"T ')]
        tail = "\n".join(plain)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", tail)
        depth = re.findall(r"depth of the complete state graph search is (\d+)", tail)
        r = {"name": name, "module": module, "seconds": round(time.time() - t, 1)}
        if m:
            r["states_generated"], r["distinct_states"] = int(m[-1][0]), int(m[-1][1])
        if depth:
            r["depth"] = int(depth[-1])
        ok = "Model checking completed. No error has been found." in tail or (simulate and p.returncode == 0)
        if post:
            r["post"] = [json.loads(json.loads(l)[2:]) for l in body.splitlines() if l.startswith('"T ')][-1:]
            if not r["post"]:
                raise Broken("TLC run %s failed:\n%s" % (name, tail[-3000:]))
            other = [l for l in plain if l.startswith("Error:") and "TraceAccepted" not in l and "ostcondition" not in l]
            if other:
                raise Broken("TLC run %s failed:\n%s" % (name, tail[-3000:]))
        elif not ok or p.returncode != 0:
            raise Broken("TLC run %s failed (%d):\n%s" % (name, p.returncode, tail[-3000:]))
        return r

    # ------------------------------------------------------------------ driver
    def overlay(self, moddir, name, files, at=None):
        d = {"Replace": {os.path.join(moddir, at if at is not None else "internal/zzverif/" + name, os.path.basename(f)): f for f in files}}
        p = os.path.join(self.tmp, "overlay-%s.json" % name)
        json.dump(d, open(p, "w"))
        return p

    def build(self, name="drv", src="driver", race=False, moddir=REPO):
        files = [os.path.join(HERE, src, f) for f in sorted(os.listdir(os.path.join(HERE, src))) if f.endswith(".go")]
        ov = self.overlay(moddir, name, files)
        out = os.path.join(self.tmp, name + ("-race" if race else ""))
        cmd = ["go", "build", "-overlay", ov, "-o", out] + (["-race"] if race else []) + ["./internal/zzverif/" + name]
        p = run(cmd, 600, cwd=moddir, env=env())
        if p.returncode != 0:
            raise Broken("driver does not build against %s:\n%s" % (moddir, p.stdout[-4000:]))
        return out

    def drive(self, binary, out, extra=(), timeout=800, tier=None):
        cmd = [binary, "-prop", self.prop, "-tier", tier or self.tier, "-seed", str(self.seed), "-tables", self.tables,
               "-data", DATA, "-out", out, "-trace", self.traces] + list(extra)
        p = run(cmd, timeout, env=env(), cwd=self.tmp)
        return p

    # ------------------------------------------------------------------ main
    def main(self):
        plan, thorough = self.plan, self.tier == "thorough"
        ex = cf.ThreadPoolExecutor(max_workers=6)
        builds = {}
        for b in plan.get("build", [] if "custom" in plan else [{"name": "drv"}]):
            builds[b.get("key", b["name"])] = ex.submit(lambda b=b: self.build(**{k: v for k, v in b.items() if k in ("name", "src", "race")}))
        tabs = [ex.submit(self.tlc, t["name"], t["module"], t.get("cfg", {"file": t["name"]}),
                          t.get("workers", 1), 800, t.get("env"), t.get("heap", "3g"), False,
                          t.get("simulate_thorough" if thorough else "simulate"))
                for t in plan.get("tables", [])]
        for t in tabs:
            r = t.result()
            r["kind"] = "state graph / behaviours for the driver"
            self.tlc_runs.append(r)
        # model checking runs next to the driver
        mcs = []
        for t in plan.get("mc", []) + (plan.get("mc_thorough", []) if thorough else []):
            st = dict(t.get("set", {}))
            if thorough:
                st.update(t.get("set_thorough", {}))
            mcs.append(ex.submit(self.tlc, t["name"], t["module"], {"file": t["name"], "set": st}, t.get("workers", 4), 850, None, t.get("heap", "6g")))
        results = []
        for b in plan.get("run", [] if "custom" in plan else [{"build": "drv"}]):
            binary = builds[b["build"]].result()
            out = os.path.join(self.tmp, "result-%s.json" % b["build"])
            p = self.drive(binary, out, b.get("args", []), tier=b.get("tier"))
            if os.environ.get("DRV_TIME"):
                sys.stderr.write(p.stdout)
            if p.returncode != 0 and b.get("race") and "WARNING: DATA RACE" in p.stdout:
                results.append({"nfail": 1, "failures": [{"what": "data race", "report": p.stdout[:6000]}], "evaluations": 0, "suites": {}, "info": {}})
                continue
            if p.returncode != 0 or not os.path.exists(out):
                results.append(self.crashed(binary, p, b))
                continue
            results.append(json.load(open(out)))
        if "custom" in plan:
            results.append(getattr(generated, plan["custom"])(self))
        traced = self.validate_traces(ex)
        for m in mcs:
            r = m.result()
            r["kind"] = "model checking"
            self.tlc_runs.append(r)
        return self.finish(results, traced)

    def crashed(self, binary, p, b):
        """The driver died (not a recovered panic): find the text that kills it, and show that it does."""
        first = p.stdout[-3000:]
        if p.returncode == 2 and "driver:" in first and "fatal error" not in first and "panic" not in first:
            raise Broken("driver failed:\n" + first)
        jd = os.path.join(self.tmp, "journal")
        os.makedirs(jd, exist_ok=True)
        out = os.path.join(self.tmp, "result-journal.json")
        q = self.drive(binary, out, list(b.get("args", [])) + ["-journal", jd])
        if q.returncode == 0:
            raise Broken("driver died once and not again:\n" + first)
        for f in sorted(os.listdir(jd)):
            path = os.path.join(jd, f)
            if os.path.getsize(path) == 0:
                continue
            o = os.path.join(self.tmp, "result-replay.json")
            if os.path.exists(o):
                os.remove(o)
            r = self.drive(binary, o, ["-replay", path], timeout=300)
            if r.returncode != 0 and not os.path.exists(o):
                fail = json.load(open(path))
                fail["what"] = "the process dies: " + (re.findall(r"(?m)^(?:fatal error|panic|runtime).*$", r.stdout) or [r.stdout[-300:]])[0]
                return {"nfail": 1, "failures": [fail], "evaluations": 0, "suites": {}, "info": {}}
        raise Broken("driver dies, and no single text reproduces it:\n" + first)

    def validate_traces(self, ex):
        """TLC decides whether every recorded trace is a behaviour of its specification."""
        out = []
        jobs = []
        for f in sorted(os.listdir(self.traces)):
            if not f.endswith(".ndjson"):
                continue
            path = os.path.join(self.traces, f)
            module = f.split("-")[0].split(".")[0]
            jobs.append((f, path, ex.submit(self.tlc, "trace-" + f[:-7], module, {"file": module}, 1, 800, {"TRACE": path, **{k: os.path.join(DATA, v) for k, v in self.plan.get("trace_env", {}).items()}}, "3g", True)))
        for f, path, j in jobs:
            r = j.result()
            r["kind"] = "trace validation"
            self.tlc_runs.append(r)
            post = r.pop("post")[0]
            lines = open(path).read().splitlines()
            t = {"trace": f, "events": len(lines), "matched": post["matched"], "accepted": post["matched"] == len(lines),
                 "behaviours": sum(1 for l in lines if '"e":"start"' in l)}
            if not t["accepted"]:
                k = post["matched"]
                s = k
                while s > 0 and '"e":"start"' not in lines[s]:
                    s -= 1
                t["failure"] = {"what": "trace rejected by TLC: event %d of the recorded behaviour is not a step of %s" % (k - s, r["module"]),
                                "event": json.loads(lines[k]), "behaviour": [json.loads(x) for x in lines[s:k + 1]][:200]}
                st = json.loads(lines[s])
                if "hex" in st:
                    t["failure"]["text_hex"] = st["hex"]
                    t["failure"]["seg"] = st.get("seg", "")
            out.append(t)
        return out

    def finish(self, results, traced):
        known = [k for k in load_known() if k["property"] == self.prop and k.get("status") != "fixed"]
        failures = [f for r in results for f in (r.get("failures") or [])]
        failures += [t["failure"] for t in traced if "failure" in t]
        real, hits = [], {}
        for f in failures:
            k = next((k for k in known if matches(k, f)), None)
            if k:
                hits[k["id"]] = hits.get(k["id"], 0) + 1
            else:
                real.append(f)
        for r in results:
            for kid in r.get("info", {}).get("known_hit", []) or []:
                hits[kid] = hits.get(kid, 0) + 1
        for k in known:
            if k["id"] in hits:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            else:
                print("note: known finding %s did not show on this run" % k["id"])
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        for old in os.listdir(rdir):
            if old.startswith(self.prop + "-"):
                os.remove(os.path.join(rdir, old))
        for i, f in enumerate(real[:5]):
            path = os.path.join(rdir, "%s-%d.json" % (self.prop, i))
            json.dump({**f, "property": self.prop, "seed": self.seed, "tier": self.tier}, open(path, "w"), indent=1)
            brief = {k: v for k, v in f.items() if k in ("seg", "path", "suite", "what", "text", "want_ends", "got_ends", "config")}
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("   " + json.dumps(brief)[:1500])
        self.evidence(results, traced, real)
        return 1 if real else 0

    def evidence(self, results, traced, real):
        evals = sum(r.get("evaluations", 0) for r in results)
        distinct = sum(r.get("distinct", 0) for r in results)
        samples = [s for r in results for s in (r.get("samples") or [])][:6]
        suites, info = {}, {}
        for r in results:
            suites.update(r.get("suites") or {})
            info.update(r.get("info") or {})
        cov = {
            "states": sum(r.get("distinct_states", 0) for r in self.tlc_runs if r["kind"] != "trace validation"),
            "transitions": sum(r.get("states_generated", 0) for r in self.tlc_runs if r["kind"] != "trace validation"),
            "traces_validated_against_impl": sum(t["behaviours"] for t in traced if t["accepted"]),
            "trace_events_validated_by_tlc": sum(t["matched"] for t in traced),
            "evaluations": evals,
            "rule": self.plan.get("rule", "texts, schedules and histories generated from the TLC state graphs, run on the real code and compared with what the specification prescribes"),
            "samples": samples or [json.dumps(t)[:300] for t in traced[:2]] or ["none"],
            "suites": suites,
            "tlc_runs": self.tlc_runs,
            "info": info,
        }
        if distinct:
            cov["distinct_nontrivial"] = distinct
        if any(r.get("rule_hits") for r in results):
            cov["specification_rules_exercised"] = {k: v for r in results for k, v in (r.get("rule_hits") or {}).items()}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.plan["level"], "coverage": cov,
              "assumptions": self.plan.get("assumptions", []), "wall_s": round(time.time() - self.t0, 1), "violations": len(real)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        text = json.dumps(ev, indent=1)
        if len(text) > 60000:
            cov["info"] = "omitted (too long)"
            text = json.dumps(ev, indent=1)
        open(os.path.join(HERE, "evidence", self.prop + ".json"), "w").write(text)

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def load_known():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def matches(k, f):
    """A finding names the exact values of some fields of the failure; a list means any of them."""
    return all(f.get(key) in v if isinstance(v, list) else f.get(key) == v for key, v in k.get("match", {"what": None}).items())


def main():
    args = sys.argv[1:]
    if not args or args[0] not in PLAN:
        print("usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]; properties: " + " ".join(PLAN))
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = Check(args[0], tier, seed)
    try:
        if "--replay" in args:
            for t in c.plan.get("tables", []):
                c.tlc(t["name"], t["module"], t.get("cfg", {"file": t["name"]}))
            if "custom" in c.plan:
                r = getattr(generated, c.plan["custom"])(c, os.path.abspath(args[args.index("--replay") + 1]))
                print(json.dumps(r["failures"], indent=1)[:20000])
                return 1 if r["nfail"] else 0
            out = os.path.join(c.tmp, "replay.json")
            b = c.plan.get("build", [{"name": "drv"}])[0]
            p = c.drive(c.build(**{k: v for k, v in b.items() if k in ("name", "src", "race")}), out, ["-replay", os.path.abspath(args[args.index("--replay") + 1])])
            print(p.stdout[-3000:])
            if os.path.exists(out):
                r = json.load(open(out))
                print(json.dumps(r["failures"], indent=1))
                return 1 if r["nfail"] else 0
            return 1
        return c.main()
    except Broken as e:
        print("CHECK ERROR (%s): %s" % (args[0], e))
        return 2
    except Exception:
        import traceback
        print("CHECK ERROR (%s): %s" % (args[0], traceback.format_exc()))
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
