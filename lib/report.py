"""Shared reporting: violations, known findings, evidence."""
import json, os, sys, time, traceback
from frontend import Broken, REPO

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Report:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.viol = {}
        self.samples = []
        self.counts = {}
        self.rules = {}
        self.assumptions = []
        self.functions = set()
        self.configs = set()
        self.trusted = ["gcc -E (preprocessing only)", "pycparser", "abstract interpreter lib/absint.py"]

    # an obligation is one (construct, rule) instance that was decided
    def ob(self, rule, ok, key, where, msg, sample=None):
        """Record one decided obligation."""
        self.counts.setdefault(rule, [0, 0])
        self.counts[rule][0] += 1
        if ok:
            self.counts[rule][1] += 1
            if sample is not None and len([1 for s in self.samples if s.get("rule") == rule]) < 3:
                self.samples.append({"rule": rule, "where": where, "detail": sample})
        else:
            self.violation(key, where, msg, rule)
        return ok

    def violation(self, key, where, msg, rule="rule"):
        if key not in self.viol:
            self.viol[key] = {"key": key, "where": where, "message": msg, "rule": rule}

    def rule(self, name, text):
        self.rules[name] = text

    def parallel(self, tasks, procs=8):
        """Run analysis tasks (name, fn(report)) in forked workers and merge what they decided."""
        import multiprocessing as mp
        import gc
        ctx = mp.get_context("fork")
        gc.collect()
        gc.freeze()
        global _TASKS
        _TASKS = [(self.prop, n, f) for n, f in tasks]
        with ctx.Pool(min(procs, max(1, len(tasks)))) as pool:
            res = pool.map(_run_task, range(len(tasks)), chunksize=1)
        err = None
        for name, sub, e in res:
            for k, c in sub["counts"].items():
                d = self.counts.setdefault(k, [0, 0])
                d[0] += c[0]
                d[1] += c[1]
            for k, v in sub["viol"].items():
                self.viol.setdefault(k, v)
            for x in sub["samples"]:
                if len([1 for y in self.samples if y.get("rule") == x.get("rule")]) < 3:
                    self.samples.append(x)
            self.functions |= sub["functions"]
            self.configs |= sub["configs"]
            if e:
                err = err or e
        if err:
            if err[0] == "broken":
                raise Broken(err[1])
            raise RuntimeError(err[1])

    def expect(self, rule, minimum):
        n = self.counts.get(rule, [0, 0])[0]
        if n < minimum:
            raise Broken("rule %s matched only %d instances (expected at least %d): the analysis lost its anchors" % (rule, n, minimum))

    def use(self, unit, funcs=()):
        self.configs.add(unit.name)
        self.functions |= {"%s" % f for f in funcs}

    def finish(self):
        known = []
        if os.path.exists(KNOWN):
            known = json.load(open(KNOWN))["findings"]
        mine = {k["key"]: k for k in known if k["property"] == self.prop and k.get("status") == "open"}
        new = []
        kf = []
        for k, v in sorted(self.viol.items()):
            (kf if k in mine else new).append(v)
        total = sum(c[0] for c in self.counts.values())
        okc = sum(c[1] for c in self.counts.values())
        cov = {
            "explanation": "Static analysis of the C sources (no execution). Each obligation is one (construct, rule) instance decided on the syntax tree / abstract interpretation of the current tree.",
            "obligations": total,
            "discharged": okc,
            "rules": {r: {"instances": c[0], "satisfied": c[1], "rule": self.rules.get(r, "")} for r, c in sorted(self.counts.items())},
            "functions_analysed": len(self.functions),
            "functions": sorted(self.functions)[:400],
            "configurations": sorted(self.configs),
            "samples": self.samples[:24] or [{"note": "no sample"}],
            "checker_cmd": "python3-vt /verif/check.py %s" % self.prop,
            "trusted_base": self.trusted,
            "known_findings": [v["key"] for v in kf],
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3), "violations": len(new)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(path, "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        for v in kf:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, mine[v["key"]]["what"]))
        if new:
            rp = os.path.join(VERIF, "evidence", self.prop + ".violations.json")
            with open(rp, "w") as f:
                json.dump(new, f, indent=1, default=str)
            for v in new[:40]:
                print("%s: %s: [%s] %s" % (v["where"], v["key"], v["rule"], v["message"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        print("property %s holds: %d obligations over %d functions, configurations %s (%.1fs)" % (
            self.prop, total, len(self.functions), ",".join(sorted(self.configs)), time.time() - self.t0))
        return 0


_TASKS = []


def _run_task(i):
    import gc
    gc.set_threshold(200000, 20, 100)
    prop, name, fn = _TASKS[i]
    r = Report(prop)
    err = None
    try:
        fn(r)
    except Broken as e:
        err = ("broken", "%s: %s" % (name, e))
    except Exception:
        err = ("error", "%s: %s" % (name, traceback.format_exc()))
    return name, {"counts": r.counts, "viol": r.viol, "samples": r.samples, "functions": r.functions, "configs": r.configs}, err


def main(prop, fn):
    r = Report(prop)
    try:
        fn(r)
        code = r.finish()
    except Broken as e:
        if r.viol:
            code = r.finish()
            print("note: analysis also stopped early: %s" % e)
            if code == 0:
                code = 3
        else:
            print("ANALYSIS-BROKEN property=%s %s" % (prop, e))
            code = 3
    except Exception:
        traceback.print_exc()
        if r.viol and r.finish():
            return 1
        print("ANALYSIS-BROKEN property=%s internal error" % prop)
        code = 3
    sys.stdout.flush()
    return code
