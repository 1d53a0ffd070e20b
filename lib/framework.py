"""Running one property's check: model checking, driving the real server, trace validation, evidence."""
import concurrent.futures, json, multiprocessing, os, random, re, sys, time, traceback
import nexo
from nexo import ToolError, Violation, VERIF, scratch, build
import tlc as T

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, trace_steps=0, trace_operations=0, samples=[])
        self.notes = []; self.assumptions = []
        self.violations = []     # (text, data)
        self.known = []
        self.models = []
        self.traces = []         # (module, trace)
    @property
    def thorough(self): return self.tier == "thorough"
    def pick(self, quick, thorough): return thorough if self.thorough else quick
    # ---- design level
    def model(self, name, module, cfg, timeout=600, expect=None):
        r = T.model_check(module, cfg, timeout=timeout) if expect is None else T.tlc(module, cfg, timeout=timeout)
        if expect is not None and expect not in r["out"]:
            raise ToolError("model %s was expected to violate %s\n%s" % (name, expect, r["out"][-3000:]))
        self.cov["states"] += r["distinct"]; self.cov["transitions"] += r["states"]
        self.models.append(dict(model=name, module=module, distinct_states=r["distinct"], transitions=r["states"], wall_s=round(r["wall"], 1)))
        return r
    # ---- implementation level
    def run(self, fn, jobs, workers=6):
        """run driver jobs in parallel processes; each returns a list of (module, trace) or raises Violation"""
        build()
        out, again = [], []
        ctx = multiprocessing.get_context("fork")
        with concurrent.futures.ProcessPoolExecutor(max_workers=min(workers, max(1, len(jobs))), mp_context=ctx) as ex:
            futs = [ex.submit(_job, fn, j) for j in jobs]
            for j, f in zip(jobs, futs):
                try: kind, val = f.result(timeout=850)
                except concurrent.futures.process.BrokenProcessPool as e: raise ToolError("driver process died: %s" % e)
                if kind == "ok":
                    out.extend(val or [])
                elif kind == "violation": self.violations.append((val[0], val[1]))
                else: again.append((j, val))
        for j, val in again:
            # a driver that could not do its work is run once more on its own
            kind, v2 = _retry(ctx, fn, j)
            if kind == "ok": out.extend(v2 or [])
            elif kind == "violation": self.violations.append((v2[0], v2[1]))
            else: raise ToolError("%s\n(first attempt: %s)" % (v2, val))
        self.traces.extend(out)
        return out
    def validate(self, timeout=None, consts=""):
        timeout = timeout or (300 if self.thorough else 120)
        by = {}
        for m, t in self.traces: by.setdefault(m, []).append(t)
        for m, ts in sorted(by.items()):
            for x in self.rng.sample(ts, min(2, len(ts))):
                self.cov["samples"].append(dict(spec=m, history=x["name"], operations=[{k: v for k, v in o.items() if k not in ("c", "r")} for o in x["ops"][:8]]))
            st, rej = T.validate(m, ts, timeout=timeout, consts=consts)
            self.cov["states"] += st["distinct"]; self.cov["transitions"] += st["states"]
            self.cov["traces_validated_against_impl"] += st["traces"] - len(rej) - st["undecided"]
            if st["undecided"]: self.cov["traces_undecided"] = self.cov.get("traces_undecided", 0) + st["undecided"]
            self.cov["trace_steps"] += st["steps"]; self.cov["trace_operations"] += st["ops"]
            for r in rej:
                self.violations.append(("%s rejects history %s%s" % (m, r["trace"], ": " + r["why"] if r.get("why") else ""), r))
        self.traces = []
    def violation(self, text, data=None): self.violations.append((text, data))
    def finding(self, key, text):
        """a failure already recorded in known_findings.txt is reported, not raised"""
        for line in known_lines():
            if line.startswith("known: property=%s key=%s " % (self.pid, key)):
                self.known.append("%s: %s" % (key, text)); return
        self.violations.append(("%s: %s" % (key, text), None))

def _retry(mp, fn, j):
    with concurrent.futures.ProcessPoolExecutor(max_workers=1, mp_context=mp) as ex: return ex.submit(_job, fn, j).result(timeout=400)

def known_lines():
    try: return [l.strip() for l in open(os.path.join(VERIF, "known_findings.txt")) if l.strip() and not l.startswith("#")]
    except OSError: return []

def _job(fn, j):
    nexo.Server.live = []
    if nexo.Server.n // 1000 != os.getpid(): nexo.Server.n = os.getpid() * 1000
    try: return "ok", fn(j)
    except Violation as v: return "violation", ("%s [job %s]" % (v.msg, j), v.data)
    except ToolError as e: return "tool", str(e)
    except Exception as e:
        dead = [s for s in nexo.Server.live if s.proc is not None and s.proc.poll() is not None]
        if dead:
            return "violation", ("the server died (exit %s) during job %s\n%s" % (dead[0].proc.returncode, j, dead[0].stderr_tail()), None)
        return "tool", "driver error in %s: %s\n%s" % (j, e, traceback.format_exc())
    finally:
        for s in list(nexo.Server.live):
            try: s.stop()
            except Exception: pass

LEVEL = "model_checking"
def main(registry, argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    a = ap.parse_args(argv)
    ctx = Ctx(a.property, a.tier, int(a.seed) if str(a.seed).isdigit() else 1)
    ev = os.path.join(VERIF, "evidence"); os.makedirs(ev, exist_ok=True)
    rc = 0
    try:
        fn = registry[a.property]
        fn(ctx)
        ctx.validate()
    except Violation as v: ctx.violation(v.msg, v.data)
    except ToolError as e:
        print("ERROR: %s" % e); rc = 2
    except Exception:
        traceback.print_exc(); rc = 2
    replay = None
    if ctx.violations:
        replay = os.path.join(ev, "replay-%s.json" % a.property)
        with open(replay, "w") as f:
            json.dump(dict(property=a.property, seed=ctx.seed, tier=a.tier, command="VERIF_SEED=%d python3 check.py %s --tier %s" % (ctx.seed, a.property, a.tier),
                           violations=[dict(what=t, data=d) for t, d in ctx.violations[:20]]), f, indent=1, default=str)
        for t, d in ctx.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (a.property, replay))
            print("  " + t[:600].replace("\n", "\n  "))
            if isinstance(d, dict) and d.get("unexplained_step"): print("  unexplained: " + json.dumps(d["unexplained_step"])[:900])
        for t, d in ctx.violations[:2]:
            if isinstance(d, dict) and d.get("history"): print("  history: " + json.dumps(d["history"])[:20000])
        rc = 1
    for k in ctx.known: print("KNOWN-FINDING: property=%s %s" % (a.property, k))
    if rc != 2:
        cov = dict(ctx.cov, models=ctx.models)
        with open(os.path.join(ev, a.property + ".json"), "w") as f:
            json.dump(dict(property=a.property, tier=a.tier, seed=ctx.seed, level=LEVEL, coverage=cov, wall_s=round(time.time() - ctx.t0, 1),
                           assumptions=ctx.assumptions, violations=len(ctx.violations)), f, indent=1)
    print("%s %s: %s in %.1fs; %s" % (a.property, a.tier, ["held", "VIOLATED", "ERROR"][rc], time.time() - ctx.t0, json.dumps({k: v for k, v in ctx.cov.items() if k != "samples"})))
    return rc
