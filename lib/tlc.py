"""Running TLC."""
import json, os, re, shutil, subprocess, threading, time
from nexo import ToolError, scratch, VERIF
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(VERIF, "spec")
_n = 0
_lock = threading.Lock()
def tlc(module, cfg, env=None, workers=8, timeout=600, extra=(), heap="6g", sim=None):
    """Run TLC; returns dict(out, ok, states, distinct, rc)."""
    global _n
    with _lock: _n += 1; my = _n
    d = os.path.join(scratch(), "tlc%d" % my); os.makedirs(d)
    cfgp = os.path.join(d, "MC.cfg")
    with open(cfgp, "w") as f: f.write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
           "-config", cfgp, "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-nowarning", "-workers", str(workers)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=d)
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b""); out = out.decode(errors="replace") if isinstance(out, bytes) else out; rc = 124
    wall = time.time() - t
    m = re.findall(r"(\d[\d,]*) states generated[^\n]*?(\d[\d,]*) distinct states found", out)
    g, ds = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    shutil.rmtree(os.path.join(d, "meta"), ignore_errors=True)
    return dict(out=out, rc=rc, states=g, distinct=ds, wall=wall, dir=d)

class Rejected(Exception): pass

def _chunk(module, cfg, traces, idx, timeout, no):
    """validate traces[idx] with one TLC process (depth first, one worker); returns (accepted, bad, stats, undecided)"""
    acc = set(); bad = []; g = d = 0
    todo = list(idx); end = time.time() + timeout
    while todo:
        path = os.path.join(scratch(), "traces-%s-%d.json" % (module, no))
        with open(path, "w") as f: json.dump([traces[i] for i in todo], f)
        left = end - time.time()
        if left < 2: break
        r = tlc(module, cfg, env=dict(TRACES=path, VERBOSE="0", JAVA_TOOL_OPTIONS="-Dtlc2.tool.queue.IStateQueue=StateDeque"), workers=1, timeout=left, heap="3g")
        g += r["states"]; d += r["distinct"]
        acc |= { todo[int(x) - 1] for x in re.findall(r'<<"ACC", (\d+)>>', r["out"]) }
        if r["rc"] == 0: return acc, bad + [(i, None, None) for i in todo if i not in acc], g, d, []
        if r["rc"] == 124: break
        m = re.search(r"Invariant (\w+) is violated", r["out"])
        if m and "The behavior up to this point" in r["out"]:
            mt = re.findall(r"/\\ tr = (\d+)", r["out"])
            i = todo[int(mt[-1]) - 1]
            bad.append((i, "invariant %s is violated" % m.group(1), r["out"][r["out"].index("The behavior up"):][-6000:]))
            todo = [x for x in todo if x != i and x not in acc]; acc.discard(i)
            continue
        raise ToolError("TLC failed on %s (rc %s):\n%s" % (module, r["rc"], r["out"][-5000:]))
    return acc, bad, g, d, [i for i in todo if i not in acc]

def validate(module, traces, consts="", workers=8, timeout=600, invariants=("Inv",)):
    """Validate traces (list of exported dicts).  Returns (stats, rejected list)."""
    import concurrent.futures as cf
    stats = dict(traces=len(traces), states=0, distinct=0, wall=0.0, undecided=0, steps=sum(len(t["steps"]) for t in traces), ops=sum(len(t["ops"]) for t in traces))
    if not traces: return stats, []
    cfg = "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join("INVARIANT %s\n" % i for i in invariants) + consts
    t0 = time.time()
    n = max(1, min(workers, len(traces) // 4 + 1))
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]["ops"]))
    chunks = [order[i::n] for i in range(n)]
    bad = []
    with cf.ThreadPoolExecutor(n) as ex:
        for a, b, g, d, und in ex.map(lambda c: _chunk(module, cfg, traces, c[1], timeout, c[0]), enumerate(chunks)):
            bad += b; stats["states"] += g; stats["distinct"] += d; stats["undecided"] += len(und)
    stats["wall"] = time.time() - t0
    rej = []
    for n, (i, why, det) in enumerate(bad):
        t = traces[i]
        info = dict(trace=t["name"], why=why or "no behaviour of the specification explains this history")
        if why: info["detail"] = det
        elif n < 3:
            path = os.path.join(scratch(), "traces1.json")
            with open(path, "w") as f: json.dump([t], f)
            r = tlc(module, cfg, env=dict(TRACES=path, VERBOSE="1"), workers=1, timeout=min(timeout, 120))
            st = [(int(a), b) for a, b in re.findall(r'<<\s*"STP",\s*1,\s*(\d+),(.*?)>>\n(?=<<|\S)', r["out"], re.S)]
            mx = max([a for a, _ in st], default=0)
            info["matched_steps"] = mx; info["total_steps"] = len(t["steps"])
            info["states_after_matched_prefix"] = [re.sub(r"\s+", " ", b) for a, b in st if a == mx][-3:]
            if mx < len(t["steps"]):
                nxt = t["steps"][mx]
                info["unexplained_step"] = dict(now=nxt["now"], ops=[t["ops"][k - 1] for k in nxt["open"]])
        info["history"] = t
        rej.append(info)
    return stats, rej

def model_check(module, cfg, timeout=600, workers=8, extra=()):
    r = tlc(module, cfg, timeout=timeout, workers=workers, extra=extra, env=dict(VERBOSE="0"))
    if r["rc"] != 0:
        raise ToolError("model check of %s failed (rc %s):\n%s" % (module, r["rc"], r["out"][-4000:]))
    return r
