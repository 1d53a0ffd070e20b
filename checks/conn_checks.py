"""Checks C01..C03: requests, connections, frames."""
import random, time
from nexo import *
from trace import Rec
from conndrv import *
import conndrv, walks
import queuedrv as QD, streamdrv as SD, pubsubdrv as PD, storedrv as KD
from queuedrv import Mix
import queue_checks as Qc, stream_checks as S, pubsub_checks as Pc, store_checks as Kc

NOBODY = 65534
SLOW_OPS = ("qconsume", "sfetch")

# ------------------------------------------------------------------ C01: whatever the input
def send_some(h, cs, n, bad=None, ops=None):
    """n requests on connections cs, pipelined and cut anywhere"""
    rng = h.rng
    for _ in range(n):
        c = rng.choice(cs); r = rng.random()
        if bad: rec = h.request(rng.choice([o for o in FIELDS if o != "echo"]), bad="any") if r < .8 else h.request("unknown") if r < .9 else h.request(typ=rng.choice([0, 2, 3, 4, 0x7f, 0xff]))
        else: rec = h.request(ops and rng.choice(ops), real=rng.random() < .3 and h.member is not None)
        rid = h.nid % 2**32
        if rng.random() < .03: rid = rng.choice([0, 1, 2**32 - 1, 7])
        h.put(c, *rec, rid=rid); h.nid += 1
    while any(c.tx for c in cs):
        c = rng.choice([c for c in cs if c.tx])
        h.push(c, rng.choice([1, 2, 9, 10, 11, 30, 200, 5000, None]))
        if rng.random() < .15: h.collect()
    h.finish()
def mutate(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 2, 5])):
        r = rng.random(); i = rng.randrange(len(b) + 1)
        if r < .4 and i < len(b): b[i] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256), b[i] ^ (1 << rng.randrange(8))])
        elif r < .6: del b[i:i + rng.choice([1, 2, 4, 100])]
        elif r < .8: b[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4, 40])))
        elif r < .9: b += bytes(rng.choice([1, 8, 5000]))
        else: b = b[:i]
    return bytes(b)
def wild(h, c, n):
    """arbitrary bytes as payload of every operation"""
    rng = h.rng
    for _ in range(n):
        op = rng.choice([o for o in FIELDS if o not in SLOW_OPS + ("echo",)])
        if rng.random() < .4: p = bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 3, 4, 5, 20, 200])))
        else: p = mutate(rng, h.request(op, nm="zz" if FIELDS[op][0] == "K" else ("zz-%d" % rng.randrange(10**9), "zz", True))[2])
        rec = dict(op=op, t=1, shapes=[], nm="zz", fit=True, real=False, v="")
        h.put(c, rec, OPC[op], p, kind="wild")
    h.finish()
HTTP = ["/api/queue", "/api/stream", "/api/store", "/api/pubsub", "/api/queue/%s/messages", "/api/stream/%s/messages"]
def http_storm(h, n):
    rng = h.rng
    for _ in range(n):
        p = rng.choice(HTTP)
        if "%s" in p: p = p % rng.choice([urllib.parse.quote(h.prefix + "there", safe=""), "nope", "..", "%2e%2e%2f%2e%2e", "%00", "%ff%fe", "x" * 5000])
        q = {}
        for k in ("limit", "offset", "from", "state", "search"):
            if rng.random() < .4: q[k] = rng.choice(["0", "1", "-1", "", "x", str(2**31), str(2**32), str(2**63), str(2**64 - 1), str(2**64), "1e9", "pending", "dlq", "\0", "é"])
        st, b = h.srv.get(p, **q)
        if st >= 500: raise Violation("GET %s %s answered %d" % (p, q, st))
def fuzz_job(j):
    rng = random.Random(j["seed"])
    srv = Server(env=dict(QUEUE_DEFAULT_FLUSH_MS=100), uid=NOBODY, chaos=j.get("chaos", 0), seed=rng.randrange(1 << 30)).start()
    out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        i += 1
        h = Hist(srv, rng, "fuzz%d-%d" % (j["n"], i))
        c0 = h.setup(); cs = [h.conn() for _ in range(3)]
        for st in range(j.get("len", 6)):
            h.canary(c0)
            send_some(h, cs, rng.randint(5, 40))
            if rng.random() < .7:
                h.rest(); h.snap(fresh=True)
                send_some(h, cs, rng.randint(5, 60), bad=True); h.rest(); h.snap()
            wild(h, rng.choice(cs), 15)
            if rng.random() < .5: http_storm(h, 10)
            if rng.random() < .3:
                # the client leaves with requests and half a frame under way
                c = rng.choice(cs); cs.remove(c)
                for _ in range(rng.randint(1, 10)): h.put(c, *h.request())
                h.push(c, rng.randrange(len(c.tx) + 1)); h.close(c, rng.choice(["close", "reset", "half"])); cs.append(h.conn())
        h.canary(c0); h.drain(c0); h.rest()
        out += h.export()
        for c in h.conns: c.close()
    srv.stop()
    return out
def pipe_job(j):
    """hundreds of requests in one go, large and small, many under one id"""
    rng = random.Random(j["seed"])
    srv = Server(uid=NOBODY, chaos=j.get("chaos", 0), seed=rng.randrange(1 << 30)).start()
    out = []
    for i in range(j["rounds"]):
        h = Hist(srv, rng, "pipe%d-%d" % (j["n"], i))
        c0 = h.setup(); cs = [h.conn() for _ in range(4)]
        for c in cs:
            for _ in range(150):
                op = rng.choice(["echo", "echo", "echo", "get", "qexists", "qpush", "sexists", "unknown", "set"])
                rec = h.request(op, size=rng.choice([None, None, 0, 5, 3000, 200000]) if op == "echo" else None, embed=True, nm="k%d" % rng.randrange(4) if op in ("get", "set") else None)
                h.put(c, *rec, rid=rng.randrange(1, 9) if op == "echo" and rng.random() < .2 else None)
        slow = h.conn()                       # and one that does not read for a while
        for _ in range(200): h.put(slow, *h.request("echo", size=100000))
        h.stuff(slow)
        for c in cs:
            while c.tx: h.push(c, rng.choice([None, 100000, 77]))
        h.finish(conns=cs + [c0]); h.canary(c0)
        h.finish(); h.canary(c0); h.drain(c0); h.rest()
        out += h.export()
        for c in h.conns: c.close()
    srv.stop()
    return out
def extreme_job(j):
    """legal requests with arguments at the ends of their ranges"""
    rng = random.Random(j["seed"])
    srv = Server(uid=NOBODY, chaos=j.get("chaos", 0), seed=rng.randrange(1 << 30)).start()
    out = []
    for i in range(j["rounds"]):
        h = Hist(srv, rng, "ext%d-%d" % (j["n"], i), )
        c0 = h.setup(); c1 = h.conn(); P = h.prefix; th = (P + "there", "there", True)
        for x in U64:
            n = "e%d" % rng.randrange(10**9); nm = (P + n, n, True)
            h.do(c1, "qcreate", nm=nm, opts=dict(visibilityTimeoutMs=x, maxRetries=rng.choice(U32)))
            for y in rng.sample(U64[1:], 3):
                h.do(c1, "qpush", nm=nm, opts=dict(priority=rng.choice([0, 255])))
                h.do(c1, "qconsume", nm=nm, opts=dict(batchSize=rng.choice(U64[1:]), waitMs=y))
                # wait first, push later
                if x < 2**31: h.advance = srv.advance(1001); h.do(c1, "qconsume", nm=nm, opts=dict(batchSize=10**6, waitMs=0))
                h.put(c1, *h.request("qconsume", nm=nm, opts=dict(batchSize=rng.choice(U64[1:]), waitMs=y if y > 1 else 2**40))); h.push(c1)
                if rng.random() < .5: srv.settle(1)
                h.do(c0, "qpush", nm=nm, opts={}); h.finish()
            if x < 100000 and rng.random() < .5: srv.advance(2000)
            h.do(c1, "qdelete", nm=nm)
            h.do(c1, "screate", nm=nm, opts=dict(retention=dict(maxAgeMs=x, maxBytes=rng.choice(U64))))
            h.do(c1, "spub", nm=nm); h.do(c1, "sjoin", nm=nm); h.do(c1, "sseek", nm=nm); h.do(c1, "sdelete", nm=nm)
            h.do(c1, "set", nm="k0", opts=dict(ttl=x)) if x > 10**5 else h.do(c1, "set", nm="k0", opts=dict(ttl=None))
            h.do(c1, "get", nm="k0")
            for rt in (True, False): h.do(c1, "pub", nm=(P + "t", "t", True), opts=dict(retain=rt, ttl=x))
            h.do(c1, "sub", nm=(P + "t", "t", True)); h.do(c1, "unsub", nm=(P + "t", "t", True))
        for w in U32 + [2**31 - 7]:
            h.do(c1, "spub", nm=th)
            # the member reads with an extreme limit or waiting time
            rec, opc, p = h.request("sfetch", nm=th, real=True)
            p = p[:-8] + struct.pack(">II", max(1, rng.choice(U32)), w); h.put(c1, rec, opc, p); h.finish()
            h.do(c1, "sack", nm=th, real=True)
        h.canary(c0); h.drain(c0); h.rest()
        out += h.export()
        for c in h.conns: c.close()
    srv.stop()
    return out
def accept_job(j):
    """connections that cannot be accepted, and many that come and go"""
    rng = random.Random(j["seed"])
    srv = Server(uid=NOBODY, chaos=j.get("chaos", 0), seed=rng.randrange(1 << 30)).start()
    out = []
    for i in range(j["rounds"]):
        h = Hist(srv, rng, "acc%d-%d" % (j["n"], i))
        c0 = h.setup()
        for en in (errno.EMFILE, errno.ENFILE, errno.ECONNABORTED, errno.ENOMEM, errno.ENOBUFS, errno.EPERM, errno.EPROTO):
            srv.ctl.set("accept_errno", en); srv.ctl.set("accept_fail", rng.choice([1, 2, 5]))
            c = h.conn(); h.put(c, *h.request("echo")); h.push(c)
            h.canary(c0)
            stop = time.monotonic() + 20
            while c.pend and time.monotonic() < stop: srv.advance(500); h.collect()      # it may pause before it goes on accepting
            srv.ctl.set("accept_fail", 0)
            for _ in range(40):
                if not c.pend: break
                srv.advance(500); h.collect()
            if c.pend: raise Violation("after accept failed (errno %d) a new connection is not served" % en)
            c2 = h.conn(); h.do(c2, "echo"); h.close(c2)
        for _ in range(j.get("flood", 200)):
            c = h.conn(); r = rng.random()
            if r < .3: h.put(c, *h.request("echo")); h.push(c, rng.choice([None, 5, 10, 12]))
            elif r < .5: c.out += bytes(rng.randrange(256) for _ in range(9))
            if r < .9:
                c.flush(); getattr(c, rng.choice(["close", "reset"]))(); c.over = True; h.lost(c)
                h.conns.remove(c)
        h.canary(c0); h.finish(); h.drain(c0); h.rest()
        out += h.export()
        for c in h.conns: c.close()
    srv.stop()
    return out
def conn_models(ctx):
    def cfg(inv=("Inv_Released", "Inv_Whole"), **k):
        d = dict(Reqs="{r1,r2,r3}", Ends='{"close","reset","proto","oversize"}', Abort='"waits"', Cleanup='"always"', Suspends="FALSE"); d.update(k)
        return "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % " ".join("%s=%s" % x for x in d.items()) + "".join("INVARIANT %s\n" % i for i in inv)
    ctx.model("end of a connection", "ConnLife", cfg(Reqs=ctx.pick("{r1,r2,r3}", "{r1,r2,r3,r4,r5}")))
    for name, k, e in (("not waiting for requests", dict(Abort='"at_once"'), "Inv_Released"), ("requests run on", dict(Abort='"lets_run"'), "Inv_Released"),
                       ("only orderly ends", dict(Cleanup='"clean_end"'), "Inv_Released"), ("suspended half-way", dict(Suspends="TRUE"), "Inv_Whole")):
        ctx.model(name, "ConnLife", cfg(**k), expect="Invariant %s is violated" % e)
def c01(ctx):
    ctx.run(fuzz_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(12, 240), chaos=[0, 3000, 30000][i % 3]) for i in range(4)])
    ctx.run(_any, [("pipe", dict(seed=ctx.rng.randrange(1 << 30), n=i, rounds=ctx.pick(1, 8), chaos=[0, 5000][i % 2])) for i in range(2)] +
                  [("extreme", dict(seed=ctx.rng.randrange(1 << 30), n=i, rounds=ctx.pick(1, 8), chaos=[0, 5000][i % 2])) for i in range(2)] +
                  [("accept", dict(seed=ctx.rng.randrange(1 << 30), n=0, rounds=ctx.pick(1, 6)))])
def _any(j): return dict(pipe=pipe_job, extreme=extreme_job, accept=accept_job)[j[0]](j[1])

# ------------------------------------------------------------------ C03: frames
def fmc(inv=("Inv_Only", "Inv_All", "Inv_Refused"), **k):
    d = dict(H=2, Sizes="{0,1,2,3}", Max=2, MaxFrames=3, Mode='"right"', next="Next", view=None); d.update(k)
    return "INIT Init\nNEXT %s\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % (d["next"], " ".join("%s=%s" % (x, d[x]) for x in ("H", "Sizes", "Max", "MaxFrames", "Mode"))) + (
        "".join("INVARIANT %s\n" % x for x in inv))
H = 2
def realsize(rng, n, mx, limit, cap):
    if n > mx: return rng.choice([limit + 1, limit + 1, limit + 2, min(2 * limit + 1, 2**32 - 1), 2**31 - 1, 2**31, 2**32 - 1, limit | (1 << 24) | (limit + 1)])
    if n == mx: return min(limit, cap) if rng.random() < .7 or limit > cap else limit
    return 0 if n == 0 else rng.randrange(1, max(2, limit)) if limit <= cap else rng.randrange(1, cap)
def frame_job(j):
    """walks of the reader's model: the same pieces on many connections at once"""
    rng = random.Random(j["seed"]); limit, mx = j["limit"], j["max"]
    srv = Server(uid=NOBODY, env={} if j.get("default") else dict(MAX_PAYLOAD_SIZE=limit), chaos=j.get("chaos", 0), seed=rng.randrange(1 << 30)).start()
    plans = []; hs = []
    for i, w in enumerate(j["walks"]):
        if i % 20 == 0: h = Hist(srv, rng, "fr%d-%d" % (j["n"], i), limit=limit); h.prefix = "p-"; hs.append(h)
        arr = [a for a in w if a[0] == "arrive"]
        if not arr: continue
        script = arr[0][2:]; c = h.conn(); marks = []; at = 0
        for n in script:
            size = realsize(rng, n, mx, limit, j.get("cap", 1 << 30)); big = n > mx
            start = c.queued
            if big: h.oversize(c, size, rng.choice([0, 2, 0x11]), typ=rng.choice([1, 1, 2, 0]))
            elif rng.random() < .8 or size > 0: h.put(c, *h.request("echo", size=size, embed=True))
            else: h.put(c, *h.request("echo", typ=rng.choice([0, 2, 3, 255]), size=0))
            marks.append((at, start, 0 if big else n, 0 if big else size)); at += H + (0 if big else n)
        plans.append((h, c, marks, [a[1] for a in arr], [0]))
    def real(marks, m):
        """a place in the real stream for place m of the model's"""
        for at, start, n, size in reversed(marks):
            if m > at:
                o = m - at
                if o < H: return start + rng.randint(1, 9)
                if o == H: return start + 10
                return start + 10 + (size if o - H == n else rng.randrange(1, size))
        return 0
    while any(p[3] for p in plans):
        for h, c, marks, arr, pos in plans:
            if not arr: continue
            pos[0] += arr.pop(0); to = real(marks, pos[0])
            h.push(c, max(0, to - c.sent))
        srv.settle(2)
        for h in hs: h.collect()
    for h in hs: h.finish(); h.rest()
    srv.stop()
    return [x for h in hs for x in h.export()]
def limit_job(j):
    """around the limit, announcements without data, frames within payloads, ends within frames"""
    rng = random.Random(j["seed"]); limit = j["limit"]
    srv = Server(uid=NOBODY, env={} if j.get("default") else dict(MAX_PAYLOAD_SIZE=limit), chaos=j.get("chaos", 0), seed=rng.randrange(1 << 30)).start()
    h = Hist(srv, rng, "lim%d" % j["n"], limit=limit)
    small = limit < 2000
    c0 = h.conn() if small else h.setup()
    def ok():
        if small: h.do(c0, "echo", size=min(limit, 30))
        else: h.canary(c0)
    peak = h.vmpeak()
    for size in [limit + 1, limit + 2, 2**31 - 1, 2**31, 2**32 - 1, 0xfff00000, max(limit + 1, 0x01000000)]:
        for kind in ("header", "data", "after"):
            c = h.conn()
            if kind == "after": h.put(c, *h.request("echo", size=min(limit, 50)))
            h.oversize(c, size, rng.choice([0, 2, 0x11, 0x31, 0xff]), typ=rng.choice([1, 1, 2, 0xff]))
            if kind == "data":
                for _ in range(3): h.put(c, *h.request("echo" if small else rng.choice(["echo", "set"]), size=min(limit, 40)))
            h.push(c)
            if rng.random() < .3: ok()
            h.rest()
    h.rec.one("mem", mb=h.vmpeak() - peak, allowed=1500)
    ok()
    for size in sorted({0, 1, limit - 1, limit, limit // 2} & set(range(limit + 1))):
        for cut in (None, 10, "in", 10 + size - 1):
            c = h.conn(); h.put(c, *h.request("echo", size=size, embed=True))
            if cut == "in": cut = rng.randrange(11, 10 + size) if size > 1 else None
            if cut and cut < 10 + size: h.push(c, cut); srv.settle(1); h.collect()
            h.push(c); h.finish()
    if not small:
        h.snap(fresh=True)
        # an operation whose frame never becomes complete has no effect
        for op in [o for o in FIELDS if o not in SLOW_OPS + ("echo",)]:
            for cut in (-1, 10, 5):
                c = h.conn(); h.put(c, *h.request(op, nm=None)); h.push(c, len(c.tx) - 1 if cut < 0 else min(cut, len(c.tx) - 1)); h.close(c, rng.choice(["close", "reset", "half"]))
        srv.settle(); h.snap(); ok()
    ok(); h.rest()
    if not small: h.drain(c0)
    srv.stop()
    return h.export()
def c03(ctx):
    ctx.model("framing", "Framing", fmc(MaxFrames=ctx.pick(3, 4)))
    for m, inv in (("off_by_one", "Inv_Refused"), ("with_header", "Inv_Refused"), ("late", "Inv_Refused"), ("skips", "Inv_Refused"), ("short", "Inv_Only"), ("early", "Inv_Only"), ("drops", "Inv_All")):
        ctx.model("framing, %s" % m, "Framing", fmc((inv,), Mode='"%s"' % m, MaxFrames=2), expect="Invariant %s is violated" % inv)
    jobs = []; tot = cov = nw = 0
    for mx, sizes, limits in ((2, "{0,1,2,3}", [100, 4096, 70000]), (0, "{0,1}", [0]), (1, "{0,1,2}", [1, 100])):
        ini, act, succ, r = walks.graph("Framing", fmc((), next="NextWalk", Sizes=sizes, Max=mx, MaxFrames=ctx.pick(2, 3)))
        ctx.cov["states"] += r["distinct"]; ctx.cov["transitions"] += r["states"]
        ws, c, t = walks.cover(ini, act, succ, ctx.rng, maxlen=40, limit=ctx.pick(700, 6000)); tot += t; cov += c; nw += len(ws)
        for k in range((len(ws) + 199) // 200): jobs.append(("frame", dict(seed=ctx.rng.randrange(1 << 30), n=len(jobs), walks=ws[k * 200:(k + 1) * 200], max=mx, limit=limits[k % len(limits)], chaos=[0, 3000][k % 2])))
    ctx.models.append(dict(model="walks of Framing", walks=nw, labelled_transitions_total=tot, covered=cov))
    for l in (0, 1, 100, 4096, 70000, 3 << 20): jobs.append(("limit", dict(seed=ctx.rng.randrange(1 << 30), n=l, limit=l)))
    jobs.append(("limit", dict(seed=ctx.rng.randrange(1 << 30), n=9, limit=10 << 20, default=True)))
    ctx.run(_frames, jobs)
def _frames(j): return dict(frame=frame_job, limit=limit_job)[j[0]](j[1])

# ------------------------------------------------------------------ C02: the end of a connection
def mend_job(j):
    """members of groups of many topics go away in every way, with requests and waiting fetches under way"""
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=SD.stream_env(cfg), chaos=j.get("chaos", 0), chaos_us=j.get("us", 400), seed=rng.randrange(1 << 30)).start()
    run = SD.SRun(srv, rng, cfg, conns=5); out = []; end = time.monotonic() + j["secs"]; i = 0
    mix = Mix(pub=5, fetch=5, ack=3, join=1, leave=.4, seek=.1)
    while time.monotonic() < end:
        ts = []
        for _ in range(5):
            i += 1; ts.append(run.add("e%d" % i, "mend-%d-%d" % (j["n"], i)))
        run.batch([(t, "create", {}) for t in ts])
        run.batch([(t, "join", dict(g=g)) for t in ts for g in ("g1", "g1", "g2")])
        run.batch([(t, "pub", {}) for t in ts for _ in range(4)])
        for st in range(8):
            its = [SD.rand_op(run, t, mix, nmax=4) for t in ts for _ in range(rng.randint(0, 3))]
            rng.shuffle(its); run.batch(its)
            c = rng.choice(run.conns); others = [x for x in run.conns if x is not c]
            # other members wait for what the leaver gives back
            for t in ts:
                w = [m for m in t.members if not m.gone and m.conn in others]
                if w and rng.random() < .5 and not any(p.o["k"] == "fetch" for p in t.open): run.issue(t, "fetch", mem=rng.choice(w), n=rng.randint(1, 3), w=60000)
            for x in others: x.flush()
            if rng.random() < .5: srv.settle()
            for t in ts:
                mine = [m for m in t.members if not m.gone and m.conn is c]
                for _ in range(rng.choice([0, 0, 1, 3])):
                    r = rng.random()
                    if r < .35 or not mine: run.issue(t, "join", conn=c, g=rng.choice(["g1", "g2", "g3"]))
                    elif r < .6: run.issue(t, "fetch", mem=rng.choice(mine), conn=c, n=3, w=rng.choice([0, 0, 50000]))
                    elif r < .75: run.issue(t, "pub", conn=c)
                    else:
                        m = rng.choice(mine)
                        if m.got: run.issue(t, "ack", mem=m, conn=c, s=rng.choice(sorted(m.got)))
            run.disconnect(c, how=rng.choice(ENDS)); run.conns.append(run.newconn())
            wait_ended(srv, len(run.conns))
            run.quiet(*ts)
            if rng.random() < .3:
                run.advance(rng.choice([100, 1001, 1400])); run.quiet(*ts)
            if rng.random() < .3:
                for t in ts: run.inspect(t, read=False)
        run.advance(60001); run.quiet(*ts)
        for t in ts:
            if any(p.o["k"] == "fetch" for p in t.open): raise Violation("a waiting fetch never returned")
            S.finish_topic(run, t, groups=("g1", "g2", "g3"), full=not cfg.get("cold")); out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {}) for t in ts]); run.topics = []
    srv.stop()
    return out
def wide_job(j):
    """one connection is many members at once: of many groups of a topic, many times in one group, of many topics"""
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=SD.stream_env(cfg), chaos=j.get("chaos", 0), chaos_us=j.get("us", 400), seed=rng.randrange(1 << 30)).start()
    run = SD.SRun(srv, rng, cfg, conns=3); out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        ts = []; gs = ["g%d" % k for k in range(rng.choice([3, 7, 12, 20]))]
        for _ in range(rng.choice([2, 6, 20]) if len(gs) < 12 else 1): i += 1; ts.append(run.add("w%d" % i, "wide-%d-%d" % (j["n"], i)))
        run.batch([(t, "create", {}) for t in ts])
        run.batch([(t, "pub", {}) for t in ts for _ in range(rng.randint(2, 4))])
        for st in range(3):
            c = run.newconn(); run.conns.append(c); others = [x for x in run.conns if x is not c]
            its = [(t, "join", dict(g=g, conn=c)) for t in ts for g in gs for _ in range(rng.choice([1, 1, 2]))]
            rng.shuffle(its); run.batch(its)
            # some members leave first
            run.batch([(t, "leave", dict(mem=m, conn=c)) for t in ts for m in t.members if not m.gone and m.conn is c and rng.random() < .1])
            its = [(t, "fetch", dict(mem=m, n=rng.randint(1, 3), conn=c)) for t in ts for m in t.members if not m.gone and m.conn is c]
            rng.shuffle(its); run.batch(its)
            run.batch([(t, "join", dict(g=g, conn=rng.choice(others))) for t in ts for g in gs])
            run.disconnect(c, how=rng.choice(ENDS)); wait_ended(srv, len(run.conns)); run.quiet(*ts)
            its = [(t, "fetch", dict(mem=m, n=rng.randint(1, 3))) for t in ts for m in t.members if not m.gone]
            rng.shuffle(its); run.batch(its)
            run.batch([(t, "ack", dict(mem=m, s=q)) for t in ts for m in t.members if not m.gone for q in list(m.got) if rng.random() < .4])
            for t in ts: run.inspect(t, read=False)
        for t in ts: S.finish_topic(run, t, groups=tuple(gs), full=not cfg.get("cold")); out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {}) for t in ts]); run.topics = []
    srv.stop()
    return out
def qend_job(j):
    """clients go away while they wait for messages: what comes later is for the others"""
    rng = random.Random(j["seed"])
    srv = Server(env=dict(QUEUE_DEFAULT_FLUSH_MS=100), chaos=j.get("chaos", 0), chaos_us=j.get("us", 400), seed=rng.randrange(1 << 30)).start()
    run = QD.QRun(srv, rng, conns=4); out = []; end = time.monotonic() + j["secs"]; i = 0
    mix = Mix(push=5, consume=3, ack=2, nack=1.5, peek=.2)
    while time.monotonic() < end:
        qs = []
        for _ in range(6):
            i += 1; qs.append(run.add("e%d" % i, "qend-%d-%d" % (j["n"], i)))
        run.batch([(q, "create", dict(vt=rng.choice([1000, 60000]), mr=rng.choice([1, 30]))) for q in qs])
        for st in range(8):
            its = [QD.rand_op(run, q, mix, batchmax=3) for q in qs for _ in range(rng.randint(0, 2))]
            rng.shuffle(its); run.batch(its)
            gone = [srv.conn() for _ in range(rng.randint(1, 3))]
            for c in gone:
                for q in qs:
                    for _ in range(rng.choice([0, 1, 1, 2])): run.issue(q, "consume", conn=c, n=rng.randint(1, 3), w=rng.choice([0, 1000, 10**6]))
                    if rng.random() < .3: run.issue(q, "push", conn=c)
                    if rng.random() < .3 and q.tid: run.issue(q, rng.choice(["ack", "nack"]), conn=c, m=rng.choice(list(q.tid)))
                c.flush()
            if rng.random() < .7: srv.settle(2)
            for n, c in enumerate(gone):
                if rng.random() < .3: run.batch([(q, "push", {}) for q in qs if rng.random() < .4])
                for _ in range(rng.randint(0, 2)): c.raw(frame(0, 4000000, b"x" * 100))
                run.abandon(c, how=rng.choice(ENDS), live=len(run.conns) + len(gone) - n - 1)
            # nobody waits any more: these stay for who asks
            run.batch([(q, "push", {}) for q in qs for _ in range(rng.randint(1, 3))])
            for q in qs: run.quiet(q)
            run.batch([(q, "consume", dict(n=rng.randint(1, 5))) for q in qs])
            for q in qs: run.inspect(q)
            if rng.random() < .4:
                run.advance(rng.choice([500, 1001]))
                for q in qs: run.quiet(q)
        for q in qs: Qc.finish_queue(run, q); out.append(("QueueTrace", q.rec.export()))
        run.batch([(q, "delete", {}) for q in qs]); run.queues = []
    srv.stop()
    return out
def _ends(j): return dict(leave=Pc.leave_job, mend=mend_job, wide=wide_job, qend=qend_job)[j[0]](j[1])
def c02(ctx):
    conn_models(ctx)
    jobs = []
    for i in range(6):
        for k in ("leave", "mend", "wide", "qend"):
            d = dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(6, 100), chaos=[0, 5000, 50000][i % 3])
            if k in ("mend", "wide"): d["cfg"] = [S.HOT, S.SMALL, S.COLD][i // 2]
            jobs.append((k, d))
    ctx.run(_ends, jobs)

CHECKS = dict(C02=c02, C01=c01, C03=c03)

# ------------------------------------------------------------------ N01: names
def variants(rng, b):
    """names that are easily confused with b"""
    v = [b, b + ".db", b + ".config.json", b + ".db-wal", b + "-wal", b.upper() if b.upper() != b else b + "U", b + " ", " " + b, b + "e\u0301", b + "\u00e9", b + ".", "." + b, b + "\n", b + "%2F", b + "'",
         b + "';--", b + "\u202e", b + "\u200b", b + "*", "~" + b, "-" + b, "$" + b, b + ".log", b + ".tmp", b + "\t", "..." + b, b + "..", b + "?x=1", b + "#", b + "+", b + '"', b + "&amp;", b + "\U0001F600", b[:-1], b + b, b + ".json", b + "-shm", b + ".1", b + "\x7f", b + "\x01",
         b + "\u212a", b + "K", b + "\ufb01", b + "fi"]
    L = (b * 300)
    for n in (230, 243): v += [L[:n - 1] + "A", L[:n - 1] + "B"]
    v += [("é" + L[:240])[:231] + "é"]
    return v
WEIRD = [".", "..", "", " ", "...", "CON", "config.json", "groups.log", "1.log", "config.json.tmp", "null", "-rf", "*", "deleted", ".deleted", "é", "\U0001F4A9"]
def specials(n):
    if isinstance(n, bytes): return ["BAD"]
    return [("NUL" if c == "\0" else c if c in "/\\." else "x") for c in n[:40]] + (["/"] if "/" in n[40:] else []) + (["\\"] if "\\" in n[40:] else []) + (["NUL"] if "\0" in n[40:] else [])
def names_job(j):
    import hashlib
    rng = random.Random(j["seed"]); out = []
    KD.DEFTTL = 3600
    cfg = S.HOT
    env = dict(SD.stream_env(cfg), **PD.env(PUBSUB_DEFAULT_RETAINED_TTL_SECS=100000), QUEUE_DEFAULT_FLUSH_MS=100, STORE_TTL_SECS=3600)
    PD.DEFTTL = 100000
    for rnd in range(j["rounds"]):
        srv = Server(env=env, uid=60000 + j["n"], chaos=j.get("chaos", 0), chaos_us=300, seed=rng.randrange(1 << 30))
        # things outside of the data directories that names might reach
        for rel in ("data/sentinel.db", "data/sentinel.config.json", "data/sentinel/config.json", "data/sentinel/1.log", "outer.db", "outer.config.json", "outer/1.log", "data/queues.db", "outer/groups.log"):
            f = os.path.join(srv.dir, rel); os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as h: h.write('{"x":1}')
        for d, ds, fs in os.walk(srv.dir):
            for x in [d] + [os.path.join(d, f) for f in fs]: os.chown(x, srv.uid, srv.uid)
        def outside():
            r = []
            for d, ds, fs in os.walk(srv.dir):
                if d == srv.data: ds[:] = [x for x in ds if x not in ("queues", "streams", "pubsub")]
                if d == srv.dir: fs = [x for x in fs if x not in ("ctl", "stderr")]
                for f in fs:
                    try: r.append((os.path.relpath(os.path.join(d, f), srv.dir), open(os.path.join(d, f), "rb").read()))
                    except OSError as e: r.append((f, str(e).encode()))
                r.append((os.path.relpath(d, srv.dir), b""))
            return hashlib.sha256(repr(sorted(r)).encode()).hexdigest()[:16]
        srv.start()
        qr, sr, pr, kr = QD.QRun(srv, rng, 3), SD.SRun(srv, rng, cfg, 3), PD.PRun(srv, rng), KD.SRun(srv, rng, 2)
        tag = "%d-%d" % (j["n"], rnd)
        rec = Rec("names-" + tag, srv.vnow); toks = {}
        def tok(n): return toks.setdefault(n, "t%d" % len(toks))
        def note(k, kind, n, ok): rec.time(srv.vnow); rec.one(k, kind=kind, nm=tok(n), cs=specials(n), len=len(n if isinstance(n, bytes) else n.encode()), ok=bool(ok))
        b = "n%d" % rng.randrange(10)
        qn, sn = set(), set()
        pool = variants(rng, b)
        names = [b] + rng.sample(pool[1:], 9) + rng.sample(pool[-5:], 2) + rng.sample(WEIRD, 3)
        if rng.random() < .5: names += [b + "\\x"]
        names = list(dict.fromkeys(names))
        bad = ["../sentinel", srv.dir + "/outer", "../../outer", b + "/../../sentinel", b + "/../" + b, "./" + b, b + "/", "/" + b, "//" + b, b + "\0", "\0", b + "\0.db", "..", ".", "", "/", "../", "../queues", "../sentinel/", b + "/config.json", b + "/x",
               "L" * 256, "é" * 150, "L" * 5000, "L" * 70000, b + "/" + "L" * 200]
        # not text: were they taken for some text, different names would be one
        nontext = [b.encode() + x for x in (b"\xff", b"\xfe", b"\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\xaf")] + [b"\xff" + b.encode()]
        c0 = qr.conns[0]
        def ok(w): st, _ = c0.do(*w); return st != ERR
        def badtry():
            for n in rng.sample(nontext, 2):
                ops = [("create", "key", W.set(n, b"x", None)), ("use", "key", W.get(n)), ("delete", "key", W.dele(n)), ("create", "pattern", W.sub(n)), ("create", "subject", W.pub(n, b"x", retain=True)), ("create", "queue", W.qcreate(n, 1000, 3)), ("create", "topic", W.screate(n, None, None)),
                       ("use", "queue", W.qpush(n, b"x", None)), ("use", "topic", W.spub(n, b"x")), ("delete", "queue", W.qdelete(n)), ("delete", "topic", W.sdelete(n))]
                ops += [("create", "group", W.sjoin(t.name, n)) for t in ts[:2]]
                rng.shuffle(ops)
                for k, kind, w in ops: note(k, kind, n, ok(w))
            for n in rng.sample([x for x in bad if x not in names], 9):
                ops = [("create", "queue", W.qcreate(n, 1000, 3)), ("delete", "queue", W.qdelete(n)), ("use", "queue", W.qpush(n, b"x", None)), ("use", "queue", W.qexists(n)), ("use", "queue", W.qpurge(n)), ("use", "queue", W.qconsume(n, 1, None)),
                       ("create", "topic", W.screate(n, None, None)), ("delete", "topic", W.sdelete(n)), ("use", "topic", W.spub(n, b"x")), ("use", "topic", W.sexists(n)), ("use", "topic", W.sjoin(n, "g")), ("use", "topic", W.sseek(n, "g", 0))]
                rng.shuffle(ops)
                for k, kind, w in ops[:7]:
                    o = ok(w); note(k, kind, n, o)
                    if o and k == "create": note("delete", kind, n, ok(W.qdelete(n) if kind == "queue" else W.sdelete(n)))
            rec.one("outside", h=outside())
        qs, ts = [], []
        badtry()
        for i, n in enumerate(names):
            q = qr.add(n, "nq-%s-%d" % (tag, i), durable=True)
            q.vt = rng.choice([1000, 60000]); o = qr.do(q, "create", vt=q.vt, mr=rng.randint(0, 3)); note("create", "queue", n, o["ok"])
            if o["ok"]: qs.append(q)
            else: qr.queues.remove(q)
            t = sr.add(n, "ns-%s-%d" % (tag, i), durable=True); t.gname = dict(zip(("g1", "g2"), rng.sample([n, b, b + " ", "", "G" * 65535, "g", "g\0", "G" * 65534 + "H", "../" + b, n + "/x"], 2)))
            if t.gname["g1"] == t.gname["g2"]: t.gname = {}
            o = sr.do(t, "create", age=None, max=rng.choice([None, 10**6])); note("create", "topic", n, o["ok"])
            if o["ok"]: ts.append(t)
            else: sr.topics.remove(t)
        kh = kr.hist("nk-%s" % tag, names, prefix="")
        ph = pr.hist("np-%s" % tag, prefix="", alone=False); pn = [n for n in names if "\0" not in n and "\x01" not in n and len(n) < 300]
        for _ in range(2): ph.client()
        qmix = Mix(push=5, consume=2.5, ack=1.2, nack=1, purge=.1); smix = Mix(pub=5, fetch=3, ack=2, join=1, seek=.3)
        def work():
            its = [QD.rand_op(qr, q, qmix) for q in qs for _ in range(rng.randint(0, 3))]; rng.shuffle(its); qr.batch(its)
            its = [SD.rand_op(sr, t, smix) for t in ts for _ in range(rng.randint(0, 3))]; rng.shuffle(its); sr.batch(its)
            kh.batch([(rng.choice(["set", "set", "get", "del"]), k, {}) for k in rng.sample(names, 5)])
            for _ in range(3):
                cl = rng.choice(ph.live()); r = rng.random(); n = rng.choice(pn)
                if r < .4: ph.do(cl, "pub", n, ret=True)
                elif r < .6: ph.do(cl, "pub", n)
                elif r < .9: ph.do(cl, "sub", n)
                elif cl.subs: ph.do(cl, "unsub", rng.choice(sorted(cl.subs)))
        def look():
            sr.quiet(*ts)
            for q in qs: qr.quiet(q); qr.inspect(q)
            for t in ts: sr.inspect(t, full=True)
            kh.batch([("get", k, {}) for k in names]); pr.quiet()
            ex = [dict(kind="queue", nm=tok(x["name"])) for x in srv.jget("/api/queue")] + [dict(kind="topic", nm=tok(x["name"])) for x in srv.jget("/api/stream")["topics"]]
            rec.time(srv.vnow); rec.one("exist", all=ex); rec.one("outside", h=outside())
        def restart(soft):
            if soft: qr.flushed(); sr.flushed(save=True); pr.flushed()
            qr.lose_open(); sr.lose_open(); kh.finish(); srv.kill(); old = pr.down(ph); srv.start()
            qr.back(); sr.back(); kr.conns = [srv.conn() for _ in kr.conns]; kh.rec.time(srv.vnow); kh.rec.one("restart"); pr.back(ph, old); ph.client()
            nonlocal c0; c0 = qr.conns[0]
            rec.time(srv.vnow); rec.one("restart"); sr.quiet(*ts)
        for st in range(3): work()
        look(); restart(True); look()
        for st in range(2): work()
        # some of them go: nobody else's things may go with them
        for q in rng.sample(qs, len(qs) // 3): note("delete", "queue", q.name, qr.do(q, "delete")["ok"])
        for t in rng.sample(ts, len(ts) // 3): note("delete", "topic", t.name, sr.do(t, "delete")["ok"])
        for c in rng.sample(names, 3): kh.issue("del", c)
        kh.finish(); badtry(); look()
        qr.flushed(); sr.flushed(save=True); pr.flushed()
        if rng.random() < .5: work()
        restart(rng.random() < .5); look(); work()
        for q in rng.sample(qs, len(qs) // 4): note("create", "queue", q.name, qr.do(q, "create", vt=1000, mr=1)["ok"])
        for t in rng.sample(ts, len(ts) // 4): note("create", "topic", t.name, sr.do(t, "create", age=None, max=None)["ok"])
        look(); restart(True); look()
        for q in qs: out.append(("QueueTrace", q.rec.export()))
        for t in ts: out.append(("StreamTrace", sr.export(t)))
        out += kh.export(perkey=True); out.append(("PubSubTrace", ph.export())); out.append(("NamesTrace", rec.export()))
        srv.stop()
    return out
def n01(ctx):
    def cfg(mode, l, live): return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxLen=%d MaxLive=%d Mode="%s"\nINVARIANTS Inv_Contained Inv_Own Inv_Found\n' % (l, live, mode)
    ctx.model("names and files", "NamesMC", cfg("right", ctx.pick(2, 3), 2)); ctx.model("names and files, longer", "NamesMC", cfg("right", 4, 1))
    for m, l, n in (("unchecked", 3, 2), ("dots", 2, 2), ("folds", 1, 2), ("cuts", 3, 2), ("strips_all", 3, 1)): ctx.model("names and files, " + m, "NamesMC", cfg(m, l, n), expect="is violated")
    ctx.run(names_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, rounds=ctx.pick(4, 30), chaos=[0, 3000][i % 2]) for i in range(6)])
CHECKS["N01"] = n01
