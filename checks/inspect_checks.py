"""Check I01: the inspection API shows the true state and changes nothing."""
import itertools, random, time
from urllib.parse import quote
from nexo import *
import inspectdrv as ID
from inspectdrv import *
import queue_checks as QC, stream_checks as SC, pubsub_checks as PC, store_checks as KC, queuedrv as QD, streamdrv as SD, pubsubdrv as PD, storedrv as KD

NODEF = 10**9
def configs(n, kinds):
    for k in range(n + 1): yield from itertools.product(kinds, repeat=k)

# ------------------------------------------------------------------ every small listing, every page of it
def store_square(j):
    rng = random.Random(j["seed"]); srv = Server(env=dict(STORE_TTL_SECS=3600, STORE_CLEANUP_INTERVAL_SECS=10**6), seed=j["seed"]).start(); out = []
    hs = []
    for i, cf in enumerate(configs(j["size"], ["m+", "m-", "x+", "x-"])):
        if i % j["of"] != j["n"]: continue
        h = Hist(srv, rng, "store-square-%s" % ",".join(cf)); pre = "(%d)" % i
        ks = {pre + "%s%d" % (k[0], a): k for a, k in enumerate(cf)}
        h.ask([W.set(k, b"\1" + k.encode(), 1 if v[1] == "-" else None) for k, v in ks.items()])
        h.put("store", {k: k for k in ks if ks[k][1] == "-"}, end=srv.vnow + 1000); h.put("store", {k: k for k in ks if ks[k][1] == "+"})
        hs.append((h, pre, len(cf)))
    for r in range(2):
        for h, pre, n in hs:
            f = store_fetch(h, pre)
            def fm(lim, off, se, f=f): return f(lim, off, se)
            h.square("store", fm, n, [None, "m"], NODEF, 500)
        srv.advance(1001)
    out = [("InspectTrace", h.export()) for h, _, _ in hs]
    srv.stop(); return out

def pubsub_square(j):
    rng = random.Random(j["seed"]); srv = Server(env=PD.env(PUBSUB_CLEANUP_INTERVAL_SECS=10**6), seed=j["seed"]).start(); hs = []
    for i, cf in enumerate(configs(j["size"], ["m+", "m-", "ms", "x+", "x-"])):
        if i % j["of"] != j["n"]: continue
        h = Hist(srv, rng, "pubsub-square-%s" % ",".join(cf)); pre = "(%d)" % i
        ts = {pre + "%s/%d" % (k[0], a): k for a, k in enumerate(cf)}
        for t, k in ts.items():
            if k[1] == "s": h.ask([W.sub(t)]); h.put("pubsub", {t: t})
            else: h.ask([W.pub(t, b"\1v", retain=True, ttl=1 if k[1] == "-" else 3600)]); h.put("pubsub", {t: t}, end=srv.vnow + 1000 if k[1] == "-" else None)
        hs.append((h, pre, len(cf)))
    for r in range(2):
        for h, pre, n in hs: h.square("pubsub", pubsub_fetch(h, pre), n, [None, "m"], 500, 50)
        srv.advance(1001)
    out = [("InspectTrace", h.export()) for h, _, _ in hs]
    srv.stop(); return out

def queue_square(j):
    rng = random.Random(j["seed"]); srv = Server(env=QC.queue_env(), seed=j["seed"]).start(); out = []
    for i, cf in enumerate(configs(j["size"], ["m0", "m1", "x0", "x1"])):
        if i % j["of"] != j["n"]: continue
        h = Hist(srv, rng, "queue-square-%s" % ",".join(cf)); q = "q%d" % i; n = len(cf)
        h.ask([W.qcreate(q, vis=60000, maxr=1)])
        tok = {}
        for a, k in enumerate(cf):
            t = "%s%d" % (k[0], a); tok[t] = "i%d" % a
            h.ask([W.qpush(q, b"\1" + t.encode(), int(k[1]))])
            h.put("pending", {"i%d" % a: "\1" + t})
        def look(states):
            for st in states:
                h.square(st, queue_fetch(h, q, st, tok), n, [None] if st == "dlq" else [None, "m"], 1000, 50)
        look(["pending", "inflight", "dlq"])
        got = Cur(h.ask([W.qconsume(q, batch=rng.randint(0, n) or None)])[0][1]) if n else None
        # (who was handed out is what the queue's own specification decides; here it is read off the answer)
        if got:
            ms = consumed(got); h.op("place", at="inflight", ids=[tok[p[1:].decode()] for u, p in ms])
            look(["pending", "inflight"])
            for u, p in ms:
                h.ask([W.qnack(q, u, "why")])
                dead = h.get("/api/queue/%s/messages" % q, state="dlq")["total"] > sum(len(o["ids"]) for o in h.ops if o.get("at") == "dlq" and o["k"] == "place")
                h.op("place", at="dlq" if dead else "pending", ids=[tok[p[1:].decode()]])
            look(["pending", "inflight", "dlq"])
        h.ask([W.qdelete(q)])
        out.append(("InspectTrace", h.export()))
    srv.stop(); return out
def consumed(c):
    n = c.u32(); r = []
    for _ in range(n):
        u = c.take(16); r.append((u, c.take(c.u32())))
    return r

# ------------------------------------------------------------------ larger ones, any page, any search
def big_job(j):
    rng = random.Random(j["seed"])
    srv = Server(env=dict(SD.stream_env(SC.cfg_of()), **QC.queue_env(), STORE_TTL_SECS=3600, STORE_CLEANUP_INTERVAL_SECS=rng.choice([1, 10**6])), seed=j["seed"]).start(); out = []
    end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        i += 1; n = rng.choice([1, 5, 49, 50, 51, 60, 300, 499, 500, 501, 520, 999, 1000, 1001, 1030]); kind = ["store", "queue", "pubsub", "stream"][(i + j["n"]) % 4]
        h = Hist(srv, rng, "%s-big-%d-%d-%d" % (kind, j["n"], i, n)); pre = "(%d)." % i
        frag = ["", "1", "0", "k1", "é", "K", "%", "nothing", "1k", "9.", "k"]
        if kind == "store":
            ks = [pre + rng.choice(["k%d", "K%d", "é%d", "a/%d", "%%%d", "k %d"]) % a for a in range(n)]
            short = set(rng.sample(ks, rng.choice([0, 0, n // 3])))
            h.ask([W.set(k, b"\1" + k.encode(), 1 if k in short else None) for k in ks])
            h.put("store", {k: k for k in ks if k in short}, end=srv.vnow + 1000); h.put("store", {k: k for k in ks if k not in short})
            for r in range(2):
                h.some("store", store_fetch(h, pre), n, rng.sample(frag, 3), NODEF, 500)
                if not short: break
                srv.advance(1001)
            gone = rng.sample(ks, n // 2)
            h.ask([W.dele(k) for k in gone]); h.op("gone", ids=gone)
            h.some("store", store_fetch(h, pre), n, rng.sample(frag, 2), NODEF, 500, k=8)
            h.ask([W.dele(k) for k in ks])
        elif kind == "queue":
            q = "q%d-%d" % (j["n"], i); h.ask([W.qcreate(q, vis=60000, maxr=rng.choice([1, 2]))]); tok = {}; ps = []
            for a in range(n):
                t = rng.choice(["k%d", "K%d", "é%d"]) % a; tok[t] = "i%d" % a; ps.append(W.qpush(q, b"\1" + t.encode(), rng.choice([None, 1, 9])))
            h.ask(ps); h.put("pending", {x: "\1" + t for t, x in tok.items()})
            def look(k):
                for st in ("pending", "inflight", "dlq"):
                    h.some(st, queue_fetch(h, q, st, tok), n, [None] if st == "dlq" else [None] + rng.sample(frag, 2), 1000, 50, k=k)
                r = [x for x in h.get("/api/queue") if x["name"] == q]
                for f in ("pending", "inflight", "dlq"): h.op("count", at=f, n=r[0][f] if len(r) == 1 else -1)
            look(6)
            ms = consumed(Cur(h.ask([W.qconsume(q, batch=max(1, n // 2))])[0][1]))
            ids = [tok[p[1:].decode()] for u, p in ms]; h.op("place", at="inflight", ids=ids)
            look(6)
            r = h.ask([W.qnack(q, u, "why") for u, p in ms[::2]])
            back = [x for x in h.get("/api/queue") if x["name"] == q][0]["dlq"]
            h.op("place", at="dlq" if back else "pending", ids=ids[::2]); look(8)
            h.ask([W.qack(q, u) for u, p in ms[1::2]]); h.op("gone", ids=ids[1::2])
            if back: h.ask([W.qpurge(q)]); h.op("gone", ids=ids[::2])
            look(3); h.ask([W.qdelete(q)])
        elif kind == "pubsub":
            ts = [pre + rng.choice(["k%d", "K/%d", "é/%d/", "%%%d", "/k//%d"]) % a for a in range(n)]
            sub = set(rng.sample(ts, n // 3)); short = set(rng.sample(ts, rng.choice([0, n // 4]))) - sub
            h.ask([W.sub(t) for t in sub] + [W.pub(t, b"\1v", retain=True, ttl=1 if t in short else 3600) for t in ts if t not in sub])
            h.put("pubsub", {t: t for t in short}, end=srv.vnow + 1000); h.put("pubsub", {t: t for t in ts if t not in short})
            for r in range(2):
                h.some("pubsub", pubsub_fetch(h, pre), n, rng.sample(frag, 3), 500, 50, k=15)
                if not short: break
                srv.advance(1001)
            h.ask([W.unsub(t) for t in sub]); h.op("gone", ids=list(sub))
            h.some("pubsub", pubsub_fetch(h, pre), n, rng.sample(frag, 2), 500, 50, k=6)
            h.ask([W.pub(t, b"", retain=True) for t in ts if t not in sub])
        else:
            t = "t%d-%d" % (j["n"], i); h.ask([W.screate(t)])
            k = 0; said = {}; m = rng.choice([n, 3, 0])
            while True:
                for a, (st, b) in zip(range(k + 1, m + 1), h.ask([W.spub(t, b"\1m%d" % a) for a in range(k + 1, m + 1)])): said[Cur(b).u64()] = "m%d" % a
                h.put("s", {a: "m%d" % a for a in range(k + 1, m + 1)}); k = m
                for fl in range(2):
                    for _ in range(12):
                        lim = rng.choice([None, 1, 2, 10, 49, 50, 500, 501, m, m + 1, 2**32, 2**64 - 1]) or None
                        frm = rng.choice([None, None, 0, 1, 2, m, m + 1, m - 5 if m > 5 else 1, rng.randint(1, m + 1), 2**32, 2**64 - 1])
                        r = h.get("/api/stream/%s/messages" % t, **params(limit=lim, **{"from": frm}))
                        it = [x["seq"] if x["payload"] == said.get(x["seq"]) else -x["seq"] for x in r["messages"]]
                        c = lambda v: min(v, 10**9)
                        h.op("seq", at="s", **{"from": -1 if frm is None else c(frm)}, lim=min(500, 50 if lim is None else lim), items=it, rfrom=c(r["from_seq"]), rlast=r["last_seq"], rlim=r["limit"], hot=fl == 0 and m <= 40)
                    r = [x for x in h.get("/api/stream")["topics"] if x["name"] == t]
                    h.op("count", at="s", n=r[0]["last_seq"] if len(r) == 1 else -1)
                    if m > 40: srv.advance(200); srv.advance(200)
                if m >= n: break
                m = n
            h.ask([W.sdelete(t)])
        out.append(("InspectTrace", h.export()))
    srv.stop(); return out

# ------------------------------------------------------------------ inspecting changes nothing
WHAT = dict(queue=QC.rand_job, durable=QC.durable_job, stream=SC.rand_job, sdurable=SC.durable_job, pubsub=PC.rand_job, store=KC.ttl_job, qwait=QC.wait_job, swait=SC.wait_job, order=PC.order_job)
def watched_job(j):
    with Watched(j["seed"]): return WHAT[j["what"]](j)

HOT, COLD, SMALL = SC.HOT, SC.COLD, SC.SMALL
JOBS = [dict(what="queue", mix="conserve", pinsp=.2, chaos=3000), dict(what="queue", mix="retry", ptime=.25, chaos=0), dict(what="durable", tag="watched", chaos=20000),
        dict(what="stream", mix="skip", cfg=COLD, chaos=3000), dict(what="stream", mix="lease", cfg=SMALL, chaos=0), dict(what="sdurable", tag="watched", cfg=HOT, chaos=5000),
        dict(what="pubsub", mix="retain", ptime=.15, chaos=3000), dict(what="order", chaos=0), dict(what="store", chaos=0), dict(what="store", chaos=5000)]
def watched(ctx):
    return [dict(j, seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(9, 200)) for i, j in enumerate(JOBS)]
def i01(ctx):
    pg = lambda mode, props, **k: "INIT Init\nNEXT Ask\nCHECK_DEADLOCK FALSE\nCONSTANTS MaxN=%d MaxLim=%d Mode=\"%s\" Top=%d\n" % (k.get("n", ctx.pick(5, 7)), k.get("l", 4), mode, k.get("top", 100)) + "".join("INVARIANT %s\n" % p for p in props)
    ALL = ["Inv_Once", "Inv_Only", "Inv_All", "Inv_Total", "Inv_Short"]
    ctx.model("paging", "Paging", pg("right", ALL))
    for m, p in (("cuts_before_filter", "Inv_All"), ("skips_before_filter", "Inv_All"), ("expired_later", "Inv_All"), ("total_of_all", "Inv_Total"), ("total_of_page", "Inv_Total"), ("inclusive", "Inv_Once"), ("wraps", "Inv_All")):
        ctx.model("paging: " + m, "Paging", pg(m, [p], n=4, l=3, top=4), expect="%s is violated" % p)
    R = lambda: ctx.rng.randrange(1 << 30)
    sz = ctx.pick(3, 4); of = ctx.pick(2, 8)
    ctx.run(square_job, [dict(f=f, seed=R(), n=n, of=of, size=sz) for f in ("store", "pubsub", "queue") for n in range(of)])
    ctx.run(big_job, [dict(seed=R(), n=i, secs=ctx.pick(6, 120)) for i in range(4)])
    ctx.run(watched_job, watched(ctx))
def square_job(j): return dict(store=store_square, pubsub=pubsub_square, queue=queue_square)[j["f"]](j)

CHECKS = dict(I01=i01)
