"""Checks P01..P05: pub/sub."""
import random, time
from nexo import *
import pubsubdrv as PD
from pubsubdrv import *
import walks

TOPICS = ["a", "b", "a/b", "a/b/c", "a/c", "b/a", "b/b", "", "/", "/a", "a/", "a//b", "//", "a/b/c/d", "é/☃", "A", "a b", "ab"]
PATTERNS = TOPICS + ["#", "+", "+/+", "a/+", "a/#", "+/b", "+/#", "a/+/c", "a/b/#", "/#", "/+", "+/", "#", "a/#", "+/+/#", "a/b/c/#", "b/+/c", "a//#", "+/+/+", "a+", "a/+b"]
ODD = ["a/#/b", "#/a", "a/#/#"]

def gen(rng, h, w):
    """one random operation: (client, kind, topic, args)"""
    cl = rng.choice(h.live()); k = w.pick(rng)
    if k == "sub":
        p = rng.choice(PATTERNS + (ODD if rng.random() < .3 else []))
        if rng.random() < .3: p = rng.choice(h.used or [p])
        return (cl, "sub", p, {})
    if k == "unsub":
        if cl.subs and rng.random() < .85: return (cl, "unsub", rng.choice(sorted(cl.subs)), {})
        return (cl, "unsub", rng.choice(PATTERNS), {})
    t = rng.choice(h.used) if rng.random() < .8 and h.used else rng.choice(TOPICS)
    if k == "pub": return (cl, "pub", t, {})
    if k == "rpub": return (cl, "pub", t, dict(ret=True, ttl=rng.choice([None, None, 1, 2, 3, 10, 60, 0, 18446744073709551615 if rng.random() < .05 else 100])))
    if k == "clear": return (cl, "pub", t, dict(ret=True, empty=True))
    if k == "epub": return (cl, "pub", t, dict(empty=True))
    raise AssertionError(k)
MIX = dict(
    match=Mix(sub=4, unsub=1.5, pub=7, rpub=.6, clear=.1, epub=.1),
    retain=Mix(sub=5, unsub=3, pub=1, rpub=6, clear=1, epub=.3),
    leave=Mix(sub=5, unsub=4, pub=4, rpub=1, clear=.2),
)
def rand_job(j):
    rng = random.Random(j["seed"])
    srv = Server(env=PD.env(), chaos=j.get("chaos", 0), chaos_us=j.get("us", 300), seed=rng.randrange(1 << 30)).start()
    run = PRun(srv, rng); out = []; mix = MIX[j["mix"]]; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        i += 1
        h = run.hist("%s-%d-%d" % (j["mix"], j["n"], i))
        for _ in range(j.get("clients", 4)): h.client()
        h.used = rng.sample(TOPICS, 5)
        for st in range(j.get("len", 18)):
            k = rng.random()
            if k < j.get("ptime", .06): run.advance(rng.choice([300, 999, 1000, 1001, 2000, 3500])); run.quiet()
            elif k < j.get("ptime", .06) + .1: run.quiet(); h.listing(page=rng.choice([None, 1, 2, 3]))
            elif k < j.get("ptime", .06) + .1 + j.get("pgone", .05) and len(h.live()) > 2:
                cl = rng.choice(h.live())
                if rng.random() < .6:
                    for _ in range(rng.randint(1, 4)):
                        c, kk, t, a = gen(rng, h, mix); h.issue(cl, kk, t, **a)
                h.close(cl, rng.choice(["close", "reset"]), sudden=rng.random() < .7)
                h.client()
            elif k < .75: h.batch([gen(rng, h, mix) for _ in range(rng.randint(2, j.get("conc", 4)))])
            else: h.batch([gen(rng, h, mix)])
            if rng.random() < .4: run.quiet()
        run.quiet(); h.listing()
        if rng.random() < .5:
            c = h.client(); h.do(c, "sub", "#"); run.quiet()
        out.append(("PubSubTrace", h.export())); run.reset(h)
    srv.stop()
    return out
def rand_check(ctx, mix, secs_q=9, secs_t=240, **k):
    ctx.run(rand_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, mix=mix, secs=ctx.pick(secs_q, secs_t), chaos=[0, 3000, 30000][i % 3], **k) for i in range(6)])

# ------------------------------------------------------------------ walks of the model on the real server
NAMES = {"a": "a", "b": "b", "ab": "a/b", "abc": "a/b/c", "#": "#", "+": "+", "a+": "a/+", "a#": "a/#", "+b": "+/b", "+#": "+/#", "a#b": "a/#/b", "": "", "/a": "/a"}
def mc(view="view", clients='"c1","c2"', topics='"a","ab"', patterns='"a","a+","a#"', pub=2, now=1, life=1, props=("Inv_Exact", "Inv_Retained", "Act_Latest", "Act_Gone")):
    return "INIT Init\nNEXT Next\nVIEW %s\nCHECK_DEADLOCK FALSE\nCONSTANTS Clients={%s} Topics={%s} Patterns={%s} MaxPub=%d TTL=1 MaxNow=%d MaxLife=%d\n" % (view, clients, topics, patterns, pub, now, life) + "".join(
        ("INVARIANT " if p.startswith("Inv") else "PROPERTY ") + p + "\n" for p in props)
def walk_job(j):
    """model walks in lockstep on one server, each below its own first level"""
    rng = random.Random(j["seed"])
    srv = Server(env=PD.env(), seed=rng.randrange(1 << 30)).start()
    run = PRun(srv, rng); plans = []
    for i, w in enumerate(j["walks"]):
        h = run.hist("walk-%d-%d" % (j["n"], i), prefix="w%d/" % i, alone=False)
        cl = {"c1": h.client(), "c2": h.client()}
        plans.append([h, cl, list(w)])
    active = plans
    while active:
        while True:
            ps = []
            for h, cl, w in active:
                if not w or w[0][0] == "tick": continue
                a = w.pop(0)
                if a[0] in ("sub", "unsub"): ps.append(h.issue(cl[a[1]], a[0], NAMES[a[2]]))
                elif a[0] == "pub":
                    k = a[2]
                    ps.append(h.issue(rng.choice(list(cl.values())), "pub", NAMES[a[1]], ret=k > 0, ttl=[None, 1000, 1, None][k], empty=k == 3))
                elif a[0] == "gone":
                    h.close(cl[a[1]], rng.choice(["close", "reset"]), sudden=True); cl[a[1]] = h.client()
            if not ps: break
            for h, cl, w in active:
                for c in h.live(): c.conn.flush()
            for p in ps: p.h.finish([p])
            run.quiet([h for h, cl, w in active])
        for pl in active:
            if not pl[2]: pl[0].listing()
        rest = []
        for pl in active:
            if pl[2] and pl[2][0][0] == "tick": pl[2].pop(0); rest.append(pl)
        active = rest
        if active:
            run.advance(1000)
    srv.stop()
    return [("PubSubTrace", pl[0].export()) for pl in plans]
def walk_check(ctx, quick=240, per=40, **k):
    ini, act, succ, r = walks.graph("PubSubMC", mc(view="viewg", props=(), **k))
    ctx.cov["states"] += r["distinct"]; ctx.cov["transitions"] += r["states"]
    ws, cov, tot = walks.cover(ini, act, succ, ctx.rng, maxlen=30, limit=ctx.pick(quick, 6000))
    jobs = [dict(seed=ctx.rng.randrange(1 << 30), n=i, walks=ws[i * per:(i + 1) * per]) for i in range((len(ws) + per - 1) // per)]
    ctx.run(walk_job, jobs)
    ctx.models.append(dict(model="walks of PubSubMC", walks=len(ws), labelled_transitions_total=tot, covered=cov, operations=sum(map(len, ws))))

def race_models(ctx):
    def cfg(**k):
        d = dict(N=ctx.pick(4, 7), MaxSub=2, Order='"retain_first"', Atomic='"atomic"', Cleanup='"after_requests"'); d.update(k)
        return "SPECIFICATION Spec\nINVARIANT Inv_NoGap\nINVARIANT Inv_NotMissed\nINVARIANT Inv_NoGhost\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % " ".join("%s=%s" % x for x in d.items())
    ctx.model("publish against subscribe", "PubSubRace", cfg())
    ctx.model("publish against subscribe, value read after subscribing", "PubSubRace", cfg(Atomic='"add_first"'))
    for v, x, i in (("Order", '"match_first"', "Inv_NotMissed"), ("Atomic", '"read_first"', "Inv_NotMissed"), ("Cleanup", '"at_once"', "Inv_NoGhost")):
        ctx.model("publish against subscribe, wrong %s" % v, "PubSubRace", cfg(**{v: x}), expect=i + " is violated")
def flush_models(ctx):
    def cfg(**k):
        d = dict(Topics="{t1,t2}", Procs="{p1,p2}", MaxPub=ctx.pick(3, 4), MaxCrash=ctx.pick(2, 2), MarkAfter="TRUE", LowerFirst="TRUE", Tx="TRUE"); d.update(k)
        return "SPECIFICATION Spec\nINVARIANT Inv_Recent\nINVARIANT Inv_Flushed\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % " ".join("%s=%s" % x for x in d.items())
    ctx.model("flushing retained values", "RetainedFlush", cfg())
    for v in ("MarkAfter", "LowerFirst", "Tx"): ctx.model("flushing retained values without " + v, "RetainedFlush", cfg(**{v: "FALSE"}), expect="is violated")

def p01(ctx):
    ctx.model("delivery", "PubSubMC", mc(topics='"a","ab"', patterns=ctx.pick('"a+","a#"', '"a","a+","a#"'), pub=2, now=0))
    ctx.model("matching", "PubSubMC", mc(clients='"c1"', topics='"a","b","ab","abc","","/a"', patterns='"a","#","+","a+","a#","+b","+#","a#b",""', pub=1, now=0, life=0))
    walk_check(ctx, patterns='"a","a+","a#","#"', topics='"a","ab","abc"', pub=ctx.pick(1, 2), now=0, life=ctx.pick(0, 1))
    rand_check(ctx, "match")

# ------------------------------------------------------------------ order under load
def order_job(j):
    """publishers that each wait for their acknowledgements, subscribers that read slowly, other requests in between"""
    rng = random.Random(j["seed"])
    srv = Server(env=PD.env(**({} if j["n"] % 2 else dict(CHANNEL_CAPACITY_SOCKET_WRITE=rng.choice([1, 1, 2, 5])))), chaos=j.get("chaos", 0), chaos_us=j.get("us", 300), seed=rng.randrange(1 << 30)).start()
    run = PRun(srv, rng); out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        i += 1
        h = run.hist("order-%d-%d" % (j["n"], i)); h.used = []
        np, ns = rng.randint(1, 3), rng.randint(1, 3)
        pubs = [h.client() for _ in range(np)]; subs = [h.client() for _ in range(ns)]
        big = rng.choice([0, 0, 0, 20000, 300000])
        topics = rng.sample(["a", "b", "a/b", "c"], 2)
        for s in subs:
            h.batch([(s, "sub", p, {}) for p in rng.sample(["#", "a/#", "+", "+/+", "a", "b"] + topics, rng.randint(1, 3))])
        if rng.random() < .3: h.batch([(rng.choice(pubs), "sub", "#", {})])
        h.slow = {s.name for s in subs if rng.random() < (.4 if big < 100000 else .8)}
        n = j.get("msgs", 60) if not big else 40 if big > 20000 else 25
        left = {p.name: n for p in pubs}; cur = {}
        watch = [c.conn for c in h.live() if c.name not in h.slow]
        while cur or any(left.values()):
            for p in pubs:
                if p.name not in cur and left[p.name]:
                    left[p.name] -= 1
                    cur[p.name] = h.issue(p, "pub", rng.choice(topics), big=big if rng.random() < .5 else 0, ret=rng.random() < .1)
                    p.conn.flush()
            if rng.random() < .1:        # an unrelated request on a subscriber's connection
                s = rng.choice(subs)
                if s.name not in h.slow: s.conn.call(*W.get("nothing"))
            if rng.random() < (.02 if big < 100000 else .005):
                s = rng.choice(subs)
                if s.name in h.slow: h.slow.discard(s.name); watch.append(s.conn)
            ok = pump_all(watch, lambda: any(x.req.resp is not None for x in cur.values()) or not cur, 60)
            h.collect()
            if not ok and not any(x.req.resp is not None for x in cur.values()): raise Violation("a publish was not answered within 60 s while a subscriber reads slowly")
            cur = {k: v for k, v in cur.items() if v.req.resp is None}
        h.slow = set()
        run.quiet(); h.listing()
        out.append(("PubSubTrace", h.export())); run.reset(h)
    srv.stop()
    return out
def p02(ctx):
    race_models(ctx)
    ctx.run(order_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(10, 200), chaos=[0, 3000, 30000][i % 3]) for i in range(6)])

def p03(ctx):
    race_models(ctx)
    ctx.model("retained values", "PubSubMC", mc(clients='"c1"', topics='"a","ab"', patterns='"a+","a#","a"', pub=ctx.pick(3, 4), now=ctx.pick(2, 3)))
    walk_check(ctx, clients='"c1"', patterns='"a","a#"', topics='"a","ab"', pub=3, now=2)
    rand_check(ctx, "retain", ptime=.22, conc=5)

# ------------------------------------------------------------------ restarts and crashes
def restart_job(j):
    rng = random.Random(j["seed"])
    srv = Server(env=PD.env(**j.get("env", {})), chaos=j.get("chaos", 0), chaos_us=300, seed=rng.randrange(1 << 30)).start()
    run = PRun(srv, rng); out = []; end = time.monotonic() + j["secs"]; i = 0
    mix = MIX["retain"]
    while time.monotonic() < end:
        i += 1
        h = run.hist("restart-%d-%d" % (j["n"], i)); h.used = rng.sample(TOPICS, 6)
        for _ in range(3): h.client()
        for cyc in range(rng.randint(1, 3)):
            for st in range(rng.randint(1, 5)):
                h.batch([gen(rng, h, mix) for _ in range(rng.randint(1, 5))])
                if rng.random() < .3: run.advance(rng.choice([30, 120, 500, 1000, 1500, 3100])); run.quiet()
            crash = j["crash"] and rng.random() < .75
            if not crash or rng.random() < .4: run.quiet(); run.flushed()
            if crash:
                for _ in range(rng.randint(0, 3)): h.batch([gen(rng, h, mix)])
                if rng.random() < .5:
                    # die at a file operation of a flush
                    base = srv.ctl.get("fileops"); srv.ctl.set("crash_mode", rng.randrange(3)); srv.ctl.set("crash_at", base + rng.randint(1, 14))
                    for _ in range(rng.randint(0, 3)):
                        c, k, t, a = gen(rng, h, mix); p = h.issue(c, k, t, **a); c.conn.flush()
                    for _ in range(3):
                        if not srv.alive(): break
                        srv.set_time(srv.vnow + FLUSH // 2 + 10); srv.settle(3); h.time()
                        for c in h.live(): c.conn.pump()
                        h.collect(dead_ok=True)
                    srv.ctl.set("crash_at", 0)
                    if srv.ctl.get("crashed"): srv.wait_dead()
                elif rng.random() < .5:
                    for _ in range(rng.randint(1, 4)):
                        c, k, t, a = gen(rng, h, mix); h.issue(c, k, t, **a); c.conn.flush()
                    time.sleep(rng.random() * .003)
            run.restart(h, down=rng.choice([0, 0, 0, 400, 1000, 2600, 9000]), already_dead=not srv.alive())
            h.listing()
            for _ in range(2): h.client()
            if rng.random() < .3: run.advance(rng.choice([1000, 2500, 8100])); run.quiet()
            c = h.client(); h.do(c, "sub", "#"); run.quiet(); h.listing()
        out.append(("PubSubTrace", h.export())); run.reset(h)
        run.advance(FLUSH + 30); run.advance(FLUSH + 30)
        time.sleep(.02); srv.settle()
    srv.stop()
    return out
def p04(ctx):
    flush_models(ctx)
    ctx.run(restart_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, crash=i % 2 == 1, secs=ctx.pick(14, 250), chaos=[0, 3000, 20000][i % 3]) for i in range(6)])

# ------------------------------------------------------------------ leaving
def leave_job(j):
    """connections that end in every way, with requests in flight"""
    rng = random.Random(j["seed"])
    srv = Server(env=PD.env(MAX_PAYLOAD_SIZE=200000), chaos=j.get("chaos", 0), chaos_us=j.get("us", 300), seed=rng.randrange(1 << 30)).start()
    run = PRun(srv, rng); out = []; end = time.monotonic() + j["secs"]; i = 0; mix = MIX["leave"]
    while time.monotonic() < end:
        i += 1
        h = run.hist("leave-%d-%d" % (j["n"], i)); h.used = rng.sample(TOPICS, 4)
        for _ in range(4): h.client()
        for st in range(10):
            k = rng.random()
            if k < .5:
                cl = rng.choice(h.live()); others = [c for c in h.live() if c is not cl]
                for _ in range(rng.randint(0, j.get("burst", 5))):
                    kk = rng.random()
                    t = rng.choice(h.used)
                    if kk < .5: h.issue(cl, "sub", rng.choice(["#", "+", "a/#", t, t]))
                    elif kk < .75: h.issue(cl, "unsub", rng.choice(sorted(cl.subs) or ["a"]))
                    else: h.issue(cl, "pub", t, ret=rng.random() < .3)
                for c in others:
                    if rng.random() < .5: h.issue(c, "pub", rng.choice(h.used)); c.conn.flush()
                how = rng.choice(["close", "reset", "half", "oversize", "badtype_then_close"])
                if how == "oversize": cl.conn.out += struct.pack(">BBII", 1, 0, 7, 1 << 30)
                if rng.random() < .5: cl.conn.flush(); time.sleep(rng.random() * .002)
                if how == "half":
                    def half(c=cl.conn):
                        try: c.s.shutdown(1)
                        except OSError: pass
                        c.closed = True
                    cl.conn.half = half; how = "half"
                elif how in ("oversize", "badtype_then_close"): how = "close"
                h.close(cl, how if how != "half" else "half", sudden=True)
                h.client(); run.quiet()
                if rng.random() < .6: h.listing()
            else: h.batch([gen(rng, h, mix) for _ in range(rng.randint(1, 5))])
            if rng.random() < .5: run.quiet()
        run.quiet(); h.listing()
        out.append(("PubSubTrace", h.export())); run.reset(h)
    srv.stop()
    return out
def p05(ctx):
    race_models(ctx)
    ctx.model("leaving", "PubSubMC", mc(topics='"a"', patterns='"a","a#"', pub=2, now=0, life=2))
    walk_check(ctx, patterns='"a","a#","a#b"', topics='"a","ab"', pub=1, now=0, life=2, quick=160)
    rand_check(ctx, "leave", secs_q=6, pgone=.12)
    ctx.run(leave_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(9, 200), chaos=[0, 10000, 60000][i % 3]) for i in range(6)])

CHECKS = dict(P01=p01, P02=p02, P03=p03, P04=p04, P05=p05)
