"""Checks S01..S11: streams."""
import random, time
from nexo import *
import streamdrv as SD
from streamdrv import *
import walks

HOT = dict(aw=1000, md=3, mp=10000, seg=1 << 20, ram=1000)
def cfg_of(**k): return dict(HOT, **k)
COLD = cfg_of(seg=150, ram=2, cold=True)
LAZY = dict(COLD, flush=5000, evict=20)      # memory is short long before the messages are written out

MIXES = dict(
    log=Mix(pub=6, fetch=3, ack=1, join=.6),
    lease=Mix(pub=3, fetch=5, ack=2, join=1, leave=.5, seek=.1),
    skip=Mix(pub=3, fetch=5, ack=3, join=1, leave=.8, seek=.15),
    fence=Mix(pub=2, fetch=4, ack=3, join=1.5, leave=1, seek=.8),
    life=Mix(pub=5, fetch=2, ack=1, join=1, create=1, delete=.8, exists=.7, seek=.2),
)
def finish_topic(run, t, groups=("g1", "g2"), full=True):
    f = run.cfg.get("flush", FLUSH); run.advance(f + 30); run.advance(f + 30); run.advance(run.cfg["aw"] + 300)
    time.sleep(.01); run.srv.settle()
    run.quiet(t); run.inspect(t, full=full, page=run.rng.choice([None, 3]))
    drain(run, t, groups)
    run.inspect(t, full=full)
    run.rec_end = t.rec.time(run.now)

def rand_job(j):
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=stream_env(cfg), chaos=j.get("chaos", 0), chaos_us=j.get("us", 300), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, cfg, conns=4)
    out = []; mix = MIXES[j["mix"]]; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        i += 1
        t = run.add("t%d" % i, "%s-%d-%d" % (j["mix"], j["n"], i))
        run.do(t, "create")
        for st in range(j.get("len", 20)):
            k = rng.random()
            if k < j.get("ptime", .12): run.advance(rng.choice([50, 200, 500, 999, 1000, 1001, 1400])); run.quiet(t)
            elif k < .2: run.inspect(t)
            elif k < .2 + j.get("pdisc", .03) and len(run.conns) > 2: run.disconnect(rng.choice(run.conns)); run.conns.append(run.newconn()); run.quiet(t)
            elif k < .65: run.batch([rand_op(run, t, mix) for _ in range(rng.randint(2, j.get("conc", 4)))]); run.inspect(t, read=False)
            else: run.batch([rand_op(run, t, mix)])
        finish_topic(run, t)
        out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {})]); run.topics.remove(t)
    srv.stop()
    return out

def s_rand(ctx, mix, cfgs, secs_q=9, secs_t=240, **k):
    ctx.run(rand_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, mix=mix, cfg=cfgs[i % len(cfgs)], secs=ctx.pick(secs_q, secs_t), chaos=[0, 3000, 30000][i % 3], **k) for i in range(6)])


# ------------------------------------------------------------------ the models
def smc(view="view", props=(), **k):
    d = dict(Groups="{1}", Conns="{1,2}", MaxMsgs=3, MaxMem=2, AW=1, MD=2, MP=2, MaxNow=2, Batches="{1,2}", MaxSeek=0, Crashes=0, MaxRet=0, MaxLife=0, MaxFetch=4)
    d.update(k)
    return "INIT Init\nNEXT Next\nVIEW %s\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % (view, " ".join("%s=%s" % x for x in d.items())) + "".join(
        ("INVARIANT " if p.startswith("Inv") else "PROPERTY ") + p + "\n" for p in props)
def store_models(ctx):
    def cfg(**k):
        d = dict(Procs="{p1,p2}", MaxPub=ctx.pick(5, 6), MaxCrash=ctx.pick(2, 3), MaxRoll=2, InLock="TRUE", Truncate="TRUE", StartSeq="TRUE"); d.update(k)
        return "SPECIFICATION Spec\nINVARIANT Inv_Prefix\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % " ".join("%s=%s" % x for x in d.items())
    ctx.model("log and segments", "StreamStore", cfg())
    for v in ("InLock", "Truncate", "StartSeq"): ctx.model("log and segments without " + v, "StreamStore", cfg(**{v: "FALSE"}), expect="Inv_Prefix is violated")
def wait_models(ctx):
    def cfg(**k):
        d = dict(F="{f1,f2,f3}", MaxMsg=3, MaxVanish=2, Guard="TRUE", Notify="TRUE", Order='"subscribe_first"'); d.update(k)
        return "SPECIFICATION Spec\nINVARIANT Inv_Hot\nINVARIANT Inv_OneReader\nPROPERTY Delivered\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % " ".join("%s=%s" % x for x in d.items())
    ctx.model("waiting fetches", "StreamWait", cfg())
    for v, x in (("Guard", "FALSE"), ("Notify", "FALSE"), ("Order", '"look_first"')):
        ctx.model("waiting fetches, wrong %s" % v, "StreamWait", cfg(**{v: x}), expect="Delivered was violated")

# ------------------------------------------------------------------ walks of the model on the real server
UNIT = 1000
def walk_job(j):
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=stream_env(cfg), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, cfg, conns=2)
    shared = list(run.conns); plans = []; out = []
    for i, w in enumerate(j["walks"]):
        t = run.add("w%d" % i, "walk-%d-%d" % (j["n"], i))
        own = any(a[0] == "disc" for a in w)
        cs = [run.newconn(), run.newconn()] if own else shared
        if own: run.conns += cs
        plans.append([t, list(w), cs, {}])
    run.finish([run.issue(pl[0], "create", conn=shared[0]) for pl in plans])
    active = plans
    while active:
        while True:
            ps = []; gone = []
            for pl in active:
                t, w, cs, mem = pl
                while w and w[0][0] in ("sweep",): w.pop(0)
                if not w or w[0][0] == "tick": continue
                a = w.pop(0); k = a[0]
                if k == "disc":
                    c = cs[a[1] - 1]
                    if not c.closed: run.disconnect(c, how=rng.choice(["close", "reset"]), ts=[t], settle=False)
                    cs[a[1] - 1] = run.newconn(); run.conns.append(cs[a[1] - 1])
                    gone.append(t); continue
                c = rng.choice(cs)
                if k == "pub": ps.append(run.issue(t, k, conn=c))
                elif k == "join": ps.append(run.issue(t, k, conn=cs[a[2] - 1], g="g%d" % a[1]))
                elif k == "seek": ps.append(run.issue(t, k, conn=c, g="g%d" % a[1], to=a[2]))
                elif k in ("delete", "create"): ps.append(run.issue(t, k, conn=c))
                elif a[1] > len(t.members): continue
                elif k == "fetch": ps.append(run.issue(t, k, conn=c, mem=t.members[a[1] - 1], n=a[2]))
                elif k == "ack": ps.append(run.issue(t, k, conn=c, mem=t.members[a[1] - 1], s=a[2]))
                elif k == "leave": ps.append(run.issue(t, k, conn=c, mem=t.members[a[1] - 1]))
                else: raise ToolError("walk action %s" % (a,))
            if not ps and not any(pl[1] and pl[1][0][0] != "tick" for pl in active): break
            run.finish(ps)
            if gone: srv.settle(6); run.quiet(*gone)
        done = []
        for pl in active:
            if pl[1] and pl[1][0][0] == "tick": pl[1].pop(0)
            else: done.append(pl)
        if done:
            run.quiet(*[pl[0] for pl in done])
            for pl in done:
                t = pl[0]; run.inspect(t, full=True); drain(run, t, j["groups"]); run.inspect(t, read=False)
                out.append(("StreamTrace", run.export(t))); run.topics.remove(t)
                if pl[2] is not shared:
                    for c in pl[2]:
                        if c in run.conns: run.conns.remove(c)
                        c.close()
        active = [pl for pl in active if pl not in done]
        if active:
            run.advance(UNIT)
            run.quiet(*[pl[0] for pl in active])
    srv.stop()
    return out

def walk_check(ctx, quick=300, groups=("g1",), cold=False, q=None, **k):
    k.setdefault("MaxMsgs", 2)
    if q and not ctx.thorough: k.update(q)
    d = dict(MD=2, MP=2); d.update(k)
    ini, act, succ, r = walks.graph("StreamMC", smc(view="viewg", **k))
    ctx.cov["states"] += r["distinct"]; ctx.cov["transitions"] += r["states"]
    ws, cov, tot = walks.cover(ini, act, succ, ctx.rng, maxlen=30)
    ws = ctx.rng.sample(ws, min(ctx.pick(quick, 6000), len(ws)))
    n = max(1, min(ctx.pick(6, 24), len(ws) // 20))
    cfg = cfg_of(aw=UNIT, md=d["MD"], mp=d["MP"], **(dict(seg=60, ram=0, cold=True) if cold else {}))
    ctx.run(walk_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, walks=ws[i::n], cfg=cfg, groups=groups) for i in range(n)])
    ctx.models.append(dict(model="walks of StreamMC %s" % (k,), walks=len(ws), labelled_transitions_total=tot, operations=sum(map(len, ws))))

# ------------------------------------------------------------------ waiting fetches
WAITMIX = Mix(pub=6, ack=3, leave=.7, seek=.25, join=.7, fetch=1)
def wait_job(j):
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=stream_env(cfg), chaos=j.get("chaos", 0), chaos_us=j.get("us", 400), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, cfg, conns=6)
    out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        ts = []
        for _ in range(5):
            i += 1; ts.append(run.add("w%d" % i, "wait-%d-%d" % (j["n"], i)))
        run.batch([(t, "create", {}) for t in ts])
        run.batch([(t, "join", dict(g=g)) for t in ts for g in ("g1", "g1", "g2")])
        for st in range(9):
            its = []
            for t in ts:
                nw = sum(p.o["k"] == "fetch" for p in t.open)
                if nw < 3 and rng.random() < .8:
                    its += [rand_op(run, t, Mix(wfetch=1), nmax=3, wait=rng.choice([200, 1000, 5000, 100000])) for _ in range(rng.randint(1, 2))]
                if rng.random() < .7: its += [rand_op(run, t, WAITMIX) for _ in range(rng.randint(1, 2))]
            rng.shuffle(its)
            if its: run.batch(its)
            srv.settle()
            run.quiet(*ts)
            if rng.random() < j.get("pdisc", .15) and len(run.conns) > 3:
                run.disconnect(rng.choice(run.conns)); run.conns.append(run.newconn())
                run.quiet(*ts)
            if rng.random() < .45:
                run.advance(rng.choice([100, 199, 201, 400, 1001, 1400]))
                run.quiet(*ts)
        if rng.random() < .6: run.batch([(t, "delete", {}) for t in ts if rng.random() < .4])
        run.quiet(*ts)
        run.advance(100001)
        for t in ts:
            run.quiet(t)
            if any(p.o["k"] == "fetch" for p in t.open): raise Violation("a waiting fetch never returned")
            finish_topic(run, t, full=not cfg.get("cold")); out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {}) for t in ts]); run.topics = []
    srv.stop()
    return out

def replay_job(j):
    """groups go back to the beginning again and again, with whatever they had left"""
    rng = random.Random(j["seed"]); cfg = dict(j["cfg"], md=rng.choice([1, 2, 3]))
    srv = Server(env=stream_env(cfg), chaos=j.get("chaos", 0), chaos_us=j.get("us", 300), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, cfg, conns=3); out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        ts = []
        for _ in range(4): i += 1; ts.append(run.add("y%d" % i, "replay-%d-%d" % (j["n"], i)))
        run.batch([(t, "create", {}) for t in ts]); run.batch([(t, "pub", {}) for t in ts for _ in range(rng.randint(1, 4))])
        for rd in range(rng.randint(3, 6)):
            run.batch([(t, "join", dict(g=g)) for t in ts for g in ("g1", "g2")])
            for st in range(rng.randint(1, 3)):
                run.batch([(t, "fetch", dict(mem=m, n=rng.randint(1, 4))) for t in ts for m in t.members[-2:] if rng.random() < .8])
                run.batch([(t, "ack", dict(mem=m, s=q)) for t in ts for m in t.members[-2:] for q in list(m.got) if rng.random() < .3])
                if rng.random() < .4: run.batch([(t, "leave", dict(mem=t.members[-1])) for t in ts if rng.random() < .5]); run.batch([(t, "join", dict(g=t.members[-1].g)) for t in ts])
                if rng.random() < .3: run.advance(cfg["aw"] + 200); run.quiet(*ts)
            if rng.random() < .4: run.batch([(t, "pub", {}) for t in ts if rng.random() < .5])
            run.batch([(t, "seek", dict(g=rng.choice(["g1", "g2"]), to=0 if rng.random() < .8 else 1)) for t in ts])
            for t in ts: run.inspect(t, read=False)
        for t in ts: finish_topic(run, t); out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {}) for t in ts]); run.topics = []
    srv.stop()
    return out

def many_job(j):
    """several topics at once: their files compete for the few that may be open"""
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=stream_env(cfg, STREAM_MAX_OPEN_FILES=rng.choice([1, 2, 3])), chaos=j.get("chaos", 0), chaos_us=j.get("us", 300), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, cfg, conns=4); mix = MIXES["log"]; out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        ts = []
        for _ in range(5): i += 1; ts.append(run.add("m%d" % i, "many-%d-%d" % (j["n"], i)))
        run.batch([(t, "create", {}) for t in ts])
        for st in range(14):
            k = rng.random()
            if k < .2: run.advance(rng.choice([20, 50, 200, 500, 1400])); run.quiet(*ts)
            else:
                its = [rand_op(run, t, mix) for t in ts for _ in range(rng.choice([0, 1, 2, 3]))]
                rng.shuffle(its); run.batch(its)
            if k > .85: run.inspect(rng.choice(ts))
        for t in ts: finish_topic(run, t); out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {}) for t in ts]); run.topics = []
    srv.stop()
    return out

# ------------------------------------------------------------------ restarts and crashes
DURMIX = Mix(pub=6, fetch=4, ack=3.5, join=.8, leave=.4, seek=.35)
def durable_job(j):
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=stream_env(cfg, **j.get("env", {})), chaos=j.get("chaos", 0), chaos_us=j.get("us", 400), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, cfg, conns=5)
    out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        ts = []
        for _ in range(j.get("topics", 4)):
            i += 1; ts.append(run.add("d%d" % i, "%s-%d-%d" % (j["tag"], j["n"], i), durable=True))
        run.batch([(t, "create", dict(age=rng.choice([None, 0, 10**9]), max=rng.choice([None, 0, 10**6]))) for t in ts])
        for cyc in range(rng.randint(2, 4)):
            for st in range(rng.randint(2, 5)):
                its = []
                for t in ts: its += [rand_op(run, t, DURMIX, nmax=5) for _ in range(rng.randint(1, 4))]
                rng.shuffle(its); run.batch(its)
                if rng.random() < .3:
                    run.advance(rng.choice([60, 300, 600, 1300]))
                    run.quiet(*ts)
            if rng.random() < .8: run.flushed(save=rng.random() < .7)
            run.restart(down=rng.choice([0, 0, 150, 2000]))
            run.quiet(*ts)
            for t in ts: run.inspect(t, full=not cfg.get("cold"))
        for t in ts: finish_topic(run, t, full=not cfg.get("cold")); out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {}) for t in ts]); run.topics = []
    srv.stop()
    return out

def crash_job(j):
    """die at a chosen file operation, come back, look, go on"""
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=stream_env(cfg, **j.get("env", {})), chaos=j.get("chaos", 0), chaos_us=300, seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, cfg, conns=4)
    out = []; end = time.monotonic() + j["secs"]; i = 0; crashes = 0
    while time.monotonic() < end:
        ts = []
        for _ in range(j.get("topics", 3)):
            i += 1; ts.append(run.add("c%d" % i, "%s-%d-%d" % (j.get("tag", "crash"), j["n"], i), durable=True))
        run.batch([(t, "create", {}) for t in ts])
        for cyc in range(j.get("cycles", 4)):
            if rng.random() < .5: run.flushed(save=rng.random() < .7)
            srv.ctl.set("crash_mode", rng.choice([0, 1, 1, 2]))
            srv.ctl.set("crash_at", srv.ctl.get("fileops") + 1 + int(rng.random() ** 2 * j.get("reach", 25)))
            dead = False
            for st in range(rng.randint(2, 6)):
                its = []
                for t in ts: its += [rand_op(run, t, DURMIX, nmax=5) for _ in range(rng.randint(1, 3))]
                if rng.random() < j.get("plife", .12):
                    t = rng.choice(ts); its += [(t, "delete", {})] + ([(t, "create", dict(max=rng.choice([None, 10**6])))] if rng.random() < .6 else [])
                if rng.random() < .2: its.append((rng.choice(ts), "create", {}))
                try:
                    run.batch(its)
                    run.advance(rng.choice([0, 60, 110, 560, 1200]))
                    run.poll()
                except (Violation, OSError, http.client.HTTPException):
                    if not srv.ctl.get("crashed"): raise
                if srv.ctl.get("crashed"): dead = True; break
            if dead:
                crashes += 1
                if not srv.wait_dead(): raise ToolError("crashed server lingers")
            srv.ctl.set("crash_at", 0)
            run.restart(down=rng.choice([0, 0, 200, 2000]), already_dead=dead)
            run.quiet(*ts)
            for t in ts: run.inspect(t, full=not cfg.get("cold"))
        for t in ts: finish_topic(run, t, full=not cfg.get("cold")); out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {}) for t in ts]); run.topics = []
    srv.stop()
    return out

# ------------------------------------------------------------------ retention
RETMIX = Mix(pub=9, fetch=3, ack=2, join=.6, leave=.2, seek=.3)
RCHECK = 1000
def retain_job(j):
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=stream_env(cfg, STREAM_DEFAULT_RETENTION_BYTES=j.get("dmax", SD.DEF_MAX), STREAM_DEFAULT_RETENTION_AGE_MS=j.get("dage", SD.DEF_AGE)), chaos=j.get("chaos", 0), chaos_us=j.get("us", 300), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, cfg, conns=4); run.dage, run.dmax = j.get("dage", SD.DEF_AGE), j.get("dmax", SD.DEF_MAX)
    out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        ts = []
        for _ in range(4):
            i += 1; ts.append(run.add("r%d" % i, "retain-%d-%d" % (j["n"], i), durable=True))
        run.batch([(t, "create", dict(age=rng.choice([None, 0, 0, 2500, 6000]), max=rng.choice([None, 0, 200, 400, 900]))) for t in ts])
        for cyc in range(rng.randint(3, 6)):
            for st in range(rng.randint(1, 4)):
                its = []
                for t in ts: its += [rand_op(run, t, RETMIX, nmax=4) for _ in range(rng.randint(1, 4))]
                rng.shuffle(its); run.batch(its)
                if rng.random() < .4: run.advance(rng.choice([60, 300, 600]))
            if rng.random() < .3:
                its = [rand_op(run, t, Mix(wfetch=1), wait=rng.choice([300, 5000])) for t in ts if rng.random() < .5]
                if its: run.batch(its)
            run.advance(FLUSH + 30); run.advance(FLUSH + 30)
            run.advance(RCHECK + 100)
            time.sleep(.01); srv.settle()
            for t in ts:
                run.quiet(t); t.rec.time(run.now)
                t.rec.one("retq", aged=True, slack=RCHECK + 400)
                run.inspect(t, full=not cfg.get("cold"), page=rng.choice([None, 2]))
            if rng.random() < .3:
                run.flushed(); run.restart(down=rng.choice([0, 500, 4000]))
                run.quiet(*ts)
            for t in ts: run.inspect(t, full=False)
        for t in ts: finish_topic(run, t, full=not cfg.get("cold")); out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {}) for t in ts]); run.topics = []
    srv.stop()
    return out

# ------------------------------------------------------------------ lifecycle
LIFE = Mix(pub=5, fetch=2, ack=1, join=1, create=2, delete=1.5, exists=1.5, seek=.3, leave=.2)
def life_job(j):
    rng = random.Random(j["seed"]); cfg = j["cfg"]
    srv = Server(env=stream_env(cfg), chaos=j.get("chaos", 0), chaos_us=j.get("us", 600), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, cfg, conns=5)
    out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        ts = []
        for _ in range(4):
            i += 1; ts.append(run.add("l%d" % i, "life-%d-%d" % (j["n"], i), durable=True))
        for cyc in range(2):
            for st in range(rng.randint(3, 6)):
                its = []
                for t in ts:
                    its += [rand_op(run, t, LIFE) for _ in range(rng.randint(1, 4))]
                    if t.members and rng.random() < .2: its.append((t, "fetch", dict(mem=rng.choice(t.members), n=2, w=rng.choice([300, 60000]))))
                rng.shuffle(its)
                if rng.random() < .25 and len(run.conns) > 3:
                    c = run.newconn(); run.conns.append(c)
                    for t in ts:
                        if rng.random() < .6: run.issue(t, rng.choice(["delete", "delete", "create"]), conn=c)
                    for x in its[:3]: run.issue(x[0], x[1], **x[2])
                    for x in run.conns: x.flush()
                    run.disconnect(c)
                run.batch(its)
                for t in ts: run.inspect(t)
                if rng.random() < .3:
                    run.advance(rng.choice([60, 300, 600, 1000]))
                    run.quiet(*ts)
            run.flushed()
            run.restart(down=rng.choice([0, 0, 500]))
            run.quiet(*ts)
            for t in ts: run.inspect(t)
        for t in ts: finish_topic(run, t); out.append(("StreamTrace", run.export(t)))
        run.batch([(t, "delete", {}) for t in ts]); run.topics = []
    srv.stop()
    return out

def spread(ctx, fn, cfgs, secs_q=12, secs_t=240, jobs=6, chaos=(0, 5000, 50000), **k):
    ctx.run(fn, [dict(dict(seed=ctx.rng.randrange(1 << 30), n=i, cfg=cfgs[i % len(cfgs)], secs=ctx.pick(secs_q, secs_t), chaos=chaos[i % len(chaos)]), **k) for i in range(jobs)])

ALLP = "Inv_OK Inv_NoSkip Inv_Floor".split()
SMALL = cfg_of(mp=3, md=2)
TINY = cfg_of(aw=400, mp=2, md=1)
COLDP = dict(COLD, mp=3)
def s01(ctx):
    ctx.model("log", "StreamMC", smc(props=["Act_Log", "Act_Append", "Inv_OK"], MaxRet=1, Crashes=1, MaxMem=1, MaxNow=1, MaxFetch=3))
    store_models(ctx)
    s_rand(ctx, "log", [HOT, COLD, LAZY])
    ctx.run(many_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, cfg=[HOT, COLD, LAZY][i % 3], secs=ctx.pick(8, 200), chaos=[0, 3000, 30000][i % 3]) for i in range(6)])
def s02(ctx):
    ctx.model("leases", "StreamMC", smc(props=["Inv_OK", "Act_Lease", "Act_Groups"], MaxMsgs=ctx.pick(3, 4)))
    ctx.model("two groups", "StreamMC", smc(props=["Inv_OK", "Act_Lease", "Act_Groups"], Groups="{1,2}", MaxMsgs=2, MaxNow=1, MaxFetch=3))
    walk_check(ctx, q=dict(MaxFetch=2, MaxNow=1))
    s_rand(ctx, "lease", [HOT, COLD, SMALL], secs_q=8)
def s03(ctx):
    ctx.model("no skip", "StreamMC", smc(props=ALLP, MaxMsgs=ctx.pick(3, 4)))
    ctx.model("no skip, seeks and retention", "StreamMC", smc(props=ALLP, MaxMsgs=2, MaxSeek=1, MaxRet=1, MaxFetch=3))
    wait_models(ctx)
    walk_check(ctx, quick=200, MaxMsgs=3, MaxNow=1, MaxFetch=3, q=dict(MaxMem=1))
    s_rand(ctx, "skip", [HOT, COLD, SMALL, COLDP, LAZY, COLD], secs_q=8)
def s04(ctx):
    for md in (1, 2, 3): ctx.model("deliveries md=%d" % md, "StreamMC", smc(props=["Inv_OK", "Inv_Floor", "Act_Redeliver"], MaxMsgs=2, MD=md, MaxNow=ctx.pick(3, 4), MaxFetch=ctx.pick(4, 5)))
    walk_check(ctx, quick=150, MD=1, MaxMsgs=2, MaxNow=3, MaxFetch=3, q=dict(MaxMem=1))
    walk_check(ctx, quick=200, MD=2, MaxMsgs=2, MaxNow=3, MaxFetch=3, q=dict(MaxMem=1))
    s_rand(ctx, "lease", [cfg_of(md=1), cfg_of(md=2, aw=400), dict(COLD, md=2), cfg_of(md=5)], secs_q=8, ptime=.3)
def s05(ctx):
    ctx.model("fencing", "StreamMC", smc(props=["Inv_OK", "Act_Fence", "Act_Ack"], MaxMsgs=2, MaxSeek=ctx.pick(1, 2), MaxMem=ctx.pick(2, 3)))
    walk_check(ctx, quick=300, MaxSeek=1, MaxNow=1, MaxMsgs=2, MaxFetch=3, q=dict(MaxNow=0))
    s_rand(ctx, "fence", [HOT, SMALL, COLD, TINY], secs_q=8)
def s06(ctx):
    ctx.model("seek", "StreamMC", smc(props=["Inv_OK", "Act_Seek", "Inv_NoSkip"], Groups="{1,2}", MaxMsgs=2, MaxSeek=ctx.pick(1, 2), MaxNow=1, MaxFetch=3))
    ctx.model("seek with retention", "StreamMC", smc(props=["Inv_OK", "Act_Seek", "Inv_NoSkip"], MaxMsgs=3, MaxSeek=2, MaxNow=0, MaxRet=1, MaxFetch=3))
    walk_check(ctx, quick=300, groups=("g1", "g2"), Groups="{1,2}", MaxSeek=2, MaxNow=0, MaxFetch=2, MaxMsgs=2, q=dict(MaxSeek=1, MaxFetch=1))
    s_rand(ctx, "seek", [HOT, COLD], secs_q=6)
    spread(ctx, replay_job, [HOT, COLD], secs_q=6)
    spread(ctx, durable_job, [HOT, COLD], secs_q=7, tag="seek")
def s07(ctx):
    store_models(ctx)
    ctx.model("crash", "StreamMC", smc(props=["Inv_OK", "Act_Crash", "Act_Log"], MaxMsgs=2, Crashes=ctx.pick(1, 2), MaxNow=1, MaxFetch=3))
    spread(ctx, crash_job, [HOT, COLD, cfg_of(seg=100, cold=True)], secs_q=15)
def s08(ctx):
    ctx.model("progress", "StreamMC", smc(props=ALLP + ["Act_Crash"], MaxMsgs=2, Crashes=ctx.pick(1, 2), MaxNow=1, MaxFetch=3))
    ctx.model("progress with retention", "StreamMC", smc(props=ALLP + ["Act_Crash"], MaxMsgs=3, Crashes=1, MaxNow=0, MaxRet=1, MaxMem=1, MaxFetch=3))
    spread(ctx, durable_job, [HOT, COLD], secs_q=8, tag="progress")
    spread(ctx, crash_job, [HOT, COLD], secs_q=9, tag="progress", plife=0)
def s09(ctx):
    ctx.model("retention", "StreamMC", smc(props=ALLP + ["Act_Retain", "Act_Log"], MaxMsgs=3, MaxRet=ctx.pick(1, 2), Crashes=1, MaxNow=1, MaxMem=1, MaxFetch=3))
    R = lambda **k: cfg_of(seg=200, rcheck=RCHECK, retain=True, cold=True, **k)
    spread(ctx, retain_job, [R(), R(ram=2), R(ram=20)], secs_q=15)
def s10(ctx):
    wait_models(ctx)
    ctx.model("bounded pending", "StreamMC", smc(props=["Inv_OK", "Inv_NoSkip"], MP=1, MaxMsgs=3, MaxFetch=4))
    walk_check(ctx, quick=150, MP=1, MaxMsgs=2, MaxNow=1, MaxFetch=3)
    spread(ctx, wait_job, [HOT, COLD, SMALL, cfg_of(aw=400, mp=2), dict(COLD, mp=2), HOT], secs_q=14)
def s11(ctx):
    ctx.model("lifecycle", "StreamMC", smc(props=["Inv_OK", "Inv_NoSkip", "Act_Log"], MaxLife=ctx.pick(2, 3), MaxMsgs=2, MaxNow=1, MaxFetch=2))
    walk_check(ctx, quick=200, MaxLife=2, MaxNow=0, MaxFetch=2, MaxMsgs=1)
    spread(ctx, life_job, [HOT, HOT, COLD], secs_q=12)
MIXES["seek"] = Mix(pub=4, fetch=4, ack=2, join=2, leave=.5, seek=2)
CHECKS = dict(S01=s01, S02=s02, S03=s03, S04=s04, S05=s05, S06=s06, S07=s07, S08=s08, S09=s09, S10=s10, S11=s11)
