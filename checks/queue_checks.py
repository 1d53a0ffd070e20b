"""Checks Q01..Q08: queues."""
import random, time
from nexo import *
from queuedrv import *
import walks

MC = """INIT Init
NEXT Next
VIEW %(view)s
CONSTANTS MaxMsgs=%(msgs)d Prios={%(prios)s} VT=2 MR=%(mr)d MaxNow=%(now)d Batches={%(b)s} MaxReplay=%(rep)d Crashes=%(crash)d MaxLife=%(life)d
CHECK_DEADLOCK FALSE
"""
def mc(view="view", msgs=3, prios="0,1", mr=1, now=3, b="1,2", rep=1, crash=0, life=0, props=()):
    return MC % dict(view=view, msgs=msgs, prios=prios, mr=mr, now=now, b=b, rep=rep, crash=crash, life=life) + "".join(
        ("INVARIANT " if p.startswith("Inv") else "PROPERTY ") + p + "\n" for p in props)

UNIT = 1000
def queue_env(**k): return dict(QUEUE_DEFAULT_FLUSH_MS=FLUSH, **k)

# ------------------------------------------------------------------ walks of the model on the real server
def walk_job(j):
    """replay walks of the bounded model, in lockstep, one queue per walk"""
    rng = random.Random(j["seed"])
    srv = Server(env=queue_env(), seed=rng.randrange(1 << 30)).start()
    run = QRun(srv, rng, conns=3)
    plans = []
    for i, w in enumerate(j["walks"]):
        q = run.add("w%d" % i, "walk-%d-%d" % (j["n"], i)); plans.append([q, list(w), None])
        plans[-1][2] = run.issue(q, "create", vt=2 * UNIT, mr=j["mr"])
    run.finish([p[2] for p in plans])
    active = plans
    dead = {}
    while active:
        # run every walk up to its next tick, one pipelined round at a time
        while True:
            ps = []
            for pl in active:
                q, w, _ = pl
                while w and w[0][0] == "sweep": w.pop(0)
                if not w or w[0][0] == "tick": continue
                a = w.pop(0)
                k = a[0]
                if k == "push": ps.append(run.issue(q, k, p=a[2]))
                elif k == "consume": ps.append(run.issue(q, k, n=a[1]))
                elif k in ("ack", "nack", "move", "deldlq"): ps.append(run.issue(q, k, m="m%d" % a[1], r=0) if k == "nack" else run.issue(q, k, m="m%d" % a[1]))
                elif k in ("purge", "delete"): ps.append(run.issue(q, k))
                elif k == "create": ps.append(run.issue(q, k, vt=2 * UNIT, mr=j["mr"] + 1))
            if not ps: break
            run.finish(ps)
        for pl in active:
            if pl[1] and pl[1][0][0] == "tick": pl[1].pop(0)
            else: pl[1] = None
        for pl in active:
            if pl[1] is None: finish_queue(run, pl[0], sumry=False)
        done = [pl[0] for pl in active if pl[1] is None]
        active = [pl for pl in active if pl[1] is not None]
        for q in done: run.queues.remove(q)
        if active: run.advance(UNIT)
    srv.stop()
    return [("QueueTrace", pl[0].rec.export()) for pl in plans]

def finish_queue(run, q, sumry=True, drain=True):
    run.quiet(q)
    run.inspect(q, sumry=sumry)
    if drain:
        for _ in range(50):
            o = run.do(q, "consume", n=3)
            if not o["ok"] or not o["ms"]: break
    q.rec.time(run.now)

def walk_check(ctx, mr=1, msgs=2, now=3, prios="0,1", rep=1, life=0, quick=420, b="1,2"):
    cfg = mc(view="viewg", msgs=msgs, prios=prios, mr=mr, now=now, rep=rep, life=life, b=b)
    ini, act, succ, r = walks.graph("QueueMC", cfg)
    ctx.cov["states"] += r["distinct"]; ctx.cov["transitions"] += r["states"]
    ws, cov, tot = walks.cover(ini, act, succ, ctx.rng, maxlen=40)
    if not ctx.thorough: ws = ctx.rng.sample(ws, min(quick, len(ws)))
    n = max(1, min(6 if not ctx.thorough else 24, len(ws) // 20))
    ctx.run(walk_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, walks=ws[i::n], mr=mr) for i in range(n)])
    ctx.models.append(dict(model="walks of QueueMC (mr=%d)" % mr, walks=len(ws), labelled_transitions_total=tot, operations=sum(map(len, ws))))

# ------------------------------------------------------------------ random histories
MIXES = dict(
    order=Mix(push=6, consume=4, ack=1, nack=3, move=1),
    lease=Mix(push=3, consume=6, ack=2, nack=1.5),
    conserve=Mix(push=5, consume=5, ack=2, nack=3, move=1, deldlq=.4, purge=.15, peek=.5),
    retry=Mix(push=3, consume=5, ack=.7, nack=5, move=1.5, deldlq=.5, purge=.15, peek=1.5),
    life=Mix(push=4, consume=3, ack=1, nack=1, create=1.2, delete=1, exists=1, peek=.3, purge=.2, move=.2),
)
def rand_job(j):
    rng = random.Random(j["seed"])
    srv = Server(env=queue_env(), chaos=j.get("chaos", 0), chaos_us=j.get("us", 300), seed=rng.randrange(1 << 30)).start()
    run = QRun(srv, rng, conns=4)
    out = []
    mix = MIXES[j["mix"]]
    end = time.monotonic() + j["secs"]
    i = 0
    while time.monotonic() < end:
        i += 1
        q = run.add("q%d" % i, "%s-%d-%d" % (j["mix"], j["n"], i))
        run.do(q, "create", vt=rng.choice([400, 1000, 1000, 60000]), mr=rng.choice(j.get("mrs", [0, 1, 2, 3, 12])))
        for st in range(j.get("len", 22)):
            k = rng.random()
            if k < j.get("ptime", .15): run.advance(rng.choice([100, 300, 700, 1000, 1001])); run.quiet(q)
            elif k < .18 + j.get("pinsp", 0): run.inspect(q, page=rng.choice([None, 1, 2]))
            elif k < .60: run.batch([rand_op(run, q, mix, batchmax=j.get("bmax", 4)) for _ in range(rng.randint(2, j.get("conc", 4)))]); run.resolve(q)
            else: run.batch([rand_op(run, q, mix, batchmax=j.get("bmax", 4))])
            if st % 5 == 4: refresh_dead(run, q)
        if rng.random() < .5: run.advance(2000)
        finish_queue(run, q)
        run.queues.remove(q); out.append(("QueueTrace", q.rec.export()))
    srv.stop()
    return out

def rand_check(ctx, mix, secs_q=9, secs_t=240, jobs=6, **k):
    js = []
    for i in range(jobs):
        js.append(dict(seed=ctx.rng.randrange(1 << 30), n=i, mix=mix, secs=ctx.pick(secs_q, secs_t), chaos=[0, 3000, 30000][i % 3], **k))
    ctx.run(rand_job, js)

def q01(ctx):
    ctx.model("order", "QueueMC", mc(props=["Inv_OnePlace", "Act_Order", "Act_Tail"], msgs=ctx.pick(3, 4), rep=ctx.pick(1, 1)))
    walk_check(ctx, mr=2)
    rand_check(ctx, "order", bmax=12)

def q02(ctx):
    ctx.model("lease", "QueueMC", mc(props=["Inv_Lease", "Act_NoDouble", "Inv_Removed"], msgs=ctx.pick(3, 4), prios="0", now=ctx.pick(4, 5)))
    walk_check(ctx, mr=1, prios="0")
    rand_check(ctx, "lease", ptime=.3)

def q03(ctx):
    ctx.model("conservation", "QueueMC", mc(props=["Inv_OnePlace", "Inv_Conserved", "Inv_Removed"], msgs=ctx.pick(3, 4), prios="0", rep=2))
    walk_check(ctx, mr=1)
    rand_check(ctx, "conserve", conc=5)

def q04(ctx):
    for mr in (0, 1, 2, 3):
        ctx.model("retries mr=%d" % mr, "QueueMC", mc(props=["Inv_Bound", "Inv_DlqReason", "Inv_Conserved"], msgs=2, mr=mr, prios="0", rep=2, now=ctx.pick(4, 6)))
    walk_check(ctx, mr=0, quick=150)
    walk_check(ctx, mr=1, quick=150, rep=2, prios="0")
    walk_check(ctx, mr=2, quick=150, now=4, prios="0")
    rand_check(ctx, "retry", ptime=.25, len=30)

# ------------------------------------------------------------------ restarts and crashes
def storm(run, qs, rng, mix, conc, batchmax=3):
    """one round of concurrent operations on several queues at once"""
    items = []
    for q in qs: items += [rand_op(run, q, mix, batchmax=batchmax) for _ in range(rng.randint(2, conc))]
    rng.shuffle(items)
    run.batch(items)
    for q in qs: run.resolve(q)

DUR = dict(
    mixed=Mix(push=5, consume=5, ack=2.5, nack=2.5, move=1.2, deldlq=.4, purge=.25),
    churn=Mix(push=5, consume=6, ack=5, nack=1),
    dead=Mix(push=3, consume=5, ack=.5, nack=6, move=3, deldlq=1, purge=.5),
)
def durable_job(j):
    """concurrent histories, a flush interval, a restart; several rounds"""
    rng = random.Random(j["seed"])
    srv = Server(env=queue_env(), chaos=j.get("chaos", 0), chaos_us=j.get("us", 400), seed=rng.randrange(1 << 30)).start()
    run = QRun(srv, rng, conns=6)
    out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        qs = []
        for _ in range(j.get("queues", 5)):
            i += 1
            q = run.add("d%d" % i, "%s-%d-%d" % (j["tag"], j["n"], i), durable=True)
            qs.append(q)
        run.batch([(q, "create", dict(vt=rng.choice([300, 1000, 60000]), mr=rng.choice([0, 1, 2, 5]))) for q in qs])
        for cyc in range(rng.randint(1, 2)):
            for st in range(rng.randint(2, 4)):
                mix = DUR[rng.choice(sorted(DUR))]
                storm(run, qs, rng, mix, j.get("conc", 4))
                if rng.random() < .4:
                    run.advance(rng.choice([60, 300, 400, 1000]))
                    for q in qs: run.quiet(q)
                for q in qs: refresh_dead(run, q)
            run.flushed()
            run.restart(down=rng.choice([0, 0, 150, 500, 2000]))
            for q in qs:
                run.quiet(q); run.inspect(q)
        for q in qs: finish_queue(run, q); out.append(("QueueTrace", q.rec.export()))
        run.flushed()
        run.batch([(q, "delete", {}) for q in qs])
        run.queues = []
    srv.stop()
    return out

def durable_check(ctx, tag, secs_q=11, secs_t=240, **k):
    ctx.run(durable_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, tag=tag, secs=ctx.pick(secs_q, secs_t), chaos=[3000, 20000, 100000, 0, 20000, 50000][i % 6], **k) for i in range(6)])

def crash_job(j):
    """die at a chosen file operation, come back, look, go on"""
    rng = random.Random(j["seed"])
    srv = Server(env=queue_env(QUEUE_WRITER_BATCH_SIZE=j.get("wb", 50)), chaos=j.get("chaos", 0), chaos_us=300, seed=rng.randrange(1 << 30)).start()
    run = QRun(srv, rng, conns=4)
    out = []; end = time.monotonic() + j["secs"]; i = 0; crashes = 0
    while time.monotonic() < end:
        qs = []
        for _ in range(j.get("queues", 3)):
            i += 1
            q = run.add("c%d" % i, "crash-%d-%d" % (j["n"], i), durable=True); qs.append(q)
        run.batch([(q, "create", dict(vt=rng.choice([300, 1000, 60000]), mr=rng.choice([0, 1, 2]))) for q in qs])
        for cyc in range(j.get("cycles", 3)):
            if rng.random() < .5: run.flushed()
            srv.ctl.set("crash_mode", rng.choice([0, 1, 1, 2]))
            srv.ctl.set("crash_at", srv.ctl.get("fileops") + 1 + int(rng.random() ** 2 * j.get("reach", 40)))
            dead = False
            for st in range(rng.randint(2, 5)):
                mix = DUR[rng.choice(sorted(DUR))]
                its = []
                for q in qs: its += [rand_op(run, q, mix, batchmax=3) for _ in range(rng.randint(1, 3))]
                if rng.random() < .12: its.append((rng.choice(qs), "delete", {}))
                if rng.random() < .2:
                    q = rng.choice(qs); its.append((q, "create", dict(vt=q.vt, mr=1)))
                try:
                    run.batch(its)
                    if rng.random() < .6:
                        for q in qs: run.resolve(q)
                    run.advance(rng.choice([0, 40, 110, 300]))
                    run.poll()
                except (Violation, OSError, http.client.HTTPException):
                    if not srv.ctl.get("crashed"): raise
                if srv.ctl.get("crashed"): dead = True; break
            if dead:
                crashes += 1
                if not srv.wait_dead(): raise ToolError("crashed server lingers")
            srv.ctl.set("crash_at", 0)
            run.restart(down=rng.choice([0, 0, 200, 2000]), already_dead=dead)
            for q in qs: run.quiet(q); run.inspect(q)
        for q in qs: finish_queue(run, q); out.append(("QueueTrace", q.rec.export()))
        run.batch([(q, "delete", {}) for q in qs])
        run.queues = []
    srv.stop()
    return out

SWEEP = ["push", "consume", "ack", "nack", "move", "deldlq", "purge", "expire", "delete", "create"]
def sweep_job(j):
    """every file operation that one or two requests and their write-out cause: die at each in turn"""
    rng = random.Random(j["seed"])
    srv = Server(env=queue_env(QUEUE_WRITER_BATCH_SIZE=j.get("wb", 50)), seed=rng.randrange(1 << 30)).start()
    run = QRun(srv, rng, conns=2); out = []; i = 0; end = time.monotonic() + j["secs"]
    for kinds in j["kinds"]:
        k = 0; first = rng.randrange(j["stride"])
        while time.monotonic() < end:
            k += 1
            if (k + first) % j["stride"]: continue
            i += 1; mr = 1 if set(kinds) & {"move", "deldlq", "purge"} else rng.choice([1, 3]); q = run.add("s%d" % i, "sweep-%s-%d-%d" % ("+".join(kinds), j["n"], i), durable=True)
            run.do(q, "create", vt=1000, mr=mr)
            run.batch([(q, "push", dict(p=rng.choice([0, 1]))) for _ in range(6)])
            for _ in range(mr):
                o = run.do(q, "consume", n=2)
                run.batch([(q, "nack", dict(m=x)) for x in o["ms"]])
            run.do(q, "consume", n=2); refresh_dead(run, q); run.flushed()
            mode = rng.choice([0, 1, 1, 2]); srv.ctl.set("crash_mode", mode); srv.ctl.set("crash_at", srv.ctl.get("fileops") + k)
            try:
                for kind in kinds:
                    lease = [t for t in q.dl if t in q.tid]; its = []
                    if kind == "push": its = [(q, "push", dict(p=1))] * 2
                    elif kind == "consume": its = [(q, "consume", dict(n=2))]
                    elif kind in ("ack", "nack"): its = [(q, kind, dict(m=t)) for t in rng.sample(lease, min(len(lease), rng.randint(1, 2)))]
                    elif kind in ("move", "deldlq"): its = [(q, kind, dict(m=t)) for t in rng.sample(q.dead, min(len(q.dead), rng.randint(1, 2)))]
                    elif kind in ("purge", "delete"): its = [(q, kind, {})]
                    elif kind == "create": i += 1; e = run.add("s%d" % i, "sweep-new-%d-%d" % (j["n"], i), durable=True); its = [(e, "create", dict(vt=1000, mr=1))]
                    if kind == "expire": run.advance(1001)
                    else: run.batch(its)
                for _ in range(3): run.advance(130, limit=20); run.poll()
            except (Violation, OSError, http.client.HTTPException):
                if not srv.ctl.get("crashed"): raise
            dead = bool(srv.ctl.get("crashed"))
            if dead and not srv.wait_dead(): raise ToolError("crashed server lingers")
            srv.ctl.set("crash_at", 0)
            run.restart(already_dead=dead)
            for q in run.queues: run.quiet(q); run.inspect(q); finish_queue(run, q); out.append(("QueueTrace", q.rec.export()))
            run.batch([(q, "delete", {}) for q in run.queues]); run.queues = []
            if not dead: break
    srv.stop()
    return out
def _crash(j): return dict(crash=crash_job, sweep=sweep_job)[j[0]](j[1])

def persist_models(ctx):
    cfg = """SPECIFICATION Spec
CONSTANTS Msgs = {%s} Procs = {p1, p2} MaxOps = %d InLock = %s
INVARIANTS Inv_Flushed Inv_Prefix Inv_Catchup
CHECK_DEADLOCK FALSE
"""
    ctx.model("hand-over to storage", "QueuePersist", cfg % ("m1, m2", ctx.pick(6, 8), "TRUE"))
    ctx.model("hand-over after the lock (wrong)", "QueuePersist", cfg % ("m1", 5, "FALSE"), expect="is violated")

def q05(ctx):
    persist_models(ctx)
    ctx.model("persistence", "QueueMC", mc(props=["Inv_OnePlace", "Act_Crash"], msgs=2, mr=1, now=ctx.pick(2, 3), rep=1, crash=1, prios=ctx.pick("0", "0,1")))
    durable_check(ctx, "restart")

def q06(ctx):
    persist_models(ctx)
    ctx.model("crash", "QueueMC", mc(props=["Inv_OnePlace", "Act_Crash"], msgs=2, mr=1, now=2, rep=1, crash=ctx.pick(1, 2), prios="0"))
    jobs = [("crash", dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(11, 300), wb=[50, 2, 1, 3][i % 4], chaos=[0, 5000][i % 2])) for i in range(6)]
    kinds = [(k,) for k in SWEEP] + ctx.rng.sample([(a, b) for a in SWEEP for b in SWEEP], ctx.pick(6, 100)); ctx.rng.shuffle(kinds)
    kinds.sort(key=len)
    jobs += [("sweep", dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(25, 600), wb=[50, 50, 1][i % 3], stride=1, kinds=kinds[i::6])) for i in range(6)]
    ctx.run(_crash, jobs)

# ------------------------------------------------------------------ waiting consumers
WAKE = Mix(push=6, nack=3, move=1.5, consume=.6, ack=1)
def wait_job(j):
    rng = random.Random(j["seed"])
    srv = Server(env=queue_env(), chaos=j.get("chaos", 0), chaos_us=j.get("us", 400), seed=rng.randrange(1 << 30)).start()
    run = QRun(srv, rng, conns=6)
    out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        qs = []
        for _ in range(6):
            i += 1
            q = run.add("w%d" % i, "wait-%d-%d" % (j["n"], i)); qs.append(q)
        run.batch([(q, "create", dict(vt=rng.choice([300, 1000, 60000]), mr=rng.choice([1, 2, 3, 30]))) for q in qs])
        for st in range(10):
            its = []
            for q in qs:
                nw = sum(p.o["k"] == "consume" for p in q.open)
                here = []
                if nw < 3 and rng.random() < .75: here += [rand_op(run, q, Mix(wconsume=1), batchmax=3, wait=rng.choice([200, 1000, 5000, 100000])) for _ in range(rng.randint(1, 2))]
                if rng.random() < .7: here += [rand_op(run, q, WAKE, batchmax=2) for _ in range(rng.randint(1, 2))]
                its += here
            rng.shuffle(its)
            if its: run.batch(its)
            srv.settle()
            for q in qs: run.quiet(q)
            for q in qs: run.resolve(q)
            if rng.random() < .45:
                run.advance(rng.choice([100, 199, 201, 300, 301, 1001]))
                for q in qs: run.quiet(q)
            if st % 4 == 3:
                for q in qs: refresh_dead(run, q)
        run.advance(100001); run.advance(60001)
        for q in qs:
            run.quiet(q)
            if any(p.o["k"] == "consume" for p in q.open): raise Violation("a waiting consume never returned")
            finish_queue(run, q); out.append(("QueueTrace", q.rec.export()))
        run.queues = []
    srv.stop()
    return out

def q07(ctx):
    ctx.model("wake up", "QueueWait", """SPECIFICATION Spec
CONSTANTS Waiters = {w1, w2, w3} MaxPush = %d Order = "subscribe_first" Wake = "all"
INVARIANTS Inv_Taken
PROPERTIES NoSleepOnWork Deadline
CHECK_DEADLOCK FALSE
""" % ctx.pick(3, 4))
    for o, w in (("check_first", "all"), ("subscribe_first", "none")):
        ctx.model("wake up, broken: %s/%s" % (o, w), "QueueWait", """SPECIFICATION Spec
CONSTANTS Waiters = {w1, w2} MaxPush = 2 Order = "%s" Wake = "%s"
PROPERTIES NoSleepOnWork
CHECK_DEADLOCK FALSE
""" % (o, w), expect="NoSleepOnWork was violated")
    ctx.run(wait_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(16, 300), chaos=[0, 5000, 50000][i % 3]) for i in range(6)])

# ------------------------------------------------------------------ lifecycle
LIFE = Mix(push=4, consume=2, ack=1, create=2.2, delete=1.6, exists=1.2, peek=.3, purge=.2)
def life_job(j):
    rng = random.Random(j["seed"])
    srv = Server(env=queue_env(), chaos=j.get("chaos", 0), chaos_us=j.get("us", 600), seed=rng.randrange(1 << 30)).start()
    run = QRun(srv, rng, conns=5)
    out = []; end = time.monotonic() + j["secs"]; i = 0
    while time.monotonic() < end:
        qs = []
        for _ in range(5):
            i += 1
            q = run.add("l%d" % i, "life-%d-%d" % (j["n"], i), durable=True); q.vt = rng.choice([300, 1000, 60000]); qs.append(q)
        for cyc in range(2):
            for st in range(rng.randint(3, 6)):
                its = []
                for q in qs: its += [rand_op(run, q, LIFE, batchmax=3) for _ in range(rng.randint(1, 4))]
                rng.shuffle(its)
                if rng.random() < .25:
                    c = srv.conn()
                    for q in qs:
                        if rng.random() < .6: run.issue(q, rng.choice(["delete", "delete", "create"]), conn=c, **dict(vt=q.vt, mr=3))
                    run.abandon(c)
                run.batch(its)
                for q in qs: run.inspect(q, sumry=True)
                if rng.random() < .2:
                    run.advance(rng.choice([60, 300, 1000]))
                    for q in qs: run.quiet(q)
            run.flushed()
            run.restart(down=rng.choice([0, 0, 500]))
            for q in qs: run.quiet(q); run.inspect(q)
        for q in qs: finish_queue(run, q); out.append(("QueueTrace", q.rec.export()))
        run.batch([(q, "delete", {}) for q in qs])
        run.queues = []
    srv.stop()
    return out

def q08(ctx):
    ctx.model("lifecycle", "QueueMC", mc(props=["Inv_OnePlace", "Inv_Conserved", "Inv_Removed", "Act_Crash"], msgs=2, mr=0, now=1, rep=0, life=ctx.pick(2, 3), prios="0", crash=ctx.pick(0, 1)))
    walk_check(ctx, mr=0, msgs=2, now=1, prios="0", rep=0, life=2, quick=200, b="2")
    ctx.run(life_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(12, 240), chaos=[0, 5000, 50000][i % 3]) for i in range(6)])

CHECKS = dict(Q01=q01, Q02=q02, Q03=q03, Q04=q04, Q05=q05, Q06=q06, Q07=q07, Q08=q08)
