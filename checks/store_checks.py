"""Checks K01, K02: the key-value store."""
import random, time
from nexo import *
import storedrv as KD
from storedrv import *
import walks

BAD = ['{"ttl":-1}', '{"ttl":"5"}', '{"ttl":1.5}', "", "{", "[]", "[1,2]", '{"ttl":18446744073709551616}', '{"ttl":true}', "nul"]
HUGE = [2**31, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 - 1, 10**18]
def gen(rng, h, mix, ttls):
    k = mix.pick(rng); key = rng.choice(h.keys)
    if k == "bad": return ("set", key, dict(bad=rng.choice(BAD)))
    if k == "eset": return ("set", key, dict(empty=True, ttl=rng.choice(ttls)))
    if k == "huge": return ("set", key, dict(ttl=rng.choice(HUGE)))
    if k == "set": return ("set", key, dict(ttl=rng.choice(ttls)))
    return (k, key, {})

def lin_job(j):
    """few keys, many connections, pipelining: which order did the operations take effect in?"""
    rng = random.Random(j["seed"])
    srv = Server(env=KD.env(STORE_TTL_SECS=KD.DEFTTL), chaos=j.get("chaos", 0), chaos_us=j.get("us", 200), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, j.get("conns", 5)); out = []; end = time.monotonic() + j["secs"]; i = 0
    mix = Mix(set=5, get=6, **{"del": 2}, eset=.4, huge=.2, bad=.2)
    while time.monotonic() < end:
        i += 1
        h = run.hist("lin-%d-%d" % (j["n"], i), rng.sample(KEYS, rng.choice([1, 2, 3, 8, 24])), prefix="%d-%d/" % (j["n"], i) if rng.random() < .5 else "")
        if not h.prefix:
            for k in h.keys: h.issue("del", k)
            h.finish()
        for st in range(j.get("len", 25)):
            r = rng.random(); n = len(h.keys)
            if r < .06 and n < 8:
                for _ in range(rng.randint(1, 4)):
                    k, key, a = gen(rng, h, mix, [None, 100]); h.issue(k, key, conn=run.conns[0] if rng.random() < .7 else None, **a)
                h.drop_conn(run.conns[0]); h.finish()
            elif r < .1: run.advance(rng.choice([500, 3999, 4000, 4001]), h)
            elif r < .4: h.batch([("get", k, {}) for k in h.keys])
            elif r < .5: h.batch([gen(rng, h, mix, [None, 1, 100])])
            else: h.batch([gen(rng, h, mix, [None, 100]) for _ in range(rng.randint(2, j.get("conc", 6) * min(n, 6)))])
        h.finish(); h.batch([("get", k, {}) for k in h.keys])
        out += h.export(perkey=True)
    srv.stop()
    return out

def wide_job(j):
    """many keys at once: none of them affects another"""
    rng = random.Random(j["seed"])
    srv = Server(env=KD.env(), chaos=j.get("chaos", 0), seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, 4); out = []
    for rnd in range(j["rounds"]):
        keys = list(dict.fromkeys(KEYS + ["w%d" % x for x in range(150)] + ["w%d" % (x << 20) for x in range(100)] + [("p" * x) for x in range(1, 60)]))
        h = run.hist("wide-%d-%d" % (j["n"], rnd), keys)
        for k in keys: h.issue("del", k)
        h.finish()
        for st in range(5):
            items = [("set" if rng.random() < .6 else "del", k, {} if st % 2 else dict(ttl=100)) for k in rng.sample(keys, len(keys) // 2)]
            items = [(k, key, a if k == "set" else {}) for k, key, a in items]
            h.batch(items); h.batch([("get", k, {}) for k in keys])
        out += h.export(perkey=True)
    srv.stop()
    return out

def mc(**k):
    d = dict(Keys='{"k1","k2"}', Vals='{"v1","v2"}', TTLs="{0,1,2}", Default=2, MaxOps=3, MaxNow=3, next="Next", view="view", props=True); d.update(k)
    return "INIT Init\nNEXT %s\nVIEW %s\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % (d["next"], d["view"], " ".join("%s=%s" % (x, d[x]) for x in ("Keys", "Vals", "TTLs", "Default", "MaxOps", "MaxNow"))) + (
        "INVARIANT Inv_Reads\nINVARIANT Inv_Lives\nINVARIANT Inv_One\nPROPERTY Act_Frame\n" if d["props"] else "")
def walk_job(j):
    """walks of the model in lockstep on one server; every key is read before and after the clock moves"""
    rng = random.Random(j["seed"])
    srv = Server(env=KD.env(STORE_TTL_SECS=2), seed=rng.randrange(1 << 30)).start()
    KD.DEFTTL = 2
    run = SRun(srv, rng, 4); plans = []
    for i, w in enumerate(j["walks"]):
        plans.append((run.hist("walk-%d-%d" % (j["n"], i), ["k1", "k2"], prefix="w%d/" % i), list(w)))
    def read():
        for h, w in plans:
            for k in h.keys: h.issue("get", k)
        for h, w in plans: h.finish()
    while any(w for h, w in plans):
        while True:
            busy = []
            for h, w in plans:
                if w and w[0][0] != "tick":
                    a = w.pop(0); busy.append(h)
                    h.issue(a[0], a[1], **(dict(ttl=a[3] or None) if a[0] == "set" else {}))
            for h in busy: h.finish()
            if not busy: break
            read()
        if not any(w for h, w in plans): break
        for ms in (999, 2): run.advance(ms, *[h for h, w in plans]); read()
        for h, w in plans:
            if w: w.pop(0)
    for h, w in plans: h.listing(search="")
    srv.stop()
    return [x for h, w in plans for x in h.export()]
def walk_check(ctx, **k):
    ini, act, succ, r = walks.graph("StoreMC", mc(next="NextDriven", view="viewg", props=False, **k))
    ctx.cov["states"] += r["distinct"]; ctx.cov["transitions"] += r["states"]
    ws, cov, tot = walks.cover(ini, act, succ, ctx.rng, maxlen=30, limit=ctx.pick(300, 8000))
    jobs = [dict(seed=ctx.rng.randrange(1 << 30), n=i, walks=ws[i * 50:(i + 1) * 50]) for i in range((len(ws) + 49) // 50)]
    ctx.run(walk_job, jobs)
    ctx.models.append(dict(model="walks of StoreMC", walks=len(ws), labelled_transitions_total=tot, covered=cov, operations=sum(map(len, ws))))

def k01(ctx):
    ctx.model("store", "StoreMC", mc(MaxOps=ctx.pick(3, 4), MaxNow=2))
    walk_check(ctx, MaxOps=3, MaxNow=1, TTLs="{0,1}", Vals='{"v"}')
    ctx.run(lin_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(8, 240), chaos=[0, 3000, 30000][i % 3], len=25) for i in range(6)])
    ctx.run(wide_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, rounds=ctx.pick(1, 8), chaos=[0, 3000][i % 2]) for i in range(2)])

# ------------------------------------------------------------------ lifetimes
def ttl_job(j):
    rng = random.Random(j["seed"])
    KD.DEFTTL = rng.choice([1, 4, 4, 3600])
    srv = Server(env=KD.env(STORE_TTL_SECS=KD.DEFTTL, STORE_CLEANUP_INTERVAL_SECS=rng.choice([1, 2, 3, 1000000])), chaos=j.get("chaos", 0), chaos_us=200, seed=rng.randrange(1 << 30)).start()
    run = SRun(srv, rng, 4); out = []; end = time.monotonic() + j["secs"]; i = 0
    mix = Mix(set=6, get=5, **{"del": 1}, eset=.5, huge=.4, bad=.3)
    ttls = [None, 0, 1, 1, 2, 3, 5, 60]
    while time.monotonic() < end:
        i += 1
        h = run.hist("ttl-%d-%d" % (j["n"], i), rng.sample(KEYS, rng.choice([2, 4, 6])), prefix="%d-%d/" % (j["n"], i))
        for st in range(j.get("len", 22)):
            r = rng.random()
            if r < .3:
                ends = sorted({run.now + d for d in (1, 500, 999, 1000, 2000)} | {o["ttl"] + h.rec.nows[o["c"] - 1] for o in h.rec.ops if o["k"] == "set" and o["good"] and o["ttl"] < 100000} )
                ends = [e + d for e in ends for d in (-1, 0, 1) if run.now < e + d < run.now + 70000]
                to = rng.choice(ends[:9])
                if rng.random() < .4:       # operations in flight while the clock moves (and cleanup runs)
                    for _ in range(rng.randint(1, 4)): k, key, a = gen(rng, h, mix, ttls); h.issue(k, key, **a)
                    for c in run.conns: c.flush()
                    if rng.random() < .5: time.sleep(rng.random() * .001)
                    run.advance(to - run.now); h.collect(); h.rec.time(run.now)
                    for _ in range(rng.randint(0, 2)): k, key, a = gen(rng, h, mix, ttls); h.issue(k, key, **a)
                    h.finish()
                else: run.advance(to - run.now, h)
                h.batch([("get", k, {}) for k in h.keys])
            elif r < .37: h.listing(limit=rng.choice([None, 1, 2, 3]), search=rng.choice(["", "", "a", "/", "zz"]))
            elif r < .385: run.restart(h); h.batch([("get", k, {}) for k in h.keys])
            elif r < .6: h.batch([gen(rng, h, mix, ttls)])
            else: h.batch([gen(rng, h, mix, ttls) for _ in range(rng.randint(2, 5))])
        h.finish(); h.listing()
        out += h.export()
        for k in h.keys: h.issue("del", k)
        h.finish()
    srv.stop()
    return out
def sweep_job(j):
    """hundreds of entries expire at once and are written again while cleanup runs"""
    rng = random.Random(j["seed"])
    srv = Server(env=KD.env(STORE_CLEANUP_INTERVAL_SECS=1), chaos=j.get("chaos", 0), chaos_us=100, seed=rng.randrange(1 << 30)).start()
    KD.DEFTTL = 4
    run = SRun(srv, rng, 4); out = []
    for rnd in range(j["rounds"]):
        keys = ["s%d" % x for x in range(j.get("keys", 150))]
        h = run.hist("sweep-%d-%d" % (j["n"], rnd), keys, prefix="r%d/" % rnd)
        for k in keys: h.issue("set", k, ttl=1)
        h.finish()
        again = rng.sample(keys, len(keys) * 2 // 3)
        cut = rng.randint(0, len(again))
        for k in again[:cut]: h.issue("set", k, ttl=rng.choice([1, 100]))
        if rng.random() < .5:
            for c in run.conns: c.flush()
        srv.set_time(srv.vnow + rng.choice([1001, 1001, 1500, 2000])); h.rec.time(run.now)
        if rng.random() < .5: time.sleep(rng.random() * .003)
        for k in again[cut:]: h.issue("set", k, ttl=100)
        if rng.random() < .5:
            for k in rng.sample(keys, len(keys) // 2): h.issue("get", k)
        h.finish(); srv.settle()
        h.batch([("get", k, {}) for k in keys])
        run.advance(1200, h); h.batch([("get", k, {}) for k in keys])
        out += h.export(perkey=True)
        for k in keys: h.issue("del", k)
        h.finish()
    srv.stop()
    return out
def k02(ctx):
    ctx.model("store", "StoreMC", mc(MaxOps=3, MaxNow=ctx.pick(3, 4)))
    def cfg(**k):
        d = dict(MaxSet=3, MaxNow=4, SweepMode='"atomic"', GetMode='"keeps"', TTL=1); d.update(k)
        return "SPECIFICATION Spec\nINVARIANT Inv_Lives\nCHECK_DEADLOCK FALSE\nCONSTANTS %s\n" % " ".join("%s=%s" % x for x in d.items())
    ctx.model("cleanup against fresh writes", "StoreSweep", cfg())
    ctx.model("cleanup in two steps", "StoreSweep", cfg(SweepMode='"two_steps"'), expect="Inv_Lives is violated")
    ctx.model("reads that remove, in two steps", "StoreSweep", cfg(GetMode='"two_steps"'), expect="Inv_Lives is violated")
    walk_check(ctx, MaxOps=3, MaxNow=3, Keys='{"k1"}')
    ctx.run(ttl_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, secs=ctx.pick(9, 240), chaos=[0, 3000, 30000][i % 3]) for i in range(6)])
    ctx.run(sweep_job, [dict(seed=ctx.rng.randrange(1 << 30), n=i, rounds=ctx.pick(3, 40), chaos=[0, 5000, 50000][i % 3]) for i in range(3)])

CHECKS = dict(K01=k01, K02=k02)
