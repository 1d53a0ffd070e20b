"""Driver for stream topics: runs operations on the real server and records histories for StreamTrace."""
import random, time, uuid as _uuid
from nexo import *
from trace import Rec
from queuedrv import jsonval, Mix, swarm

FLUSH = 50
SLACK = 250            # redelivery is looked for every 100 ms
DEF_AGE, DEF_MAX = 7 * 86400_000, 1 << 30

class Member:
    __slots__ = ("g", "cid", "gen", "conn", "got", "gone")
    def __init__(self, g, cid, gen, conn): self.g, self.cid, self.gen, self.conn, self.got, self.gone = g, cid, gen, conn, {}, False

class Topic:
    def __init__(self, name, tname, now, cfg, durable):
        self.name = name
        self.rec = Rec(tname, now, durable, aw=cfg["aw"], md=cfg["md"], mp=cfg["mp"], seg=cfg["seg"], base=REAL_BASE_MS, slack=SLACK,
                       retain=cfg.get("retain", False), dage=DEF_AGE, dmax=DEF_MAX)
        self.cfg = cfg
        self.tok = {}; self.pay = {}; self.at = {}      # payload -> token, token -> payload, token -> (seq, ts)
        self.open = []; self.cnt = 0
        self.members = []
        self.due = {}        # (group, seq) -> latest deadline handed out, driver's estimate
        self.vague = {}      # group -> until when somebody may hold messages the driver knows nothing of
        self.holder = {}     # who was given it last
        self.disc = []       # disconnects not yet confirmed
        self.linger = []     # abandoned creations and deletions
        self.ever = False; self.sw = {}
    def new_payload(self, rng, size=None):
        self.cnt += 1; t = "m%d" % self.cnt
        u = "%s-%s-%d" % (self.rec.name, t, rng.randrange(10**6))
        form = rng.randrange(5)
        if form == 0: p = b"\0" + u.encode() + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 20])))
        elif form == 1: p = b"\1" + (u + "é☃").encode()
        elif form == 2: p = u.encode()
        elif form == 3: p = b"\2" + json.dumps({"k": u}).encode()
        else: p = b"\1" + u.encode() + b"z" * rng.choice([0, 10, 100])
        if size: p += b"z" * size if form != 3 else b" " * size
        if self.cnt == 4 and rng.random() < .3: p = b""
        self.tok[p] = t; self.pay[t] = p
        return t, p
    gname = {}              # group as recorded -> its name on the wire
    def token(self, p): return self.tok.get(p) or "CORRUPT:" + p[:40].hex()
    def httptok(self, val):
        for p, t in self.tok.items():
            if jsonval(p) == val: return t
        return "UNKNOWN-LISTED:" + str(val)[:40]

class Pend:
    __slots__ = ("t", "o", "req", "conn", "parse", "mem")

class SRun:
    def __init__(self, srv, rng, cfg, conns=4):
        self.srv, self.rng, self.cfg = srv, rng, cfg
        self.topics = []; self.nconns = conns; self.connid = 0
        self.conns = [self.newconn() for _ in range(conns)]
    @property
    def now(self): return self.srv.vnow
    def newconn(self):
        c = self.srv.conn(); self.connid += 1; c.name = "c%d" % self.connid; return c
    def add(self, name, tname=None, durable=False):
        t = Topic(name, tname or name, self.now, self.cfg, durable); self.topics.append(t); t.sw = swarm(self.rng); return t
    # ---- issue
    def issue(self, t, k, conn=None, mem=None, **a):
        rng, rec = self.rng, t.rec; rec.time(self.now)
        c = conn if conn is not None else (mem.conn if mem is not None and not mem.conn.closed and rng.random() < .9 else rng.choice(self.conns))
        p = Pend(); p.t, p.conn, p.mem = t, c, mem; parse = self._ok
        if k == "create":
            age, mx = a.get("age"), a.get("max")
            o = rec.call(k, age=DEF_AGE if age is None else age, max=DEF_MAX if mx is None else mx); w = W.screate(t.name, age, mx)
        elif k == "delete": o = rec.call(k); w = W.sdelete(t.name)
        elif k == "exists": o = rec.call(k); w = W.sexists(t.name); parse = self._b
        elif k == "pub":
            m, pl = t.new_payload(rng, a.get("size")); o = rec.call(k, m=m, z=24 + len(pl)); w = W.spub(t.name, pl); parse = self._pub
        elif k == "join": o = rec.call(k, g=a["g"], conn=c.name); w = W.sjoin(t.name, t.gname.get(a["g"], a["g"])); parse = self._join
        elif k == "fetch":
            o = rec.call(k, g=mem.g, cid=mem.cid, gen=mem.gen, n=a.get("n", 1), w=a.get("w", 0)); w = W.sfetch(t.name, t.gname.get(mem.g, mem.g), mem.cid, mem.gen, o["n"], o["w"]); parse = self._fetch
        elif k == "ack":
            o = rec.call(k, g=mem.g, cid=mem.cid, gen=mem.gen, s=a["s"]); w = W.sack(t.name, t.gname.get(mem.g, mem.g), mem.cid, mem.gen, a["s"])
            mem.got.pop(a["s"], None)
        elif k == "leave": o = rec.call(k, g=mem.g, cid=mem.cid, gen=mem.gen); w = W.sleave(t.name, t.gname.get(mem.g, mem.g), mem.cid, mem.gen)
        elif k == "seek": o = rec.call(k, g=a["g"], to=a["to"]); w = W.sseek(t.name, t.gname.get(a["g"], a["g"]), a["to"])
        else: raise AssertionError(k)
        p.o, p.parse = o, parse
        p.req = c.queue(*w); t.open.append(p)
        return p
    def _ok(self, p, st, b):
        if st not in (OK, ERR): raise ValueError("status %d" % st)
        if p.o["k"] == "leave" and st == OK and p.mem: p.mem.gone = True
        return dict(ok=st == OK)
    def _b(self, p, st, b):
        if st not in (OK, ERR): raise ValueError("status %d" % st)
        return dict(b=st == OK)
    def _pub(self, p, st, b):
        if st == ERR: return dict(ok=False, seq=0)
        c = Cur(b); s = c.u64(); c.end(); return dict(ok=True, seq=s)
    def _join(self, p, st, b):
        if st == ERR: return dict(ok=False, fl=0, gen=0, cid="")
        c = Cur(b); fl = c.u64(); gen = c.u64(); cid = c.s().decode(); c.end()
        m = Member(p.o["g"], cid, gen, p.conn); p.t.members.append(m)
        return dict(ok=True, fl=fl, gen=gen, cid=cid)
    def _fetch(self, p, st, b):
        if st == ERR: return dict(ok=False, list=[])
        c = Cur(b); n = c.u32(); l = []
        for _ in range(n):
            s = c.u64(); ts = c.u64(); m = p.t.token(c.s()); l.append(dict(s=s, m=m, ts=ts))
            p.mem.got[s] = self.now; p.t.due[(p.mem.g, s)] = self.now + self.cfg["aw"]; p.t.holder[(p.mem.g, s)] = p.mem
        c.end()
        return dict(ok=True, list=l)
    # ---- completion
    def collect(self, dead_ok=False):
        for t in self.topics:
            for p in list(t.open):
                if p.req.resp is not None:
                    t.open.remove(p); st, b = p.req.resp
                    try: r = p.parse(p, st, b)
                    except (ValueError, struct.error, IndexError) as e:
                        raise Violation("undecodable response to %s: %s %r" % (p.o["k"], e, b[:200]))
                    t.rec.ret(p.o, **r)
                elif p.conn.closed and not dead_ok:
                    raise Violation("connection lost while a request was outstanding (server died?)\n" + self.srv.stderr_tail())
    def finish(self, ps, timeout=60):
        for c in self.conns: c.flush()
        def pred():
            self.collect(); return all(p.req.resp is not None for p in ps)
        if not pump_all(self.conns, pred, timeout):
            self.collect()
            bad = [p.o for p in ps if p.req.resp is None]
            if bad: raise Violation("no response within %ss to %s" % (timeout, bad[:3]))
    def do(self, t, k, **a):
        p = self.issue(t, k, **a); self.finish([p]); return p.o
    def batch(self, items):
        ps = [self.issue(t, k, **a) for t, k, a in items]
        self.finish([p for p in ps if not (p.o["k"] == "fetch" and p.o["w"] > 0)])
        return ps
    def poll(self):
        for c in self.conns: c.pump()
        self.collect()
    def advance(self, ms, limit=2.0):
        self.poll(); self.srv.advance(ms, limit=limit)
        for t in self.topics: t.rec.time(self.now)
        self.poll()
    # ---- observation
    def snapshot(self, t):
        r = self.srv.jget("/api/stream")
        x = [y for y in r["topics"] if y["name"] == t.name]
        if len(x) > 1: raise Violation("topic %r listed twice" % t.name)
        if x and t.gname:
            rev = {v: k for k, v in t.gname.items()}
            for g in x[0]["groups"]: g["id"] = rev.get(g["id"], "STRANGE:" + g["id"][:60])
        return x[0] if x else None
    def inspect(self, t, full=False, page=None, read=True, snap=True):
        rec = t.rec; rec.time(self.now)
        if snap:
            o = rec.call("snap"); x = self.snapshot(t)
            if x is None: rec.ret(o, ok=False, last=0, age=0, max=0, groups=[])
            else:
                rt = x["config"]["retention"]
                rec.ret(o, ok=True, last=x["last_seq"], age=rt["maxAgeMs"] or 0, max=rt["maxBytes"] or 0,
                        groups=[dict(id=g["id"], fl=g["ack_floor"], np=g["pending_count"]) for g in x["groups"]])
        if read:
            frm = 1
            for _ in range(60):
                o = rec.call("read", n=page or 500, **{"from": frm})
                r = self.srv.jget("/api/stream/%s/messages" % urllib.parse.quote(t.name, safe=""), **{"from": frm, "limit": page or 500})
                if r is None: rec.ret(o, ok=False, list=[], full=full); break
                ms = list(reversed(r["messages"]))
                rec.ret(o, ok=True, full=full, list=[dict(s=m["seq"], ts=rfc_ms(m["timestamp"]), m=t.httptok(m["payload"])) for m in ms])
                if not ms or ms[-1]["seq"] >= r["last_seq"]: break
                frm = ms[-1]["seq"] + 1
    def quiet(self, *ts, limit=10.0):
        """give the server ample time to release leases, notice gone clients and wake waiters, then say so"""
        end = time.monotonic() + limit
        while True:
            self.poll()
            bad = False; snap = None
            for t in ts:
                if not (any(d + SLACK < self.now for d in t.due.values()) or t.disc): continue
                live = {}
                for (g, s), d in t.due.items():
                    if d + SLACK >= self.now and t.holder[(g, s)].gone is not True: live[g] = live.get(g, 0) + 1
                if snap is None: snap = {x["name"]: x for x in self.srv.jget("/api/stream")["topics"]}
                rev = {v: k for k, v in t.gname.items()}
                for g in snap.get(t.name, dict(groups=[]))["groups"]:
                    g = dict(g, id=rev.get(g["id"], g["id"]))
                    if self.now > t.vague.get(g["id"], -1) and g["pending_count"] > live.get(g["id"], 0): bad = True
            late = [p for t in ts for p in t.open if p.o["k"] == "fetch" and p.o["w"] and self.now >= t.rec.nows[p.o["c"] - 1] + p.o["w"]]
            if not (bad or late) or time.monotonic() > end: break
            self.srv.settle()
        if late: raise Violation("a waiting fetch did not return although its wait time has passed: %s" % late[0].o)
        self.poll(); self.srv.settle(); self.poll()
        # waiters that a recent event must have woken get real time to answer
        if any(p.o["k"] == "fetch" for t in ts for p in t.open):
            e2 = time.monotonic() + .02
            while time.monotonic() < e2: self.srv.settle(); self.poll()
        for t in ts:
            t.due = {k: d for k, d in t.due.items() if d + SLACK >= self.now}
            t.rec.time(self.now)
            for o in t.disc: t.rec.ret(o)
            t.disc = []
            t.rec.one("quiet")
    def flushed(self, save=True):
        f = self.cfg.get("flush", FLUSH)
        for _ in range(3): self.advance(f + 30, limit=20)
        if save:
            for _ in range(2): self.advance(f * 10 + 60, limit=20)
            self.advance(f + 30, limit=20)
        time.sleep(0.03); self.srv.settle(limit=20); self.poll()
        for t in self.topics:
            t.rec.time(self.now); t.rec.one("flush")
            if save: t.rec.one("save")
    # ---- connections and crashes
    KEEP = ("pub", "ack", "leave", "seek", "create", "delete", "join", "fetch")
    def _lose(self, t, conn=None):
        for p in [p for p in t.open if conn is None or p.conn is conn]:
            t.open.remove(p); o = p.o
            if o["k"] == "fetch" and p.mem and p.mem.conn is not conn: t.vague[p.mem.g] = self.now + self.cfg["aw"] + SLACK
            if o["k"] in self.KEEP:
                o["w_"], o["k"] = o["k"], "reqlost"
                # creation and deletion may still be going on; they end at the latest with the process
                if conn is not None and o["w_"] in ("create", "delete"): t.linger.append(o)
                else: t.rec.lost(o)
            else: t.rec.drop(o)
    def lose_open(self):
        for c in self.conns: c.pump()
        self.collect(dead_ok=True)
        for t in self.topics:
            for o in t.linger: t.rec.lost(o)
            t.linger = []; self._lose(t)
            for o in [o for o in t.rec.ops if o["r"] is None]: t.rec.drop(o)
            t.disc = []
    def disconnect(self, conn, how=None, ts=None, settle=True):
        """the client goes away; its members leave soon, its open requests take effect or not"""
        conn.flush()
        if self.rng.random() < .5: time.sleep(self.rng.random() * .004)
        ts = self.topics if ts is None else ts
        for t in ts:
            t.rec.time(self.now)
        conn.pump(); self.collect(dead_ok=True)
        for t in ts:
            o = t.rec.call("disc", conn=conn.name); t.disc.append(o)
        how = how or self.rng.choice(["close", "reset"])
        end_conn(conn, how, self.srv.settle)
        if settle: self.srv.settle(6)
        for t in ts:
            for m in t.members:
                if m.conn is conn: m.gone = True
            self._lose(t, conn)
        if conn in self.conns: self.conns.remove(conn)
    def restart(self, down=0, already_dead=False):
        self.lose_open()
        if not already_dead: self.srv.kill()
        for c in self.conns: c.close()
        if down: self.srv.set_time(self.srv.vnow + down)
        self.srv.start(); self.back()
    def back(self):
        """the server has been started again"""
        for c in self.conns: c.close()
        self.conns = [self.newconn() for _ in range(self.nconns)]
        for t in self.topics:
            t.rec.time(self.now); t.rec.one("crash")
            t.due = {}; t.disc = []
            for m in t.members: m.gone = True
    def export(self, t):
        for o in t.linger: t.rec.lost(o)
        t.linger = []
        ops = t.rec.ops
        disturb = [o for o in ops if o["k"] in ("leave", "disc", "seek", "crash", "delete") or o.get("w_") in ("leave", "seek", "delete")]
        fl = [o for o in ops if o["k"] == "fetch" or o.get("w_") == "fetch"]
        for o in fl:
            over = lambda x: x["c"] <= o["r"] and x["r"] >= o["c"]
            o["early"] = bool(t.cfg.get("retain")) or any(over(x) and x.get("g", o["g"]) == o["g"] for x in disturb)
            o["cold"] = bool(t.cfg.get("cold")) and (any(x is not o and x["g"] == o["g"] and over(x) for x in fl) or o["early"])
            o["mixed"] = bool(t.cfg.get("cold")) and (o["cold"] or o["c"] != o["r"])
        for o in ops:
            if o["k"] == "crash" or o["k"] == "reqlost": o.setdefault("early", True)
        return t.rec.export()

def rfc_ms(s):
    import datetime
    d = datetime.datetime.fromisoformat(s)
    return int(round(d.timestamp() * 1000))

def stream_env(cfg, **k):
    return dict(STREAM_DEFAULT_FLUSH_MS=cfg.get("flush", FLUSH), STREAM_ACK_WAIT_MS=cfg["aw"], STREAM_MAX_DELIVERIES=cfg["md"], STREAM_MAX_ACK_PENDING=cfg["mp"],
                STREAM_MAX_SEGMENT_SIZE=cfg["seg"], STREAM_RAM_SOFT_LIMIT=cfg.get("ram", 1000), STREAM_EVICTION_INTERVAL_MS=cfg.get("evict", 200),
                STREAM_RETENTION_CHECK_MS=cfg.get("rcheck", 600000), **k)

# ------------------------------------------------------------------ random histories
def rand_op(run, t, mix, groups=("g1", "g2"), nmax=4, wait=0):
    rng = run.rng; k = mix.pick(rng, t.sw)
    live = [m for m in t.members if not m.gone and m.conn in run.conns]
    if k == "pub": return (t, k, dict(size=rng.choice([0, 0, 0, 60])))
    if k == "join" or (k in ("fetch", "wfetch", "ack", "leave") and not live): return (t, "join", dict(g=rng.choice(groups)))
    if k in ("fetch", "wfetch"):
        m = rng.choice(live if rng.random() < .93 else t.members)
        return (t, "fetch", dict(mem=m, n=rng.randint(1, nmax), w=0 if k == "fetch" else (wait or rng.choice([300, 2000, 100000]))))
    if k == "ack":
        hold = [m for m in live if m.got]
        m = rng.choice(hold) if hold and rng.random() < .93 else rng.choice(t.members)
        s = rng.choice(sorted(m.got)) if m.got and rng.random() < .93 else rng.randint(0, t.cnt + 1)
        if rng.random() < .05:      # an ack in somebody else's name
            o = rng.choice(live)
            if o.g == m.g: m = o
        return (t, k, dict(mem=m, s=s))
    if k == "leave": return (t, k, dict(mem=rng.choice(live if rng.random() < .8 else t.members)))
    if k == "seek": return (t, k, dict(g=rng.choice(groups), to=rng.randint(0, 1)))
    if k == "create": return (t, k, dict(age=rng.choice([None, 0, 10**9]), max=rng.choice([None, 0, 10**6])))
    return (t, k, {})

def drain(run, t, groups=("g1", "g2"), rounds=40):
    """a fresh member of each group fetches and acknowledges everything there is"""
    for g in groups:
        j = run.do(t, "join", g=g)
        if not j["ok"]: return
        m = t.members[-1]
        for _ in range(rounds):
            o = run.do(t, "fetch", mem=m, n=5)
            if not o["ok"] or not o["list"]: break
            run.batch([(t, "ack", dict(mem=m, s=x["s"])) for x in o["list"]])
