"""Driver for pub/sub: runs operations on the real server and records histories for PubSubTrace."""
import random, time
from nexo import *
from trace import Rec
from queuedrv import jsonval, Mix

FLUSH = 100
DEFTTL = 7
MAXLEVELS = 1024
def env(**k): return dict(dict(PUBSUB_RETAINED_FLUSH_MS=FLUSH, PUBSUB_DEFAULT_RETAINED_TTL_SECS=DEFTTL, PUBSUB_CLEANUP_INTERVAL_SECS=3), **k)

class Client:
    def __init__(self, name, conn):
        self.name, self.conn = name, conn
        self.subs = set(); self.taken = 0; self.gone = False

class Pend:
    __slots__ = ("cl", "o", "req", "h")

class Hist:
    """one history: some clients and topics nobody else touches"""
    def __init__(self, run, tname, prefix="", alone=True):
        self.run = run; self.rec = Rec(tname, run.now)
        self.prefix = prefix; self.alone = alone
        self.clients = []; self.tok = {}; self.pay = {}; self.cnt = 0; self.open = []; self.nc = 0
        self.slow = set()
    def name(self, p): return self.prefix + p
    def client(self):
        self.nc += 1
        c = Client("c%d" % self.nc, self.run.srv.conn()); self.clients.append(c)
        if c.conn.do(0x00, b"hi") != (DATA, b"hi"): raise Violation("echo not answered on a new connection")
        return c
    def live(self): return [c for c in self.clients if not c.gone]
    def payload(self, rng, big=0):
        self.cnt += 1; t = "m%d" % self.cnt
        u = "%s-%s-%d" % (self.rec.name, t, rng.randrange(10**6))
        f = rng.randrange(5)
        if f == 0: p = b"\0" + bytes(rng.randrange(256) for _ in range(12)) + u.encode()
        elif f == 1: p = b"\1" + (u + "é").encode()
        elif f == 2: p = u.encode()
        elif f == 3: p = b"\2" + json.dumps({"k": u}).encode()
        else: p = b"\1" + u.encode() + b"z" * rng.choice([0, 50, 3000])
        if big: p += (b" " if f == 3 else b"B") * big
        self.tok[p] = t; self.pay[t] = p
        return t, p
    def token(self, b):
        if b == b"": return "empty"
        return self.tok.get(b, "CORRUPT:" + b[:40].hex())
    def valtoken(self, v):
        if v is None: return ""
        for p, t in self.tok.items():
            if jsonval(p) == v: return t
        return "UNKNOWN-LISTED:" + str(v)[:40]
    # ---- operations
    def issue(self, cl, k, t=None, **a):
        rng = self.run.rng; rec = self.rec; rec.time(self.run.now)
        p = Pend(); p.cl, p.h = cl, self
        full = None if t is None else self.name(t)
        lv = None if t is None else full.split("/")
        good = t is None or len(lv) <= MAXLEVELS
        rl = lv if good else ["TOO", "DEEP"]
        if k == "sub":
            o = rec.call(k, cl=cl.name, p=rl, good=good); w = W.sub(full)
            if good: cl.subs.add(t)
        elif k == "unsub":
            o = rec.call(k, cl=cl.name, p=rl, good=good); w = W.unsub(full); cl.subs.discard(t)
        elif k == "pub":
            r = a.get("ret", False); ttl = a.get("ttl")
            if a.get("empty"): m, pl = "empty", b""
            else: m, pl = self.payload(rng, a.get("big", 0))
            o = rec.call(k, cl=cl.name, t=rl, m=m, ret=r, empty=pl == b"", ttl=DEFTTL if ttl is None else min(ttl, 2000000), good=good)
            w = W.pub(full, pl, r if (r or rng.random() < .5) else None, ttl)
        p.o = o; p.req = cl.conn.queue(*w); self.open.append(p)
        return p
    def collect(self, dead_ok=False):
        for p in list(self.open):
            if p.req.resp is not None:
                self.open.remove(p); st, b = p.req.resp
                if st not in (OK, ERR): raise Violation("status %d answers %s" % (st, p.o["k"]))
                self.rec.ret(p.o, ok=st == OK)
            elif p.cl.conn.closed and not dead_ok and not p.cl.gone:
                raise Violation("connection lost while a request was outstanding\n" + self.run.srv.stderr_tail())
    def finish(self, ps, timeout=60):
        for c in self.live(): c.conn.flush()
        conns = [c.conn for c in self.live() if c.name not in self.slow]
        def pred(): self.collect(); return all(p.req.resp is not None for p in ps)
        if not pump_all(conns, pred, timeout):
            self.collect(); bad = [p.o for p in ps if p.req.resp is None]
            if bad: raise Violation("no response within %ss to %s" % (timeout, bad[:3]))
    def do(self, cl, k, t=None, **a):
        p = self.issue(cl, k, t, **a); self.finish([p]); return p.o
    def batch(self, items):
        ps = [self.issue(c, k, t, **a) for c, k, t, a in items]; self.finish(ps); return ps
    def time(self): self.rec.time(self.run.now)
    def record_quiet(self):
        self.time()
        for c in self.live():
            if c.conn.extra: raise Violation("protocol anomaly: %r" % (c.conn.extra[:2],))
        self.rec.one("quiet", n=[dict(c=c.name, n=len(c.conn.pushes)) for c in self.live()])
    def close(self, cl, how="close", sudden=False):
        """the client goes away, possibly with requests outstanding"""
        if not sudden:
            self.run.quiesce([self])
        cl.conn.flush(); cl.conn.pump(); self.collect(dead_ok=True)
        self.time()
        o = self.rec.call("gone", cl=cl.name)
        cl.gone = True
        cl.conn.pump(); self.collect(dead_ok=True)
        before = self.run.active()
        getattr(cl.conn, how)()
        self.lose(cl)
        self.run.wait_gone(self)
        self.collect()
        for p in [o2 for o2 in self.rec.ops if o2["r"] is None and o2["k"].startswith("lost") and o2["cl"] == cl.name]: self.rec.lost(p)
        self.rec.ret(o); self.rec.step()
    def lose(self, cl):
        for p in list(self.open):
            if p.cl is cl:
                self.open.remove(p)
                p.o["k"] = "lost" + p.o["k"]
    def listing(self, page=None, search=None):
        """the inspection API; only while nothing else runs"""
        run = self.run
        search = search or (self.prefix or None)
        items, wild, off = [], None, 0; total = None; act = -1
        while True:
            q = {}
            if search: q["search"] = search
            if page: q["limit"] = page
            else: q["limit"] = 500
            q["offset"] = off
            r = run.srv.jget("/api/pubsub", **q)
            if r is None: raise Violation("GET /api/pubsub failed")
            tot = r["total_topics"]
            if total is not None and tot != total: raise Violation("total changed between pages of a quiescent listing")
            total = tot; act = r["active_clients"]
            if r["topics"] and len(r["topics"]) > q["limit"]: raise Violation("a page is longer than its limit")
            items += r["topics"]
            w = r["wildcards"]["multi_level"] + r["wildcards"]["single_level"]
            for x in r["wildcards"]["multi_level"]:
                if "#" not in x["pattern"]: raise Violation("multi-level listing of %r" % x)
            for x in r["wildcards"]["single_level"]:
                if "#" in x["pattern"] or "+" not in x["pattern"]: raise Violation("single-level listing of %r" % x)
            wild = w
            off += q["limit"]
            if off >= total: break
        # (a literal level like "a+" may be listed as well)
        wl = [dict(c=x["client_id"], p=x["pattern"].split("/")) for x in wild if iswild(x["pattern"])]
        self.rec.one("list", items=[dict(t=x["full_path"].split("/"), n=x["subscribers"], m=self.valtoken(x["retained_value"])) for x in items],
                     total=total, wild=wl, active=act if self.alone else -1, conn=[c.name for c in self.live()])
    def export(self):
        for o in self.rec.ops:
            if o["r"] is None: raise ToolError("open op %s" % o)
        t = self.rec.export()
        t["clients"] = [c.name for c in self.clients]
        t["leavers"] = [c.name for c in self.clients if c.gone]
        t["rx"] = {c.name: [dict(m=self.token(d), t=tp.decode(errors="replace").split("/")) for tp, d in c.conn.pushes] for c in self.clients}
        # 'c' is the call step in a history; the client is 'cl' there and 'c' in the specification
        return t

def iswild(p): return any(x in ("+", "#") for x in p.split("/"))

class PRun:
    def __init__(self, srv, rng): self.srv, self.rng, self.hists = srv, rng, []
    @property
    def now(self): return self.srv.vnow
    def hist(self, tname, prefix="", alone=True):
        h = Hist(self, tname, prefix, alone); self.hists.append(h); return h
    def conns(self): return [c.conn for h in self.hists for c in h.live()]
    def active(self):
        r = self.srv.jget("/api/pubsub", limit=1)
        return r["active_clients"]
    def wait_gone(self, h, limit=10):
        """until the server has forgotten clients that went away"""
        want = sum(len(x.live()) for x in self.hists)
        end = time.monotonic() + limit
        while time.monotonic() < end:
            for c in self.conns(): c.pump()
            if self.active() <= want: break
            time.sleep(.002)
        else: raise Violation("a connection that ended is still registered after %d s" % limit)
        self.quiesce(self.hists)
    def quiesce(self, hs=None, limit=20):
        """everything the server has to send has arrived"""
        srv = self.srv; srv.ctl.set("ppm", 0)
        if srv.chaos[0]: time.sleep(srv.chaos[1] / 1e6 + .001)
        end = time.monotonic() + limit; calm = 0
        cs = [c.conn for h in (hs or self.hists) for c in h.live() if c.name not in h.slow]
        while calm < 2 and time.monotonic() < end:
            srv.settle(2)
            got = False
            for c in cs: got |= c.pump()
            calm = 0 if got else calm + 1
        for h in (hs or self.hists): h.collect()
        srv.ctl.set("ppm", srv.chaos[0])
    def quiet(self, hs=None):
        hs = hs or self.hists
        self.quiesce(hs)
        for h in hs: h.record_quiet()
    def advance(self, ms, limit=2.0):
        self.srv.advance(ms, limit=limit)
        for h in self.hists: h.time()
    def flushed(self):
        for _ in range(3): self.advance(FLUSH + 20, limit=20)
        time.sleep(.02); self.srv.settle(limit=20)
        for h in self.hists: h.time(); h.rec.one("flush")
    def restart(self, h, down=0, already_dead=False, got_limit=10):
        """the server dies and comes back: what does it still retain?"""
        for c in h.live(): c.conn.pump()
        h.collect(dead_ok=True)
        if not already_dead: self.srv.kill()
        old = self.down(h)
        if down: self.srv.set_time(self.srv.vnow + down)
        self.srv.start()
        return self.back(h, old)
    def down(self, h):
        """the server has ended"""
        for c in h.live(): c.conn.pump()
        h.collect(dead_ok=True)
        old = [c.name for c in h.live()]
        for c in h.live(): c.conn.close(); h.lose(c); c.gone = True
        for o in h.rec.ops:
            if o["r"] is None: h.rec.lost(o)
        return old
    def back(self, h, old):
        h.time()
        obs = h.client(); r = obs.conn.call(*W.sub("#"))
        if not obs.conn.wait(r) or r.resp[0] != OK: raise Violation("subscribe failed after a restart")
        self.quiesce([h])
        got = [dict(t=tp.decode(errors="replace").split("/"), m=h.token(d)) for tp, d in obs.conn.pushes]
        h.rec.one("crash", got=got, old=old)
        obs.subs.add("#")
        h.rec.one("sub", cl=obs.name, p=["#"], good=True, ok=True)
        h.record_quiet()
        return obs
    def reset(self, h):
        """leave a clean broker for the next history"""
        topics = sorted({tuple(o["t"]) for o in h.rec.ops if o["k"] in ("pub", "lostpub") and o["ret"] and o["good"]})
        self.hists.remove(h)
        if topics:
            c = self.srv.conn()
            rs = [c.call(*W.pub("/".join(t), b"", True)) for t in topics]
            if not c.wait(*rs): raise Violation("clearing retained values was not answered")
            c.close()
        for cl in h.live(): cl.conn.close(); cl.gone = True
        self.wait_gone(None)
