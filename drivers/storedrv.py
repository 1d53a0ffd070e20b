"""Driver for the key-value store: runs operations on the real server and records histories for StoreTrace."""
import datetime, random, time
from nexo import *
from trace import Rec
from queuedrv import jsonval, Mix

DEFTTL = 4
CAP = 1000000
def env(**k): return dict(dict(STORE_TTL_SECS=DEFTTL, STORE_CLEANUP_INTERVAL_SECS=2), **k)
KEYS = ["a", "b", "ab", "A", "", " ", "a b", "é☃", "a/b", "../a", "a\0b", "\n", "a*", "%61", "key" * 80, "a" * 5000, "0", "null", '"a"', "{}", "a\\", "ä", "a\u0308", "\U0001F600"]

class Pend:
    __slots__ = ("o", "req", "conn")

class Hist:
    def __init__(self, run, tname, keys, prefix=""):
        self.run, self.rec = run, Rec(tname, run.now); self.prefix = prefix
        self.keys = list(keys); self.tok = {}; self.cnt = 0; self.open = []; self.searches = 0
    def kid(self, k): return "k%d" % self.keys.index(k)
    def value(self, rng):
        self.cnt += 1; t = "v%d" % self.cnt
        u = "%s-%s-%d" % (self.rec.name, t, rng.randrange(10**6))
        f = rng.randrange(6)
        if f == 0: p = b"\0" + bytes(rng.randrange(256) for _ in range(12)) + u.encode()
        elif f == 1: p = b"\1" + (u + "é").encode()
        elif f == 2: p = u.encode()
        elif f == 3: p = b"\2" + json.dumps({"k": u, "n": [1, None]}).encode()
        elif f == 4: p = b"\1" + u.encode() + b"z" * rng.choice([0, 50, 3000, 70000])
        else: p = bytes(rng.randrange(256) for _ in range(rng.randint(1, 40))) + u.encode()
        self.tok[p] = t
        return t, p
    def token(self, b): return "empty" if b == b"" else self.tok.get(b, "CORRUPT:" + b[:40].hex())
    def valtoken(self, v):
        if v is None: return "empty"
        for p, t in self.tok.items():
            try: j = jsonval(p)
            except Exception: j = p.decode(errors="replace") if p[0] != 2 else p[1:].decode(errors="replace")
            if j == v: return t
        return "UNKNOWN-LISTED:" + str(v)[:60]
    def issue(self, k, key, conn=None, **a):
        run = self.run; rng = run.rng; rec = self.rec; rec.time(run.now)
        p = Pend(); p.conn = conn or rng.choice([c for c in run.conns if not c.closed]); full = self.prefix + key
        if k == "set":
            ttl = a.get("ttl"); v, pl = ("empty", b"") if a.get("empty") else self.value(rng)
            bad = a.get("bad")
            o = rec.call(k, key=self.kid(key), v=v, ttl=1000 * (DEFTTL if not ttl else min(ttl, CAP)), good=not bad)
            w = (0x02, s_(full) + s_(bad) + pl) if bad else W.set(full, pl, ttl) if rng.random() < .8 or ttl is not None else (0x02, s_(full) + s_('{"ttl":null}') + pl)
        elif k == "get": o = rec.call(k, key=self.kid(key)); w = W.get(full)
        else: o = rec.call("del", key=self.kid(key)); w = W.dele(full)
        p.o = o; p.req = p.conn.queue(*w); self.open.append(p)
        return p
    def collect(self):
        for p in list(self.open):
            if p.req.resp is not None:
                self.open.remove(p); st, b = p.req.resp; k = p.o["k"]
                if k == "get":
                    if st not in (DATA, NULL): raise Violation("status %d answers a get" % st)
                    self.rec.ret(p.o, v=self.token(b) if st == DATA else "absent")
                else:
                    if st not in (OK, ERR) or (st == ERR and k == "del"): raise Violation("status %d answers a %s" % (st, k))
                    self.rec.ret(p.o, ok=st == OK)
            elif p.conn.closed: raise Violation("connection lost while a request was outstanding\n" + self.run.srv.stderr_tail())
    def finish(self, timeout=60):
        run = self.run; cs = [c for c in run.conns if not c.closed]
        for c in cs: c.flush()
        def pred(): self.collect(); return not self.open
        if not pump_all(cs, pred, timeout):
            raise Violation("no response within %ss to %s" % (timeout, [p.o for p in self.open][:3]))
        for c in cs:
            if c.extra: raise Violation("protocol anomaly: %r" % (c.extra[:2],))
    def batch(self, items):
        for k, key, a in items: self.issue(k, key, **a)
        self.finish()
    def lose(self, conn):
        """the connection ends while requests may be outstanding"""
        conn.flush(); conn.pump(); self.collect()
        for p in list(self.open):
            if p.conn is conn:
                self.open.remove(p)
                if p.o["k"] == "get" or not p.o.get("good", True): self.rec.drop(p.o)
                else: p.o["k"] = "lost" + p.o["k"]; self.lost.append(p.o)
        conn.reset() if self.run.rng.random() < .5 else conn.close()
    lost = ()
    def drop_conn(self, conn):
        self.lost = []
        self.lose(conn)
        self.run.srv.settle(2)
        for o in self.lost: self.rec.lost(o)
        self.rec.step(); self.lost = []
        i = self.run.conns.index(conn); self.run.conns[i] = self.run.srv.conn()
    def listing(self, limit=None, search=None):
        """the inspection API; only while nothing else runs"""
        run = self.run; self.rec.time(run.now)
        q = {}; items, pages, off = [], [], 0; total = None
        s = self.prefix + (search or "")
        if s: q["search"] = s
        lim = limit or 500
        if limit: q["limit"] = limit
        while True:
            r = run.srv.jget("/api/store", offset=off, **q)
            if r is None: raise Violation("GET /api/store failed")
            if r["offset"] != off or r["limit"] != lim: raise Violation("store listing of offset %d limit %d says %d, %d" % (off, lim, r["offset"], r["limit"]))
            if total is not None and r["total"] != total: raise Violation("total changed between pages of a quiescent listing")
            total = r["total"]; items += r["keys"]; pages.append(len(r["keys"])); off += lim
            if off >= total: break
        far = run.srv.jget("/api/store", offset=run.rng.choice([total, total + 1, 2**40]), **q)
        if far is None or far["keys"] or far["total"] != total: raise Violation("a page beyond the end shows entries")
        it = []
        for e in items:
            k = e["key"]
            if not k.startswith(self.prefix) or k[len(self.prefix):] not in self.keys: it.append(dict(k="STRANGE:" + k[:60], v="", end=-1)); continue
            end = -1
            if e["exp_at"] != "Never":
                d = (datetime.datetime.fromisoformat(e["exp_at"]) - datetime.datetime(1970, 1, 1, tzinfo=datetime.timezone.utc))
                end = (d.days * 86400 + d.seconds) * 1000 + d.microseconds // 1000 - REAL_BASE_MS
                if end >= 10**9: end = -1
            it.append(dict(k=self.kid(k[len(self.prefix):]), v=self.valtoken(e["value"]), end=end))
        self.rec.one("list", items=it, keys=[self.kid(k) for k in self.keys if s in self.prefix + k], total=total, pages=pages, limit=lim)
    def export(self, perkey=False):
        for o in self.rec.ops:
            if o["r"] is None: raise ToolError("open op %s" % o)
        if not perkey: return [("StoreTrace", self.rec.export())]
        out = []
        for i, k in enumerate(self.keys):
            kk = "k%d" % i
            ops = [dict(o) for o in self.rec.ops if o.get("key", kk) == kk]
            if len([o for o in ops if "key" in o]) == 0: continue
            out.append(("StoreTrace", project(self.rec, ops, "/" + kk)))
        return out

def project(rec, ops, suffix):
    """the history of some operations on their own: the steps in which one of them begins or ends"""
    used = sorted({o["c"] for o in ops} | {o["r"] for o in ops}); m = {s: i + 1 for i, s in enumerate(used)}
    r = Rec(rec.name + suffix); r.nows = [rec.nows[s - 1] for s in used]
    r.ops = [dict(o, c=m[o["c"]], r=m[o["r"]]) for o in ops]
    return r.export()

class SRun:
    def __init__(self, srv, rng, conns=4):
        self.srv, self.rng = srv, rng; self.conns = [srv.conn() for _ in range(conns)]
    @property
    def now(self): return self.srv.vnow
    def hist(self, tname, keys, prefix=""): return Hist(self, tname, keys, prefix)
    def advance(self, ms, *hs):
        self.srv.advance(ms)
        for h in hs: h.rec.time(self.now)
    def restart(self, h):
        self.srv.kill(); self.srv.start(); self.conns = [self.srv.conn() for _ in self.conns]
        h.rec.time(self.now); h.rec.one("restart")
