"""Driver for queues: runs operations on the real server and records histories for QueueTrace."""
import random, time, uuid as _uuid
from nexo import *
from trace import Rec

FLUSH = 100
REASONS = ["boom", "", "päng ☃", "x" * 300, "timed_not_out", "a'b\"; DROP TABLE queue;--"]

class Q:
    """One queue as the driver knows it (names things; the specification decides)."""
    def __init__(self, name, tname, now, durable, vt=None, mr=None):
        self.name = name; self.rec = Rec(tname, now, durable)
        self.vt, self.mr = vt, mr
        self.tok = {}       # payload bytes -> token
        self.pay = {}       # token -> payload
        self.uid = {}       # uuid -> token
        self.tid = {}       # token -> uuid
        self.dl = {}        # token -> deadline (driver's estimate)
        self.prio = {}
        self.open = []      # pending requests
        self.cnt = 0
        self.sw = {}; self.prios = None; self.fav = 0     # what this history does more and less of
    def new_payload(self, rng):
        self.cnt += 1
        t = "m%d" % self.cnt
        form = rng.randrange(6)
        u = "%s-%s-%d" % (self.rec.name, t, rng.randrange(10**6))
        if form == 0: p = b"\0" + bytes(rng.randrange(256) for _ in range(rng.choice([0, 1, 30]))) + u.encode()
        elif form == 1: p = b"\1" + (u + "é☃").encode()
        elif form == 2: p = u.encode()
        elif form == 3: p = b"\0" + u.encode() + b"\0" * 5
        elif form == 4: p = b"\1" + u.encode() + b"y" * rng.choice([0, 100, 5000])
        else: p = b"\2" + json.dumps({"k": u}).encode()
        if self.cnt == 3 and rng.random() < 0.3: p = b""
        self.tok[p] = t; self.pay[t] = p
        return t, p
    def token(self, u, p):
        t = self.tok.get(p)
        if t is None: return "CORRUPT:" + p[:40].hex()
        if self.uid.setdefault(u, t) != t or self.tid.setdefault(t, u) != u: return "IDENTITY-CHANGED:" + t
        return t
    def httptok(self, ids, val):
        u = _uuid.UUID(ids).bytes
        t = self.uid.get(u)
        if t is not None:
            return t if jsonval(self.pay[t]) == val else "CORRUPT-LISTING:" + t
        for p, t in self.tok.items():
            if jsonval(p) == val and t not in self.tid:
                self.uid[u] = t; self.tid[t] = u; return t
        return "UNKNOWN-LISTED:" + str(val)[:40]

def jsonval(p):
    if not p: return None
    if p[0] == 0: return "0x" + p[1:].hex()
    if p[0] == 1: return p[1:].decode(errors="replace")
    if p[0] == 2: return json.loads(p[1:])
    return p.decode(errors="replace")

def reason_tok(b):
    s = b.decode(errors="replace") if isinstance(b, bytes) else b
    if s in REASONS: return "r%d" % REASONS.index(s)
    if "timeout" in s.lower(): return "timeout"
    return "OTHER-REASON:" + s[:60]

class Pend:
    __slots__ = ("q", "o", "req", "conn", "parse")

CHANGES = ("push", "ack", "nack", "move", "deldlq", "purge", "create", "delete", "consume")
class QRun:
    def __init__(self, srv, rng, conns=4):
        self.srv, self.rng = srv, rng
        self.queues = []; self.linger = []
        self.nconns = conns
        self.conns = [srv.conn() for _ in range(conns)]
    @property
    def now(self): return self.srv.vnow
    def add(self, name, tname=None, durable=False, **k):
        q = Q(name, tname or name, self.now, durable, **k); self.queues.append(q); q.sw = swarm(self.rng)
        q.prios = self.rng.choice([None, None, (0,), (3, 4), (255, 0)]); q.fav = self.rng.choice([0, 0, .5, .9]); return q
    # ---- issue
    def issue(self, q, k, conn=None, m=None, **a):
        rng = self.rng; rec = q.rec; rec.time(self.now)
        c = conn if conn is not None else rng.choice(self.conns)
        p = Pend(); p.q, p.conn = q, c
        if k == "create":
            vt, mr = a["vt"], a["mr"]; o = rec.call(k, vt=vt, mr=mr); w = W.qcreate(q.name, vt, mr); parse = self._ok
            q.vt = vt
        elif k == "delete": o = rec.call(k); w = W.qdelete(q.name); parse = self._ok
        elif k == "exists": o = rec.call(k); w = W.qexists(q.name); parse = self._b
        elif k == "push":
            t, pl = q.new_payload(rng); pr = a.get("p", 0); q.prio[t] = pr
            o = rec.call(k, m=t, p=pr); w = W.qpush(q.name, pl, pr if (pr or rng.random() < .5) else None); parse = self._ok
        elif k == "consume":
            n, wt = a.get("n", 1), a.get("w", 0)
            o = rec.call(k, n=n, w=wt); w = W.qconsume(q.name, None if (n == 10 and rng.random() < .5) else n, wt if (wt or rng.random() < .5) else None); parse = self._consume
        elif k in ("ack", "nack", "move", "deldlq"):
            if m in q.pay and m not in q.tid: self.learn(q)
            u = q.tid.get(m) or _uuid.uuid4().bytes
            if k == "ack": o = rec.call(k, m=m); w = W.qack(q.name, u); parse = self._b
            elif k == "nack":
                r = a.get("r", rng.randrange(len(REASONS))); o = rec.call(k, m=m, rs="r%d" % r); w = W.qnack(q.name, u, REASONS[r]); parse = self._b
            elif k == "move": o = rec.call(k, m=m); w = W.qmove(q.name, u); parse = self._bool
            else: o = rec.call(k, m=m); w = W.qdeldlq(q.name, u); parse = self._bool
        elif k == "purge": o = rec.call(k); w = W.qpurge(q.name); parse = self._count
        elif k == "peek":
            o = rec.call(k, lim=a.get("lim", 1000), off=a.get("off", 0)); w = W.qpeek(q.name, o["lim"], o["off"]); parse = self._peek
        else: raise AssertionError(k)
        p.o, p.parse = o, parse
        p.req = c.queue(*w)
        q.open.append(p)
        return p
    # ---- responses
    def _ok(self, p, st, b):
        if st not in (OK, ERR): raise ValueError("status %d" % st)
        return dict(ok=st == OK)
    def _b(self, p, st, b):
        if st not in (OK, ERR): raise ValueError("status %d" % st)
        return dict(b=st == OK)
    def _bool(self, p, st, b):
        if st == ERR: return dict(ok=False, b=False)
        if b not in (b"\0", b"\1"): raise ValueError("not a boolean")
        return dict(ok=True, b=b == b"\1")
    def _count(self, p, st, b):
        if st == ERR: return dict(ok=False, b=0)
        return dict(ok=True, b=struct.unpack(">I", b)[0])
    def _consume(self, p, st, b):
        if st == ERR: return dict(ok=False, ms=[])
        c = Cur(b); n = c.u32(); ms = []
        for _ in range(n):
            u = c.take(16); pl = c.s(); t = p.q.token(u, pl); ms.append(t)
            p.q.dl[t] = self.now + (p.q.vt or 30000)
        c.end()
        return dict(ok=True, ms=ms)
    def _peek(self, p, st, b):
        if st == ERR: return dict(ok=False, total=0, list=[])
        c = Cur(b); tot = c.u32(); n = c.u32(); l = []
        for _ in range(n):
            u = c.take(16); pl = c.s(); at = c.u32(); rs = c.s()
            l.append(dict(m=p.q.token(u, pl), a=at, rs=reason_tok(rs)))
        c.end()
        return dict(ok=True, total=tot, list=l)
    # ---- completion
    def flush_conns(self):
        for c in self.conns: c.flush()
    def collect(self, dead_ok=False):
        """record every response that has arrived"""
        for q in self.queues:
            for p in list(q.open):
                if p.req.resp is not None:
                    q.open.remove(p)
                    st, b = p.req.resp
                    try: r = p.parse(p, st, b)
                    except (ValueError, struct.error, IndexError) as e:
                        raise Violation("undecodable response to %s: %s %r" % (p.o["k"], e, b[:200]))
                    q.rec.ret(p.o, **r)
                elif p.conn.closed and not dead_ok:
                    raise Violation("connection lost while a request was outstanding (server died?)\n" + self.srv.stderr_tail())
    def finish(self, ps, timeout=60):
        self.flush_conns()
        conns = [c for c in self.conns]
        def pred():
            self.collect()
            return all(p.req.resp is not None for p in ps)
        if not pump_all(conns, pred, timeout):
            self.collect()
            bad = [p.o for p in ps if p.req.resp is None]
            if bad: raise Violation("no response within %ss to %s on queue" % (timeout, bad[:3]))
    def do(self, q, k, **a):
        p = self.issue(q, k, **a); self.finish([p]); return p.o
    def batch(self, items):
        ps = [self.issue(q, k, **a) for q, k, a in items]
        self.finish([p for p in ps if not (p.o["k"] == "consume" and p.o["w"] > 0)])
        return ps
    # ---- environment
    def poll(self):
        for c in self.conns: c.pump()
        self.collect()
    def advance(self, ms, limit=2.0):
        self.poll()
        self.srv.advance(ms, limit=limit); 
        for q in self.queues: q.rec.time(self.now)
        self.poll()
    def http_pages(self, q, state, page=1000):
        return self.srv.jget("/api/queue/%s/messages" % urllib.parse.quote(q.name, safe=""), state=state, limit=page, offset=0)
    def quiet(self, q, limit=10.0):
        """give the server ample time to sweep and to wake waiters, then say so"""
        end = time.monotonic() + limit
        while True:
            self.poll()
            over = False
            if any(d < self.now for d in q.dl.values()):
                r = self.http_pages(q, "inflight")
                live = {q.httptok(m["id"], m["payload"]) for m in r["messages"]} if r else set()
                over = any(q.dl.get(t, self.now) < self.now for t in live)
                if not over:
                    for t in [t for t, d in q.dl.items() if d < self.now]: q.dl.pop(t)
            stuck = False
            if any(p.o["k"] == "consume" for p in q.open):
                r = self.http_pages(q, "pending")
                stuck = bool(r and r["total"])
            late = any(p.o["k"] == "consume" and p.o["w"] and self.now >= q.rec.nows[p.o["c"] - 1] + p.o["w"] for p in q.open)
            if not (over or stuck or late) or time.monotonic() > end: break
            self.srv.settle()
        if late:
            raise Violation("a waiting consume did not return although its wait time has passed")
        self.poll()
        q.rec.time(self.now)
        q.rec.one("quiet")
    def learn(self, q):
        """identities of messages that were never handed out"""
        self.flush_conns()
        for st in ("pending", "inflight", "dlq"):
            r = self.http_pages(q, st)
            for m in (r or {}).get("messages", []): q.httptok(m["id"], m["payload"])
    def resolve(self, q):
        """record the listings, so that the order concurrent operations took is known"""
        self.inspect(q, kinds=("pending", "dlq"), sumry=False)
    def inspect(self, q, page=None, kinds=("pending", "inflight", "dlq"), sumry=True):
        """the inspection API, page by page"""
        rec = q.rec; rec.time(self.now)
        if sumry:
          o = rec.call("sumry"); r = [x for x in self.srv.jget("/api/queue") if x["name"] == q.name]
          if not r: rec.ret(o, ok=False, np=0, ni=0, nd=0, vt=0, mr=0)
          else:
            if len(r) > 1: raise Violation("queue %r listed twice" % q.name)
            x = r[0]; rec.ret(o, ok=True, np=x["pending"], ni=x["inflight"], nd=x["dlq"], vt=x["config"]["visibility_timeout_ms"], mr=x["config"]["max_retries"])
        for st, k in (("pending", "lpend"), ("inflight", "linfl"), ("dlq", "peek")):
            if st not in kinds: continue
            off = 0
            while True:
                lim = page or 1000
                o = rec.call(k, lim=lim, off=off)
                r = self.srv.jget("/api/queue/%s/messages" % urllib.parse.quote(q.name, safe=""), state=st, limit=lim, offset=off)
                if r is None: rec.ret(o, ok=False, total=0, list=[]); break
                if st == "dlq": l = [dict(m=q.httptok(m["id"], m["payload"]), a=m["attempts"], rs=reason_tok(m["failure_reason"])) for m in r["messages"]]
                else:
                    l = [dict(m=q.httptok(m["id"], m["payload"]), p=m["priority"], a=m["attempts"]) for m in r["messages"]]
                    if any(m["state"] != st for m in r["messages"]): raise Violation("inspection of %s messages lists other states" % st)
                rec.ret(o, ok=True, total=r["total"], list=l)
                off += lim
                if off >= r["total"] or not l: break
    def flushed(self):
        """let the persistence interval pass"""
        for _ in range(3): self.advance(FLUSH + 60, limit=20)
        time.sleep(0.03); self.srv.settle(limit=20); self.poll()
        for q in self.queues:
            q.rec.time(self.now); q.rec.one("flush")
    def lose_open(self):
        for c in self.conns: c.pump()
        self.collect(dead_ok=True)
        self.end_linger()
        for q in self.queues:
            for p in q.open:
                o = p.o
                if o["k"] in CHANGES:
                    o["w"], o["k"] = o["k"], "reqlost"; q.rec.lost(o)
                else: q.rec.drop(o)
            q.open = []
            for o in [o for o in q.rec.ops if o["r"] is None]: q.rec.drop(o)   # interrupted inspections
    def end_linger(self):
        for q, o in self.linger: q.rec.lost(o)
        self.linger = []
    def abandon(self, conn, how=None, live=None):
        """the client goes away while requests are outstanding: each takes effect or not, soon or never"""
        conn.flush(); 
        if self.rng.random() < .5: time.sleep(self.rng.random() * .004)
        conn.pump(); self.collect()
        end_conn(conn, how or self.rng.choice(["close", "reset"]), lambda: self.srv.settle(2))
        if live is not None: wait_ended(self.srv, live)
        else: self.srv.settle(6)
        for q in self.queues:
            for p in [p for p in q.open if p.conn is conn]:
                q.open.remove(p); o = p.o
                if o["k"] in CHANGES:
                    o["w"], o["k"] = o["k"], "reqlost"
                    # creation and deletion may still be going on; they end at the latest with the process
                    if o["w"] in ("create", "delete"): self.linger.append((q, o))
                    else: q.rec.lost(o)
                else: q.rec.drop(o)
    def restart(self, down=0, already_dead=False):
        self.lose_open()
        if not already_dead: self.srv.kill()
        for c in self.conns: c.close()
        if down: self.srv.set_time(self.srv.vnow + down)
        self.srv.start(); self.back()
    def back(self):
        """the server has been started again"""
        for c in self.conns: c.close()
        self.conns = [self.srv.conn() for _ in range(self.nconns)]
        for q in self.queues:
            q.rec.time(self.now); q.rec.one("crash")
    def close(self):
        self.lose_open()
        for c in self.conns: c.close()
    def export(self): return [q.rec.export() for q in self.queues]

# --------------------------------------------------------------------------- random histories
class Mix:
    """weights of operations"""
    def __init__(self, **w): self.k = list(w); self.w = list(w.values())
    def pick(self, rng, sw=None): return rng.choices(self.k, [w * sw.get(k, 1) for k, w in zip(self.k, self.w)] if sw else self.w)[0]
def swarm(rng):
    """histories differ in what they do often and what hardly ever"""
    return {} if rng.random() < .4 else {k: rng.choice([.15, .5, 1, 1, 2, 4]) for k in ("push", "consume", "ack", "nack", "move", "deldlq", "purge", "peek", "pub", "fetch", "join", "leave", "seek", "create", "delete", "exists")}

def rand_op(run, q, mix, prios=(0, 1, 5, 255), batchmax=4, wait=0):
    rng = run.rng
    k = mix.pick(rng, q.sw); prios = q.prios or prios
    known = list(q.tid)
    leased = [t for t in q.dl if t in q.tid] or known
    # the same message over and over
    if q.fav and rng.random() < q.fav: leased = leased[:1]
    if k == "push": return (q, k, dict(p=rng.choice(prios)))
    if k == "consume": return (q, k, dict(n=rng.randint(1, batchmax), w=0))
    if k == "wconsume": return (q, "consume", dict(n=rng.randint(1, batchmax), w=wait or rng.choice([500, 3000])))
    if k in ("ack", "nack"):
        if not known: return (q, "push", dict(p=rng.choice(prios)))
        return (q, k, dict(m=rng.choice(leased if rng.random() < .8 else known)))
    if k in ("move", "deldlq"):
        if not known: return (q, "push", dict(p=rng.choice(prios)))
        d = getattr(q, "dead", None) or known
        return (q, k, dict(m=rng.choice(d if rng.random() < .85 else known)))
    if k == "peek": return (q, k, dict(lim=rng.choice([1, 2, 3, 1000]), off=rng.choice([0, 0, 1, 2])))
    if k == "create": return (q, k, dict(vt=q.vt or 1000, mr=rng.randint(0, 3)))
    return (q, k, {})

def refresh_dead(run, q):
    """learn which messages are dead-lettered (a recorded peek)"""
    o = run.do(q, "peek", lim=1000, off=0)
    q.dead = [x["m"] for x in o.get("list", []) if x["m"] in q.tid]
