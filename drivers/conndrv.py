"""Driver for connections: sends frames whole, in pieces, malformed, oversized; records histories for ConnTrace."""
import hashlib, random, struct, time, uuid
from nexo import *
from trace import Rec

TYPES = ("ok", "err", "null", "data")
U32 = [0, 1, 2, 255, 2**31 - 1, 2**31, 2**32 - 1]
U64 = [0, 1, 2**31, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 - 1]
JU64 = [None] + U64
OPC = dict(echo=0, set=2, get=3, **{"del": 4}, qcreate=0x10, qpush=0x11, qconsume=0x12, qack=0x13, qexists=0x14, qdelete=0x15, qpeek=0x16, qmove=0x17, qdeldlq=0x18, qpurge=0x19, qnack=0x1A,
           pub=0x21, sub=0x22, unsub=0x23, screate=0x30, spub=0x31, sfetch=0x32, sjoin=0x33, sack=0x34, sexists=0x35, sdelete=0x36, sseek=0x38, sleave=0x39)
UNKNOWN = [1, 5, 0x0F, 0x1B, 0x1F, 0x20, 0x24, 0x2F, 0x37, 0x3A, 0x3F, 0x40, 0x80, 0xFF]
# kinds of fields, in wire order
FIELDS = dict(echo="R", set="KOR", get="K", qcreate="NO", qpush="NOR", qconsume="NO", qack="uN", qnack="uNS", qexists="N", qdelete="N", qpeek="Nii", qmove="Nu", qdeldlq="Nu", qpurge="N",
              pub="NOR", sub="N", unsub="N", screate="NO", spub="NR", sfetch="NGCgii", sjoin="GN", sack="NGCgI", sexists="N", sdelete="N", sseek="NGt", sleave="NGCg", **{"del": "K"})
OPTS = dict(set=lambda r: dict(ttl=r.choice(JU64 + [5, 60])), pub=lambda r: dict(retain=r.choice([None, True, False]), ttl=r.choice(JU64)),
            qcreate=lambda r: dict(visibilityTimeoutMs=r.choice(JU64 + [1000]), maxRetries=r.choice([None] + U32)), qpush=lambda r: dict(priority=r.choice([None, 0, 1, 255])),
            qconsume=lambda r: dict(batchSize=r.choice([None, 0, 1, 2, 10] + U64[2:]), waitMs=r.choice([None, 0])), screate=lambda r: dict(retention=r.choice([None, {}, dict(maxAgeMs=r.choice(JU64)), dict(maxBytes=r.choice(JU64)), dict(maxAgeMs=r.choice(JU64), maxBytes=r.choice(JU64))])))
WRONG = dict(set=["ttl"], pub=["ttl", "retain"], qcreate=["visibilityTimeoutMs", "maxRetries"], qpush=["priority"], qconsume=["batchSize", "waitMs"], screate=["retention"])
NOTJSON = ["", " ", "{", "}", '{"', "nul", "{'a':1}", '{"a":}', '{"a":1,}', "[" * 3000, '{"a":' * 3000, "{}{}", "{} x", "\0", "NaN", '{"ttl":1e999']

def badopts(rng, op, shape):
    if shape == "notjson": return rng.choice(NOTJSON)
    f = rng.choice(WRONG[op])
    return rng.choice(["null", "5", '"x"', "[[]]", "true", '{"%s":"5"}' % f, '{"%s":-1}' % f, '{"%s":[1]}' % f, '{"%s":1.5}' % f, '{"%s":18446744073709551616}' % f, '{"%s":{"x":{}},"%s":1}' % (f, f)] if f not in ("retention",) else
                      ["null", "5", '"x"', '{"retention":5}', '{"retention":"x"}', '{"retention":{"maxBytes":-1}}', '{"retention":{"maxAgeMs":"x"}}', '{"retention":[1,2,3]}'])

def consumed(p):
    """[(id, payload)] of a consume response"""
    q = Cur(p); n = q.u32(); r = []
    for _ in range(n): u = q.take(16); r.append((u, q.s()))
    q.end(); return r

class RawConn(Conn):
    """a connection whose frames are kept as they come"""
    def __init__(self, srv):
        super().__init__(srv); self.frames = []; self.tx = b""; self.wire = []; self.pend = []; self.sent = 0; self.queued = 0; self.dead = False; self.fid = 0
        self.waiting = []       # (end offset, op, fields)
    def pump(self):
        got = False
        while not self.closed:
            try: d = self.s.recv(1 << 20)
            except (BlockingIOError, InterruptedError): break
            except OSError: self.closed = True; break
            if not d: self.closed = True; break
            self.buf += d; got = True
        b = self.buf; i = 0
        while len(b) - i >= 10:
            typ, meta, rid, ln = struct.unpack_from(">BBII", b, i)
            if len(b) - i - 10 < ln: break
            self.frames.append((typ, meta, rid, b[i + 10:i + 10 + ln])); i += 10 + ln
        self.buf = b[i:]
        return got

class Hist:
    def __init__(self, srv, rng, name, limit=10 << 20):
        self.srv, self.rng = srv, rng; self.rec = Rec(name, srv.vnow); self.limit = limit
        self.conns = []; self.nc = 0; self.vals = {}; self.nv = 0; self.nid = rng.choice([1, 1000, 2**32 - 40])
        self.uids = []; self.member = None; self.prefix = name + "-"
    def conn(self):
        c = RawConn(self.srv); self.nc += 1; c.name = "c%d" % self.nc; self.conns.append(c); return c
    def alive(self): return [c for c in self.conns if not c.closed and not c.dead]
    def value(self, n=None, embed=False):
        self.nv += 1; t = "v%d" % self.nv
        if n is not None and n < 24:
            b = bytes(self.rng.randrange(256) for _ in range(n)); t = "h" + b.hex()
            self.vals[b] = t; return t, b
        b = ("%s%s-%d" % (self.prefix, t, self.rng.randrange(10**9))).encode()
        if embed:
            # the payload contains what would be frames of their own
            while len(b) < min(n, 3000):
                k, v = s_(self.prefix + "k%d" % self.rng.randrange(4)), b"smuggled"
                b += self.rng.choice([frame(0, 4000000000 + self.rng.randrange(100), b"smuggled"), frame(2, 4000000000, k + s_("{}") + v), frame(4, 4000000001, k), b"\x01\0\0\0", b"\xff" * 10])
            b += b[24:] * (n // 3000)
        if n is not None: b = (b + b"." * n)[:n]
        elif self.rng.random() < .1: b += bytes(self.rng.randrange(256) for _ in range(self.rng.choice([10, 3000])))
        self.vals[b] = t
        return t, b
    # ---- building requests
    def request(self, op=None, bad=None, nm=None, typ=1, size=None, real=False, opts=None, rest=None, embed=False):
        """-> (record fields, opcode, payload).  bad: index of the field to spoil (or None), picked at random if "any" """
        rng = self.rng
        if op is None: op = rng.choice(list(FIELDS))
        if op in ("sleave", "sseek"): real = False         # the member stays one
        if op == "unknown":
            return dict(op="unknown", t=typ, shapes=[], nm="", fit=True, real=False, v=""), rng.choice(UNKNOWN), bytes(rng.randrange(256) for _ in range(rng.choice([0, 4, 30])))
        kinds = FIELDS[op]; shapes = ["ok"] * len(kinds); out = b""; rec = dict(op=op, t=typ, nm="", fit=True, real=real, v="")
        if bad == "any": bad = rng.choice([i for i, k in enumerate(kinds) if k != "R"] or [None])
        for i, k in enumerate(kinds):
            if bad == i:
                o = {"K": "SLU", "N": "SLU", "S": "SLU", "G": "SLU", "C": "SLU", "O": "SLUJT", "u": "S", "i": "S", "I": "S", "g": "S", "t": "SR"}[k]
                sh = rng.choice(o)
                if sh == "S":
                    w = {"u": 16, "i": 4, "I": 8, "g": 8, "t": 1}.get(k, 4); shapes[i] = "short"; out += bytes(rng.randrange(0, 256) for _ in range(rng.randrange(w))); 
                elif sh == "L":
                    n = rng.randrange(0, 9); shapes[i] = "long"; out += struct.pack(">I", n + rng.choice([1, 2, 100, 2**31 - 9, 2**32 - 9 - n])) + b"abcdefghi"[:n]
                elif sh == "U": shapes[i] = "utf8"; out += s_(rng.choice([b"\xff", b"ab\xc3", b"\xed\xa0\x80", b"\xf8\x88\x80\x80\x80", b"\xc0\xaf", b'{"a":"\xff"}']))
                elif sh in "JT": shapes[i] = "notjson" if sh == "J" else "type"; out += s_(badopts(rng, op, shapes[i]))
                elif sh == "R": shapes[i] = "range"; out += bytes([rng.choice([2, 3, 7, 255])])
                if sh in "SL": break
                continue
            if k == "K":
                n = nm or "k%d" % rng.randrange(4); rec["nm"] = n; out += s_(self.prefix + n)
            elif k == "N":
                full, n, fit = nm if isinstance(nm, tuple) else self.pickname(op)
                rec["nm"] = n; rec["fit"] &= fit; out += s_(full)
            elif k == "G":
                g = self.member["group"] if real else rng.choice(["g", "", "é" * 50, "G" * 70000, "../g"])
                if len(g) > 65535 and op in ("sjoin", "sseek"): rec["fit"] = False
                out += s_(g)
            elif k == "C": out += s_(self.member["id"] if real else rng.choice(["", "nobody", "x" * 1000]))
            elif k == "S": out += s_(rng.choice(["", "why", "r" * 70000, "é"]))
            elif k == "O":
                j = json.dumps({a: b for a, b in (opts if opts is not None else OPTS[op](rng)).items() if b is not None or rng.random() < .3})
                out += s_(j)
            elif k == "R":
                rec["v"], b = self.value(size, embed and size is not None and size >= 24) if rest is None else ("r", rest); out += b
            elif k == "u": out += rng.choice(self.uids) if real and self.uids else rng.choice([b"\0" * 16, b"\xff" * 16, uuid.uuid4().bytes])
            elif k == "i":
                out += struct.pack(">I", 0 if (op == "sfetch" and real and kinds[:i].count("i") == 1) else rng.choice(U32))
            elif k == "I": out += struct.pack(">Q", rng.choice(U64))
            elif k == "g": out += struct.pack(">Q", self.member["gen"] if real else rng.choice(U64))
            elif k == "t": out += bytes([rng.randrange(2)])
        if bad is None and typ == 1 and op not in ("echo",) and "R" not in kinds and rng.random() < .05 : out += b"trailing bytes"
        rec["shapes"] = shapes + ["ok"] * (len(kinds) - len(shapes))
        if op[0] == "s" and rec["nm"] != "there": rec["real"] = False
        return rec, OPC[op], out
    def pickname(self, op):
        """-> (name on the wire, token, can it be stored / does it have few enough levels)"""
        rng = self.rng; P = self.prefix
        if op in ("pub", "sub", "unsub"):
            t = rng.choice(["a/b", "", "/", "a/+/b", "#", "x" * 3000, "l/" * 1023 + "l", "l/" * 1024 + "l", "é/\0/☃", "d/" * 4000, "+/" * 900 + "#"])
            return P + t, "t", (P + t).count("/") < 1024
        if rng.random() < .5 and op not in ("qdelete", "sdelete"): return P + "there", "there", True
        i = rng.randrange(6)
        n = ["n1", "n2", "é☃", "a b", "n.db", ".."][i] if i < 5 else None
        if n is not None: return P + n, n, True
        b = rng.choice([P + "a/b", "/" + P, P + "\0", "../" + P, P + "x" * 256, P + "\\..\\x"] + (["", ".", ".."] if op[0] == "s" else []))
        return b, "bad", False
    # ---- sending
    def put(self, c, rec, opcode, payload, rid=None, typ=None, kind="req"):
        """append one frame to what the connection is to send"""
        # one id for several outstanding requests: only if all are echoes, whose answers tell them apart
        same = lambda i: [r for _, _, k, r, _ in c.waiting if k == i] + [o for k, o in c.pend if k == i]
        if rid is not None and any(x.get("op") != "echo" for x in same(rid) + [rec]) and same(rid): rid = None
        while rid is None or (any(x.get("op") != "echo" for x in same(rid) + [rec]) and same(rid)): rid = self.nid % 2**32; self.nid += 1
        f = frame(opcode, rid, payload, rec["t"] if typ is None else typ)
        c.tx += f; c.queued += len(f)
        c.waiting.append((c.queued, kind, rid, rec, c.dead))
    def oversize(self, c, size, opcode=0, typ=1, tail=b""):
        c.tx += struct.pack(">BBII", typ, opcode, self.nid % 2**32, size); c.queued += 10
        c.waiting.append((c.queued, "toolong", None, dict(size=min(size, 2**31 - 1)), c.dead)); self.nid += 1
        if tail: c.tx += tail; c.queued += len(tail)
    def push(self, c, n=None):
        """send the next n bytes (all if None)"""
        n = len(c.tx) if n is None else min(n, len(c.tx))
        upto = c.sent + n
        for e in [e for e in c.waiting if e[0] <= upto]:
            c.waiting.remove(e); self.begin(c, e)
        c.out += c.tx[:n]; c.tx = c.tx[n:]; c.sent = upto
        try: c.flush()
        except Violation:
            if not c.dead: raise
    def stuff(self, c):
        """send as much as goes without reading"""
        calm = 0; at = 0
        while c.tx and calm < 20:
            try: n = c.s.send(c.tx[:65536])
            except (BlockingIOError, InterruptedError): calm += 1; time.sleep(.005); continue
            calm = 0; c.tx = c.tx[n:]; c.sent += n
            for e in [e for e in c.waiting if e[0] <= c.sent]: c.waiting.remove(e); self.begin(c, e)
    def begin(self, c, e):
        end, kind, rid, rec, _ = e
        self.rec.time(self.srv.vnow)
        if kind == "toolong": self.rec.one("toolong", conn=c.name, size=rec["size"]) if not c.dead else None; c.dead = True; return
        o = self.rec.call("void" if c.dead else kind, n=0, conn=c.name, rid=str(rid), **rec); o["status"] = ""; o["got"] = ""
        c.pend.append((rid, o))
    def collect(self):
        for c in self.conns:
            c.pump(); fr, c.frames = c.frames, []
            for typ, meta, rid, p in fr:
                if typ == 3 and rid == 0: continue
                if typ != 2 or meta > 3: self.rec.one("alien", what="frame type %d status %d" % (typ, meta)); continue
                m = [x for x in c.pend if x[0] == rid]
                if not m: self.rec.one("alien", what="response for no request, id %d on %s" % (rid, c.name)); continue
                # several requests may carry one id: the answers come in any order
                best = m[0]
                if len(m) > 1:
                    fit = [x for x in m if meta == 3 and x[1]["op"] == "echo" and self.vals.get(p) == x[1]["v"]] or [x for x in m if x[1]["op"] != "echo" or meta != 3]
                    best = (fit or m)[0]
                c.pend.remove(best); o = best[1]
                o["n"] += 1; o["status"] = TYPES[meta]
                if meta == 3: o["got"] = self.vals.get(p, "?" + p[:30].hex()) if o["op"] in ("get", "echo") else ""
                if meta == 1:
                    try: q = Cur(p); q.s().decode(); q.end()
                    except Exception: self.rec.one("alien", what="malformed error response %r" % p[:40])
                o["raw"] = p if o["op"] in ("sjoin", "qconsume") and len(p) < 1000000 else None
                if meta == 3 and o["op"] == "qconsume" and o["nm"] == "there": self.learn(p)
                self.rec.ret(o)
    def learn(self, p):
        q = Cur(p)
        try:
            for u, b in consumed(p): self.uids = (self.uids + [u])[-20:]
        except ValueError as e: self.rec.one("alien", what="malformed consume response: %s" % e)
    def drain(self, c):
        """what the canary queue and topic hold"""
        o = self.do(c, "qconsume", nm=(self.prefix + "canary", "canary", True), opts=dict(batchSize=100000, waitMs=0))
        text = {b.decode("latin1"): t for b, t in self.vals.items()}
        got = [self.vals.get(b, "?" + b[:30].hex()) for u, b in consumed(o["raw"])] if o["status"] == "data" else ["?"]
        from urllib.parse import quote
        st = []; at = 0; path = "/api/stream/%s/messages" % quote(self.prefix + "canary", safe="")
        for _ in range(100):
            r = self.srv.jget(path, limit=500, **{"from": at})
            if not r or not r["messages"]: break
            ms = sorted(r["messages"], key=lambda m: m["seq"]) if "seq" in r["messages"][0] else r["messages"]
            st += [m["payload"] for m in ms]; at = max(m["seq"] for m in ms) + 1
        self.rec.one("drain", q=got, s=[text.get(x, "?" + str(x)[:30]) for x in st])
    def finish(self, timeout=60, conns=None):
        cs = [c for c in (conns or self.conns) if not c.closed and not c.dead]
        for c in cs: self.push(c)
        def pred(): self.collect(); return not any(c.pend for c in cs if not c.dead)
        if not pump_all(cs, pred, timeout):
            self.collect()
            bad = [o for c in cs if not c.dead for _, o in c.pend]
            if bad: raise Violation("no response within %d s to %s" % (timeout, bad[:3]) + self.srv.stderr_tail(500))
    def do(self, c, *a, **k):
        r = self.request(*a, **k); self.put(c, *r); self.finish(conns=[c]); return self.rec.ops[-1]
    def rest(self):
        """everything has come to rest; the fate of each connection"""
        if self.srv.chaos[0]: time.sleep(self.srv.chaos[1] / 1e6 + .001)
        for _ in range(2): self.srv.settle(2); self.collect()
        for c in self.conns:
            if getattr(c, "over", False): continue
            end = time.monotonic() + 10
            while c.dead and not c.closed and time.monotonic() < end: time.sleep(.005); self.collect()
            self.rec.one("fate", conn=c.name, closed=c.closed)
            if c.closed: c.over = True; self.lost(c)
    def lost(self, c):
        for rid, o in c.pend:
            if o["k"] == "req": o["k"] = "lostreq"; self.rec.lost(o)
            else: self.rec.ret(o)
        c.pend = []
        for end, kind, rid, rec, _ in c.waiting: pass      # never completed
        self.rec.step()
    def close(self, c, how="close"):
        """the client ends the connection, possibly within a frame"""
        c.flush(); self.collect()
        if how == "half":
            try: c.s.shutdown(1)
            except OSError: pass
            self.srv.settle(3); self.collect()
        getattr(c, "reset" if how == "reset" else "close")()
        c.over = True; self.srv.settle(3); self.lost(c)
    def snap(self, fresh=False):
        srv = self.srv; d = []
        self.rec.time(srv.vnow)
        qs = srv.jget("/api/queue"); d.append(qs)
        if qs is None: raise Violation("GET /api/queue failed")
        names = sorted(q["name"] for q in (qs if isinstance(qs, list) else qs.get("queues", qs.get("active_queues", []))))
        from urllib.parse import quote
        for q in names:
            for st in ("pending", "inflight", "scheduled", "dlq"):
                d.append(srv.jget("/api/queue/%s/messages" % quote(q, safe=""), state=st, limit=50))
        d.append(srv.jget("/api/stream")); d.append(srv.jget("/api/store", limit=1000)); d.append(srv.jget("/api/pubsub", limit=500))
        def canon(x):
            if isinstance(x, dict): return {k: canon(v) for k, v in sorted(x.items()) if k != "active_clients"}
            if isinstance(x, list): return sorted((canon(v) for v in x), key=lambda v: json.dumps(v, sort_keys=True))
            return x
        h = hashlib.sha256(json.dumps(canon(d), sort_keys=True).encode()).hexdigest()[:16]
        self.last = d
        self.rec.one("snap", d=h, fresh=fresh)
    def vmpeak(self):
        for l in open("/proc/%d/status" % self.srv.proc.pid):
            if l.startswith("VmPeak"): return int(l.split()[1]) // 1024
    def setup(self):
        """a queue, a topic with a member, keys"""
        c = self.conn(); P = self.prefix
        th = (P + "there", "there", True)
        self.do(c, "qcreate", nm=th, opts={}); self.do(c, "screate", nm=th, opts={})
        for _ in range(6): self.do(c, "qpush", nm=th, opts={}); self.do(c, "spub", nm=th)
        self.put(c, dict(op="sjoin", t=1, shapes=["ok", "ok"], nm="there", fit=True, real=True, v=""), *W.sjoin(P + "there", "grp")); self.finish()
        q = Cur(self.rec.ops[-1]["raw"]); fl, gen = q.u64(), q.u64(); self.member = dict(group="grp", gen=gen, id=q.s().decode())
        for i in range(4): self.do(c, "set", nm="k%d" % i, opts=dict(ttl=10**6))
        ca = (P + "canary", "canary", True)
        self.do(c, "qcreate", nm=ca, opts={}); self.do(c, "screate", nm=ca, opts={})
        return c
    def canary(self, c):
        """acknowledged operations whose effect must stay"""
        ca = (self.prefix + "canary", "canary", True)
        self.do(c, "echo"); self.do(c, "qpush", nm=ca, opts={}, size=48); self.do(c, "spub", nm=ca, size=48); self.do(c, "get", nm="kc"); self.do(c, "set", nm="kc", opts={})
    def export(self):
        """The history as a whole, and its part for every key, queue and topic: linearizability is local, so the answers that
        depend on one of these can be explained for each of them alone (module Conn; the whole keeps form, number and order)."""
        for o in self.rec.ops:
            if o["r"] is None: raise ToolError("open op %s" % o)
            o.pop("raw", None)
        parts = {}; whole = []
        for o in self.rec.ops:
            if o["k"] == "drain":
                for kind in "qs": parts.setdefault((kind, "canary"), []).append(dict(o, k="drain" + kind))
                continue
            kind = {"K": "k"}.get(FIELDS[o["op"]][0]) or {"q": "q", "s": "s"}.get(o["op"][0]) if o.get("op") in FIELDS else None
            if o["op"] in ("pub", "sub", "unsub", "echo") if "op" in o else True: kind = None
            if o["k"] in ("req", "lostreq") and kind and o["t"] == 1 and all(x == "ok" for x in o["shapes"]):
                parts.setdefault((kind, o["nm"]), []).append(o); o = dict(o, k="part" if o["k"] == "req" else "lostpart")
            whole.append(o)
        def trace(name, ops):
            r = Rec(name); used = sorted({o[x] for o in ops for x in "cr"}); rank = {x: n + 1 for n, x in enumerate(used)}
            r.ops = [dict(o, c=rank[o["c"]], r=rank[o["r"]]) for o in ops]; r.nows = [0] * max(1, len(used))
            t = r.export(); t["limit"] = min(self.limit, 2**31 - 1); return t
        return [("ConnTrace", trace(self.rec.name, whole))] + [("ConnTrace", trace("%s/%s:%s" % (self.rec.name, k, n), ops)) for (k, n), ops in sorted(parts.items())]
