"""Driver for the inspection API: puts things where they are to be listed and records pages for InspectTrace; and a
process that inspects everything all the time while other drivers work on the same server."""
import multiprocessing, os, random, time
from urllib.parse import quote
import nexo
from nexo import *

class Hist:
    """ops are strictly sequential: every request is answered before the next one"""
    def __init__(self, srv, rng, name):
        self.srv, self.rng, self.name = srv, rng, name
        self.ops = []; self.text = {}; self.finds = []; self.fk = {}; self.c = srv.conn()
    def op(self, k, **a): self.ops.append(dict(k=k, now=self.srv.vnow, **a))
    def put(self, at, new, end=None):
        """new: {id: text searched}"""
        self.text.update(new)
        self.op("put", at=at, new=[dict(id=i, end=-1 if end is None else end) for i in new])
    def ask(self, reqs):
        rs = [self.c.queue(*w) for w in reqs]; self.c.flush()
        if not pump_all([self.c], lambda: all(r.resp is not None for r in rs), 60): raise Violation("requests unanswered")
        for r in rs:
            if r.resp[0] == ERR: raise Violation("a plain request was refused: %r" % (r.resp,))
        return [r.resp for r in rs]
    def get(self, path, **q):
        r = self.srv.jget(path, **q)
        if r is None: raise Violation("GET %s %s failed" % (path, q))
        return r
    pre = ""
    def match(self, search): return [i for i, t in self.text.items() if self.pre + (search or "") in t]
    def find(self, search):
        k = (search, len(self.text))
        if k not in self.fk: self.finds.append(self.match(search)); self.fk[k] = len(self.finds)
        return self.fk[k]
    # fetch(limit, offset, search) -> (ids, total)
    def page(self, at, fetch, lim, off, search, cap, default):
        ids, total = fetch(lim, off, search)
        self.op("page", at=at, off=min(off or 0, 10**9), lim=default if lim is None else min(lim, 10**9), cap=cap, f=self.find(search), items=ids, total=total)
    def tile(self, at, fetch, lim, search):
        off, items, totals = 0, [], []
        while True:
            ids, total = fetch(lim, off, search)
            items += ids; totals.append(total); off += lim
            if off >= total or len(totals) > 3000: break
        self.op("tile", at=at, f=self.find(search), items=items, totals=totals, lim=lim)
    def square(self, at, fetch, n, searches, cap, default):
        for se in searches:
            for lim in range(1, n + 2): self.tile(at, fetch, lim, se)
            for lim in range(n + 2):
                for off in range(n + 2): self.page(at, fetch, lim, off, se, cap, default)
    HUGE = [2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**53, 2**63 - 1, 2**63, 2**64 - 1]
    def some(self, at, fetch, n, searches, cap, default, k=25):
        rng = self.rng
        for _ in range(k):
            lim = rng.choice([None, None, 0, 1, 2, n, n + 1, rng.randint(1, n + 2), cap - 1 if cap < 10**6 else 7, cap if cap < 10**6 else 9, rng.choice(self.HUGE)])
            off = rng.choice([None, 0, 1, n, n - 1 if n else 0, n + 1, rng.randint(0, n + 2), rng.choice(self.HUGE)])
            self.page(at, fetch, lim, off, rng.choice(searches), cap, default)
        for se in searches: self.tile(at, fetch, rng.choice([min(cap, x) for x in (7, 50, 499, 500, max(1, n - 1), max(n, 1))]), se)
    def export(self):
        self.c.close()
        return dict(name=self.name, finds=self.finds, ops=self.ops, steps=[dict(now=o["now"], open=[i + 1], close=[i + 1]) for i, o in enumerate(self.ops)])

def params(**k): return {a: b for a, b in k.items() if b is not None}
# ------------------------------------------------------------------ the store
def store_fetch(h, prefix):
    h.pre = prefix
    def f(lim, off, se):
        r = h.get("/api/store", **params(limit=lim, offset=off, search=prefix + (se or "")))
        return [x["key"] for x in r["keys"]], r["total"]
    return f
# ------------------------------------------------------------------ queues
def queue_fetch(h, name, state, tok):
    def f(lim, off, se):
        r = h.get("/api/queue/%s/messages" % quote(name, safe=""), **params(state=state, limit=lim, offset=off, search=se))
        return [tok[x["payload"]] for x in r["messages"]], r["total"]
    return f
# ------------------------------------------------------------------ pub/sub
def pubsub_fetch(h, prefix):
    h.pre = prefix
    def f(lim, off, se):
        r = h.get("/api/pubsub", **params(limit=lim, offset=off, search=prefix + (se or "")))
        return [x["full_path"] for x in r["topics"]], r["total_topics"]
    return f

# ------------------------------------------------------------------ inspecting all the time
def _storm(hport, seed, rate):
    import http.client, json
    os.nice(5)
    rng = random.Random(seed); names = dict(q=[], s=[]); words = ["", "a", "1", "v", "q", "x", "/", "é"]
    n = lambda: rng.choice(["0", "1", "2", "3", "50", "500", "1000", "4294967296", "18446744073709551615"])
    c = None
    while True:
        try:
            if c is None: c = http.client.HTTPConnection("127.0.0.1", hport, timeout=30)
            for _ in range(rng.randint(1, 12)):
                k = rng.randrange(8); q = {}
                if rng.random() < .6: q["limit"] = n()
                if rng.random() < .5: q["offset"] = n() if rng.random() < .7 else "0"
                if rng.random() < .3: q["search"] = rng.choice(words)
                if k == 0: p = "/api/queue"
                elif k == 1: p = "/api/stream"
                elif k == 2: p = "/api/store"
                elif k == 3: p = "/api/pubsub"
                elif k <= 5 and names["q"]: p = "/api/queue/%s/messages" % quote(rng.choice(names["q"][-40:]), safe=""); q["state"] = rng.choice(["pending", "inflight", "dlq", "Pending", "x"])
                elif names["s"]:
                    p = "/api/stream/%s/messages" % quote(rng.choice(names["s"][-40:]), safe="")
                    if rng.random() < .7: q["from"] = n()
                else: p = "/api/queue"
                c.request("GET", p + ("?" + urllib.parse.urlencode(q) if q else "")); r = c.getresponse(); b = r.read()
                if p == "/api/queue": names["q"] = [x["name"] for x in json.loads(b)]
                if p == "/api/stream": names["s"] = [x["name"] for x in json.loads(b)["topics"]]
        except Exception:
            try: c.close()
            except Exception: pass
            c = None; time.sleep(.02)
        time.sleep(rng.choice([0, .002, .004, .008]) * rate)

class Watched:
    """while active, every server of this process is inspected all the time"""
    def __init__(self, seed, rate=1): self.seed, self.rate, self.p = seed, rate, {}
    def __enter__(self):
        self.start, self.kill = Server.start, Server.kill; me = self
        def start(srv, *a, **k):
            r = me.start(srv, *a, **k)
            me.end(srv)
            if srv.alive() and srv.http:
                pid = os.fork()
                if pid == 0:
                    try:
                        os.closerange(3, 8192)      # or our copies would keep the driver's connections open
                        import signal as sg; sg.signal(sg.SIGTERM, sg.SIG_DFL)
                        import ctypes; ctypes.CDLL(None).prctl(1, 9)
                        _storm(srv.hport, me.seed, me.rate)
                    finally: os._exit(0)
                me.p[id(srv)] = pid
            return r
        def kill(srv): me.end(srv); return me.kill(srv)
        Server.start, Server.kill = start, kill
        return self
    def end(self, srv):
        pid = self.p.pop(id(srv), None)
        if pid:
            try: os.kill(pid, 9); os.waitpid(pid, 0)
            except OSError: pass
    def __exit__(self, *a):
        Server.start, Server.kill = self.start, self.kill
        for pid in list(self.p.values()):
            try: os.kill(pid, 9); os.waitpid(pid, 0)
            except OSError: pass
