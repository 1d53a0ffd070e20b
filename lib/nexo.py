"""Build and drive the real nexo server over its wire protocol and HTTP API."""
import atexit, errno, json, mmap, os, random, re, select, selectors, shutil, signal, socket, struct, subprocess, sys, tempfile, time, uuid as _uuid
import http.client, urllib.parse

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NEXO_REPO", "/repo")

class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""

class Violation(Exception):
    """The implementation visibly broke a property in a way needing no trace."""
    def __init__(self, msg, data=None):
        super().__init__(msg); self.msg = msg; self.data = data

# --------------------------------------------------------------------------- scratch
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and shutil.disk_usage("/dev/shm").free > 2e8 else tempfile.gettempdir()
        _scratch = tempfile.mkdtemp(prefix="nexoverif-", dir=base)
        atexit.register(_cleanup)
    return _scratch
def _cleanup():
    for s in list(Server.live):
        s.kill()
    if _scratch and os.path.isdir(_scratch) and "nexoverif-" in _scratch and not os.environ.get("KEEP_SCRATCH"):
        shutil.rmtree(_scratch, ignore_errors=True)

# --------------------------------------------------------------------------- build
_bin = None
def build():
    """Rebuild the server from the current working tree and the shim; return paths."""
    global _bin
    if _bin: return _bin
    env = dict(os.environ)
    script = r'''
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
cd "$1" || exit 1
[ "$1" = /repo ] || export CARGO_TARGET_DIR="$1/target"
mkdir -p dashboard/dist
exec cargo build --bin nexo --offline --locked
'''
    r = subprocess.run(["bash", "-c", script, "bash", REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
    if r.returncode != 0:
        raise ToolError("cargo build failed:\n" + r.stdout[-4000:])
    nexo = os.path.join(REPO, "target/debug/nexo")
    so = os.path.join(scratch(), "shim.so")
    r = subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-ftls-model=initial-exec", "-o", so, os.path.join(VERIF, "shim/shim.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0: raise ToolError("shim build failed:\n" + r.stdout)
    # a private copy, so that nothing the run does can race with a rebuild
    dst = os.path.join(scratch(), "nexo")
    shutil.copy2(nexo, dst)
    _bin = (dst, so)
    return _bin

# --------------------------------------------------------------------------- shim control
OFF = dict(magic=(0,'Q'), vnow=(8,'q'), mono=(16,'q'), real=(24,'q'), frozen=(32,'I'), cap=(36,'I'), ppm=(40,'I'), maxus=(44,'I'),
           seed=(48,'I'), crash_mode=(52,'I'), crash_at=(56,'q'), fileops=(64,'Q'), turns=(72,'Q'), crashed=(80,'I'), logops=(84,'I'), hold=(88,'I'), held=(92,'I'), accept_fail=(96,'I'), accept_errno=(100,'I'), napping=(104,'I'))
class Ctl:
    def __init__(self, path, seed=1):
        with open(path, "wb") as f: f.write(b"\0" * 4096)
        os.chmod(path, 0o666)
        self.path = path
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)
        self.set("magic", 0x4e45584f53484d)
        # the virtual monotonic base lies ahead of the real clock's origin but its value is irrelevant to the server
        self.set("mono", time.clock_gettime_ns(time.CLOCK_MONOTONIC))
        self.set("real", 1_800_000_000_000_000_000)
        self.set("cap", 4)
        self.set("seed", seed & 0xffffffff)
    def set(self, k, v):
        o, t = OFF[k]; struct.pack_into("<" + t, self.m, o, v)
    def get(self, k):
        o, t = OFF[k]; return struct.unpack_from("<" + t, self.m, o)[0]

REAL_BASE_MS = 1_800_000_000_000

# --------------------------------------------------------------------------- server
_ports = None
def free_port():
    """a port below the ephemeral range, so that no outgoing connection takes it meanwhile"""
    global _ports
    if _ports is None or _ports[0] != os.getpid(): _ports = (os.getpid(), random.Random(os.urandom(8)))
    for _ in range(1000):
        p = _ports[1].randrange(11000, 32000)
        # nobody else of ours may choose it until it is bound, nor while its server lives: a second server would
        # fail to bind it and be looked at through the first one's port
        mine = socket.socket(socket.AF_UNIX)
        try: mine.bind("\0nexo-verif-port-%d" % p)
        except OSError: mine.close(); continue
        s = socket.socket()
        try: s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind(("0.0.0.0", p)); return p, mine
        except OSError: mine.close()
        finally: s.close()
    raise ToolError("no free port")

class Server:
    live = []
    n = 0
    def __init__(self, env=None, frozen=True, chaos=0, chaos_us=300, seed=1, data=None, uid=None, http=True):
        self.nexo, self.so = build()
        Server.n += 1
        self.dir = os.path.join(scratch(), "s%d" % Server.n)
        os.makedirs(self.dir, exist_ok=True)
        self.data = data or os.path.join(self.dir, "data")
        os.makedirs(self.data, exist_ok=True)
        self.ctl = Ctl(os.path.join(self.dir, "ctl"), seed)
        self.env = dict(env or {})
        # settings that no property depends on
        r = random.Random("tune%s" % seed)
        for k, v in (("CHANNEL_CAPACITY_SOCKET_WRITE", [1024, 1024, 1, 2, 16]), ("STREAM_MAX_OPEN_FILES", [256, 256, 1, 2, 3]), ("QUEUE_WRITER_BATCH_SIZE", [50, 50, 1, 3, 1000]), ("TOKIO_WORKER_THREADS", [None, None, 1, 2, 16])):
            x = r.choice(v)
            if x is not None: self.env.setdefault(k, x)
        self.uid = uid; self.http = http
        if uid is not None:
            os.chown(self.data, uid, uid); os.chown(self.dir, uid, uid); os.chmod(scratch(), 0o755)
        self.ctl.set("frozen", 1 if frozen else 0)
        self.frozen = frozen
        self.chaos = (chaos, chaos_us)
        self.proc = None
        self.starts = 0
        self.errlog = os.path.join(self.dir, "stderr")
        self.vnow = 0     # virtual ms
        Server.live.append(self)
    # ---- process
    def start(self, wait=True, crash_at=0, crash_mode=0):
        assert self.proc is None
        last = None
        for attempt in range(5):
            for c in getattr(self, "claims", ()): c.close()
            (self.port, c1), (self.hport, c2) = free_port(), free_port(); self.claims = (c1, c2)
            env = {"PATH": os.environ.get("PATH", ""), "LD_PRELOAD": self.so, "NEXO_SHIM_CTL": self.ctl.path,
                   "SERVER_HOST": "127.0.0.1", "SERVER_SOCKET_TCP_PORT": str(self.port), "SERVER_DASHBOARD_HTTP_PORT": str(self.hport),
                   "NEXO_ENV": "dev" if self.http else "prod", "NEXO_LOG": os.environ.get("NEXO_LOG", "error"), "RUST_BACKTRACE": "0",
                   "QUEUE_ROOT_PERSISTENCE_PATH": self.data + "/queues", "STREAM_ROOT_PERSISTENCE_PATH": self.data + "/streams",
                   "PUBSUB_ROOT_PERSISTENCE_PATH": self.data + "/pubsub"}
            env.update({k: str(v) for k, v in self.env.items()})
            self.ctl.set("ppm", 0)
            self.ctl.set("napping", 0)
            self.ctl.set("crashed", 0)
            self.ctl.set("crash_mode", crash_mode)
            self.ctl.set("fileops", 0)
            self.ctl.set("crash_at", crash_at)
            pre = None
            kw = {}
            if self.uid is not None:
                kw = dict(user=self.uid, group=self.uid, extra_groups=[])
            self.log = open(self.errlog, "ab")
            self.proc = subprocess.Popen([self.nexo], cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, start_new_session=True, **kw)
            self.log.close()
            self.starts += 1
            if not wait: return self
            end = time.monotonic() + 60
            tcp_up = None
            while time.monotonic() < end:
                if self.proc.poll() is not None: break
                if tcp_up and attempt < 4 and time.monotonic() > tcp_up + 5:     # somebody took the HTTP port
                    self.kill(); break
                try:
                    s = socket.create_connection(("127.0.0.1", self.port), timeout=5); s.close()
                    tcp_up = tcp_up or time.monotonic()
                    if self.http:
                        s = socket.create_connection(("127.0.0.1", self.hport), timeout=5); s.close()
                    self.ctl.set("ppm", self.chaos[0]); self.ctl.set("maxus", self.chaos[1])
                    return self
                except OSError:
                    time.sleep(0.003)
            else:
                if os.environ.get("HANGDBG"): print("HANG", self.proc.pid, flush=True); time.sleep(3600)
                self.kill(); raise Violation("server did not start listening within 60 s")
            if self.proc is None: continue
            rc = self.proc.returncode; self.proc = None
            if self.ctl.get("crashed"): return None
            last = "server exited with %s at start: %s" % (rc, self.stderr_tail())
            if "Failed to bind" not in last: break
        raise Violation(last)
    def stderr_tail(self, n=1500):
        try: return open(self.errlog, errors="replace").read()[-n:]
        except OSError: return ""
    def alive(self): return self.proc is not None and self.proc.poll() is None
    def kill(self):
        if self.proc is not None:
            try: os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError: pass
            self.proc.wait(); self.proc = None
        if self in Server.live: pass
    def wait_dead(self, t=10):
        try: self.proc.wait(t)
        except subprocess.TimeoutExpired: return False
        self.proc = None
        return True
    def stop(self):
        self.kill()
        if self in Server.live: Server.live.remove(self)
        shutil.rmtree(self.dir, ignore_errors=True)
    # ---- time
    def settle(self, turns=3, limit=2.0):
        """Wait until the server has had time to act on the current virtual time and looks idle."""
        if not self.alive(): return
        t0 = self.ctl.get("turns"); end = time.monotonic() + limit
        while self.ctl.get("turns") < t0 + turns and time.monotonic() < end and self.alive():
            time.sleep(0.0015)
        ok = 0; f = None
        while ok < 2 and time.monotonic() < end and self.alive():
            g = self.ctl.get("fileops")
            ok = ok + 1 if self._idle() and f == g else 0
            f = g
            time.sleep(0.001)
    def _idle(self):
        if self.ctl.get("napping"): return False
        base = "/proc/%d/task" % self.proc.pid
        try: ts = os.listdir(base)
        except OSError: return True
        for t in ts:
            try:
                with open(base + "/" + t + "/stat") as f: st = f.read()
            except OSError: continue       # this thread has ended
            if st[st.rindex(")") + 2] not in "SZX": return False
        return True
    def set_time(self, ms):
        self.vnow = ms
        self.ctl.set("vnow", ms * 1_000_000)
    def advance(self, ms, settle=True, limit=2.0):
        self.set_time(self.vnow + ms)
        if settle: self.settle(limit=limit)
    def conn(self): return Conn(self)
    # ---- http
    def get(self, path, **q):
        if q: path += "?" + urllib.parse.urlencode(q)
        c = http.client.HTTPConnection("127.0.0.1", self.hport, timeout=30)
        try:
            c.request("GET", path); r = c.getresponse(); b = r.read()
            return r.status, b
        finally: c.close()
    def jget(self, path, **q):
        st, b = self.get(path, **q)
        if st != 200: return None
        return json.loads(b)

# --------------------------------------------------------------------------- wire protocol
def s_(x):
    b = x if isinstance(x, bytes) else x.encode()
    return struct.pack(">I", len(b)) + b
def frame(op, rid, payload, typ=1):
    return struct.pack(">BBII", typ, op, rid, len(payload)) + payload
def j_(d): return s_(json.dumps({k: v for k, v in d.items() if v is not None}))

class Req:
    __slots__ = ("id", "op", "resp", "t")
    def __init__(self, id, op): self.id, self.op, self.resp = id, op, None

class Cur:
    def __init__(self, b): self.b, self.i = b, 0
    def take(self, n):
        if self.i + n > len(self.b): raise ValueError("short response")
        r = self.b[self.i:self.i + n]; self.i += n; return r
    def u8(self): return self.take(1)[0]
    def u32(self): return struct.unpack(">I", self.take(4))[0]
    def u64(self): return struct.unpack(">Q", self.take(8))[0]
    def s(self): return self.take(self.u32())
    def end(self):
        if self.i != len(self.b): raise ValueError("trailing bytes in response")

OK, ERR, NULL, DATA = 0, 1, 2, 3

def end_conn(conn, how, settle=None):
    """end a connection: close, reset, half (shut down, then close), proto (an oversized frame), cut (within a frame)"""
    if how == "half":
        try: conn.s.shutdown(1)
        except OSError: pass
        if settle: settle()
    elif how == "proto":
        conn.raw(struct.pack(">BBII", 1, 0x31, 7, 0x7fffffff))
        if settle: settle()
    elif how == "cut": conn.raw(struct.pack(">BBII", 1, 0x31, 7, 5000) + b"\0\0\0\3ab")
    (conn.reset if how == "reset" else conn.close)()
    conn.closed = True
def wait_ended(srv, live, limit=20):
    """until no more connections than these are registered: requests of the others are over"""
    end = time.monotonic() + limit
    while time.monotonic() < end:
        r = srv.jget("/api/pubsub", limit=1)
        if r is not None and r["active_clients"] <= live: return
        time.sleep(.002)
    raise Violation("a connection that ended is still registered after %d s" % limit)
ENDS = ("close", "reset", "half", "proto", "cut")

class Conn:
    """One client connection.  Single threaded: call() sends, wait() pumps."""
    def __init__(self, server):
        self.srv = server
        self.s = socket.create_connection(("127.0.0.1", server.port), timeout=30)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.s.setblocking(False)
        self.buf = b""; self.next = 1
        self.reqs = {}          # outstanding
        self.pushes = []        # (topic bytes, data bytes)
        self.closed = False
        self.extra = []         # protocol anomalies
        self.out = b""
        self.on_push = None
    def fileno(self): return self.s.fileno()
    def queue(self, op, payload, typ=1, rid=None):
        if rid is None:
            rid = self.next; self.next += 1
        r = Req(rid, op); self.reqs[rid] = r
        self.out += frame(op, rid, payload, typ)
        return r
    def flush(self):
        end = time.monotonic() + 30
        while self.out:
            try:
                n = self.s.send(self.out); self.out = self.out[n:]
            except (BlockingIOError, InterruptedError):
                select.select([self.s], [self.s], [], 0.05); self.pump()
                if time.monotonic() > end: raise Violation("the server has not read from a connection for 30 s although its responses are being read")
            except OSError:
                self.closed = True; self.out = b""; return
    def call(self, op, payload, **k):
        r = self.queue(op, payload, **k); self.flush(); return r
    def raw(self, b):
        self.out += b; self.flush()
    def pump(self):
        got = False
        while not self.closed:
            try: d = self.s.recv(1 << 18)
            except (BlockingIOError, InterruptedError): break
            except OSError: self.closed = True; break
            if not d: self.closed = True; break
            self.buf += d; got = True
        b = self.buf; i = 0
        while len(b) - i >= 10:
            typ, meta, rid, ln = struct.unpack_from(">BBII", b, i)
            if len(b) - i - 10 < ln: break
            p = b[i + 10:i + 10 + ln]; i += 10 + ln
            if typ == 2:
                r = self.reqs.pop(rid, None)
                if r is None: self.extra.append(("response for no outstanding request", rid, meta, p[:100]))
                else: r.resp = (meta, p)
            elif typ == 3:
                try:
                    c = Cur(p); t = c.s(); self.pushes.append((t, c.b[c.i:]))
                except Exception: self.extra.append(("bad push", rid, meta, p[:100]))
            else: self.extra.append(("unknown frame type", typ, meta, p[:100]))
        self.buf = b[i:]
        return got
    def wait(self, *reqs, timeout=60):
        end = time.monotonic() + timeout
        while any(r.resp is None for r in reqs):
            if self.closed: return False
            left = end - time.monotonic()
            if left <= 0: return False
            select.select([self.s], [], [], min(left, 0.5))
            self.pump()
        return True
    def do(self, op, payload, timeout=60):
        r = self.call(op, payload)
        if not self.wait(r, timeout=timeout):
            if self.closed: return None
            raise Violation("no response to request op=0x%02x within %ds" % (op, timeout))
        return r.resp
    def close(self):
        try: self.s.close()
        except OSError: pass
        self.closed = True
    def reset(self):
        try:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); self.s.close()
        except OSError: pass
        self.closed = True

def pump_all(conns, pred, timeout=60, idle=None):
    """Pump several connections until pred() holds."""
    end = time.monotonic() + timeout
    while not pred():
        left = end - time.monotonic()
        live = [c for c in conns if not c.closed]
        if left <= 0 or not live: return pred()
        rd, _, _ = select.select(live, [], [], min(left, 0.25))
        for c in rd: c.pump()
        if idle: idle()
    return True

# request payloads -----------------------------------------------------------
class W:
    # store
    @staticmethod
    def set(k, v, ttl=None): return 0x02, s_(k) + j_(dict(ttl=ttl)) + v
    @staticmethod
    def get(k): return 0x03, s_(k)
    @staticmethod
    def dele(k): return 0x04, s_(k)
    # queue
    @staticmethod
    def qcreate(q, vis=None, maxr=None): return 0x10, s_(q) + j_(dict(visibilityTimeoutMs=vis, maxRetries=maxr))
    @staticmethod
    def qpush(q, payload, prio=None): return 0x11, s_(q) + j_(dict(priority=prio)) + payload
    @staticmethod
    def qconsume(q, batch=None, wait=None): return 0x12, s_(q) + j_(dict(batchSize=batch, waitMs=wait))
    @staticmethod
    def qack(q, u): return 0x13, u + s_(q)
    @staticmethod
    def qexists(q): return 0x14, s_(q)
    @staticmethod
    def qdelete(q): return 0x15, s_(q)
    @staticmethod
    def qpeek(q, limit, off): return 0x16, s_(q) + struct.pack(">II", limit, off)
    @staticmethod
    def qmove(q, u): return 0x17, s_(q) + u
    @staticmethod
    def qdeldlq(q, u): return 0x18, s_(q) + u
    @staticmethod
    def qpurge(q): return 0x19, s_(q)
    @staticmethod
    def qnack(q, u, reason): return 0x1A, u + s_(q) + s_(reason)
    # pubsub
    @staticmethod
    def pub(t, payload, retain=None, ttl=None): return 0x21, s_(t) + j_(dict(retain=retain, ttl=ttl)) + payload
    @staticmethod
    def sub(t): return 0x22, s_(t)
    @staticmethod
    def unsub(t): return 0x23, s_(t)
    # stream
    @staticmethod
    def screate(t, age=None, size=None):
        d = {}
        if age is not None or size is not None:
            d = dict(retention={k: v for k, v in dict(maxAgeMs=age, maxBytes=size).items() if v is not None})
        return 0x30, s_(t) + s_(json.dumps(d))
    @staticmethod
    def spub(t, payload): return 0x31, s_(t) + payload
    @staticmethod
    def sfetch(t, g, c, gen, limit, wait): return 0x32, s_(t) + s_(g) + s_(c) + struct.pack(">QII", gen, limit, wait)
    @staticmethod
    def sjoin(t, g): return 0x33, s_(g) + s_(t)
    @staticmethod
    def sack(t, g, c, gen, seq): return 0x34, s_(t) + s_(g) + s_(c) + struct.pack(">QQ", gen, seq)
    @staticmethod
    def sexists(t): return 0x35, s_(t)
    @staticmethod
    def sdelete(t): return 0x36, s_(t)
    @staticmethod
    def sseek(t, g, to): return 0x38, s_(t) + s_(g) + bytes([to])
    @staticmethod
    def sleave(t, g, c, gen): return 0x39, s_(t) + s_(g) + s_(c) + struct.pack(">Q", gen)
