"""A small client and server runner for the demonstrations.  Everything it writes is inside a scratch directory."""
import atexit, http.client, json, os, random, shutil, signal, socket, struct, subprocess, sys, tempfile, time, urllib.parse
BIN = os.environ["NEXO_BIN"]
OK, ERR, NULL, DATA = 0, 1, 2, 3
def s_(x):
    b = x if isinstance(x, bytes) else x.encode()
    return struct.pack(">I", len(b)) + b
def j_(**k): return s_(json.dumps({a: b for a, b in k.items() if b is not None}))
def port():
    for _ in range(200):
        p = random.randrange(11000, 31000); s = socket.socket()
        try: s.bind(("127.0.0.1", p)); return p
        except OSError: pass
        finally: s.close()
class Server:
    def __init__(self, **env):
        self.dir = tempfile.mkdtemp(prefix="nexo-demo-"); self.env = env; self.p = None
        atexit.register(self.end); self.start()
    def start(self, **more):
        for _ in range(5):
            self.tcp, self.http = port(), port()
            e = dict(PATH=os.environ["PATH"], NEXO_ENV="dev", NEXO_LOG="off", SERVER_HOST="127.0.0.1", SERVER_SOCKET_TCP_PORT=str(self.tcp), SERVER_DASHBOARD_HTTP_PORT=str(self.http),
                     QUEUE_ROOT_PERSISTENCE_PATH=self.dir + "/queues", STREAM_ROOT_PERSISTENCE_PATH=self.dir + "/streams", PUBSUB_ROOT_PERSISTENCE_PATH=self.dir + "/pubsub")
            e.update({k: str(v) for k, v in dict(self.env, **more).items()})
            self.p = subprocess.Popen([BIN], cwd=self.dir, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for _ in range(3000):
                if self.p.poll() is not None: break
                try:
                    for q in (self.tcp, self.http): socket.create_connection(("127.0.0.1", q), 5).close()
                    return self
                except OSError: time.sleep(.01)
            self.kill()
        raise SystemExit("server does not start")
    def kill(self):
        if self.p and self.p.poll() is None: self.p.kill()
        if self.p: self.p.wait()
    def alive(self): return self.p.poll() is None
    def restart(self, **more): self.kill(); self.start(**more)
    def end(self): self.kill(); shutil.rmtree(self.dir, ignore_errors=True)
    def get(self, path, **q):
        if q: path += "?" + urllib.parse.urlencode(q)
        c = http.client.HTTPConnection("127.0.0.1", self.http, timeout=30)
        try: c.request("GET", path); r = c.getresponse(); b = r.read(); return json.loads(b) if r.status == 200 else None
        finally: c.close()
class Conn:
    def __init__(self, srv):
        self.s = socket.create_connection(("127.0.0.1", srv.tcp), 30); self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.n = 0; self.buf = b""; self.got = {}; self.push = []; self.eof = False
    def send(self, op, body, rid=None):
        if rid is None: self.n += 1; rid = self.n
        self.s.sendall(struct.pack(">BBII", 1, op, rid, len(body)) + body); return rid
    def pump(self, t):
        self.s.settimeout(max(t, .001))
        try: d = self.s.recv(1 << 18)
        except (socket.timeout, TimeoutError): return False
        except OSError: d = b""
        if not d: self.eof = True; return False
        self.buf += d
        while len(self.buf) >= 10:
            ty, m, r, n = struct.unpack(">BBII", self.buf[:10])
            if len(self.buf) < 10 + n: break
            b = self.buf[10:10 + n]; self.buf = self.buf[10 + n:]
            if ty == 2: self.got[r] = (m, b)
            elif ty == 3:
                k = struct.unpack(">I", b[:4])[0]; self.push.append((b[4:4 + k].decode(), b[4 + k:]))
        return True
    def wait(self, rid, t=20):
        end = time.time() + t
        while rid not in self.got and time.time() < end and not self.eof: self.pump(end - time.time())
        return self.got.pop(rid, None)
    def do(self, op, body, t=20): return self.wait(self.send(op, body), t)
    def pushes(self, t=.5, n=None):
        end = time.time() + t
        while time.time() < end and not self.eof and (n is None or len(self.push) < n): self.pump(end - time.time())
        r, self.push = self.push, []; return r
    def close(self): self.s.close()
    def reset(self): self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); self.s.close()
    # store
    def set(self, k, v, ttl=None): return self.do(0x02, s_(k) + j_(ttl=ttl) + v)
    def sget(self, k): return self.do(0x03, s_(k))
    def delete(self, k): return self.do(0x04, s_(k))
    # queues
    def qcreate(self, q, vis=None, maxr=None): return self.do(0x10, s_(q) + j_(visibilityTimeoutMs=vis, maxRetries=maxr))
    def qpush(self, q, p, prio=None): return self.do(0x11, s_(q) + j_(priority=prio) + p)
    def qconsume_(self, q, n=None, wait=0): return self.send(0x12, s_(q) + j_(batchSize=n, waitMs=wait))
    def qconsume(self, q, n=None, wait=0, t=20): return msgs(self.wait(self.qconsume_(q, n, wait), t))
    def qack(self, q, u): return self.do(0x13, u + s_(q))
    def qnack(self, q, u, why="no"): return self.do(0x1A, u + s_(q) + s_(why))
    def qdelete(self, q): return self.do(0x15, s_(q))
    def qpeek(self, q, lim=100, off=0):
        st, b = self.do(0x16, s_(q) + struct.pack(">II", lim, off)); tot, n = struct.unpack(">II", b[:8]); i = 8; r = []
        for _ in range(n):
            u = b[i:i + 16]; k = struct.unpack(">I", b[i + 16:i + 20])[0]; p = b[i + 20:i + 20 + k]; i += 20 + k
            a, k = struct.unpack(">II", b[i:i + 8]); r.append((u, p, a, b[i + 8:i + 8 + k])); i += 8 + k
        return tot, r
    def qmove(self, q, u): return self.do(0x17, s_(q) + u)
    def qdrop(self, q, u): return self.do(0x18, s_(q) + u)
    def qpurge(self, q): return self.do(0x19, s_(q))
    # pub/sub
    def pub(self, t, p, retain=None, ttl=None): return self.do(0x21, s_(t) + j_(retain=retain, ttl=ttl) + p)
    def sub(self, t): return self.do(0x22, s_(t))
    def unsub(self, t): return self.do(0x23, s_(t))
    # streams
    def screate(self, t, age=None, size=None):
        r = {}
        if age is not None: r["maxAgeMs"] = age
        if size is not None: r["maxBytes"] = size
        return self.do(0x30, s_(t) + s_(json.dumps(dict(retention=r) if r else {})))
    def spub(self, t, p): st, b = self.do(0x31, s_(t) + p); return struct.unpack(">Q", b)[0] if st == DATA else None
    def sjoin(self, t, g):
        """(group, member id, generation)"""
        r = self.do(0x33, s_(g) + s_(t))
        if r is None or r[0] != DATA: return None
        b = r[1]; gen, n = struct.unpack(">QI", b[8:20]); return g, b[20:20 + n], gen
    def sfetch_(self, t, m, n=10, wait=0): return self.send(0x32, s_(t) + s_(m[0]) + s_(m[1]) + struct.pack(">QII", m[2], n, wait))
    def sfetch(self, t, m, n=10, wait=0, tm=20): return smsgs(self.wait(self.sfetch_(t, m, n, wait), tm))
    def sack(self, t, m, seq): return self.do(0x34, s_(t) + s_(m[0]) + s_(m[1]) + struct.pack(">QQ", m[2], seq))
    def sleave(self, t, m): return self.do(0x39, s_(t) + s_(m[0]) + s_(m[1]) + struct.pack(">Q", m[2]))
    def sseek(self, t, g, to): return self.do(0x38, s_(t) + s_(g) + bytes([to]))
    def sdelete(self, t): return self.do(0x36, s_(t))
def smsgs(r):
    """[(sequence number, payload)]"""
    if r is None or r[0] != DATA: return None
    b = r[1]; n = struct.unpack(">I", b[:4])[0]; i = 4; out = []
    for _ in range(n):
        q, ts, k = struct.unpack(">QQI", b[i:i + 20]); out.append((q, b[i + 20:i + 20 + k])); i += 20 + k
    return out
def msgs(r):
    if r is None or r[0] != DATA: return None
    b = r[1]; n = struct.unpack(">I", b[:4])[0]; i = 4; out = []
    for _ in range(n):
        u = b[i:i + 16]; k = struct.unpack(">I", b[i + 16:i + 20])[0]; out.append((u, b[i + 20:i + 20 + k])); i += 20 + k
    return out
def fail(m): print("FAIL:", m); sys.exit(1)
def passed(): print("ok"); sys.exit(0)
