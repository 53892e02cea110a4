"""Minimal client and server driver for demonstrations. Everything happens in a scratch directory that is removed at the end."""
import os, sys, socket, struct, subprocess, tempfile, shutil, time, threading, json, urllib.request, urllib.parse, atexit, signal

OPS = dict(SET=2, GET=3, DEL=4, Q_CREATE=0x10, Q_PUSH=0x11, Q_CONSUME=0x12, Q_ACK=0x13, Q_EXISTS=0x14, Q_DELETE=0x15, Q_PEEK=0x16,
           Q_MOVE=0x17, Q_DELDLQ=0x18, Q_PURGE=0x19, Q_NACK=0x1A, PUB=0x21, SUB=0x22, UNSUB=0x23, S_CREATE=0x30, S_PUB=0x31,
           S_FETCH=0x32, S_JOIN=0x33, S_ACK=0x34, S_EXISTS=0x35, S_DELETE=0x36, S_SEEK=0x38, S_LEAVE=0x39)
globals().update(OPS)
u32 = lambda n: struct.pack('>I', n)
u64 = lambda n: struct.pack('>Q', n)
def st(s):
    b = s.encode() if isinstance(s, str) else s
    return u32(len(b)) + b

def free_port():
    s = socket.socket(); s.bind(('127.0.0.1', 0)); p = s.getsockname()[1]; s.close(); return p

class Err(Exception):
    pass

class Server:
    def __init__(self, sigxfsz_ignored=False, **env):
        if sigxfsz_ignored: signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        self.restore = not sigxfsz_ignored
        self.dir = tempfile.mkdtemp(prefix='nexo-demo-')
        self.env = env
        self.p = None
        atexit.register(self.stop)
        self.start()
    def start(self):
        self.tcp, self.http = free_port(), free_port()
        e = dict(os.environ)
        e.update(NEXO_LOG='error', SERVER_HOST='127.0.0.1', SERVER_SOCKET_TCP_PORT=str(self.tcp), SERVER_DASHBOARD_HTTP_PORT=str(self.http),
                 QUEUE_ROOT_PERSISTENCE_PATH=self.dir + '/queues', STREAM_ROOT_PERSISTENCE_PATH=self.dir + '/streams', PUBSUB_ROOT_PERSISTENCE_PATH=self.dir + '/pubsub')
        e.update({k: str(v) for k, v in self.env.items()})
        exe = os.path.join(os.getcwd(), 'target/debug/nexo')
        self.p = subprocess.Popen([exe], env=e, cwd=self.dir, stdout=open(self.dir + '/log', 'ab') if self.restore else subprocess.DEVNULL, stderr=subprocess.STDOUT, restore_signals=self.restore)
        end = time.time() + 30
        while True:
            try:
                socket.create_connection(('127.0.0.1', self.tcp)).close(); break
            except OSError:
                if time.time() > end: raise
                time.sleep(0.02)
    def kill(self):
        self.p.kill(); self.p.wait()
    def restart(self):
        self.kill(); self.start()
    def stop(self):
        if self.p: self.p.kill(); self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)
    def conn(self):
        return Conn(self.tcp)
    def get(self, path):
        with urllib.request.urlopen('http://127.0.0.1:%d%s' % (self.http, path), timeout=10) as r:
            return json.loads(r.read())

class Conn:
    def __init__(self, port):
        self.s = socket.create_connection(('127.0.0.1', port)); self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.id = 0; self.resp = {}; self.push = []; self.cv = threading.Condition(); self.dead = False
        threading.Thread(target=self.rd, daemon=True).start()
    def rd(self):
        b = b''
        try:
            while True:
                d = self.s.recv(65536)
                if not d: break
                b += d
                while len(b) >= 10:
                    t, op, i, n = struct.unpack('>BBII', b[:10])
                    if len(b) < 10 + n: break
                    p = b[10:10 + n]; b = b[10 + n:]
                    with self.cv:
                        if t == 2: self.resp[i] = (op, p)
                        elif t == 3:
                            k = struct.unpack('>I', p[:4])[0]
                            self.push.append((p[4:4 + k].decode(), p[4 + k:]))
                        self.cv.notify_all()
        except OSError:
            pass
        with self.cv:
            self.dead = True; self.cv.notify_all()
    def send(self, op, p=b''):
        self.id += 1
        self.s.sendall(struct.pack('>BBII', 1, op, self.id, len(p)) + p)
        return self.id
    def wait(self, i, t=15):
        with self.cv:
            if not self.cv.wait_for(lambda: i in self.resp or self.dead, t): raise Err('no answer within %ss' % t)
            if i not in self.resp: raise Err('connection closed')
            op, p = self.resp.pop(i)
        if op == 1: raise Err(p[4:].decode())
        return None if op == 2 else p
    def call(self, op, p=b'', t=15):
        return self.wait(self.send(op, p), t)
    def pushes(self, n=None, t=3):
        with self.cv:
            if n is not None: self.cv.wait_for(lambda: len(self.push) >= n, t)
            else:
                self.cv.release(); time.sleep(t); self.cv.acquire()
            v, self.push = self.push, []
            return v
    def close(self):
        try: self.s.shutdown(socket.SHUT_RDWR)
        except OSError: pass
        self.s.close()
    # store
    def set(self, k, v, ttl=None): return self.call(SET, st(k) + st(json.dumps({} if ttl is None else {'ttl': ttl})) + v)
    def get(self, k): return self.call(GET, st(k))
    def delete(self, k): return self.call(DEL, st(k))
    # queues
    def qcreate(self, q, **o): return self.call(Q_CREATE, st(q) + st(json.dumps(o)))
    def qpush(self, q, v, prio=0): return self.call(Q_PUSH, st(q) + st(json.dumps({'priority': prio})) + v)
    def qconsume_send(self, q, n=10, wait=0): return self.send(Q_CONSUME, st(q) + st(json.dumps({'batchSize': n, 'waitMs': wait})))
    def qconsume(self, q, n=10, wait=0, t=15): return batch(self.wait(self.qconsume_send(q, n, wait), t))
    def qack(self, q, i): return self.call(Q_ACK, i + st(q))
    def qnack(self, q, i, r='x'): return self.call(Q_NACK, i + st(q) + st(r))
    def qpeek(self, q, n=100, off=0):
        p = self.call(Q_PEEK, st(q) + u32(n) + u32(off)); total, k = struct.unpack('>II', p[:8]); p = p[8:]; v = []
        for _ in range(k):
            i = p[:16]; n = struct.unpack('>I', p[16:20])[0]; b = p[20:20 + n]; p = p[20 + n:]
            a, m = struct.unpack('>II', p[:8]); v.append((i, b, a, p[8:8 + m].decode())); p = p[8 + m:]
        return total, v
    # pub/sub
    def pub(self, t, v, **o): return self.call(PUB, st(t) + st(json.dumps(o)) + v)
    def sub(self, t): return self.call(SUB, st(t))
    def unsub(self, t): return self.call(UNSUB, st(t))
    # streams
    def screate(self, s, **o): return self.call(S_CREATE, st(s) + st(json.dumps(o)))
    def spub(self, s, v): return struct.unpack('>Q', self.call(S_PUB, st(s) + v))[0]
    def sjoin(self, s, g):
        p = self.call(S_JOIN, st(g) + st(s)); f, gen = struct.unpack('>QQ', p[:16]); n = struct.unpack('>I', p[16:20])[0]
        return f, gen, p[20:20 + n].decode()
    def sfetch_send(self, s, g, j, n=100, wait=0): return self.send(S_FETCH, st(s) + st(g) + st(j[2]) + u64(j[1]) + u32(n) + u32(wait))
    def sfetch(self, s, g, j, n=100, wait=0, t=15): return fetch(self.wait(self.sfetch_send(s, g, j, n, wait), t))
    def sack(self, s, g, j, q): return self.call(S_ACK, st(s) + st(g) + st(j[2]) + u64(j[1]) + u64(q))
    def sleave(self, s, g, j): return self.call(S_LEAVE, st(s) + st(g) + st(j[2]) + u64(j[1]))
    def sseek(self, s, g, end): return self.call(S_SEEK, st(s) + st(g) + bytes([1 if end else 0]))

def batch(p):
    n = struct.unpack('>I', p[:4])[0]; p = p[4:]; v = []
    for _ in range(n):
        i = p[:16]; k = struct.unpack('>I', p[16:20])[0]; v.append((i, p[20:20 + k])); p = p[20 + k:]
    return v
def fetch(p):
    n = struct.unpack('>I', p[:4])[0]; p = p[4:]; v = []
    for _ in range(n):
        q, ts, k = struct.unpack('>QQI', p[:20]); v.append((q, ts, p[20:20 + k])); p = p[20 + k:]
    return v
def read(srv, topic, frm=1, limit=500):
    return srv.get('/api/stream/%s/messages?from=%d&limit=%d' % (urllib.parse.quote(topic, safe=''), frm, limit))
def expect(c, what):
    if not c:
        print('FAIL: ' + what); sys.stdout.flush(); sys.exit(1)
