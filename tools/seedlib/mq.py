"""Minimal MQTT 3.1.1 client and broker runner for the demonstrations (python3, loopback only)."""
import os, signal, socket, struct, subprocess, sys, tempfile, time, shutil, atexit

ROOT = os.getcwd()
BROKER = os.path.join(ROOT, "target/debug/ratelmq")
PASSWD = os.path.join(ROOT, "target/debug/ratelmq-passwd")
SCRATCH = tempfile.mkdtemp(prefix="mqdemo")
_procs = []

def _cleanup():
    for p in _procs:
        if p.poll() is None:
            p.kill()
    shutil.rmtree(SCRATCH, ignore_errors=True)
atexit.register(_cleanup)

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close()
    return p

def passwd(args):
    return subprocess.run([PASSWD] + args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode

def broker(listeners=1, users="", env=None, wait=True):
    """Starts the real broker; returns (process, ports)."""
    for attempt in range(5):
        ports = [free_port() for _ in range(listeners)]
        d = tempfile.mkdtemp(dir=SCRATCH)
        pw = os.path.join(d, "passwd")
        if users is not None:
            with open(pw, "w") as f: f.write(users)
        conf = os.path.join(d, "ratelmq.toml")
        with open(conf, "w") as f:
            f.write("[mqtt]\nlisteners_tcp = [%s]\n[authentication]\npassword_file = \"%s\"\n"
                    % (",".join('"127.0.0.1:%d"' % p for p in ports), pw))
        p = subprocess.Popen([BROKER, "-c", conf], cwd=d, stdout=subprocess.DEVNULL,
                             stderr=open(os.path.join(d, "log"), "w"), env=dict(os.environ, **(env or {})))
        _procs.append(p)
        if not wait:
            return p, ports
        end = time.time() + 10
        up = False
        while time.time() < end and p.poll() is None and not up:
            up = True
            for port in ports:
                try:
                    s = socket.create_connection(("127.0.0.1", port), timeout=1); s.close()
                except OSError:
                    up = False
            if not up: time.sleep(0.05)
        if up:
            time.sleep(0.1)
            return p, ports
        p.kill()
    raise SystemExit("broker did not start")

def s(x):
    b = x if isinstance(x, bytes) else x.encode()
    return struct.pack(">H", len(b)) + b

def rl(n):
    out = b""
    while True:
        b = n % 128; n //= 128
        out += bytes([b | (128 if n else 0)])
        if not n: return out

def pkt(first, body): return bytes([first]) + rl(len(body)) + body

def connect(cid="", user=None, password=None, clean=True, keep=0, will=None):
    flags = 2 if clean else 0
    if will: flags |= 4
    if user is not None: flags |= 128
    if password is not None: flags |= 64
    body = s("MQTT") + bytes([4, flags]) + struct.pack(">H", keep) + s(cid)
    if will: body += s(will[0]) + s(will[1])
    if user is not None: body += s(user)
    if password is not None: body += s(password)
    return pkt(0x10, body)

def publish(topic, payload=b"", qos=0, pid=1, dup=0, retain=0):
    if isinstance(payload, str): payload = payload.encode()
    body = s(topic) + (struct.pack(">H", pid) if qos else b"") + payload
    return pkt(0x30 | dup << 3 | qos << 1 | retain, body)

def subscribe(pid, *filters): return pkt(0x82, struct.pack(">H", pid) + b"".join(s(f) + b"\0" for f in filters))
def unsubscribe(pid, *filters): return pkt(0xA2, struct.pack(">H", pid) + b"".join(s(f) for f in filters))
PING = b"\xc0\x00"
DISCONNECT = b"\xe0\x00"

class Timeout(Exception): pass

class Client:
    def __init__(self, port, cid=None, source_port=0, rcvbuf=None, **kw):
        self.sock = socket.socket()
        if rcvbuf: self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        if source_port:
            self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            self.sock.bind(("127.0.0.1", source_port))
        self.sock.settimeout(10)
        self.sock.connect(("127.0.0.1", port))
        self.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.pid = 0
        if cid is not None:
            self.send(connect(cid, **kw))
            self.connack = self.recv()
    def send(self, data): self.sock.sendall(data)
    def _fill(self, timeout):
        self.sock.settimeout(timeout)
        try:
            d = self.sock.recv(65536)
        except socket.timeout:
            raise Timeout()
        except OSError:
            d = b""
        if not d: raise EOFError
        self.buf += d
    def recv(self, timeout=10):
        """Next packet as (first byte, body); raises Timeout or EOFError."""
        while True:
            i, n, m = 1, 0, 1
            ok = False
            while i < len(self.buf):
                b = self.buf[i]; i += 1
                n += (b & 127) * m; m *= 128
                if not b & 128: ok = True; break
            if ok and len(self.buf) >= i + n:
                r = (self.buf[0], self.buf[i:i + n]); self.buf = self.buf[i + n:]
                return r
            self._fill(timeout)
    def rpc(self, data, timeout=10):
        self.send(data)
        return self.recv(timeout)
    def sub(self, *filters):
        self.pid += 1
        r = self.rpc(subscribe(self.pid, *filters)); assert r[0] == 0x90, r
        return r
    def unsub(self, *filters):
        self.pid += 1
        r = self.rpc(unsubscribe(self.pid, *filters)); assert r[0] == 0xB0, r
        return r
    def drain(self, timeout=10):
        """All deliveries up to a PINGRESP, as [(topic, payload)]."""
        self.send(PING)
        out = []
        while True:
            first, body = self.recv(timeout)
            if first == 0xD0: return out
            if first >> 4 == 3:
                n = struct.unpack(">H", body[:2])[0]
                out.append((body[2:2 + n].decode(), body[2 + n:]))
            else:
                out.append((first, body))
    def closed(self, timeout=5):
        end = time.time() + timeout
        try:
            while time.time() < end: self.recv(max(0.05, end - time.time()))
        except EOFError: return True
        except Timeout: pass
        return False
    def close(self): self.sock.close()

def check(cond, text):
    if not cond:
        print("FAILED:", text); sys.exit(1)

def ok():
    print("ok"); sys.exit(0)
