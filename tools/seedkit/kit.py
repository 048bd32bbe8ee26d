"""what the server demonstrations share"""
import os, socket, struct, subprocess, sys, time

def ports(n):
    ss = []
    for _ in range(n):
        s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1); s.bind(("127.0.0.1", 0)); ss.append(s)
    ps = [s.getsockname()[1] for s in ss]
    for s in ss: s.close()
    return ps

class Srv:
    def __init__(self, w, conf):
        os.makedirs(w, exist_ok=True)
        open(os.path.join(w, "t.conf"), "w").write(conf)
        self.w = w
        self.p = subprocess.Popen([os.path.join(w, "spsd"), "t.conf"], cwd=w, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def up(self, port):
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", port), 1).close(); return self
            except OSError: time.sleep(.05)
        raise SystemExit("server not up")
    def alive(self): return self.p.poll() is None
    def stop(self): self.p.kill(); self.p.wait()

def conn(port, rcvbuf=None):
    s = socket.socket()
    if rcvbuf: s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.connect(("127.0.0.1", port)); s.settimeout(20); return s

def get(port, path, host="a.com", **k):
    s = conn(port, **k); s.sendall(("GET %s HTTP/1.1\r\nHost: %s\r\n\r\n" % (path, host)).encode()); return s

def post(port, path, host="a.com"):
    s = conn(port); s.sendall(("POST %s HTTP/1.1\r\nHost: %s\r\nTransfer-Encoding: chunked\r\n\r\n" % (path, host)).encode()); return s

def chunk(s, b): s.sendall(b"%x\r\n" % len(b) + b + b"\r\n")

HDR = b"FLV\x01\x05\0\0\0\x09"
class Mux:
    def __init__(self): self.prev = 0
    def tag(self, t, ts, body):
        r = struct.pack(">I", self.prev) + bytes([t]) + len(body).to_bytes(3, "big") + (ts & 0xffffff).to_bytes(3, "big") + bytes([ts >> 24]) + b"\0\0\0" + body
        self.prev = 11 + len(body); return r
    def key(self, ts, d): return self.tag(9, ts, b"\x17\1\0\0\0" + d)
    def inter(self, ts, d): return self.tag(9, ts, b"\x27\1\0\0\0" + d)
    def aac(self, ts, d): return self.tag(8, ts, b"\xaf\1" + d)
    def vsh(self, ts, d): return self.tag(9, ts, b"\x17\0\0\0\0" + d)
    def ash(self, ts, d): return self.tag(8, ts, b"\xaf\0" + d)
    def meta(self, ts, d): return self.tag(18, ts, d)

def rd(s, n, t=10):
    s.settimeout(t); b = b""
    while len(b) < n:
        try: x = s.recv(n - len(b))
        except OSError: break
        if not x: break
        b += x
    return b

def head(s, t=12):
    s.settimeout(t); b = b""
    while not b.endswith(b"\r\n\r\n"):
        try: x = s.recv(1)
        except OSError: break
        if not x: break
        b += x
    return b

def quiet(s, t=.3):
    """what arrives until nothing comes for t seconds"""
    s.settimeout(t); b = b""
    while True:
        try: x = s.recv(65536)
        except OSError: return b
        if not x: return b
        b += x

def dechunk(b):
    r = b""
    while b:
        i = b.find(b"\r\n")
        if i < 0: break
        n = int(b[:i], 16); r += b[i + 2:i + 2 + n]; b = b[i + 2 + n + 2:]
    return r

def tags(b):
    """(type, ts, body) of an FLV stream, header included"""
    r, o = [], 9
    while len(b) >= o + 15:
        n = int.from_bytes(b[o + 5:o + 8], "big")
        if len(b) < o + 15 + n: break
        r.append((b[o + 4], int.from_bytes(b[o + 8:o + 11], "big") | b[o + 11] << 24, b[o + 15:o + 15 + n])); o += 15 + n
    return r

def player(port, path, host="a.com", **k):
    """joined player: (socket, status line)"""
    s = get(port, path, host, **k); h = head(s); return s, h

def conf(body): return body
