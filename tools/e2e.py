"""Drives the real server (harness/drv_spsd.cpp) over loopback sockets."""
import errno
import os
import select
import signal
import socket
import struct
import subprocess
import tempfile
import time


class ServerDied(Exception):
    pass


_lcg = [0]


def free_ports(n, keep=None):
    """n distinct free TCP ports; the sockets put into keep hold them against other
    processes (bound but not listening: the server may still bind them)"""
    socks, ports = [], []
    for _ in range(n):
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.bind(("127.0.0.1", 0))
        ports.append(s.getsockname()[1])
        socks.append(s)
    if keep is None:
        for s in socks:
            s.close()
    else:
        keep += socks
    return ports


class Server:
    """one server process; conf is a format string with {http}, {http2}, {origin} ports"""

    def __init__(self, exe, conf_text, nports=1, workdir=None, rlimit_nofile=None, origin_ports=(), log=False):
        self.log = log or os.environ.get("SPS_LOG")
        self.exe = exe
        self.conf_text = conf_text
        self.nports = nports
        self.origin_ports = list(origin_ports)
        self.proc = None
        self.workdir = workdir or tempfile.mkdtemp(prefix="spsd.")
        self.ctl = None
        self.kept = []

    def release(self):
        for s in self.kept:
            s.close()
        self.kept = []

    def start(self, wait=True):
        for attempt in range(20):
            self.release()
            ports = free_ports(self.nports + 1, self.kept)
            self.ctl_port, self.ports = ports[0], ports[1:]
            text = self.conf_text
            for i, p in enumerate(self.ports):
                text = text.replace("@PORT%d@" % i, str(p))
            for i, p in enumerate(self.origin_ports):
                text = text.replace("@ORIGIN%d@" % i, str(p))
            conf = os.path.join(self.workdir, "sps.conf")
            with open(conf, "w") as f:
                f.write(text)
            log = open(os.path.join(self.workdir, "log"), "wb")
            self.proc = subprocess.Popen([self.exe, "sps.conf", str(self.ctl_port)], stdout=log if self.log else subprocess.DEVNULL,
                                         stderr=log, stdin=subprocess.DEVNULL, cwd=self.workdir)
            log.close()
            if not wait:
                return self
            t0 = time.time()
            while time.time() - t0 < 20:
                if self.proc.poll() is not None:
                    break
                try:
                    self.ctl = socket.create_connection(("127.0.0.1", self.ctl_port), timeout=60)
                    self.ctl.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                    self.ping()
                    # the listening ports must be up as well
                    return self
                except (OSError, ServerDied):
                    time.sleep(0.01)
            rc = self.proc.poll()
            self.stop()
            if rc is not None and attempt < 3:
                continue     # a port may have been taken in between
            raise ServerDied("server did not start (exit %s): %s" % (rc, self.stderr()[-2000:]))

    def stderr(self):
        try:
            return open(os.path.join(self.workdir, "log"), errors="replace").read()
        except OSError:
            return ""

    def _cmd(self, line, meanwhile=None):
        try:
            self.ctl.sendall(line.encode() + b"\n")
            if meanwhile:
                meanwhile()
            r = b""
            while not r.endswith(b"\n"):
                d = self.ctl.recv(100)
                if not d:
                    raise ServerDied(self.how_died())
                r += d
            return r
        except socket.timeout:
            raise ServerDied("server does not answer (wedged)")
        except OSError as e:
            raise ServerDied(self.how_died() + " " + str(e))

    def how_died(self):
        try:
            rc = self.proc.wait(timeout=2)
        except subprocess.TimeoutExpired:
            return "control connection lost"
        return "server exited with %s: %s" % (rc, self.stderr()[-1500:])

    def ping(self):
        self._cmd("ping")

    def hold(self):
        """the server stands still until go()"""
        self._cmd("hold")

    def go(self):
        self._cmd("go")

    def mem(self):
        return int(self._cmd("mem").split()[1])

    def count(self):
        return int(self._cmd("count").split()[1])

    def gap(self, meanwhile, ms):
        """meanwhile() happens between the server's look and its wait"""
        self._cmd("gap")
        self._cmd("adv %d" % ms, lambda: (time.sleep(.004), meanwhile()))

    def quit(self):
        """flushes the log"""
        try:
            self.ctl.sendall(b"quit\n")
            self.proc.wait(5)
        except (OSError, subprocess.TimeoutExpired):
            pass

    def advance(self, ms):
        self._cmd("adv %d" % ms)

    def alive(self):
        return self.proc.poll() is None

    def nfds(self):
        return len(os.listdir("/proc/%d/fd" % self.proc.pid))

    def stop(self):
        if self.ctl:
            self.ctl.close()
            self.ctl = None
        if self.proc and self.proc.poll() is None:
            self.proc.kill()
        if self.proc:
            self.proc.wait()
        self.release()

    def cleanup(self):
        self.stop()
        for f in ("sps.conf", "log"):
            try:
                os.unlink(os.path.join(self.workdir, f))
            except OSError:
                pass
        try:
            os.rmdir(self.workdir)
        except OSError:
            pass


class Conn:
    """client connection; never blocks on receive (use after a barrier)"""

    def __init__(self, port, rcvbuf=None):
        self.s = socket.socket()
        if rcvbuf:
            self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        self.s.connect(("127.0.0.1", port))
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.eof = False       # peer closed (FIN or RST)
        self.sent_error = False

    def send(self, data):
        try:
            self.s.sendall(data)
        except OSError:
            self.sent_error = True

    def poll(self):
        """take whatever has arrived"""
        while not self.eof:
            r, _, _ = select.select([self.s], [], [], 0)
            if not r:
                break
            try:
                d = self.s.recv(1 << 18)
            except OSError as e:
                self.eof = True
                break
            if not d:
                self.eof = True
                break
            self.buf += d
            self.quick()
        return self.buf

    def quick(self):
        """acknowledge at once: the server's next small write waits for it (Nagle)"""
        try:
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
        except OSError:
            pass

    def wait(self, pred, timeout=5.0):
        t0 = time.time()
        while True:
            self.poll()
            if pred(self) or self.eof:
                return pred(self)
            left = timeout - (time.time() - t0)
            if left <= 0:
                return False
            select.select([self.s], [], [], left)

    def close(self):
        if self.s:
            self.s.close()

    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

    def shut_wr(self):
        try:
            self.s.shutdown(socket.SHUT_WR)
        except OSError:
            pass


# ---------------------------------------------------------------- FLV ----
FLV_HEADER = b"FLV\x01\x05\x00\x00\x00\x09"
TAG = {"audio": 8, "ah": 8, "video": 9, "vh": 9, "key": 9, "inter": 9, "script": 18}


def flv_tag(kind, ts, body):
    """tag without the leading previous-size"""
    return (bytes([TAG[kind]]) + struct.pack(">I", len(body))[1:] + struct.pack(">I", ts & 0xffffffff)[1:]
            + bytes([(ts >> 24) & 0xff]) + b"\0\0\0" + body)


def flv_body(kind, payload, cts=0):
    if kind == "script":
        return payload
    if kind == "ah":
        return b"\xaf\x00" + payload
    if kind == "audio":
        return b"\xaf\x01" + payload
    c = struct.pack(">i", cts)[1:]
    if kind == "vh":
        return b"\x17\x00" + c + payload
    if kind == "key":
        return b"\x17\x01" + c + payload
    if kind == "inter":
        return b"\x27\x01" + c + payload
    raise ValueError(kind)


class FlvStream:
    """incremental, strict FLV parser (independent of the code under test)"""

    def __init__(self):
        self.buf = b""
        self.header = False
        self.prev = 0
        self.error = None

    def feed(self, data):
        self.buf += data
        out = []
        if self.error:
            return out
        if not self.header:
            if len(self.buf) < 9:
                return out
            if self.buf[:9] != FLV_HEADER:
                self.error = "bad FLV header %r" % self.buf[:9]
                return out
            self.buf = self.buf[9:]
            self.header = True
        o, buf = 0, self.buf
        while len(buf) - o >= 15:
            prev = int.from_bytes(buf[o:o + 4], "big")
            typ = buf[o + 4]
            size = int.from_bytes(buf[o + 5:o + 8], "big")
            ts = int.from_bytes(buf[o + 8:o + 11], "big") | buf[o + 11] << 24
            sid = int.from_bytes(buf[o + 12:o + 15], "big")
            if prev != self.prev:
                self.error = "previous tag size %d, expected %d" % (prev, self.prev)
                break
            if typ not in (8, 9, 18) or sid != 0:
                self.error = "bad tag type %d or stream id %d" % (typ, sid)
                break
            if len(buf) - o < 15 + size:
                break
            out.append((typ, ts, buf[o + 15:o + 15 + size]))
            o += 15 + size
            self.prev = 11 + size
        self.buf = buf[o:]
        return out


def http_head(buf):
    """(status, headers-list, rest) or None when the head is incomplete"""
    i = buf.find(b"\r\n\r\n")
    if i < 0:
        return None
    lines = buf[:i].split(b"\r\n")
    try:
        status = int(lines[0].split(b" ")[1])
    except (IndexError, ValueError):
        return (-1, [], buf[i + 4:])
    hs = []
    for l in lines[1:]:
        k, _, v = l.partition(b":")
        hs.append((k.decode("latin1"), v.strip().decode("latin1")))
    return (status, hs, buf[i + 4:])
