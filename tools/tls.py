"""A TLS client whose every byte on the wire is in the test's hands."""
import ctypes
import ssl

from e2e import Conn


class Failed(Exception):
    pass


class OpenSSL:
    def __init__(self, sni, ciphers=None):
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        ctx.minimum_version = ssl.TLSVersion.TLSv1_2
        if ciphers:
            ctx.set_ciphers(ciphers)
        self.i, self.o = ssl.MemoryBIO(), ssl.MemoryBIO()
        self.t = ctx.wrap_bio(self.i, self.o, server_hostname=sni)

    def handshake(self):
        try:
            self.t.do_handshake()
            return True
        except ssl.SSLWantReadError:
            return False
        except ssl.SSLError as e:
            raise Failed(str(e))

    def feed(self, raw):
        self.i.write(raw)

    def out(self):
        return self.o.read()

    def write(self, data):
        return self.t.write(data)

    def read(self):
        """None: nothing yet; b"": the end"""
        try:
            return self.t.read(1 << 18)
        except ssl.SSLWantReadError:
            return None
        except ssl.SSLError as e:
            raise Failed(str(e))

    def bye(self):
        try:
            self.t.unwrap()
        except ssl.SSLError:
            pass

    def cert(self):
        return self.t.getpeercert(True)

    def free(self):
        pass


class GnuTLS:
    """sends its first data right after its Finished (false start)"""
    lib = None
    AGAIN = -28

    def __init__(self, sni):
        if not GnuTLS.lib:
            L = GnuTLS.lib = ctypes.CDLL("libgnutls.so.30")
            for f in ("gnutls_record_send", "gnutls_record_recv"):
                getattr(L, f).restype = ctypes.c_ssize_t
            L.gnutls_strerror.restype = ctypes.c_char_p
            GnuTLS.FN = ctypes.CFUNCTYPE(ctypes.c_ssize_t, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_size_t)
            GnuTLS.FT = ctypes.CFUNCTYPE(ctypes.c_int, ctypes.c_void_p, ctypes.c_uint)
        L = self.L = GnuTLS.lib
        self.inp, self.outp = b"", b""
        self.s, self.cred = ctypes.c_void_p(), ctypes.c_void_p()
        L.gnutls_init(ctypes.byref(self.s), 2 | 8 | 256)
        L.gnutls_priority_set_direct(self.s, b"NORMAL:-VERS-ALL:+VERS-TLS1.2", None)
        L.gnutls_certificate_allocate_credentials(ctypes.byref(self.cred))
        L.gnutls_credentials_set(self.s, 1, self.cred)
        if sni:
            L.gnutls_server_name_set(self.s, 1, sni.encode(), ctypes.c_size_t(len(sni)))

        def push(_, p, n):
            self.outp += ctypes.string_at(p, n)
            return n

        def pull(_, p, n):
            b, self.inp = self.inp[:n], self.inp[n:]
            if not b:
                L.gnutls_transport_set_errno(self.s, 11)
                return -1
            ctypes.memmove(p, b, len(b))
            return len(b)

        self.cb = (GnuTLS.FN(push), GnuTLS.FN(pull), GnuTLS.FT(lambda p, ms: 1 if self.inp else 0))
        L.gnutls_transport_set_push_function(self.s, self.cb[0])
        L.gnutls_transport_set_pull_function(self.s, self.cb[1])
        L.gnutls_transport_set_pull_timeout_function(self.s, self.cb[2])

    def fail(self, r):
        raise Failed(self.L.gnutls_strerror(int(r)).decode())

    def handshake(self):
        r = self.L.gnutls_handshake(self.s)
        if r == 0:
            return True
        if self.L.gnutls_error_is_fatal(r):
            self.fail(r)
        return False

    def feed(self, raw):
        self.inp += raw

    def out(self):
        b, self.outp = self.outp, b""
        return b

    def write(self, data):
        r = self.L.gnutls_record_send(self.s, data, ctypes.c_size_t(len(data)))
        if r < 0:
            self.fail(r)
        return r

    def read(self):
        b = ctypes.create_string_buffer(1 << 16)
        r = self.L.gnutls_record_recv(self.s, b, ctypes.c_size_t(len(b)))
        if r >= 0:
            return b.raw[:r]
        if self.L.gnutls_error_is_fatal(int(r)):
            self.fail(r)
        return None

    def bye(self):
        self.L.gnutls_bye(self.s, 1)

    def cert(self):
        class D(ctypes.Structure):
            _fields_ = [("data", ctypes.c_void_p), ("size", ctypes.c_uint)]
        f = self.L.gnutls_certificate_get_peers
        f.restype = ctypes.POINTER(D)
        n = ctypes.c_uint()
        d = f(self.s, ctypes.byref(n))
        return ctypes.string_at(d[0].data, d[0].size) if n.value else b""

    def free(self):
        if self.s:
            self.L.gnutls_deinit(self.s)
            self.L.gnutls_certificate_free_credentials(self.cred)
            self.s = None


class TlsConn(Conn):
    """as Conn, over TLS; `flight` bytes are those the client wants to send next.
    fast: the client is up (may send data) before the server has finished"""

    def __init__(self, port, rcvbuf=None, sni="src.test", start=True, ciphers=None, fast=False):
        super().__init__(port, rcvbuf)
        self.t = GnuTLS(sni or None) if fast else OpenSSL(sni or None, ciphers)
        self.up, self.failed, self.waiting = False, None, b""
        self.flight = b""
        self.step()
        if start:
            self.go()

    # ---- the handshake
    def step(self):
        """goes on with the handshake as far as what has arrived allows"""
        if not self.up and not self.failed:
            try:
                self.up = self.t.handshake()
            except Failed as e:
                self.failed = str(e)
        self.flight += self.t.out()

    def go(self, n=None):
        """sends (the first n bytes of) the flight"""
        b, self.flight = (self.flight, b"") if n is None else (self.flight[:n], self.flight[n:])
        if b:
            super().send(b)

    def name(self):
        """the common name of the server's certificate"""
        der = self.t.cert()
        i = der.rfind(b"\x06\x03\x55\x04\x03")
        return der[i + 7:i + 7 + der[i + 6]].decode() if i >= 0 else "?"

    def encode(self, data):
        """into the flight"""
        while data:
            n = self.t.write(data[:16000])
            data = data[n:]
            self.flight += self.t.out()

    # ---- as Conn
    def send(self, data):
        if not self.up:
            self.waiting += data
            return
        self.encode(data)
        self.go()

    def raw(self):
        """takes what has arrived on the wire"""
        old, self.buf = self.buf, b""
        super().poll()
        raw, self.buf = self.buf, old
        if raw:
            self.t.feed(raw)
        return raw

    def take(self):
        """decodes what has arrived"""
        while self.up:
            try:
                d = self.t.read()
            except Failed as e:
                self.failed = str(e)
                self.eof = True
                break
            if d is None:
                break
            if not d:
                self.eof = True
                break
            self.buf += d

    def poll(self):
        self.raw()
        if not self.up:
            self.step()
            self.go()
            if self.up and self.waiting:
                w, self.waiting = self.waiting, b""
                self.send(w)
        self.take()
        return self.buf

    def shut_wr(self):
        """says that nothing more will come"""
        self.t.bye()
        self.flight += self.t.out()
        self.go()

    def close(self):
        super().close()
        self.t.free()

    def reset(self):
        super().reset()
        self.t.free()
