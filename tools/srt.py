"""A minimal client of the SRT library (ctypes); nothing here blocks but connect()."""
import ctypes
import ctypes.util
import socket
import struct
import time

RCVSYN, SNDSYN, LINGER, TSBPD, TLPKTDROP, STREAMID, TRANSTYPE, SNDDATA, CONNTIMEO = 2, 1, 7, 22, 31, 46, 50, 19, 36
CONNECTED, BROKEN = 5, 6
_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL("libsrt.so.1.5")
        _lib.srt_getlasterror_str.restype = ctypes.c_char_p
        _lib.srt_startup()
        _lib.srt_setloglevel(0)
    return _lib


class Refused(Exception):
    pass


class SrtConn:
    def __init__(self, port, streamid, file=False):
        l = lib()
        self.fd = l.srt_create_socket()
        self.eof, self.msgs, self.failed = False, [], False
        self._set(TRANSTYPE, 1 if file else 0)
        self._set(TSBPD, 0, 1)
        if not file:
            self._set(TLPKTDROP, 0, 1)
        self._set(CONNTIMEO, 3000)
        if streamid is not None:
            b = streamid.encode() if isinstance(streamid, str) else streamid
            if l.srt_setsockflag(self.fd, STREAMID, b, len(b)) != 0:
                raise ValueError("stream id")
        a = struct.pack("<H", socket.AF_INET) + struct.pack(">H", port) + socket.inet_aton("127.0.0.1") + b"\0" * 8
        if l.srt_connect(self.fd, a, len(a)) != 0:
            e = l.srt_getlasterror_str()
            l.srt_close(self.fd)
            raise Refused(e)
        self._set(RCVSYN, 0, 1)
        self._set(SNDSYN, 0, 1)

    def _set(self, opt, v, n=4):
        lib().srt_setsockflag(self.fd, opt, struct.pack("<i", v), n)

    def send(self, b):
        """one message"""
        for _ in range(2000):
            if lib().srt_sendmsg(self.fd, b, len(b), -1, 1) == len(b):
                return True
            if self.state() != CONNECTED:
                break
            time.sleep(.001)
        self.failed = True
        return False

    def local(self):
        """the port it calls from"""
        b, n = ctypes.create_string_buffer(16), ctypes.c_int(16)
        lib().srt_getsockname(self.fd, b, ctypes.byref(n))
        return struct.unpack(">H", b.raw[2:4])[0]

    def unsent(self):
        v, n = ctypes.c_int(0), ctypes.c_int(4)
        lib().srt_getsockflag(self.fd, SNDDATA, ctypes.byref(v), ctypes.byref(n))
        return v.value

    def state(self):
        return lib().srt_getsockstate(self.fd)

    def poll(self):
        """take whatever has arrived"""
        buf = ctypes.create_string_buffer(2000)
        while not self.eof:
            n = lib().srt_recvmsg(self.fd, buf, 2000)
            if n > 0:
                self.msgs.append(buf.raw[:n])
                continue
            if lib().srt_getlasterror(None) // 1000 != 6:
                self.eof = True
            break
        return self.msgs

    def close(self):
        lib().srt_close(self.fd)
        self.eof = True
