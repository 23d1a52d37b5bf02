"""ctypes face of native/peer.c."""
import ctypes, os
from . import build

TIMEOUT = float(os.environ.get("VERIF_PATIENCE", "20"))
OK, CLOSED, TMO, RESET, EOF, TLSERR = 1, 0, -1, -2, -3, -4
KIND = {0: "closed", -1: "timeout", -2: "reset", -3: "eof", -4: "tls-error"}
_lib = None


def lib():
    global _lib
    if _lib is None:
        L = ctypes.CDLL(os.path.join(build.native(), "libpeer.so"))
        P, S, I, B = ctypes.c_void_p, ctypes.c_char_p, ctypes.c_int, ctypes.c_char_p
        L.peer_client.restype = P
        L.peer_client.argtypes = [S, I, S, S, B, ctypes.c_uint, I, S, S, I, I]
        L.peer_server.restype = P
        L.peer_server.argtypes = [I, I, S, S, I]
        L.peer_add_id.argtypes = [P, S, B, ctypes.c_uint]
        for n in ("peer_connected", "peer_fd", "peer_reused"):
            getattr(L, n).argtypes = [P]
        for n in ("peer_error", "peer_identity", "peer_version", "peer_cipher"):
            getattr(L, n).argtypes = [P]
            getattr(L, n).restype = S
        L.peer_set_frag.argtypes = [P, ctypes.c_size_t, ctypes.c_uint]
        L.peer_set_frag.restype = None
        L.peer_set_max_in.argtypes = [P, ctypes.c_size_t]
        L.peer_set_max_in.restype = None
        for n in ("peer_handshake", "peer_fill", "peer_flush", "peer_close_notify", "peer_wait_eof", "peer_rekey"):
            getattr(L, n).argtypes = [P, I]
        L.peer_handshake_flight.argtypes = [P, B, I]
        L.peer_write.argtypes = [P, B, I, I]
        L.peer_raw_write.argtypes = [P, B, ctypes.c_size_t, I]
        L.peer_encrypt.argtypes = [P, B, I]
        L.peer_take.argtypes = [P, B, I]
        L.peer_read.argtypes = [P, B, I, I]
        L.peer_free.argtypes = [P, I]
        L.peer_free.restype = None
        L.peer_detach.argtypes = [P]
        L.peer_detach.restype = None
        L.peer_half_close.argtypes = [P]
        L.peer_half_close.restype = None
        _lib = L
    return _lib


class PeerGone(Exception):
    """The other side closed, reset, or did not answer in time."""

    def __init__(self, kind, what=""):
        Exception.__init__(self, "%s %s" % (kind, what))
        self.kind = kind


def _ms(t):
    return int((TIMEOUT if t is None else t) * 1000)


class Conn:
    """One TLS-PSK connection, client or server side."""

    def __init__(self, p):
        self.L, self.p = lib(), p
        self.buf = b""

    # -- construction
    @classmethod
    def client(cls, ip, port, identity, psk, tls=0, ciphers="", suites="", rcvbuf=0,
               handshake=True, src="", timeout=None):
        L = lib()
        p = L.peer_client(ip.encode(), port, src.encode(), _b(identity), _b(psk), len(_b(psk)), tls,
                          ciphers.encode(), suites.encode(), rcvbuf, _ms(timeout))
        if not p:
            raise RuntimeError("cannot create peer")
        c = cls(p)
        if not L.peer_connected(p):
            e = c.error()
            c.free()
            raise PeerGone("refused", e)
        if handshake:
            try:
                c.handshake(timeout)
            except PeerGone:
                c.free()
                raise
        return c

    @classmethod
    def server(cls, fd, ids, tls=0, ciphers="", suites="", rcvbuf=0):
        L = lib()
        p = L.peer_server(fd, tls, ciphers.encode(), suites.encode(), rcvbuf)
        if not p:
            raise RuntimeError("cannot create peer")
        c = cls(p)
        for i, k in ids:
            L.peer_add_id(p, _b(i), _b(k), len(_b(k)))
        return c

    # -- information
    def error(self):
        return self.L.peer_error(self.p).decode(errors="replace")

    def identity(self):
        return self.L.peer_identity(self.p)

    def version(self):
        return self.L.peer_version(self.p).decode()

    def cipher(self):
        return self.L.peer_cipher(self.p).decode()

    def fileno(self):
        return self.L.peer_fd(self.p)

    # -- I/O
    def frag(self, size, us=0):
        self.L.peer_set_frag(self.p, size, us)

    def handshake(self, timeout=None):
        r = self.L.peer_handshake(self.p, _ms(timeout))
        if r != OK:
            raise PeerGone(KIND[r], self.error())

    def flight(self):
        b = ctypes.create_string_buffer(65536)
        n = self.L.peer_handshake_flight(self.p, b, 65536)
        return b.raw[:n]

    def set_max_in(self, n):
        self.L.peer_set_max_in(self.p, n)

    def fill(self, timeout):
        return self.L.peer_fill(self.p, _ms(timeout))

    def send(self, data, timeout=None):
        """As one SSL_write()."""
        data = _b(data)
        r = self.L.peer_write(self.p, data, len(data), _ms(timeout))
        if r != OK:
            raise PeerGone(KIND[r], "while sending")

    def encrypt(self, data):
        data = _b(data)
        if self.L.peer_encrypt(self.p, data, len(data)) != OK:
            raise PeerGone("tls-error", "encrypt")

    def flush(self, timeout=None):
        r = self.L.peer_flush(self.p, _ms(timeout))
        if r != OK:
            raise PeerGone(KIND[r], "while sending")

    def take(self):
        b = ctypes.create_string_buffer(1 << 22)
        n = self.L.peer_take(self.p, b, 1 << 22)
        return b.raw[:n]

    def raw(self, data, timeout=None):
        """Raw bytes on the socket, below TLS."""
        r = self.L.peer_raw_write(self.p, data, len(data), _ms(timeout))
        if r != OK:
            raise PeerGone(KIND[r], "while sending")

    def recv(self, n=65536, timeout=None):
        """Some bytes; raises PeerGone."""
        if self.buf:
            d, self.buf = self.buf[:n], self.buf[n:]
            return d
        b = ctypes.create_string_buffer(n)
        r = self.L.peer_read(self.p, b, n, _ms(timeout))
        if r <= 0:
            raise PeerGone(KIND[r], self.error() if r == TLSERR else "while reading")
        return b.raw[:r]

    def recv_exact(self, n, timeout=None):
        d = b""
        while len(d) < n:
            d += self.recv(n - len(d), timeout)
        return d

    def line(self, timeout=None, limit=1 << 20):
        """One line including its terminator."""
        while b"\n" not in self.buf:
            if len(self.buf) > limit:
                raise PeerGone("overlong", repr(self.buf[:80]))
            b = ctypes.create_string_buffer(65536)
            r = self.L.peer_read(self.p, b, 65536, _ms(timeout))
            if r <= 0:
                raise PeerGone(KIND[r], "while waiting for a line, have %r" % self.buf[:200])
            self.buf += b.raw[:r]
        i = self.buf.index(b"\n") + 1
        d, self.buf = self.buf[:i], self.buf[i:]
        return d

    def ending(self, timeout=None):
        """Wait for the end of the connection: (kind, extra bytes received)."""
        extra, self.buf = self.buf, b""
        while True:
            b = ctypes.create_string_buffer(65536)
            r = self.L.peer_read(self.p, b, 65536, _ms(timeout))
            if r > 0:
                extra += b.raw[:r]
            else:
                return KIND[r], extra

    def close_notify(self):
        self.L.peer_close_notify(self.p, _ms(None))

    def wait_eof(self, timeout=None):
        return {OK: "eof", TMO: "timeout", RESET: "reset"}[self.L.peer_wait_eof(self.p, _ms(timeout))]

    def rekey(self):
        return self.L.peer_rekey(self.p, _ms(5))

    def half_close(self):
        self.L.peer_half_close(self.p)

    def free(self, rst=False):
        if self.p:
            self.L.peer_free(self.p, 1 if rst else 0)
            self.p = None

    def __del__(self):
        try:
            self.free()
        except Exception:
            pass


def _b(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")
