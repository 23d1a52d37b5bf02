"""A scripted NSCA-ng server for testing clients."""
import os, re, select, socket, threading, time
from .harness import B, J, free_listener, PeerGone, Conn, TIMEOUT


class Stop(Exception):
    """The script ends the connection: how = notify | fin | rst | hang."""

    def __init__(self, how):
        self.how = how


class Sent(bytes):
    """A response which has already been sent."""


class Talk:
    """Record of one connection."""

    def __init__(self):
        self.identity = None
        self.version = None
        self.cipher = None
        self.requests = []      # request lines in order (without line end)
        self.commands = []      # complete payloads (bytes), acknowledged or not
        self.sizes = []         # announced sizes (as text)
        self.acked = []         # payloads answered with OKAY
        self.quit = False
        self.end = None         # how the conversation ended, from our point of view
        self.error = None       # protocol violation by the client
        self.sent = []          # response lines sent
        self.done = False
        self.peer = None


class Nscad:
    """respond(talk, step, info) -> bytes to send, or raises Stop; step is one of
    'moin', 'push', 'data', 'quit', 'bail', 'other'.  The default is friendly."""

    def __init__(self, env, ids=(("*", b"p"),), respond=None, tls=0, before_handshake=None, rcvbuf=0,
                 frag=0, frag_us=0, delay=None, start=True, sock=None, ciphers=""):
        self.env, self.ids, self.respond, self.tls = env, ids, respond, tls
        self.before_handshake = before_handshake
        self.frag, self.frag_us, self.delay, self.rcvbuf = frag, frag_us, delay, rcvbuf
        self.ciphers = ciphers
        if sock is None:
            self.s, self.ip, self.port = free_listener(env, rcvbuf=rcvbuf)
        else:
            self.s, self.ip, self.port = sock
        self.talks = []
        self.threads = []
        self.stopping = False
        self.held = []
        self.lock = threading.Lock()
        if self.s.close in env.cleanups:    # closing it first would let the accepting thread get at the next listener
            env.cleanups.remove(self.s.close)
        env.cleanups.append(self.stop)
        self.t = None
        if start:
            self.t = threading.Thread(target=self._accept, daemon=True)
            self.t.start()

    def stop(self):
        if self.stopping:
            return
        self.stopping = True
        try:
            self.s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass
        if self.t:
            self.t.join(5)
        self.s.close()
        for c in self.held:
            try:
                c.free()
            except Exception:
                pass
        for t in self.threads:
            t.join(5)

    def _accept(self):
        while not self.stopping:
            try:
                k, a = self.s.accept()
            except OSError:
                return
            t = Talk()
            t.peer = a
            with self.lock:
                self.talks.append(t)
            th = threading.Thread(target=self._serve, args=(k, t), daemon=True)
            self.threads.append(th)
            th.start()

    def _serve(self, k, t):
        fd = k.detach()
        c = Conn.server(fd, self.ids, tls=self.tls, rcvbuf=self.rcvbuf, ciphers=self.ciphers)
        how = None
        try:
            try:
                if self.before_handshake:
                    self.before_handshake(t, c)
                c.handshake()
                t.identity = c.identity()
                t.version = c.version()
                t.cipher = c.cipher()
                if self.frag:
                    c.frag(self.frag, self.frag_us)
                self.talk(t, c)
            except Stop as s:
                how = s.how
            except PeerGone as e:
                t.end = e.kind
                if e.kind == "closed":      # answer it, as the real server does
                    try:
                        c.close_notify()
                        c.wait_eof(0.5)
                    except PeerGone:
                        pass
                if t.identity is None:
                    t.identity = c.identity()
                    t.error = "handshake: " + str(e)
            if how == "notify":
                c.close_notify()
                try:
                    c.wait_eof(1)
                except PeerGone:
                    pass
                c.free()
            elif how == "fin":
                c.free()
            elif how == "rst":
                c.free(rst=True)
            elif how == "half":
                c.half_close()
                c.wait_eof(TIMEOUT)
                c.free()
            elif how == "hang":
                self.held.append(c)
            else:
                c.free()
        except Exception as e:      # noqa
            if t.error is None:
                t.error = "harness: %r" % e
        finally:
            t.done = True

    def say(self, t, c, step, info, default):
        d = default
        if self.delay:
            self.delay(t, step)
        if self.respond:
            d = self.respond(t, step, info)
            if d is None:
                d = default
        if d:
            t.sent.append(d)
            if not isinstance(d, Sent):
                c.send(d)
        return d

    def read_data(self, t, c, n):
        return c.recv_exact(n)

    def talk(self, t, c):
        line = self.line(t, c)
        ok = bool(re.match(rb"^MOIN [0-9]+ [^ \t]+$", line))
        if not ok:
            t.error = "bad first request %r" % line
        self.say(t, c, "moin", line, b"MOIN 1\r\n")
        while True:
            line = self.line(t, c)
            m = re.match(rb"^PUSH ([0-9]+)$", line)
            if m:
                n = int(m.group(1))
                t.sizes.append(n)
                d = self.say(t, c, "push", n, b"OKAY\r\n")
                if not d.upper().startswith(b"OKAY"):
                    continue
                data = self.read_data(t, c, n)
                t.commands.append(data)
                t.acked.append(None)
                d = self.say(t, c, "data", data, b"OKAY\r\n")
                if d.upper().startswith(b"OKAY"):
                    t.acked[-1] = data
            elif line == b"QUIT":
                t.quit = True
                d = self.say(t, c, "quit", line, b"OKAY\r\n")
                if d.strip().upper() == b"OKAY":
                    c.close_notify()
                    t.end = c.ending()[0]
                    return
            elif line.startswith(b"BAIL"):
                self.say(t, c, "bail", line, b"")
                t.end = c.ending()[0]
                if t.end == "closed":
                    c.close_notify()
                return
            else:
                t.error = "unexpected request %r" % line[:200]
                self.say(t, c, "other", line, b"FAIL\r\n")

    def line(self, t, c):
        l = c.line()
        t.requests.append(l)
        if not l.endswith(b"\r\n"):
            t.error = "request without CRLF: %r" % l[:200]
        return l.rstrip(b"\r\n")

    def settle(self, timeout=5):
        end = time.monotonic() + timeout
        while time.monotonic() < end and not all(t.done for t in self.talks):
            time.sleep(0.002)

    def one(self):
        """The only talk there was."""
        self.settle()
        return self.talks[0] if len(self.talks) == 1 else None


CONF = b'identity = "me"\npassword = "p"\n'
