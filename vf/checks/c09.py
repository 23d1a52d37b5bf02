"""C09: no client can crash the server, leak its resources or disturb others."""
import errno
import os
import resource
import socket
import struct
from hypothesis import strategies as st
from ..harness import *
from ..history import shim
from ..run import Check

ENDS = ["close", "rst", "notify", "half", "stay", "drain"]
NOISE = st.one_of(st.binary(min_size=0, max_size=60), st.sampled_from([
    b"\x16\x03\x01\xff\xff" + b"\x01" * 50, b"\x16\x03\x01\x00\x05\x01\x00\x00\x01\x03", b"\x15\x03\x03\x00\x02\x01\x00",
    b"\x15\x03\x03\x00\x02\x02\x28", b"\x80\x2e\x01\x00\x02" + b"\0" * 30, b"GET / HTTP/1.0\r\n\r\n", b"MOIN 1 x\r\n",
    b"\x17\x03\x03\x40\x01" + b"x" * 100, b"\x14\x03\x03\x00\x01\x01" * 20, b"\x17\x03\x03\x00\x00" * 40, b"\n" * 300,
    b"\x16\x03\x03\x00\x04\x00\x00\x00\x00", b"\x18\x03\x02\x00\x03\x01\x40\x00"]))
TEXT = st.one_of(
    st.sampled_from([b"%n%n%n%n", b"%s%s%s%s%s%s%s%s", b"%*.*s", b"%1000000d", b"\0", b"", b" ", b"\xff\xfe", b"x" * 120,
                     b"x" * 126, b"x" * 127, b"x" * 128, b"x" * 129, b"1 " * 30, b"\t\t\t", b"'\"`$(x)"]),
    st.binary(max_size=40).map(lambda b: b.replace(b"\n", b"?")))
NUM = st.one_of(st.integers(-3, 400), st.sampled_from([0, 2 ** 31 - 1, 2 ** 31, 2 ** 32 + 5, 2 ** 63, -2 ** 63, 10 ** 30, 1 << 20]))


@st.composite
def pieces(draw):
    """What an established session sends: [kind, bytes or number]."""
    k = draw(st.sampled_from(["moin", "moin", "line", "push", "push", "push", "cut", "words", "long", "raw", "rekey", "flip",
                              "empty", "read", "pile", "bytewise"]))
    if k == "moin":
        return ["send", J(b"MOIN 1 " + draw(TEXT).replace(b" ", b"_") + b"\r\n")]
    if k == "line":
        return ["send", J(draw(TEXT) + draw(st.sampled_from([b"\r\n", b"\n", b"\r", b""])))]
    if k == "words":
        w = draw(st.sampled_from([b"MOIN", b"PING", b"PUSH", b"NOOP", b"QUIT", b"BAIL", b"moin", b"push"]))
        return ["send", J(w + draw(st.sampled_from([b" ", b"", b"  ", b"\t"])) + draw(TEXT) + b"\r\n")]
    if k == "push":
        n = draw(NUM)
        body = draw(st.one_of(st.just(b"EVIL;x\n"), TEXT.map(lambda t: b"[1] EVIL;" + t + b"\n"), st.binary(max_size=80)))
        if draw(st.booleans()):
            n = len(body) + draw(st.sampled_from([0, 0, 0, 1, -1, 50]))
        return ["push", str(n), J(body)]
    if k == "cut":
        return ["send", J(draw(st.sampled_from([b"M", b"MOIN 1", b"PUSH 10", b"\r", b"[1] EV"])))]
    if k == "long":
        return ["fill", draw(st.sampled_from([1919, 1920, 1921, 2047, 2048, 2049, 5000, 20000])),
                draw(st.sampled_from(["x", " ", "\0", "M", "%"]))]
    if k == "raw":
        return ["raw", J(draw(NOISE))]
    if k == "flip":
        return ["flip", draw(st.integers(0, 60)), draw(st.integers(0, 7))]
    if k == "pile":
        return ["pile", draw(st.integers(2, 300)), draw(st.sampled_from(["\n", "NOOP\r\n", "x\r\n", "PUSH 0\r\n"]))]
    return [k]


@st.composite
def clients(draw):
    end = draw(st.sampled_from(ENDS))
    kind = draw(st.sampled_from(["tcp", "hello", "hello", "flight2", "psk", "session", "session", "session", "session", "churn", "full"]))
    c = dict(kind=kind, end=end, tls=draw(st.sampled_from([12, 13])))
    if kind == "tcp":
        c["noise"] = J(draw(NOISE))
    elif kind in ("hello", "flight2"):
        c["edits"] = draw(st.lists(st.tuples(st.sampled_from(["flip", "cut", "dup", "len", "ins"]), st.integers(0, 600),
                                             st.integers(0, 255)), min_size=0 if kind == "hello" else 1, max_size=3))
        c["cut"] = draw(st.sampled_from([0, 0, 1]))
    elif kind == "psk":
        c["id"] = J(draw(TEXT).replace(b"\0", b"")) or "x"
        c["psk"] = J(draw(st.sampled_from([b"wrong", b"p", b"", b"q" * 200])))
        c["n"] = draw(st.sampled_from([1, 1, 3, 10]))
    elif kind == "session":
        c["moin"] = draw(st.sampled_from([True, True, True, False]))
        if not c["moin"]:
            c["first"] = draw(st.sampled_from(["", "", "PING 1\r\n", "QUIT\r\n", "BAIL x\r\n", "MOIN 1\r\n"]))
        c["p"] = draw(st.lists(pieces(), min_size=0, max_size=6))
        c["frag"] = draw(st.sampled_from([0, 0, 0, 1, 7]))
    elif kind == "churn":
        c["n"] = draw(st.integers(2, 25))
    elif kind == "full":
        c["free"] = draw(st.integers(0, 6))
        c["n"] = c["free"] + draw(st.integers(0, 6))
        c["say"] = draw(st.sampled_from(["", "", "x", "\x16\x03\x01"]))
        c["err"] = draw(st.sampled_from([0, 0, 0, errno.ENFILE, errno.ENOMEM, errno.ENOBUFS, errno.EMFILE]))
    return c


@st.composite
def cases(draw):
    cl = draw(st.lists(clients(), min_size=1, max_size=8))
    noread = draw(st.integers(0, 39)) == 17
    return dict(clients=cl, log=0 if noread else draw(st.sampled_from([3, 3, 5, 1])), canary=draw(st.integers(0, 255)),
                noread=noread)


def edit(data, edits):
    d = bytearray(data)
    for op, pos, val in edits:
        if not d:
            break
        p = pos % len(d)
        if op == "flip":
            d[p] ^= (val or 1)
        elif op == "cut":
            del d[p:]
        elif op == "dup":
            d[p:p] = d[p:p + val]
        elif op == "len" and len(d) > 4:
            d[3:5] = bytes([val, pos & 255])
        elif op == "ins":
            d[p:p] = bytes([val]) * (1 + pos % 40)
    return bytes(d)


class C09(Check):
    rule = ("A case runs 1-8 hostile clients (raw noise, edited or truncated handshake flights, wrong keys and odd identities, "
            "sessions of odd lines, sizes, partial payloads, corrupted records, rekeying, piles of unread requests, churn, more idle connections than the server has descriptors or the system can accept), each "
            "ending by close, reset, close_notify, half-close, or staying connected, with canary sessions in between and after.  "
            "Non-trivial if at least two hostile clients of different kinds got at least a byte through to the server.")
    assumptions = ["memory errors are those AddressSanitizer, LeakSanitizer and UBSan can see in the server's own code"]
    cases = dict(quick=1000, thorough=40000)
    shards = 12
    budget = dict(quick=150, thorough=3000)

    def strategy(self, tier):
        return cases()

    examples = [dict(clients=[dict(kind="session", end=e, tls=13, moin=True, p=[["send", "MOIN 1 %n%s\r\n"]], frag=0),
                              dict(kind="psk", end=e, tls=12, id="%n", psk="wrong", n=20)], log=0 if e == "rst" else 5, canary=0, noread=e == "rst")
                for e in ENDS] + \
               [dict(clients=[dict(kind="full", end=e, tls=13, free=f, n=f + m, say="")], log=3, canary=0, noread=False)
                for e in ("rst", "close") for f, m in ((1, 0), (1, 1), (5, 4))] + \
               [dict(clients=[dict(kind="full", end="close", tls=13, free=0, n=1, say="", err=e)], log=3, canary=0, noread=False)
                for e in (errno.ENFILE, errno.ENOMEM, errno.ENOBUFS)]

    def run(self, env, case):
        conf = ('timeout = 0\nlog_level = %d\n' % case["log"] +
                'authorize "*" { password = "p"\n commands = "EVIL;.*" }\n'
                'authorize "canary" { password = "c"\n commands = "CANARY;.*" }\n')
        out = os.path.join(env.dir(), "outof")
        srv = Server(env, conf, start=False, extra_env={"VF_OUTOF": out},
                     preload=[shim("outof")] if any(c.get("err") for c in case["clients"]) else [])
        srv.outof = out
        e = srv.environ()
        srv.environ = lambda: dict(e, **san_env(srv.d, leaks=True))
        srv.start()
        n = srv.nagios
        sent = []
        labels = set()

        def canary(s=None):
            s = s or srv.session("canary", "c", "c%d" % len(sent))
            d = b"[1] CANARY;%d\n" % len(sent)
            if not s.submit(d):
                raise Violation("a well-behaved client was refused")
            sent.append(d)
            if s.submit(b"[1] EVIL;no\n"):
                raise Violation("a well-behaved client got another client's authorizations")
            return s
        canary().quit()
        base = len(srv.fds())
        long = srv.session("canary", "c", "long")
        live, kinds = [], set()
        if case["noread"]:
            live.append(self.noread(srv))
            kinds.add("noread")
        for i, c in enumerate(case["clients"]):
            try:
                if c["kind"] == "full":
                    self.full(srv, c, lambda: canary(long))
                else:
                    self.hostile(srv, c, live)
            except PeerGone:
                pass
            kinds.add(c["kind"])
            labels.add("%s/%s" % (c["kind"], c["end"]))
            srv.check_alive()
            if case["canary"] >> i & 1:
                if i % 2:
                    canary(long)
                else:
                    canary().quit()
        canary(long)
        self.spin(srv, "with %d hostile connections open" % len(live))
        if live:
            labels.add("others still connected")
        for c in live:
            c.free()
        long.quit()
        canary().quit()
        if not wait_until(lambda: not srv.alive() or len(srv.fds()) <= base):
            raise Violation("file descriptors left behind: %s" % sorted(srv.fds()))
        srv.check_alive()
        self.spin(srv, "after all clients are gone")
        n.wait(lambda x: sent[-1] in x.cmds)
        mine = [x for x in n.cmds if not re.match(rb"^\[1\] *EVIL;[^\n]*\n$", x)]
        if mine != sent:
            raise Violation("canary commands disturbed: sent %r, delivered %r" % (sent, mine))
        if n.problems:
            raise Violation(n.problems[0])
        srv.stop()
        return sorted(labels), len(kinds) > 1

    def spin(self, srv, when):
        for k in range(4):
            a, t = srv.cpu(), time.monotonic()
            time.sleep(0.06 if k == 0 else 0.5)
            used, took = srv.cpu() - a, time.monotonic() - t
            if used < (0.04 if k == 0 else 0.3 * took):
                return
        raise Violation("the server uses %.0f %% CPU %s" % (100 * used / took, when))

    def noread(self, srv):
        c = srv.connect("reader", "p", rcvbuf=4096)
        c.send(b"MOIN 1 r\r\n")
        for i in range(60):
            try:
                c.send(b"\n" * 4000, 2)
            except PeerGone:
                break
        return c

    def full(self, srv, c, canary):
        """Many idle connections use up the server's file descriptors."""
        if c.get("err"):
            return self.outof(srv, c, canary)
        pid = srv.p.pid
        used = len(srv.fds())
        hard = resource.prlimit(pid, resource.RLIMIT_NOFILE)[1]
        resource.prlimit(pid, resource.RLIMIT_NOFILE, (used + c["free"], hard))
        socks = []
        for i in range(c["n"]):
            s = socket.socket()
            s.settimeout(TIMEOUT)
            s.connect((srv.ip, srv.port))
            if c["say"]:
                s.sendall(B(c["say"]))
            socks.append(s)
        wait_until(lambda: len(srv.fds()) >= used + min(c["n"], c["free"]), 1)
        canary()
        size = len(srv.log())
        self.spin(srv, "while %d clients use up its file descriptors" % c["n"])
        if len(srv.log()) - size > 500000:
            raise Violation("the server logs %d bytes while %d clients use up its file descriptors" % (len(srv.log()) - size, c["n"]))
        for s in socks:
            if c["end"] == "rst":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()
        if c["free"]:
            srv.session("canary", "c", "later").quit()
        resource.prlimit(pid, resource.RLIMIT_NOFILE, (1024, hard))

    def outof(self, srv, c, canary):
        """The whole system is out of something it takes to accept connections."""
        with open(srv.outof + ".new", "w") as f:
            f.write("%d" % c["err"])
        os.rename(srv.outof + ".new", srv.outof)
        socks = []
        for i in range(1 + c["n"]):
            s = socket.socket()
            s.settimeout(TIMEOUT)
            s.connect((srv.ip, srv.port))
            if c["say"]:
                s.sendall(B(c["say"]))
            socks.append(s)
        canary()
        size = len(srv.log())
        when = "while no connection can be accepted (%s)" % errno.errorcode[c["err"]]
        self.spin(srv, when)
        if len(srv.log()) - size > 500000:
            raise Violation("the server logs %d bytes %s" % (len(srv.log()) - size, when))
        os.unlink(srv.outof)
        srv.session("canary", "c", "later").quit()
        for s in socks:
            if c["end"] == "rst":
                s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            s.close()

    def hostile(self, srv, c, live):
        if c["kind"] == "churn":
            for i in range(c["n"]):
                k = srv.connect("churn", "p", handshake=i % 2 == 0, tls=c["tls"])
                k.free(rst=c["end"] == "rst")
            return
        if c["kind"] == "psk":
            for i in range(c["n"]):
                try:
                    k = srv.connect(B(c["id"]), B(c["psk"]), tls=c["tls"])
                    k.free(rst=True)
                except PeerGone:
                    pass
            return
        k = srv.connect("evil", "p", handshake=False, tls=c["tls"])
        try:
            if c["kind"] == "tcp":
                if c["noise"]:
                    k.raw(B(c["noise"]))
            elif c["kind"] == "hello":
                k.raw(edit(k.flight(), c["edits"]))
            elif c["kind"] == "flight2":
                k.raw(k.flight())
                k.fill(5)
                k.raw(edit(k.flight(), c["edits"]))
            else:
                self.session(k, c)
        except PeerGone:
            pass
        if c["end"] == "rst":
            k.free(rst=True)
        elif c["end"] == "close":
            k.free()
        elif c["end"] == "notify":
            try:
                k.close_notify()
            except Exception:
                pass
            live.append(k)
        elif c["end"] == "half":
            k.half_close()
            live.append(k)
        elif c["end"] == "drain":
            try:
                while True:
                    k.recv(65536, 0.02)
            except PeerGone:
                pass
            live.append(k)
        else:
            live.append(k)

    def session(self, k, c):
        k.handshake(5)
        if c["frag"]:
            k.frag(c["frag"], 20)
        if c["moin"]:
            k.send(b"MOIN 1 evil\r\n")
            k.line(5)
        elif c.get("first"):
            k.send(B(c["first"]))
        for p in c["p"]:
            if p[0] == "send":
                k.send(B(p[1]))
            elif p[0] == "push":
                k.send(b"PUSH " + p[1].encode() + b"\r\n")
                try:
                    k.line(0.3)
                except PeerGone as e:
                    if e.kind != "timeout":
                        raise
                k.send(B(p[2]))
            elif p[0] == "fill":
                k.send(B(p[2]) * p[1])
            elif p[0] == "raw":
                k.raw(B(p[1]))
            elif p[0] == "flip":
                k.encrypt(b"NOOP\r\n")
                d = bytearray(k.take())
                d[p[1] % len(d)] ^= 1 << p[2]
                k.raw(bytes(d))
            elif p[0] == "pile":
                k.send(B(p[2]) * p[1])
            elif p[0] == "bytewise":
                for x in b"NOOP\r\nNOO":
                    k.send(bytes([x]))
            elif p[0] == "rekey":
                k.rekey()
            elif p[0] == "empty":
                k.raw(b"\x17\x03\x03\x00\x00")
            elif p[0] == "read":
                try:
                    k.line(0.1)
                except PeerGone as e:
                    if e.kind != "timeout":
                        raise


check = C09()
