"""C12: idle clients are disconnected after the timeout, active ones never."""
import threading
from hypothesis import strategies as st
from ..harness import *
from ..history import shim
from ..run import Check

STAGES = ["tcp", "hello", "established", "moin", "line", "push", "unread", "shutdown", "noop"]


@st.composite
def cases(draw):
    T = draw(st.sampled_from([0.8, 1.0, 1.0, 1.3, 0]))
    if draw(st.integers(0, 30)) == 11:
        T = 5.0
    if draw(st.integers(0, 9)) == 0:
        return dict(T=min(max(T, 0.8), 1.3), scen=[dict(stage="unread", cut=1, rounds=draw(st.sampled_from([0, 3])), pause=0.4,
                                              tls=draw(st.sampled_from([12, 13])))])
    if draw(st.integers(0, 11)) == 7:
        return dict(T=draw(st.sampled_from([1.0, 1.3])), slow=draw(st.sampled_from([9000, 12000, 16000])),
                    rounds=draw(st.integers(6, 12)), pause=draw(st.sampled_from([0.2, 0.3])), tls=draw(st.sampled_from([12, 13])))
    if draw(st.integers(0, 3)) == 2:
        return dict(T=0.6, freeze=[dict(stage=draw(st.sampled_from(["tcp", "hello", "moin", "moin", "line", "push", "shutdown", "bail"])),
                                        act=draw(st.sampled_from(["go", "fin", "rst", "garbage", "notify", "bail"])), cut=draw(st.integers(1, 300)),
                                        tls=draw(st.sampled_from([12, 13]))) for _ in range(draw(st.integers(1, 6)))])
    scen = []
    for _ in range(draw(st.integers(4, 10))):
        stage = draw(st.sampled_from([x for x in STAGES if x != "unread"]))
        scen.append(dict(stage=stage, cut=draw(st.integers(1, 200)), rounds=draw(st.sampled_from([0, 0, 1, 3, 5, 7] if T < 4 else [0, 1, 2])),
                         pause=draw(st.sampled_from([0.1, 0.3, 0.4, 0.5] if T < 4 else [0.02, 0.05, 0.1])), tls=draw(st.sampled_from([12, 13]))))
    return dict(T=T, scen=scen)


class Skip(Exception):
    pass


class C12(Check):
    needs = ("san",)
    rule = ("A case runs 4-10 clients at once against a server with a timeout of 0.8-1.3 s (or 0, or 5 s).  Each goes to one stage "
            "(TCP only, k bytes of the ClientHello, handshake done, MOIN done, k bytes of a line, k bytes of a payload, "
            "responses not read, TLS shutdown not answered), keeps up activity for some rounds with pauses of 0.1-0.5 timeouts, and "
            "then falls silent.  Non-trivial if a client outlived one timeout before it fell silent, or stopped in mid-line, "
            "mid-payload or mid-handshake, or did not read.")
    assumptions = ["a pause the scheduler stretched beyond 80 % of the timeout makes that client inconclusive",
                   "the disconnection may come up to 8 s late (load; 2 s + scheduling jitter with a timeout of 5 s), but not 0.25 s early"]
    shards = 16
    cases = dict(quick=160, thorough=4800)
    budget = dict(quick=120, thorough=3000)

    def strategy(self, tier):
        return cases()

    examples = [dict(T=0.6, freeze=[dict(stage=s, act=a, cut=37, tls=13) for a in ("go", "fin", "rst", "garbage", "notify", "bail")])
                for s in ("tcp", "hello", "moin", "line", "push", "shutdown")] + \
               [dict(T=1.0, scen=[dict(stage=s, cut=37, rounds=r, pause=0.4, tls=13) for s in STAGES if s != "unread"]) for r in (0, 4)] + \
               [dict(T=5.0, scen=[dict(stage=s, cut=37, rounds=r, pause=p, tls=13) for s in STAGES if s not in ("unread", "shutdown")
                                  for r, p in ((0, 0.1), (1, 0.1), (2, 0.08))])] + \
               [dict(T=1.0, slow=12000, rounds=8, pause=0.3, tls=t) for t in (12, 13)] + \
               [dict(T=0, scen=[dict(stage=s, cut=37, rounds=0, pause=0.4, tls=12) for s in STAGES if s != "unread"])] + \
               [dict(T=0.8, scen=[dict(stage="unread", cut=1, rounds=r, pause=0.4, tls=13)]) for r in (0, 3)]

    def freeze(self, env, case):
        """The clients become active while the server isn't scheduled, so that it sees the activity and the expired timers at once."""
        T = case["T"]
        hold = os.path.join(env.dir(), "hold")
        srv = Server(env, "timeout = %s\n" % T + 'authorize "*" { password = "p"\n commands = ".*" }\n', preload=[shim("hold")],
                     extra_env={"HOLD": hold})
        cs = []
        t0 = time.monotonic()
        for s in case["freeze"]:
            c = srv.connect("x", "p", tls=s["tls"], handshake=False)
            st_ = s["stage"]
            fl = None
            if st_ == "hello":
                fl = c.flight()
                n = 1 + s["cut"] % (len(fl) - 1)
                c.raw(fl[:n])
                fl = fl[n:]
            elif st_ != "tcp":
                c.handshake()
                c.send(b"MOIN 1 abc\r\n")
                if c.line() != b"MOIN 1\r\n":
                    raise Violation("MOIN refused")
                if st_ == "line":
                    c.send(b"NO")
                elif st_ == "push":
                    c.send(b"PUSH 400\r\n")
                    if c.line() != b"OKAY\r\n":
                        raise Violation("PUSH refused")
                    c.send(b"[1] " + b"x" * s["cut"])
                elif st_ in ("shutdown", "bail"):
                    c.send(b"QUIT\r\n" if st_ == "shutdown" else b"BAIL x\r\n")
                    if st_ == "shutdown" and c.line() != b"OKAY\r\n":
                        raise Violation("QUIT refused")
                    if c.ending()[0] != "closed":
                        raise Violation("no TLS shutdown")
            cs.append((s, c, fl))
        t1 = time.monotonic()
        time.sleep(max(0, 0.6 * T - (t1 - t0)))
        open(hold, "w").close()
        late = time.monotonic() - t0 > 0.8 * T
        try:
            go = []
            for s, c, fl in cs:
                st_, act = s["stage"], s["act"]
                if late:
                    continue
                if act in ("fin", "rst"):
                    c.free(rst=act == "rst")
                elif act == "garbage":
                    c.raw(b"\x17\x03\x03\x00\x10garbage garbage!" * 2)
                elif act == "go" and st_ in ("tcp", "hello"):
                    c.raw(c.flight() if st_ == "tcp" else fl)
                    go.append((s, c))
                elif st_ not in ("tcp", "hello"):
                    if act == "notify" or st_ in ("shutdown", "bail"):
                        c.close_notify()
                    elif act == "bail":
                        c.send(b"\r\nBAIL bye\r\n" if st_ == "line" else b"BAIL bye\r\n")
                    elif act == "go":
                        c.send({"moin": b"NOOP\r\n", "line": b"OP\r\n", "push": b"x" * (400 - 5 - s["cut"]) + b"\n"}[st_])
                        go.append((s, c))
            time.sleep(max(0, t1 + 1.2 * T - time.monotonic()))
        finally:
            os.unlink(hold)
        for s, c in go:
            if s["stage"] in ("tcp", "hello"):
                try:
                    c.handshake()
                    c.send(b"MOIN 1 abc\r\n")
                    r = c.line()
                except PeerGone as e:
                    raise Violation("a client which was active while the server was not scheduled was cut off (%s, %s)" % (s, e))
                if r != b"MOIN 1\r\n":
                    raise Violation("MOIN refused")
            else:
                r = c.line()
                if r != b"OKAY\r\n":
                    raise Violation("a client which was active (%s) while the server was not scheduled got %r" % (s, r))
        time.sleep(0.02)
        srv.check_alive()
        srv.session("x", "p").quit()
        time.sleep(0.01)
        srv.check_alive()
        for s, c, fl in cs:
            c.free()
        srv.session("x", "p").quit()
        srv.stop()
        if late:
            return ["inconclusive freeze"], False
        return ["freeze:%s/%s" % (s["stage"], s["act"]) for s in case["freeze"]], True

    def slow(self, env, case):
        """A client reads a long backlog of responses bit by bit, and sends nothing meanwhile."""
        T, step, lines = case["T"], case["slow"], 0
        srv = Server(env, "timeout = %s\n" % T + 'authorize "*" { password = "p"\n commands = ".*" }\n', preload=[shim("sndbuf")],
                     extra_env={"SNDBUF": "4608"})
        c = srv.connect("x", "p", tls=case["tls"], rcvbuf=4096)
        c.send(b"MOIN 1 abc\r\n")
        if c.line() != b"MOIN 1\r\n":
            raise Violation("MOIN refused")
        total = step * (case["rounds"] + 2) // 37 + 1000
        sent = 0
        last = time.monotonic()
        while sent < total:
            n = min(1000, total - sent)
            c.send(b"\n" * n)
            sent += n
        text, late = b"", False
        for i in range(case["rounds"]):
            time.sleep(case["pause"] * T)
            late = late or time.monotonic() - last > 0.8 * T
            try:
                got = c.recv_exact(step)
            except PeerGone as e:
                if late:
                    break
                raise Violation("a client which reads its responses slowly, but never pauses for longer than %.2f s, was cut off with "
                                "timeout %s (%s)" % (case["pause"] * T, T, e))
            last = time.monotonic()
            text += got
        if not late:
            while text.count(b"\n") < total:
                text += c.recv(65536)
            if text != b"FAIL Expected PUSH or NOOP or QUIT\r\n" * total and text.count(text[:text.index(b"\n") + 1]) != total:
                raise Violation("wrong responses to %d empty requests" % total)
        c.free()
        srv.session("x", "p").quit()
        srv.stop()
        if late:
            return ["inconclusive slow reader"], False
        return ["slow reader"], case["rounds"] * case["pause"] > 1

    def run(self, env, case):
        if "slow" in case:
            return self.slow(env, case)
        if "freeze" in case:
            return self.freeze(env, case)
        T = case["T"]
        conf = "timeout = %s\n" % T + 'authorize "*" { password = "p"\n commands = ".*" }\n'
        srv = Server(env, conf)
        out = [None] * len(case["scen"])
        labels = set()
        start = threading.Barrier(len(case["scen"]))

        def client(i, s):
            try:
                start.wait(10)
                self.client(srv, T, s, labels)
                out[i] = "ok"
            except Skip:
                out[i] = "skip"
            except PeerGone as e:
                out[i] = Violation("stage %s, rounds %d, timeout %s: active client was cut off (%s)" % (
                    s["stage"], s["rounds"], T, e))
            except BaseException as e:
                out[i] = e
        ths = [threading.Thread(target=client, args=(i, s), daemon=True) for i, s in enumerate(case["scen"])]
        self.jitter, done = 0.0, threading.Event()

        def clock():
            """How late does the scheduler wake us?"""
            while not done.is_set():
                b = time.monotonic()
                time.sleep(0.02)
                self.jitter = max(self.jitter, time.monotonic() - b - 0.02)
        threading.Thread(target=clock, daemon=True).start()
        for t in ths:
            t.start()
        for t in ths:
            t.join(90)
        done.set()
        srv.check_alive()
        for o in out:
            if isinstance(o, BaseException):
                raise o
        if None in out:
            raise Violation("a client hangs")
        if "skip" in out:
            labels.add("inconclusive client")
        srv.session("x", "p").quit()
        srv.stop()
        return sorted(labels), any(s["rounds"] * s["pause"] > 1 or s["stage"] in ("hello", "line", "push", "unread", "shutdown")
                                   for s in case["scen"])

    def client(self, srv, T, s, labels):
        stage, pause, rounds = s["stage"], s["pause"] * (T or 0.5), s["rounds"]
        limit = 0.8 * T if T else 1e9
        t = [0.0]
        c = srv.connect("x", "p", tls=s["tls"], handshake=False, rcvbuf=4096 if stage == "unread" else 0)
        port = socket.socket(fileno=os.dup(c.fileno())).getsockname()
        now = time.monotonic
        t[0] = now()

        def alive_pause():
            time.sleep(pause)
            if now() - t[0] > limit:
                raise Skip()

        def send(raw, data):
            b = now()
            (c.raw if raw else c.send)(data)
            t[0] = b
            if now() - b > limit / 2:
                raise Skip()

        buf = []
        try:
            if stage in ("tcp", "hello"):
                if stage == "hello":
                    fl = c.flight()
                    n = min(s["cut"], len(fl) - rounds - 1)
                    send(True, fl[:n])
                    for k in range(rounds):
                        alive_pause()
                        send(True, fl[n + k:n + k + 1])
                self.silence(srv, c, T, t, stage, labels, bail=False)
                return
            c.handshake()
            t[0] = now()
            if stage == "established":
                if T and s["rounds"]:
                    alive_pause()
                    send(False, b"M")
                self.silence(srv, c, T, t, stage, labels)
                return
            # rounds of activity before MOIN as well
            send(False, b"MOIN 1 abc\r\n")
            if c.line() != b"MOIN 1\r\n":
                raise Violation("MOIN refused")
            t[0] = min(t[0] + 0, t[0])
            if stage in ("moin", "noop", "shutdown", "unread"):
                for k in range(rounds):
                    alive_pause()
                    send(False, b"NOOP\r\n")
                    if c.line() != b"OKAY\r\n":
                        raise Violation("NOOP refused")
                    if now() - t[0] > limit:
                        raise Skip()
                if stage == "shutdown":
                    send(False, b"QUIT\r\n")
                    if c.line() != b"OKAY\r\n":
                        raise Violation("QUIT refused")
                    kind, extra = c.ending()
                    if kind != "closed":
                        raise Violation("QUIT not followed by a TLS shutdown")
                    self.eof(srv, c, T, t, stage)
                    labels.add(stage)
                    return
                if stage == "unread":
                    self.unread(srv, c, T, t, port, labels)
                    return
            elif stage == "line":
                send(False, b"N" * min(s["cut"], 100))
                for k in range(rounds):
                    alive_pause()
                    send(False, b"x")
            elif stage == "push":
                n = 400
                send(False, b"PUSH %d\r\n" % n)
                if c.line() != b"OKAY\r\n":
                    raise Violation("PUSH refused")
                d = b"[1] " + b"x" * (n - 5) + b"\n"
                send(False, d[:s["cut"]])
                for k in range(rounds):
                    alive_pause()
                    send(False, d[s["cut"] + k:s["cut"] + k + 1])
            self.silence(srv, c, T, t, stage, labels)
        finally:
            c.free()

    def silence(self, srv, c, T, t, stage, labels, bail=True):
        if not T:
            kind, extra = c.ending(1.2) if bail else (c.wait_eof(1.2), b"")
            if kind != "timeout":
                raise Violation("timeout = 0, but an idle client (%s) was cut off: %s %r" % (stage, kind, extra))
            labels.add(stage + "/0")
            return
        if bail:
            kind, extra = c.ending(T + 8)
        else:
            kind, extra = c.wait_eof(T + 8), b""
        took = time.monotonic() - t[0]
        if kind == "timeout":
            raise Violation("idle client (%s) not disconnected after %.2f s with timeout %s" % (stage, took, T))
        if T >= 4 and took > T + 2 + 8 * self.jitter:
            raise Violation("idle client (%s) disconnected only after %.2f s with timeout %s" % (stage, took, T))
        if took < T - 0.25:
            raise Violation("client (%s) cut off after %.2f s of inactivity with timeout %s" % (stage, took, T))
        if bail:
            if not (extra.startswith(b"BAIL ") and extra.endswith(b"\r\n") and extra.count(b"\n") == 1):
                raise Violation("idle client (%s) disconnected with %r instead of BAIL (%s)" % (stage, extra, kind))
            if kind != "closed":
                raise Violation("timed out session (%s) not shut down cleanly: %s" % (stage, kind))
            self.eof(srv, c, T, [time.monotonic()], stage)
        labels.add(stage)

    def eof(self, srv, c, T, t, stage):
        """The TCP connection must go away even if we do not answer the shutdown."""
        if not T:
            return
        r = c.wait_eof(T + 8)
        if r == "timeout":
            raise Violation("unanswered TLS shutdown (%s) keeps the connection open with timeout %s" % (stage, T))

    def unread(self, srv, c, T, t, port, labels):
        """Requests whose responses nobody reads."""
        for i in range(60):
            try:
                c.send(b"\n" * 4000, 2)
            except PeerGone as e:
                break
        if not T:
            labels.add("unread/0")
            return
        end = time.monotonic() + 2 * T + 8
        while True:
            s = tcp_state(srv.ip, srv.port, port[0], port[1])
            if s != "01":
                break
            if time.monotonic() > end:
                raise Violation("client which does not read responses is not disconnected with timeout %s" % T)
            time.sleep(0.1)
        labels.add("unread")


check = C12()
