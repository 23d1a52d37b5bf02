"""C13: send_nsca gives up on a stalled server after the configured timeout."""
import threading
from hypothesis import strategies as st
from ..harness import *
from ..nscad import *
from ..history import shim
from ..peer import OK
from ..run import Check

STALLS = ["tcp", "hello", "flight", "moin", "push", "mid", "data", "quit", "shutdown"]


@st.composite
def one(draw):
    k = draw(st.sampled_from(["stall"] * 12 + ["alive"] * 6 + ["zero", "held"] * 2 + ["steady"]))
    at = draw(st.sampled_from(STALLS if k != "held" else ["moin", "push", "data", "quit", "quit"]))
    if k == "steady":
        at = "mid"
    n = draw(st.sampled_from([1, 1, 2, 3]))
    big = draw(st.sampled_from([20, 20, 3000, 30000]))
    if at == "mid":
        big = 40000
    return dict(k=k, at=at, nth=draw(st.integers(0, n - 1)), n=n, big=big, cut=draw(st.integers(0, 100)),
                limit=draw(st.sampled_from([1, 1, 1, 2])) if k == "stall" else 1 if k == "held" else 2 if k == "alive" else 3 if k == "steady" else 0,
                via=draw(st.sampled_from(["-o", "conf", "both"])), tls=draw(st.sampled_from([12, 13])),
                pause=draw(st.sampled_from([0.3, 0.5, 0.9])), partial=draw(st.integers(0, 3)), delay=draw(st.integers(0, 30)) == 17)


class C13(Check):
    rule = ("A case runs 4-8 clients at once with time limits of 0-2 s given by -o or the configuration, each against a scripted server that "
            "goes silent at a generated point: SYN not answered, no ServerHello, within its flight, instead of the response (or part of "
            "it) to MOIN, the n-th PUSH, command or QUIT, after k bytes of a big command, or before its close_notify; or that keeps "
            "answering (or dripping bytes, or reading a big command slowly) with pauses below the limit for longer than the limit; or, with limit 0, "
            "resumes after a silence; or whose answer arrives in time, but the client isn't scheduled until the limit is over.  Oracle: the time from the last sign of life to the exit is the limit; status 1 and a message "
            "unless all was confirmed; live servers are never given up.  Non-trivial unless the server just stalls at the beginning.")
    assumptions = ["the exit may come 2.5 s + scheduling jitter late, but not 0.1 s early",
                   "if the scheduler stretches a pause beyond 80 % of the limit, that client is inconclusive",
                   "standard input is available at once"]
    shards = 12
    cases = dict(quick=110, thorough=5000)
    budget = dict(quick=120, thorough=3000)

    def strategy(self, tier):
        return st.lists(one(), min_size=4, max_size=8)

    examples = [[dict(k="stall", at=a, nth=0, n=2, big=40000 if a == "mid" else 20, cut=c, limit=1, via=v, tls=t, pause=0.3, partial=c % 3,
                      delay=False) for a in STALLS] for c, v, t in [(0, "-o", 12), (37, "conf", 13), (50, "both", 13)]] + \
               [[dict(k=k, at=a, nth=0, n=2, big=40000 if a == "mid" else 20, cut=50, limit=0 if k == "zero" else 2, via="-o", tls=13,
                      pause=0.9, partial=0, delay=False) for a in STALLS if a != "tcp"] for k in ("zero", "alive")] + \
               [[dict(k="steady", at="mid", nth=0, n=n, big=40000, cut=c, limit=3, via="-o", tls=t, pause=0.5, partial=0, delay=False)
                 for n in (1, 2) for c in (0, 50) for t in (12, 13)]] + \
               [[dict(k="held", at=a, nth=0, n=2, big=20, cut=0, limit=1, via="-o", tls=t, pause=0.3, partial=p, delay=False)
                 for a in ("moin", "push", "data", "quit") for p in (0, 1)] for t in (12, 13)] + \
               [[dict(k="zero", at="push", nth=0, n=1, big=20, cut=0, limit=0, via=v, tls=13, pause=0.3, partial=0, delay=False, hold=15.7)
                 for v in ("-o", "conf")] +
                [dict(k="default", at="moin", nth=0, n=1, big=20, cut=0, limit=15, via="none", tls=13, pause=0.3, partial=0, delay=False),
                 dict(k="alive", at="moin", nth=0, n=1, big=20, cut=0, limit=1, via="-o", tls=13, pause=0.3, partial=0, delay=True),
                 dict(k="alive", at="moin", nth=0, n=1, big=20, cut=0, limit=1, via="conf", tls=13, pause=0.3, partial=0, delay=True)]]

    def run(self, env, case):
        out = [None] * len(case)
        labels = set()
        jit = [0.0]
        stop = threading.Event()

        def ticker():
            while not stop.is_set():
                t = time.monotonic()
                time.sleep(0.02)
                jit[0] = max(jit[0], time.monotonic() - t - 0.02)

        def run1(i, s):
            try:
                self.client(env, s, jit, labels)
            except Exception as e:     # noqa
                out[i] = e
        threading.Thread(target=ticker, daemon=True).start()
        prep = [self.prepare(env, s) for s in case]
        ths = [threading.Thread(target=run1, args=(i, p)) for i, p in enumerate(prep)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        stop.set()
        for e in out:
            if e is not None:
                raise e
        return sorted(labels), any(s["k"] != "stall" or s["at"] not in ("tcp", "hello") for s in case)

    def prepare(self, env, s):
        """Everything that isn't thread-safe: directories, ports."""
        at, k = s["at"], s["k"]
        last = [None, None]     # the time of the server's last sign of life is in between these
        gaps = []
        seen = {"push": 0, "data": 0}
        stall = k in ("stall", "default")
        hold = s.get("hold", 2.3) if k == "zero" else 0

        wd = env.dir()
        hold_file = os.path.join(wd, "hold")

        def halt(t, c, part=b""):
            """Here it stalls."""
            if stall:
                if part:
                    last[1] = time.monotonic()
                    c.send(part)
                last[0] = time.monotonic()
                raise Stop("hang")
            if k == "zero":
                if part:
                    c.send(part)
                time.sleep(hold)

        def before(t, c):
            t.c = c
            if at == "hello":
                if stall:
                    last[0] = time.monotonic()
                    raise Stop("hang")
                time.sleep(hold or s["pause"])
            elif at == "flight":
                c.fill(5)
                f = c.flight()
                p = max(1, len(f) * s["cut"] // 101)
                last[1] = time.monotonic()
                c.raw(f[:p])
                if stall:
                    last[0] = time.monotonic()
                    raise Stop("hang")
                time.sleep(hold or s["pause"])
                c.raw(f[p:])

        def respond(t, step, info):
            n = seen.get(step, 0)
            if step in seen:
                seen[step] += 1
            answer = b"MOIN 1\r\n" if step == "moin" else b"OKAY\r\n"
            here = step == at and n == (s["nth"] if step in seen else 0)
            part = answer[:s["partial"]]
            if here and k == "held":
                open(hold_file, "w").close()
                t0 = time.monotonic()
                time.sleep(0.3)
                t.c.send(answer)
                if step == "quit" and s["partial"]:
                    t.c.close_notify()
                gaps.append(time.monotonic() - t0)
                time.sleep(1.0)
                os.unlink(hold_file)
                return Sent(answer)
            if here:
                halt(t, t.c, part)
                if k == "zero":
                    t.c.send(answer[len(part):])
                    return Sent(answer)
            if k == "alive":
                if here and s["partial"]:      # drip
                    for i in range(len(answer) - 1):
                        t0 = time.monotonic()
                        t.c.send(answer[i:i + 1])
                        time.sleep(s["pause"])
                        gaps.append(time.monotonic() - t0)
                    t.c.send(answer[-1:])
                    return Sent(answer)
                t0 = time.monotonic()
                time.sleep(s["pause"] / (2 if s["n"] > 2 else 1))
                gaps.append(time.monotonic() - t0)
            last[1] = time.monotonic()
            if step == "quit" and at == "shutdown":
                t.c.send(answer)
                if stall:
                    last[0] = time.monotonic()
                    raise Stop("hang")
                time.sleep(hold or s["pause"])
                return Sent(answer)
            return answer

        def read_data(t, c, n):
            if at != "mid" or seen["data"] != s["nth"]:
                return c.recv_exact(n)
            a = n * s["cut"] // 130
            data = c.recv_exact(a) if a else b""
            if stall:
                last[0] = time.monotonic()
                raise Stop("hang")
            if k == "zero":
                time.sleep(hold)
            elif k == "steady":
                c.set_max_in(2500)
                for i in range(16):
                    t0 = time.monotonic()
                    time.sleep(0.3)
                    if c.fill(0) != OK:
                        break
                    gaps.append(time.monotonic() - t0)
                c.set_max_in(0)
            else:
                t0 = time.monotonic()
                time.sleep(s["pause"])
                gaps.append(time.monotonic() - t0)
            return data + c.recv_exact(n - len(data))
        full = at == "tcp"
        if full:
            if not stall:       # nothing to test
                at = s["at"] = "moin"
                full = False
        if full:
            ls, ip, port = free_listener(env, backlog=0)
            fill = []
            for _ in range(3):
                x = socket.socket()
                x.setblocking(False)
                try:
                    x.connect((ip, port))
                except BlockingIOError:
                    pass
                fill.append(x)
                env.cleanups.append(x.close)
            time.sleep(0.02)
            srv = None
        else:
            srv = Nscad(env, respond=respond, before_handshake=before, tls=s["tls"], rcvbuf=4096 if at == "mid" else 0, start=False)
            srv.read_data = read_data
            ip, port = srv.ip, srv.port
            srv.t = threading.Thread(target=srv._accept, daemon=True)
            srv.t.start()
        conf = CONF
        args = ["-C"]
        if s["via"] in ("conf",):
            conf += b"timeout = %d\n" % s["limit"]
        if s["via"] == "both":
            conf += b"timeout = %d\n" % (0 if stall else 1)
        if s["via"] in ("-o", "both"):
            args += ["-o", str(s["limit"])]
        if s["delay"] and k == "alive":
            args += ["-D", "3"]
        kw = {}
        if at == "mid":
            kw = dict(preload=[shim("sndbuf")], extra_env={"SNDBUF": "4608"})
        if k == "held":
            kw = dict(preload=[shim("hold")], extra_env={"HOLD": hold_file})
        return s, srv, last, gaps, (env, ip, port, conf, args), kw, wd

    def client(self, env, prep, jit, labels):
        s, srv, last, gaps, a, kw, d = prep
        at, k, limit = s["at"], s["k"], s["limit"]
        stall = k in ("stall", "default")
        t0 = time.monotonic()
        if srv is None:
            last[0] = t0
        c = Client(*a, workdir=d, **kw)
        c.feed_async(b"".join(b"[%d] " % i + b"x" * s["big"] + b"\n" for i in range(s["n"])))
        if k == "stall":
            wait_until(lambda: last[0] is not None or c.p.poll() is not None, limit)
            time.sleep(0.1)
            t1, used = time.monotonic(), c.cpu()
            time.sleep(0.6)
            used, t1 = c.cpu() - used, time.monotonic() - t1
            if used > 0.4 * t1:
                raise Violation("%s at %s: %.1f s CPU time used within %.1f s" % (k, at, used, t1))
        rc = c.wait(60 + (limit if k == "default" else 0))
        end = time.monotonic()
        err = c.err()
        what = "%s at %s, limit %d (%s)" % (k, at, limit, s["via"])
        slack = 2.5 + 6 * jit[0]
        if stall:
            if last[0] is None:
                raise Violation("%s: gave up (status %d) before the stall: %s" % (what, rc, err[-200:]))
            took = end - last[0]
            if end - max(last[1] or 0, t0) < limit - 0.1:
                if at == "shutdown" and rc == 0:
                    labels.add("did not wait for close_notify")
                    return
                raise Violation("%s: exit %d after only %.2f s: %s" % (what, rc, took, err[-200:]))
            if took > limit + slack:
                raise Violation("%s: exit only after %.2f s" % (what, took))
            if rc == 0 and at != "shutdown":
                raise Violation("%s: status 0" % what)
            if rc != 0 and not err.strip():
                raise Violation("%s: no message" % what)
            if rc not in (0, 1):
                raise Violation("%s: status %d" % (what, rc))
        else:
            if k in ("alive", "held", "steady") and gaps and max(gaps) > 0.8 * limit:
                labels.add("inconclusive")
                return
            if k in ("alive", "held", "steady") and jit[0] > 0.3:
                labels.add("inconclusive")
                return
            if rc != 0:
                raise Violation("%s: status %d: %s (pauses: %s)" % (what, rc, err[-200:], ["%.2f" % g for g in gaps]))
            srv.settle()
            t = srv.one()
            if t is None or len(t.acked) != s["n"]:
                raise Violation("%s: not everything was submitted" % what)
        labels.add("%s/%s" % (k, at))


check = C13()
