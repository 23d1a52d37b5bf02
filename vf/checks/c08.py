"""C08: how a client's bytes are cut and paced does not matter (metamorphic)."""
from hypothesis import strategies as st
from ..harness import *
from ..run import Check

CONF = ('max_command_size = 100000\nauthorize "client" { password = "p"\n commands = "OK.*" }\n'
        'authorize "sentinel" { password = "p"\n commands = ".*" }\n')
LINES = ["NOOP", "noop", "PUSH 0", "PUSH x", "", "FOO", "MOIN 1 ab", "PING 1", "NOOP" + " " * 200, "X" * 127, "X" * 128,
         "X" * 126, "Y" * 255, "Y" * 1000]


@st.composite
def cases(draw):
    steps = []
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 9))
        if k <= 4:     # several request lines at once, the last possibly a PUSH
            ls = [[draw(st.sampled_from(LINES)), draw(st.sampled_from(["\r\n", "\n"]))]
                  for _ in range(draw(st.integers(1, 6)))]
            steps.append(["lines", ls])
        else:
            n = draw(st.one_of(st.integers(5, 300), st.sampled_from([1, 127, 128, 129, 4096, 16383, 16384, 16385, 40000])))
            ok = draw(st.booleans())
            # what follows the payload in the same stretch of bytes
            tail = [[draw(st.sampled_from(LINES)), draw(st.sampled_from(["\r\n", "\n"]))]
                    for _ in range(draw(st.integers(0, 2)))]
            head = [[draw(st.sampled_from(LINES)), "\r\n"] for _ in range(draw(st.integers(0, 2)))]
            steps.append(["push", n, ok, head, tail])
    cut = st.one_of(st.just([]), st.lists(st.integers(0, 60000), max_size=6), st.just("bytes"))
    plan = [[draw(cut), draw(st.sampled_from([0, 0, 0, 1, 2, 5, 50, 1000])), draw(st.sampled_from([0, 0, 200, 2000]))]
            for _ in range(2 * len(steps))]
    return dict(steps=steps, plan=plan, hs=draw(st.sampled_from([0, 1, 3, 50])), tls=draw(st.sampled_from([12, 13])))


def transmit(c, data, plan):
    """Send `data` cut into records and segments."""
    if plan is None:
        c.frag(0, 0)
        if data:
            c.send(data)
        return
    cuts, seg, us = plan
    if cuts == "bytes":
        recs = [data[i:i + 1] for i in range(min(len(data), 300))] + ([data[300:]] if data[300:] else [])
    else:
        pos = sorted({x % (len(data) + 1) for x in cuts} | {0, len(data)})
        recs = [data[a:b] for a, b in zip(pos, pos[1:])]
    if seg and len(data) // seg > 400:
        seg = len(data) // 400 + 1
    # (not more than some 15 ms of pauses per stretch)
    us = min(us, 15000 // (len(data) // seg + len(recs))) if seg else us
    c.frag(seg, us if us >= 50 else 0)
    if us and len(recs) <= 8:
        for r in recs:
            if r:
                c.send(r)
                time.sleep(us / 1e6)
    else:   # several records back to back in one stream of segments
        for r in recs:
            if r:
                c.encrypt(r)
        c.flush()


def play(c, case, planned):
    """-> transcript: list of response lines; and the acknowledged payloads."""
    out, acked = [], []
    plans = iter(case["plan"] if planned else [None] * 1000)

    def lines(ls):
        return b"".join(B(l) + B(e) for l, e in ls)
    c.send(b"MOIN 1 abc\r\n") if not planned else transmit(c, b"MOIN 1 abc\r\n", case["plan"][0])
    out.append(c.line())
    for i, s in enumerate(case["steps"]):
        if s[0] == "lines":
            transmit(c, lines(s[1]), next(plans))
            next(plans)
            for _ in s[1]:
                out.append(c.line())
        else:
            n, ok, head, tail = s[1:]
            d = (b"[%d] %s" % (i, b"OK" if ok else b"NO")).ljust(n - 1, b"p")[:n - 1] + b"\n"
            transmit(c, lines(head) + b"PUSH %d\r\n" % n, next(plans))
            for _ in range(len(head) + 1):
                out.append(c.line())
            transmit(c, d + lines(tail), next(plans))
            for _ in range(len(tail) + 1):
                out.append(c.line())
            if out[-1 - len(tail)] == b"OKAY\r\n":
                acked.append(d)
    transmit(c, b"QUIT\r\n", None)
    out.append(c.line())
    out.append(c.ending())
    return out, acked


def expected(case):
    """The transcript PROTOCOL prescribes, as response keywords."""
    def one(l):
        return b"OKAY" if l[:4].upper() == "NOOP" else b"FAIL"
    out = [b"MOIN"]
    for s in case["steps"]:
        if s[0] == "lines":
            out += [one(l) for l, e in s[1]]
        else:
            n, ok, head, tail = s[1:]
            out += [one(l) for l, e in head] + [b"OKAY"]
            out += [b"OKAY" if ok and n > 6 else b"FAIL"] + [one(l) for l, e in tail]
    return out + [b"OKAY"]


class C08(Check):
    rule = ("A case is a script of request lines (possibly several at once) and pushes that is played twice: unfragmented, "
            "and with every stretch of bytes cut into random TLS records and TCP segments with pauses.  Both transcripts "
            "must be equal and as prescribed by PROTOCOL, and both must deliver the same commands.  Non-trivial if at least one push and "
            "one multi-line stretch were cut.")
    assumptions = ["pauses are far below the timeout (60 s)"]
    cases = dict(quick=800, thorough=20000)

    def strategy(self, tier):
        return cases()

    def run(self, env, case):
        srv = Server(env, CONF)
        root = srv.session("sentinel", "p")
        res = []
        for planned in (False, True):
            c = srv.connect("client", "p", tls=case["tls"], handshake=False)
            if planned:
                c.frag(case["hs"], 200)
            c.handshake()
            try:
                out, acked = play(c, case, planned)
            except PeerGone as e:
                raise Violation("%s run: %s" % ("fragmented" if planned else "plain", e))
            if out[-1] != ("closed", b""):
                raise Violation("%s run ended with %r" % ("fragmented" if planned else "plain", out[-1]))
            c.free()
            end = b"[%d] END\n" % len(res)
            root.submit(end)
            if not srv.nagios.wait(lambda n: len(n.cmds) >= len(acked) + 1):
                raise Violation("only %d of %d commands delivered" % (len(srv.nagios.cmds), len(acked) + 1))
            got = sorted(x for x in srv.nagios.cmds if x != end)
            srv.nagios.cmds = []
            if got != sorted(acked):
                raise Violation("delivered %r instead of %r" % ([x[:40] for x in got], [x[:40] for x in acked]))
            kws = [x[:4] for x in out[:-1]]
            if kws != expected(case):
                raise Violation("%s run: responses %r instead of %r" % (
                    "fragmented" if planned else "plain", kws, expected(case)))
            res.append((out, got))
        if res[0] != res[1]:
            raise Violation("answers depend on the fragmentation: %r vs %r" % (res[0][0], res[1][0]))
        srv.stop()
        labels = [s[0] for s in case["steps"]]
        cut = any(p[0] or p[1] for p in case["plan"])
        return sorted(set(labels)), cut and "push" in labels and "lines" in labels


check = C08()
