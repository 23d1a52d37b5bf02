"""C02: arbitrary payload bytes never smuggle anything."""
from hypothesis import strategies as st
from ..harness import *
from ..run import Check
from .. import regexgen as rg
from .c01 import allowed, conf_text

MODEL = dict(hosts=[rg.word("jupiter")], services=[[rg.word("disk"), rg.word("jupiter")]],
             commands=[["seq", rg.word("ENABLE_")[1] + [["rep", ["any"], "*"]]]], braces=False)
GOOD = ["[1600000000] PROCESS_HOST_CHECK_RESULT;jupiter;0;OK", "[1] PROCESS_SERVICE_CHECK_RESULT;jupiter;disk;2;BAD",
        "[1600000000] ENABLE_NOTIFICATIONS", "[1600000000] ENABLE_X;\\n[1] Y"]
EVIL = ["[1600000000] SHUTDOWN_PROGRAM", "[1] PROCESS_HOST_CHECK_RESULT;mars;0;x", "SHUTDOWN_PROGRAM", "DEL_ALL"]


def accept(payload):
    if b"\0" in payload or payload.count(b"\n") != 1 or not payload.endswith(b"\n"):
        return False
    return allowed(MODEL, payload[:-1])


piece = st.one_of(st.sampled_from(GOOD), st.sampled_from(GOOD), st.sampled_from(EVIL),
                  st.sampled_from(["\n", "\n", "\0", "\r\n", "\n\0", "\0\n", "\n\n", "]", "[", "[1] ", " ", ";", "\t",
                                   "\x7f", "\xff\xfe", "%s%n", "\\n", "\r"]),
                  st.text(alphabet=st.characters(min_codepoint=0, max_codepoint=255), max_size=8))


@st.composite
def payloads(draw):
    k = draw(st.integers(0, 9))
    if k <= 1:
        s = draw(st.sampled_from(GOOD)) + "\n"
    elif k <= 4:  # a good command with one thing wrong
        s = draw(st.sampled_from(GOOD)) + "\n"
        i = draw(st.integers(0, len(s)))
        ins = draw(st.sampled_from(["\n", "\0", "\n\0", "\0\n", "\n[1] SHUTDOWN_PROGRAM\n", "\0\n[1] SHUTDOWN_PROGRAM\n",
                                    "\0[1] SHUTDOWN_PROGRAM\n", "x", "]", "\r"]))
        s = s[:i] + ins + s[i:]
        if draw(st.integers(0, 3)) == 0:
            s = s.rstrip("\n")
    elif k == 5:
        s = draw(st.sampled_from(GOOD)) + "\n" + draw(st.sampled_from(["\0", "\n", ""])) + \
            draw(st.sampled_from(EVIL)) + draw(st.sampled_from(["\n", "", "\0"]))
    elif k == 6:
        s = draw(st.sampled_from(EVIL)) + draw(st.sampled_from(["\n", ";", "\0", "] "])) + \
            draw(st.sampled_from(GOOD)) + draw(st.sampled_from(["\n", ""]))
    else:
        s = "".join(draw(st.lists(piece, max_size=6))) + draw(st.sampled_from(["\n", "\n", ""]))
    pad = draw(st.sampled_from([0] * 8 + [3900, 5000]))
    if pad and s.endswith("\n"):
        s = s[:-1] + "p" * pad + "\n"
    return s or "\n"


@st.composite
def ops(draw):
    out = []
    for _ in range(draw(st.integers(2, 14))):
        c = draw(st.integers(0, 1))
        k = draw(st.integers(0, 9))
        p = draw(payloads())
        if k <= 6:
            out.append(["push", c, p])
        elif k <= 8:   # split payload, another client pushes in between
            out.append(["split", c, p, draw(st.integers(0, len(p))), draw(payloads())])
        else:
            out.append(["abandon", c, p, draw(st.integers(0, max(0, len(p) - 1))), draw(st.booleans())])
    return dict(ops=out, tls=draw(st.sampled_from([12, 13])))


class C02(Check):
    rule = ("A case is a sequence of pushes on two connections whose payloads combine permitted and forbidden commands, "
            "NUL bytes, newlines, brackets and random bytes, possibly split around a push of the other client or "
            "abandoned; non-trivial if a payload is refused that contains a permitted command as a substring.")
    cases = dict(quick=1600, thorough=30000)
    examples = [dict(tls=13, ops=[["push", 0, GOOD[0] + "\n\0\n[1] SHUTDOWN_PROGRAM\n"],
                                  ["push", 0, GOOD[0] + "\n[1] SHUTDOWN_PROGRAM\n"], ["push", 0, GOOD[0]],
                                  ["push", 0, "\n"], ["push", 0, "\0"], ["push", 0, "SHUTDOWN_PROGRAM]" + GOOD[0][3:] + "\n"],
                                  ["push", 0, GOOD[0] + "\n"]])]

    def strategy(self, tier):
        return ops()

    def run(self, env, case):
        srv = Server(env, conf_text(MODEL))
        sess = [None, None]
        root = srv.session("sentinel", "p")
        expect, optional, labels = [], [], set()
        interesting = False

        def judge(p, ok):
            nonlocal interesting
            v = accept(p)
            if v is True and not ok:
                raise Violation("permitted command refused: %r" % p)
            if v is False and ok:
                raise Violation("payload acknowledged although it is not one authorised line: %r" % p)
            if v is False and any(B(g) in p for g in GOOD):
                interesting = True
            labels.add({True: "accepted", False: "refused", None: "open"}[v])
            if ok:
                expect.append(p)

        def get(c):
            if sess[c] is None:
                sess[c] = srv.session("client", "p", tls=case["tls"])
            return sess[c]

        for op in case["ops"]:
            c, p = op[1], B(op[2])
            s = get(c)
            if op[0] == "push":
                judge(p, s.submit(p))
            else:
                r = s.req("PUSH %d" % len(p))
                if r != b"OKAY\r\n":
                    raise Violation("PUSH refused: %r" % r)
                if op[3]:
                    s.c.send(p[:op[3]])
                if op[0] == "split":
                    q = B(op[4])
                    judge(q, get(1 - c).submit(q))
                    if p[op[3]:]:
                        s.c.send(p[op[3]:])
                    r = s.c.line()
                    if r != b"OKAY\r\n" and not r.startswith(b"FAIL "):
                        raise Violation("unexpected response %r" % r)
                    judge(p, r == b"OKAY\r\n")
                    labels.add("interleaved")
                else:
                    if op[4]:
                        s.c.close_notify()
                    s.c.free(rst=not op[4])
                    sess[c] = None
                    labels.add("abandoned")
        end = b"[1] SENTINEL\n"
        if not root.submit(end):
            raise Violation("sentinel command refused")
        want = sorted(expect + [end])
        srv.nagios.wait(lambda n: len(n.cmds) >= len(want) or n.problems)
        if srv.nagios.problems:
            raise Violation("; ".join(srv.nagios.problems))
        if sorted(srv.nagios.cmds) != want:
            raise Violation("delivered %r instead of %r" % (sorted(srv.nagios.cmds), want))
        srv.check_alive()
        srv.stop()
        srv.nagios.pump()
        if sorted(srv.nagios.cmds) != want or srv.nagios.pending:
            raise Violation("more delivered than acknowledged: %r %r" % (srv.nagios.cmds, srv.nagios.pending))
        return sorted(labels), interesting


check = C02()
