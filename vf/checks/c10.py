"""C10: max_command_size."""
from hypothesis import strategies as st
from ..harness import *
from ..run import Check

MAXL = 2**63 - 1


def conf(n):
    s = "" if n is None else "max_command_size = %d\n" % n
    return s + 'authorize "*" { password = "p"\n commands = ".*" }\n'


def verdict(limit, text):
    """-> True (must be accepted), False (must be refused), None (either), and the size."""
    plain = text.isascii() and text.isdigit()
    neg = text.startswith("-")
    digits = text[1:] if text[:1] in "+-" else text
    number = digits.isascii() and digits.isdigit()
    if not number:
        return False, None
    v = int(digits)
    if neg or v == 0 or v > MAXL:
        return False, None
    if limit and v > limit:
        return False, None
    if v >= 2**31 - 1:
        return None, v
    if not plain or digits.startswith("0"):
        return None, v
    return True, v


@st.composite
def cases(draw):
    limit = draw(st.one_of(st.none(), st.just(0), st.sampled_from([1, 2, 10, 127, 128, 129, 4095, 4096, 4097, 16384,
                                                                  16385, 65536, 200000, 2**31 - 1, 2**31, 2**33]),
                           st.integers(1, 300), st.integers(1, 40000)))
    eff = 16384 if limit is None else limit
    ops = []
    total = 0
    for _ in range(draw(st.integers(4, 14))):
        k = draw(st.integers(0, 9))
        if k <= 5:
            base = draw(st.sampled_from([eff or 20000, eff or 5, 4096, 16384, 128, 2**31, 2**32]))
            n = base + draw(st.integers(-3, 3))
            text = str(n)
        elif k == 6:
            text = str(draw(st.integers(1, 50000)))
        elif k == 7:
            text = draw(st.sampled_from(["0", "-1", "-0", "+5", "00", "007", "5x", "x5", "5.0", "1e3", "0x10", "5,", "-5",
                                         "%d", "five", "\xb2", "5-", "--5", "+-5", "0b1", "1_000"]))
        elif k == 8:   # values which wrap around to small positive ones
            w = draw(st.sampled_from([2**16, 2**31, 2**32, 2**33, 2**63, 2**64, 2**65, 2**128, 10**30]))
            text = str(w + draw(st.integers(-20, 20)))
            if draw(st.booleans()):
                text = "-" + text
        else:
            text = str(draw(st.integers(-2**34, 2**34)))
        ops.append([text, draw(st.integers(0, 3))])
    return dict(limit=limit, ops=ops, tls=draw(st.sampled_from([12, 13])))


class C10(Check):
    rule = ("A case is a max_command_size (default, 0, small, boundary and huge values) and 4-14 announced sizes around "
            "it, around powers of two and wrap-around values, zero, negative and non-numeric ones; accepted sizes are "
            "followed by exactly that many bytes.  Non-trivial if one size was refused and a command of the exact "
            "announced size was delivered.")
    assumptions = ["announced sizes of 2^31-1 and more that do not exceed the limit may be accepted or refused",
                   "notations such as +5 or 007 may be accepted (as 5 and 7) or refused"]
    cases = dict(quick=1200, thorough=20000)
    examples = [dict(limit=None, tls=13, ops=[["4294967301", 1], ["16384", 1], ["16385", 1], ["1", 1], ["0", 1], ["5x", 1],
                                              ["18446744073709551621", 1], ["-18446744073709551611", 1]]),
                dict(limit=0, tls=12, ops=[["4294967301", 1], ["16385", 1], ["300000", 1], ["18446744073709551621", 1]])]

    def strategy(self, tier):
        return cases()

    def run(self, env, case):
        srv = Server(env, conf(case["limit"]))
        limit = 16384 if case["limit"] is None else case["limit"]
        s = srv.session("client", "p", tls=case["tls"])
        acked, labels, seq = [], set(), 0
        refused = False
        for text, mode in case["ops"]:
            v, n = verdict(limit, text)
            r = s.req("PUSH " + text)
            if r[:5] == b"FAIL " and r.endswith(b"\r\n"):
                if v is True:
                    raise Violation("max_command_size %r: PUSH %s refused: %r" % (case["limit"], text, r))
                refused = True
                labels.add("refused")
                continue
            if r != b"OKAY\r\n":
                raise Violation("PUSH %s answered with %r" % (text, r))
            if v is False:
                raise Violation("max_command_size %r: PUSH %s accepted" % (case["limit"], text))
            if n > 500000:      # too much to send in a test; the size was accepted
                labels.add("huge accepted")
                s.c.free(rst=True)
                s = srv.session("client", "p", tls=case["tls"])
                continue
            seq += 1
            d = ("[%d] " % seq).encode()
            d = d + b"y" * (n - len(d) - 1) + b"\n" if n > len(d) else b"z" * (n - 1) + b"\n"
            assert len(d) == n
            if mode == 0 and n > 1:
                s.c.send(d[:-1])
                time.sleep(0.002)
                s.c.send(d[-1:])
            else:
                s.c.send(d)
            r = s.c.line()
            want = d.startswith(b"[")
            if r[:4] != (b"OKAY" if want else b"FAIL"):
                raise Violation("command of %d bytes answered with %r" % (n, r))
            if want:
                acked.append(d)
                labels.add("delivered >PIPE_BUF" if n > 4096 else "delivered")
        r = s.req("NOOP")
        if r != b"OKAY\r\n":
            raise Violation("session out of step after PUSH sizes %r: NOOP answered with %r" % (case["ops"], r))
        if not srv.nagios.wait(lambda n: len(n.cmds) >= len(acked)) or sorted(srv.nagios.cmds) != sorted(acked):
            raise Violation("delivered %r instead of %r" % (
                [(len(x), x[:20]) for x in srv.nagios.cmds], [(len(x), x[:20]) for x in acked]))
        s.quit()
        srv.stop()
        return sorted(labels), refused and bool(acked)


check = C10()
