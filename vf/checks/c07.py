"""C07: the protocol state machine, against a reference model of PROTOCOL."""
from hypothesis import strategies as st
from ..harness import *
from ..run import Check

CONF = ('authorize "client" { password = "p"\n commands = "OK.*" }\n'
        'authorize "sentinel" { password = "p"\n commands = ".*" }\n')
WS = " \t"


def malformed_words(line):
    """Not "keyword and arguments separated by single spaces"."""
    return "  " in line or "\t" in line or line.startswith(" ") or line.endswith(" ") or \
        any(not 32 <= ord(c) <= 126 for c in line)


# outcomes: a set of acceptable (response kind, next state); states: H, C, or
# "end" (closed cleanly), P<n> (payload expected)
def model(state, line):
    kw = line[:4].upper()
    words = line.split(" ")
    strange = malformed_words(line)
    exact = len(words[0]) == 4          # the keyword is a word of its own
    out = set()
    FAIL = ("FAIL", state)
    if state == "H":
        if kw == "MOIN":
            good = len(words) == 3 and words[1].isdigit() and 0 < int(words[1]) < 2**31 and \
                2 <= len(words[2]) <= 64 and exact and not strange
            # clearly broken: wrong number of arguments or no positive version
            w = line.split()
            bad = len([x for x in line.replace("\t", " ").split(" ") if x]) != 3
            if not bad and not strange:
                v = words[1]
                bad = bad or v.strip("-").isdigit() and int(v.strip("-")) == 0 or \
                    v.startswith("-") or not v[:1].isdigit() and v[:1] not in "+"
            if good:
                return {("MOIN", "C")}
            if bad:
                return {FAIL}
            return {("MOIN", "C"), FAIL}
        if kw == "PING":
            if words[1:] and words[1].isdigit() and int(words[1]) == 1 and len(words) == 2 and exact and not strange:
                return {("PONG", "end")}
            return {("PONG", "end"), FAIL}
        if kw == "BAIL":
            if exact and len(words) > 1 and not strange:
                return {(None, "end")}
            return {(None, "end"), FAIL}
        if kw == "QUIT":                # not a first request according to PROTOCOL
            return {("OKAY", "end"), FAIL}
        return {FAIL}
    if state == "C":
        if kw == "NOOP":
            if line.upper() == "NOOP":
                return {("OKAY", "C")}
            return {("OKAY", "C"), FAIL}
        if kw == "QUIT":
            if line.upper() == "QUIT":
                return {("OKAY", "end")}
            return {("OKAY", "end"), FAIL}
        if kw == "BAIL":
            if exact and len(words) > 1 and not strange:
                return {(None, "end")}
            return {(None, "end"), FAIL}
        if kw == "PUSH":
            w = [x for x in line.replace("\t", " ").split(" ") if x]
            if len(w) != 2:
                return {FAIL}
            if exact and not strange and w[1].isascii() and w[1].isdigit() and 0 < int(w[1]) <= 16384 and \
                    not w[1].startswith("0"):
                return {("OKAY", "P%d" % int(w[1]))}
            digits = w[1].lstrip("+-")
            if not digits.isdigit() or not digits.isascii() or w[1][0] == "-" or int(digits) == 0 or \
                    int(digits) > 16384:
                return {FAIL}
            return {("OKAY", "P%d" % int(digits)), FAIL}
        return {FAIL}


KW = ["MOIN", "PING", "PUSH", "NOOP", "QUIT", "BAIL"]
case_kw = st.builds(lambda k, m: "".join(c.lower() if m >> i & 1 else c for i, c in enumerate(k)),
                    st.sampled_from(KW), st.integers(0, 15))
printable = st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=20)
anyline = st.text(alphabet=st.characters(min_codepoint=1, max_codepoint=255, blacklist_characters="\n"), max_size=30)
arg = st.one_of(st.sampled_from(["1", "2", "0", "-1", "1x", "x", "Zm9vYmFy", "42", "34", "16384", "16385", "%s%n%d",
                                 "007", "+3", "99999999999", "4294967297", "1.5", "0x10", "A" * 64, "A" * 65, "A" * 900]),
                printable)


@st.composite
def lines(draw, state_hint):
    k = draw(st.integers(0, 11))
    if k <= 4:
        good = {"H": ["MOIN 1 abcdef", "moin 1 Zm9vYmFy", "Moin 1 ~!", "PING 1", "BAIL I'm bad", "MOIN 0 abcdef",
                      "MOIN 2 abcdef", "MOIN 1", "MOIN 1 a b"],
                "C": ["NOOP", "noop", "NoOp", "PUSH 20", "push 5", "QUIT", "Quit", "BAIL so long", "PUSH 0", "PUSH",
                      "PUSH 1 2", "PUSH x", "PUSH -3", "NOOP", "PUSH 0x10", "PUSH 012", "PUSH 08"]}
        return draw(st.sampled_from(good[state_hint]))
    if k <= 8:
        kw = draw(case_kw)
        args = draw(st.lists(arg, max_size=3))
        sep = draw(st.sampled_from([" "] * 6 + ["  ", "\t"]))
        return draw(st.sampled_from([""] * 8 + [" "])) + sep.join([kw] + args)
    if k == 9:
        return draw(st.sampled_from(["", " ", "OKAY", "FAIL x", "MOI", "PUS 3", "NOO", "NO OP", "MOINX 1 abc", "PUSHX 5",
                                     "%s%s%s%n", "HELO", "GET / HTTP/1.0", "\r", "NOOP\r"]))
    if k == 10:    # long lines
        n = draw(st.sampled_from([500, 1000, 1021, 1022]))
        kw = draw(st.sampled_from(["XXXX ", "BAIL ", "MOIN 1 ", "PUSH "]))
        return kw + "a" * (n - len(kw))
    return draw(anyline)


@st.composite
def sessions(draw):
    out = []
    for _ in range(draw(st.integers(1, 4))):
        ops = []
        st_ = "H"
        n = draw(st.integers(2, 14))
        for _ in range(n):
            if draw(st.sampled_from([0] * 80 + [1])):
                ops.append(["flood", draw(st.sampled_from([2100, 3000, 10000, 200000])), draw(st.booleans())])
                break
            l = draw(lines(st_))
            if st_ == "H" and draw(st.integers(0, 9)) < 5:
                l = draw(st.sampled_from(["MOIN 1 abcdef", "moin 1 ab", "Moin 1 ~!"]))
            ops.append(["line", l, draw(st.sampled_from(["\r\n", "\r\n", "\n"])), draw(st.integers(0, 3))])
            m = model(st_, l)
            nxt = sorted(x[1] for x in m)
            if "end" in nxt and len(nxt) == 1:
                if len(ops) < n // 2:
                    ops.pop()
                    continue
                break
            if "C" in nxt:
                st_ = "C"
        out.append(ops)
    return dict(sessions=out, tls=draw(st.sampled_from([12, 13])))


class C07(Check):
    rule = ("A case is 1-4 sessions of up to 12 request lines (valid, malformed, unexpected in the state, random bytes, "
            "overlong) sent in lock-step and judged by a reference model of PROTOCOL; non-trivial if a session got past "
            "MOIN and received at least one FAIL and one OKAY.")
    assumptions = ["where PROTOCOL leaves the treatment of a sloppily written request open (extra spaces, trailing "
                   "arguments, longer keywords, QUIT before MOIN) both FAIL and the lenient answer are accepted",
                   "a line between 1025 and 2048 octets may or may not be refused",
                   "if a client floods the server with more than it reads, the TCP reset may destroy the BAIL on its way"]
    cases = dict(quick=1000, thorough=40000)
    examples = [
        dict(tls=13, sessions=[[["line", "MOIN 1 ab", "\r\n", 0], ["line", "NOOP", "\r\n", 0], ["line", "NOOP", "\n", 0],
                                ["line", "PUSH 20", "\r\n", 0], ["line", "MOIN 1 ab", "\r\n", 0],
                                ["line", "PING 1", "\r\n", 0], ["line", "QUIT", "\r\n", 0]],
                               [["line", "PING 1", "\n", 0]], [["line", "BAIL x", "\n", 0]],
                               [["line", "MOIN 1 ab", "\r\n", 0], ["line", "BAIL x y", "\r\n", 0]]]),
        dict(tls=12, sessions=[[["flood", 3000, False]], [["line", "MOIN 1 ab", "\r\n", 0], ["flood", 200000, True]],
                               [["flood", 2100, True]]]),
    ]

    def strategy(self, tier):
        return sessions()

    def run(self, env, case):
        srv = Server(env, CONF)
        labels = set()
        seq = 0
        acked = []
        nontriv = False
        for ops in case["sessions"]:
            c = srv.connect("client", "p", tls=case["tls"])
            state, got = "H", set()
            for op in ops:
                if op[0] == "flood":
                    self.flood(c, op[1], op[2])
                    labels.add("flood")
                    state = "gone"
                    break
                line = op[1].replace("\0", "").replace("\n", "")
                if op[2] == "\n" and line.endswith("\r"):
                    line = line[:-1]
                want = model(state, line)
                c.send(B(line) + B(op[2]))
                kinds = {k for k, s in want}
                if kinds == {None}:
                    self.clean_end(c, "BAIL")
                    labels.add("BAIL")
                    state = "gone"
                    break
                try:
                    r = c.line()
                except PeerGone as e:
                    if None in kinds and e.kind == "closed":
                        labels.add("open")
                        state = "gone"
                        break
                    raise Violation("request %r in state %s: no response (%s)" % (line, state, e))
                self.form(r, line)
                k = J(r[:4])
                nxt = [s for kk, s in want if kk == k]
                if not nxt:
                    raise Violation("request %r in state %s answered with %r instead of %s" % (
                        line, state, r, sorted(map(str, kinds))))
                labels.add("open" if len(want) > 1 else k + "@" + state[0])
                got.add(k)
                state = nxt[0]
                if state == "end":
                    self.clean_end(c, line)
                    state = "gone"
                    break
                if state[0] == "P":
                    n = int(state[1:])
                    seq += 1
                    good = op[3] > 0
                    d = ("[1] %s%d;" % ("OK" if good else "NO", seq)).ljust(n - 1, "x")[:n - 1] + "\n"
                    c.send(B(d))
                    r = c.line()
                    self.form(r, "data of PUSH")
                    valid = d.startswith("[1] OK")
                    if J(r[:4]) != ("OKAY" if valid else "FAIL"):
                        raise Violation("%s data answered with %r" % ("permitted" if valid else "forbidden", r))
                    if valid:
                        acked.append(B(d))
                    got.add(J(r[:4]))
                    state = "C"
            if state in ("H", "C"):
                # the session must still be usable, with no response left over
                if state == "H":
                    c.send(b"MOIN 1 zz\r\n")
                    r = c.line()
                    if r != b"MOIN 1\r\n":
                        raise Violation("session not usable any more: MOIN answered with %r" % r)
                c.send(b"QUIT\r\n")
                r = c.line()
                if r != b"OKAY\r\n":
                    raise Violation("session not usable any more: QUIT answered with %r" % r)
                self.clean_end(c, "QUIT")
            c.free()
            if "FAIL" in got and "OKAY" in got:
                nontriv = True
        end = b"[1] SENTINEL\n"
        srv.session("sentinel", "p").submit(end)
        if not srv.nagios.wait(lambda n: len(n.cmds) > len(acked)) or sorted(srv.nagios.cmds) != sorted(acked + [end]):
            raise Violation("delivered %r instead of %r" % (srv.nagios.cmds, acked + [end]))
        srv.stop()
        return sorted(labels), nontriv

    @staticmethod
    def form(r, line):
        if not r.endswith(b"\r\n") or b"\r" in r[:-2]:
            raise Violation("response to %r not terminated with CRLF: %r" % (line, r))
        if not (r[:4].isalpha() and r[:4].isupper() and (r[4:5] in (b" ", b"\r"))):
            raise Violation("malformed response to %r: %r" % (line, r))
        if r[:4] in (b"FAIL", b"BAIL") and len(r) < 8:
            raise Violation("%r response without message" % r)

    @staticmethod
    def clean_end(c, what):
        kind, extra = c.ending()
        if kind != "closed":
            raise Violation("%s not followed by a clean TLS shutdown but by %s" % (what, kind))
        if extra:
            raise Violation("%s followed by more data: %r" % (what, extra))
        c.close_notify()
        e = c.wait_eof()
        if e == "timeout":
            raise Violation("connection left open after %s" % what)

    def flood(self, c, n, slow):
        data = b"x" * n
        step = 1000 if slow else 16384
        try:
            for i in range(0, n, step):
                c.send(data[i:i + step])
                if slow and i < 5000:
                    time.sleep(0.001)
        except PeerGone:
            pass
        kind, extra = c.ending()
        if n > 8192 and not extra and kind != "timeout":
            return      # the reset caused by what the server did not read may overtake its answer
        if not (extra.startswith(b"BAIL ") and extra.endswith(b"\r\n") and extra.count(b"\n") == 1):
            raise Violation("line of %d octets answered with %r (%s)" % (n, extra[:200], kind))
        if kind == "timeout" or kind != "closed" and n <= 8192:
            raise Violation("BAIL after an overlong line not followed by a TLS shutdown but by %s" % kind)


check = C07()
