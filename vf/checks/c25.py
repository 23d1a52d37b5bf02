"""C25: send_nsca's -d and -e accept every documented character notation."""
import re
from hypothesis import strategies as st
from ..harness import *
from ..nscad import *
from ..run import Check

SIMPLE = {7: "a", 8: "b", 12: "f", 10: "n", 13: "r", 9: "t", 11: "v", 92: "\\", 39: "'", 34: '"', 63: "?"}
FORBIDDEN = (92, 10, 0o27, 0)


def notations(c):
    out = []
    if c:
        out.append(chr(c))
    if c in SIMPLE:
        out.append("\\" + SIMPLE[c])
    o = "%o" % c
    out += ["0" + o, "0" + o.zfill(2), "0" + o.zfill(3), "\\" + o, "\\" + o.zfill(2), "\\" + o.zfill(3)]
    for x in ("%x" % c, "%X" % c, "%02x" % c, "%02X" % c):
        out += ["0x" + x, "\\x" + x]
    return sorted(set(out))


def meaning(s):
    """The character denoted by s, None if there is none, "?" if we don't care."""
    if len(s) == 1:
        return ord(s) if ord(s) < 128 else "?"
    for r, base in ((r"[0\\]([0-7]{1,3})", 8), (r"[0\\]x([0-9a-fA-F]{1,2})", 16)):
        m = re.fullmatch(r, s)
        if m:
            v = int(m.group(1), base)
            return v if v < 128 else "?" if v < 256 else None
    if len(s) == 2 and s[0] == "\\" and s[1] in SIMPLE.values():
        return next(c for c in SIMPLE if SIMPLE[c] == s[1])
    m = re.fullmatch(r"[0\\](?:0*([0-7]+)|[xX]0*([0-9a-fA-F]+))", s)
    if m:       # too many digits, or an upper-case X
        v = int(m.group(1), 8) if m.group(1) else int(m.group(2), 16)
        return "?" if v < 256 else None
    if re.fullmatch(r"[0\\][bB][01]+", s):
        return "?"      # accepted by strtol(3) nowadays
    return None


NOTATIONS = [(c, n) for c in range(128) for n in notations(c)]
ODD = ["", "ab", "abc", "tab", "\\q", "\\tt", "\\nn", "0x", "\\x", "0xg", "0x1g", "09", "08", "\\9", "\\8", "018", "0 1", "0x 1", "-1",
       "0-1", "\\-1", "0x-1", "0x141", "0x109", "0x10a", "\\x141", "01011", "0411", "0400", "\\400", "\\401", "1", "11", "9", "65",
       "  ", " 9", "0x41 ", "011 ", "0x009x", "012345", "0x12345", "\\x12345", "x41", "X41", "\\\\\\", "\\\\n", "''", "'a'", '"a"', "^A",
       "C-a", "0b1", "0o11", "\\e", "\\c", "\\u41", "0x7fffffff", "0xffffffff41", "0" * 50 + "11", "a" * 5000, "\\" + "1" * 3000, "\t\t", "\n\n"]
ARG = st.one_of(st.sampled_from(NOTATIONS).map(lambda t: t[1]), st.sampled_from(ODD),
                st.text(alphabet="0123478xXabfnrtv\\'\"? -", max_size=6))


@st.composite
def cases(draw):
    k = draw(st.sampled_from(["both", "both", "both", "d", "e", "equal", "odd", "odd"]))
    d = e = None
    if k in ("both", "d"):
        c = draw(st.integers(1, 127))
        d = draw(st.sampled_from(notations(c)))
    if k in ("both", "e"):
        e = draw(st.sampled_from(notations(draw(st.integers(0, 127)))))
    if k == "equal":
        c = draw(st.integers(1, 127))
        d, e = draw(st.sampled_from(notations(c))), draw(st.sampled_from(notations(c)))
    if k == "odd":
        if draw(st.booleans()):
            d = draw(ARG)
        else:
            e = draw(ARG)
    return dict(d=d, e=e, swap=draw(st.booleans()), glue=draw(st.booleans()),
                seed=draw(st.integers(0, 1 << 20)), n=draw(st.integers(1, 3)))


class C25(Check):
    rule = ("all pairs of the 128 ASCII characters and the notations documented for them (literal, C escape, octal with leading zero, 0x "
            "hexadecimal, numeric C escapes) are sampled for -d and -e, as are equal pairs, forbidden delimiters and strings which are no "
            "character.  With a valid pair, the check results sent must be those of the input separated by exactly these characters, with "
            "all other ASCII characters in the message; otherwise send_nsca must fail with a message without connecting.  Non-trivial if "
            "a notation other than a plain printable character is used.")
    assumptions = ["values 128-255, numbers with more digits than needed, binary numbers, 0X and \\X: may be accepted or not",
                   "-C with invalid or equal -d/-e is exempt"]
    cases = dict(quick=2400, thorough=60000)
    budget = dict(quick=120, thorough=2000)
    examples = [dict(d=x, e=None, swap=False, glue=False, seed=1, n=1) for x in ODD] + \
               [dict(d=None, e=x, swap=False, glue=False, seed=1, n=2) for x in ODD] + \
               [dict(d=None, e="\\" + x, swap=False, glue=False, seed=1, n=2) for x in SIMPLE.values()]

    def strategy(self, tier):
        return cases()

    def run(self, env, case):
        import random
        d = 9 if case["d"] is None else meaning(case["d"])
        e = 0o27 if case["e"] is None else meaning(case["e"])
        args = []
        for o in ("ed" if case["swap"] else "de"):
            v = case[o]
            if v is not None:
                args += ["-" + o + v] if case["glue"] and v else ["-" + o, v]
        bad = d is None or e is None or d in FORBIDDEN or (d == e and d != "?")
        murky = not bad and (d == "?" or e == "?")
        srv = Nscad(env)
        r = random.Random(case["seed"])
        recs, exp = [], []
        if not bad and not murky:
            fine = [c for c in range(1, 127) if c not in (d, e, 10, 13, 92)]
            for i in range(case["n"]):
                host, stat = bytes(r.choices(fine, k=6)), bytes(r.choices(fine, k=1))
                msg = bytes(r.sample(fine, len(fine))) + b"\n\\" * (e != 10 and e != 92)
                if not msg.endswith(b"\\") and msg[-1] in (10, 13):
                    msg += bytes(fine[-1:])
                sep = bytes([d])
                if r.random() < 0.5:
                    recs.append(sep.join([host, stat, msg]))
                    exp.append(b"PROCESS_HOST_CHECK_RESULT;%s;%s;%s\n" % (host, stat, msg.replace(b"\\", b"\\\\").replace(b"\n", b"\\n")))
                else:
                    svc = bytes(r.choices(fine, k=5))
                    msg += sep * r.randint(0, 2) + bytes(fine[:1])
                    recs.append(sep.join([host, svc, stat, msg]))
                    exp.append(b"PROCESS_SERVICE_CHECK_RESULT;%s;%s;%s;%s\n" % (host, svc, stat,
                                                                              msg.replace(b"\\", b"\\\\").replace(b"\n", b"\\n")))
            data = bytes([e]).join(recs)
        else:
            data = b"h\ts\t0\tm\n"
        c = Client(env, srv.ip, srv.port, CONF, args)
        c.feed(data)
        rc = c.wait()
        if murky:
            return ["murky"], False
        plain = all(case[o] is None or len(case[o]) == 1 and case[o].isprintable() for o in "de")
        if bad:
            if rc == 0:
                raise Violation("status 0 with %r" % args)
            if srv.talks:
                raise Violation("connected although the arguments %r are invalid" % args)
            if not c.err().strip():
                raise Violation("no message")
            return ["rejected" if d is None or e is None else "forbidden" if d in FORBIDDEN else "equal"], not plain
        if rc != 0:
            raise Violation("status %d with %r: %s" % (rc, args, c.err()[-200:]))
        t = srv.one()
        if t is None or t.error:
            raise Violation("no proper conversation: %r" % (t and t.error))
        got = []
        for x in t.commands:
            m = re.match(rb"\[[0-9]{9,11}\] (.*)\Z", x, re.S)
            if not m:
                raise Violation("odd command %r" % x)
            got.append(m.group(1))
        if got != exp:
            raise Violation("with %r (%d, %d), the input %r became %r" % (args, d, e, data, got))
        return ["accepted"] + ["-%s %s" % (o, "literal" if len(case[o]) == 1 else "hex" if "x" in case[o] else
                                           "escape" if case[o][0] == "\\" else "octal") for o in "de" if case[o] is not None], not plain


check = C25()
