"""C21: send_nsca -C submits every input line verbatim, adding only a timestamp."""
from hypothesis import strategies as st
from ..harness import *
from ..nscad import *
from ..run import Check

WORDS = [b"PROCESS_HOST_CHECK_RESULT;h;0;x", b"[123] FOO;bar", b"[123]FOO", b"[", b"[]", b"[x] y", b"[1", b"] x", b"FOO [1] x",
         b"%n%s%d", b"\\n\\\\", b"a\\", b";", b"\t", b" ", b"  \t ", b"\x17", b"\x17x\x17y", b"x\ty", b"\\", b"#x", b"FOO ", b"FOO\t ",
         b"\xff\x80", b"\x01", b"ENABLE_NOTIFICATIONS"]
LINE = st.one_of(
    st.sampled_from(WORDS), st.sampled_from(WORDS),
    st.binary(max_size=30).map(lambda b: bytes(c for c in b if c not in b"\0\r\n")),
    st.tuples(st.sampled_from([b"", b"[9] ", b"  ", b"[1234567890] "]),
              st.one_of(st.sampled_from([100, 110, 111, 112, 113, 114, 115, 126, 127, 128, 129, 255, 256, 257, 2047, 2048, 2049, 4095,
                                         4096, 4097, 20000]), st.integers(1, 400)),
              st.sampled_from(list(b"x; \\%"))).map(lambda t: t[0] + b"C" + bytes([t[2]]) * t[1]))


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 2, 3, 5, 10, 25]))
    lines = [J(draw(LINE)) for _ in range(draw(st.integers(draw(st.sampled_from([0, 1, 1, 1, 1])), n)))]
    gaps = draw(st.lists(st.sampled_from([0, 0, 0, 1, 2, 5]), min_size=len(lines) + 1, max_size=len(lines) + 1))
    return dict(lines=lines, gaps=gaps, last=draw(st.booleans()), run=draw(st.integers(0, 14)) == 9,
                opts=draw(st.sampled_from([[], [], ["-d", ";"], ["-e", ";"], ["-d", "n", "-e", " "], ["-e", "\\n"],
                                           ["-d", "[", "-e", "0x17"], ["-e", "x"]])),
                file=draw(st.booleans()), frag=draw(st.sampled_from([0, 0, 0, 1, 50])))


class C21(Check):
    rule = ("0-25 input lines (commands with and without timestamps, odd brackets, escapes, ETB, tabs, arbitrary bytes, lengths "
            "around buffer blocks), empty lines between them, with or without a final newline, from a pipe or file, with -d/-e "
            "given or not.  The scripted server compares each received command with the line.  Non-trivial if there are at least "
            "two lines, or one exceeding a buffer block, or with an odd bracket, or leading blanks, or no final newline.")
    assumptions = ["no NUL and no CR in the input", "lines consisting of blanks only are exempt"]
    cases = dict(quick=1600, thorough=60000)
    budget = dict(quick=150, thorough=3000)

    def strategy(self, tier):
        return cases()

    examples = [dict(lines=["FOO"], gaps=[0, 0], last=False, run=True, opts=[], file=False, frag=0),
                dict(lines=["FOO"] * 300, gaps=[0] * 301, last=True, run=False, opts=[], file=True, frag=0),
                dict(lines=["", "  ", "[1] x"], gaps=[5, 5, 5, 5], last=True, run=False, opts=[], file=False, frag=1)]

    def run(self, env, case):
        lines = [B(x) for x in case["lines"]]
        data = b"\n" * case["gaps"][0] + (b"\n" * 150000 if case["run"] else b"")
        lines = [l for l in lines if l == b"" or l.strip(b" \t")]
        for i, l in enumerate(lines):
            data += l + (b"\n" if case["last"] or i < len(lines) - 1 else b"") + b"\n" * (
                case["gaps"][i + 1] if case["last"] or i < len(lines) - 1 else 0)
        exp = [l.lstrip(b" \t") for l in lines if l]
        srv = Nscad(env, frag=case["frag"])
        args = ["-C"] + case["opts"]
        t0 = int(time.time())
        if case["file"]:
            p = os.path.join(env.tmp, "input-%d" % env.n)
            with open(p, "wb") as f:
                f.write(data)
            with open(p, "rb") as f:
                c = Client(env, srv.ip, srv.port, CONF, args, stdin=f)
        else:
            c = Client(env, srv.ip, srv.port, CONF, args)
            c.feed_async(data)
        rc = c.wait(60)
        t1 = int(time.time()) + 1
        talk = srv.one()
        if talk is None:
            raise Violation("%d connections instead of one" % len(srv.talks))
        if talk.error:
            raise Violation("protocol error: %s" % talk.error)
        if rc != 0:
            raise Violation("status %d: %s" % (rc, c.err()[-300:]))
        if not talk.quit:
            raise Violation("exited 0 without QUIT")
        if len(talk.commands) != len(exp):
            raise Violation("%d lines, but %d commands: %r" % (len(exp), len(talk.commands), [x[:60] for x in talk.commands[:5]]))
        for got, l in zip(talk.commands, exp):
            if l.startswith(b"["):
                if got != l + b"\n":
                    raise Violation("line %r submitted as %r" % (l[:120], got[:120]))
                continue
            m = re.match(rb"^\[(\d+)\] (.*)\n$", got, re.S)
            if not m or m.group(2) != l:
                raise Violation("line %r submitted as %r" % (l[:120], got[:120]))
            if not t0 <= int(m.group(1)) <= t1:
                raise Violation("timestamp %s is not the current time" % J(m.group(1)))
        nt = len(exp) > 1 or any(len(l) > 128 or l[:1] in (b" ", b"\t") or b"[" in l for l in lines) or not case["last"]
        return ["lines:%s" % ("0" if not exp else "1" if len(exp) == 1 else "2+"), "final newline" if case["last"] else
                "no final newline"] + (["long run of empty lines"] if case["run"] else []) + (["-d/-e"] if case["opts"] else []), nt


check = C21()
