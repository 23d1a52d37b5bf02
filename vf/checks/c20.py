"""C20: send_nsca turns each check result into the one correct command."""
from hypothesis import strategies as st
from ..harness import *
from ..nscad import *
from ..run import Check

CHARS = b"\\\\\\\\nnnt0;;[]%s$ -\"'\r\n\n\n\tABCxyz\x01\x17\x7f\x80\xff;=#"
BLANKS = [b"", b"\n", b"\n\n", b"\r\n", b"\n\r\n\n"]


def text(avoid, max_size=24):
    chars = bytes(c for c in CHARS if c not in avoid) or b"x"
    anyc = bytes(c for c in range(1, 256) if c not in avoid)
    return st.one_of(
        st.lists(st.sampled_from(list(chars)), max_size=max_size).map(bytes),
        st.lists(st.sampled_from(list(anyc)), max_size=6).map(bytes),
        st.sampled_from([b"PING OK", b"host.example.com", b"a" * 20]).filter(lambda t: not set(t) & set(avoid)))


@st.composite
def cases(draw):
    d = draw(st.one_of(st.just(9), st.sampled_from(list(b"n;0|,:[] %\x01sa")), st.integers(1, 127)))
    if d in (0o27, 10, 92, 13):
        d = 9
    e = draw(st.one_of(st.just(0o27), st.just(0o27), st.sampled_from(list(b"\n\0\x01n;|\\\t")), st.integers(0, 127)))
    if e == d:
        e = 0o27
    avoid = {0, d, e}
    mavoid = {0, e}
    recs = []
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 12)))
    for i in range(n):
        k = draw(st.sampled_from(["svc", "svc", "svc", "host", "host", "blank", "bad"] + ["big"] * (i == 0)))
        nl = e != 10 and draw(st.booleans())
        if k == "blank":
            b = draw(st.sampled_from(BLANKS))
            recs.append(dict(k="blank", raw=J(bytes(c for c in b if c != e))))
            continue
        if k == "bad":
            z = bytes(c for c in b"xyz" if c not in avoid)[:1]
            if draw(st.integers(0, 9)) != 5:
                continue
            recs.append(dict(k="bad", raw=J(draw(st.sampled_from([z, z + bytes([d]) + z])))))
            continue
        status = draw(st.one_of(st.sampled_from([x for x in (b"0", b"1", b"2", b"3") if x[0] not in avoid]), text(avoid, 4)))
        msg = draw(text(mavoid if k == "svc" else avoid, 60))
        if k == "big":
            k = draw(st.sampled_from(["svc", "host"]))
            size = draw(st.one_of(st.sampled_from([100, 127, 128, 129, 255, 256, 257, 2047, 2048, 2049, 4095, 4096, 4097, 16383,
                                                   16384, 16385, 65536]), st.integers(1, 3000), st.just(100000)))
            fill = draw(st.sampled_from([c for c in b"xyz;" if c not in avoid] +
                                        [c for c in b"\\\n" if c not in avoid]))
            recs.append(dict(k=k, f=[J(draw(text(avoid)))] + ([J(draw(text(avoid)))] if k == "svc" else []) + [J(status)],
                             big=[size, fill], msg=J(msg), nl=nl))
            continue
        recs.append(dict(k=k, f=[J(draw(text(avoid)))] + ([J(draw(text(avoid)))] if k == "svc" else []) + [J(status)],
                         msg=J(msg), nl=nl))
    return dict(d=d, e=e, recs=recs, last=draw(st.booleans()), run=draw(st.sampled_from([0] * 12 + [1])),
                file=draw(st.booleans()), frag=draw(st.sampled_from([0, 0, 0, 1, 50])))


def opt(c):
    return "0x%02x" % c


def field(s):
    return B(s)


def esc(b):
    return b.replace(b"\\", b"\\\\").replace(b"\n", b"\\n")


def unescape(b):
    out = bytearray()
    i = 0
    while i < len(b):
        if b[i] == 92:
            if i + 1 >= len(b) or b[i + 1] not in b"\\n":
                raise Violation("received text is not properly escaped: %r" % b[:200])
            out.append(92 if b[i + 1] == 92 else 10)
            i += 2
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


def build_input(case):
    """-> (stdin, [expected (word, [fields])], bad)"""
    d, e = bytes([case["d"]]), bytes([case["e"]])
    exp, raws, bad = [], [], False
    for r in case["recs"]:
        if r["k"] in ("blank", "bad"):
            raws.append(B(r["raw"]))
            if r["k"] == "bad":
                bad = True
            continue
        f = [B(x) for x in r["f"]]
        # a record may not start with line ends: those are skipped
        f[0] = f[0].lstrip(b"\r\n")
        if not f[0]:
            f[0] = b"h" if b"h" not in (d, e) else b"k"
        m = B(r["msg"])
        if "big" in r:
            m = bytes([r["big"][1]]) * r["big"][0] + m
        raw = d.join(f + [m])
        if r["nl"] or (raw.endswith(b"\n") and e != b"\n"):
            raw += b"\n"
        raws.append(raw)
        if not bad:
            exp.append((b"PROCESS_HOST_CHECK_RESULT" if r["k"] == "host" else b"PROCESS_SERVICE_CHECK_RESULT", f + [m]))
    data = e.join(raws)
    if case["last"]:
        data += e
    if case["run"]:
        blank = e if e != b"\n" else b"\n"
        data = blank * 150000 + data
    return data, exp, bad


class C20(Check):
    rule = ("Delimiter and separator are drawn from all allowed ASCII characters, records (host, service, blank, rarely malformed) "
            "from fields full of escapes, line ends, semicolons and arbitrary bytes, messages up to 100 kB; the scripted server "
            "decodes what it receives and compares with the generated fields.  Non-trivial if at least one record contains a "
            "backslash, an inner newline, a delimiter in the message, or exceeds one buffer block, or there are several records.")
    assumptions = ["the separator in effect and NUL do not occur inside records; leading CR/LF of a record are not part of it, "
                   "and neither is one final newline"]
    cases = dict(quick=1600, thorough=60000)
    budget = dict(quick=150, thorough=3000)

    def strategy(self, tier):
        return cases()

    examples = [
        dict(d=110, e=0o27, recs=[dict(k="svc", f=["host", "svc", "0"], msg="a\nb", nl=False)], last=False, run=0, file=False, frag=0),
        dict(d=110, e=0o27, recs=[dict(k="host", f=["host", "0"], msg="a\n\\b", nl=True)], last=True, run=0, file=True, frag=0),
        dict(d=9, e=10, recs=[dict(k="svc", f=["h", "s", "0"], msg="m", nl=False)] * 3, last=True, run=1, file=False, frag=0),
        dict(d=9, e=0o27, recs=[dict(k="svc", f=["h", "s", "0"], msg="m", nl=True)] * 40, last=True, run=1, file=True, frag=1),
    ]

    def run(self, env, case):
        data, exp, bad = build_input(case)
        srv = Nscad(env, frag=case["frag"])
        args = []
        if case["d"] != 9 or case["file"]:
            args += ["-d", opt(case["d"])]
        if case["e"] != 0o27 or case["last"]:
            args += ["-e", opt(case["e"])]
        t0 = int(time.time())
        if case["file"]:
            p = os.path.join(env.tmp, "input-%d" % env.n)
            with open(p, "wb") as f:
                f.write(data)
            with open(p, "rb") as f:
                c = Client(env, srv.ip, srv.port, CONF, args, stdin=f)
        else:
            c = Client(env, srv.ip, srv.port, CONF, args)
            c.feed_async(data)
        rc = c.wait(60)
        t1 = int(time.time()) + 1
        talk = srv.one()
        if talk is None:
            raise Violation("%d connections instead of one" % len(srv.talks))
        if talk.error:
            raise Violation("protocol error: %s" % talk.error)
        if bad:
            if rc == 0:
                raise Violation("malformed input accepted")
            if len(talk.commands) != len(exp):
                raise Violation("%d commands in front of the malformed record, %d submitted" % (len(exp), len(talk.commands)))
        elif rc != 0:
            raise Violation("status %d: %s" % (rc, c.err()[-300:]))
        elif not talk.quit:
            raise Violation("exited 0 without QUIT")
        if len(talk.commands) != len(exp):
            raise Violation("%d records, but %d commands were submitted: %r" % (
                len(exp), len(talk.commands), [x[:80] for x in talk.commands[:5]]))
        for got, (word, f) in zip(talk.commands, exp):
            m = re.match(rb"^\[(\d+)\] (\w+);(.*)\n$", got, re.S)
            if not m or b"\n" in got[:-1] or b"\0" in got:
                raise Violation("not one well-formed command line: %r" % got[:200])
            if not t0 <= int(m.group(1)) <= t1:
                raise Violation("timestamp %s is not the current time (%d-%d)" % (J(m.group(1)), t0, t1))
            if m.group(2) != word:
                raise Violation("%s instead of %s" % (J(m.group(2)), J(word)))
            want = b";".join(esc(x) for x in f)
            if m.group(3) != want:
                i = next((k for k in range(min(len(want), len(m.group(3)))) if want[k] != m.group(3)[k]), -1)
                raise Violation("fields differ at %d: expected %r, got %r" % (i, want[:120], m.group(3)[:120]))
            if unescape(m.group(3)) != b";".join(f):
                raise Violation("unescaping does not restore the input")
        d = bytes([case["d"]])
        nt = len(exp) > 1 or any(b"\\" in x or b"\n" in x or len(x) > 128 for _, f in exp for x in f) or \
            any(d in f[-1] for _, f in exp)
        labels = ["sep:" + ("ETB" if case["e"] == 0o27 else "newline" if case["e"] == 10 else "other"),
                  "records:%s" % ("0" if not exp else "1" if len(exp) == 1 else "2+")]
        if bad:
            labels.append("malformed")
        if case["run"]:
            labels.append("long run of empty records")
        if any(d in f[-1] for _, f in exp):
            labels.append("delimiter in message")
        return labels, nt


check = C20()
