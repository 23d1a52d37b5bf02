"""C24: send_nsca.cfg is parsed as documented; the command line overrides it."""
import socket as pysocket
from hypothesis import strategies as st
from ..harness import *
from ..history import shim
from ..nscad import *
from ..run import Check

SPECIAL = b"\"'#= \t\\abc%n$~;[]{}\x01\x7f\x80\xc3\xa9\xff"
BYTES = st.one_of(st.lists(st.sampled_from(list(SPECIAL)), min_size=1, max_size=20).map(bytes),
                  st.lists(st.sampled_from([c for c in range(1, 256) if c not in (2, 3, 10)]), min_size=1, max_size=12).map(bytes),
                  st.sampled_from([b"me", b"web-checker", b"host.example.com", b"a\\", b"\\", b"\\\\", b"'", b'"', b"#", b" ", b"\t x ",
                                   b"x#y", b"a=b", b"%s%n", b"\\n", b"\r", b"a\rb", b"\rb"]))
LONG = st.tuples(st.integers(1, 3), st.sampled_from(list(b"ax \\\"'#")), st.integers(90, 127)).map(lambda t: b"i" * t[0] + bytes([t[1]]) * (t[2] - 3))
SIZES = [120, 300, 480, 505, 508, 509, 510, 511, 512, 513, 520, 900, 1015, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 1500, 2040, 2046, 2047, 2048, 2049, 4095, 5000, 20000]
FEW = st.integers(0, 39).map(lambda i: i == 17)         # true now and then
SPACE = st.one_of(st.sampled_from(["", "", " ", "\t", "   ", " \t"]), st.tuples(FEW, st.sampled_from(SIZES), st.sampled_from(" \t")).map(
    lambda t: t[2] * t[1] if t[0] else " "))
COMMENT = st.one_of(st.sampled_from(["", "", "# x", "#", "#\"", "# it's \"", "#a=b", "# \\x", "##"]), st.tuples(FEW, st.sampled_from(SIZES), st.sampled_from(
    "#x \t'")).map(lambda t: "#" + t[2] * t[1] if t[0] else ""))
CIPHERS = ["PSK-AES128-CBC-SHA", "PSK-AES256-CBC-SHA", "PSK-AES128-GCM-SHA256", "PSK-AES256-GCM-SHA384"]
KEYS = ["delay", "encryption_method", "identity", "password", "port", "server", "timeout", "tls_ciphers"]


def quote(draw, v):
    """A spelling of the value v."""
    style = draw(st.sampled_from(["bare", "'", '"', "either"]))
    if style == "either" or style == "bare" and (not v or set(v) & set(b" \t#")):
        style = "'" if b'"' in v else '"'
    out = bytearray()
    q = ord(style) if len(style) == 1 else 0
    must = {92} | ({q} if q else {34, 39})
    for c in v:
        if c in must or c in (34, 39) and draw(st.booleans()):
            out.append(92)
        out.append(c)
    return J(bytes([q]) + bytes(out) + bytes([q])) if q else J(bytes(out))


@st.composite
def assignment(draw, key, value):
    s = draw(SPACE) + key + draw(SPACE) + "=" + draw(SPACE) + quote(draw, B(value)) + draw(SPACE)
    c = draw(COMMENT)
    return s + c


@st.composite
def valid(draw):
    lines = []
    want = {}
    order = draw(st.permutations(KEYS))
    opts = {}
    stall = draw(st.integers(0, 9)) == 4
    for key in order:
        n = draw(st.sampled_from([0, 1, 1, 1, 2])) if key in ("identity", "encryption_method", "timeout", "tls_ciphers", "delay") \
            else draw(st.sampled_from([1, 1, 2]))
        over = key in ("server", "port", "timeout", "delay") and draw(st.integers(0, 3)) == 2
        if over:
            opts[key] = True
            n = draw(st.sampled_from([0, 1, 1]))
        for i in range(n):
            last = i == n - 1 and not over
            if key == "identity":
                v = J(draw(st.one_of(BYTES, LONG)))
                want["identity"] = v
            elif key == "password":
                v = J(draw(st.one_of(BYTES, LONG)))
                want["password"] = v
            elif key == "port":
                v = "\x03" if last else draw(st.sampled_from(["1", "9", "nonexistent", "http"]))
            elif key == "server":
                v = "\x02" if last else draw(st.sampled_from(["127.255.255.254", "no.such.host.invalid", "x y", "256.1.1.1"]))
            elif key == "encryption_method":
                v = draw(st.sampled_from(["0", "14", "x", "none", " "]))
                if draw(st.integers(0, 5)) == 3:
                    v = draw(st.sampled_from("x #\\\"'=")) * draw(st.sampled_from([n for n in SIZES if n <= 2040]))
            elif key == "timeout":
                v = draw(st.sampled_from(["1", "2"])) if last and stall else draw(st.sampled_from(["60", "0", "3600"]))
            elif key == "tls_ciphers":
                v = draw(st.sampled_from(CIPHERS))
                want["cipher"] = v
            else:
                v = "0" if last else draw(st.sampled_from(["100000", "86400"]))
            if key == "timeout":
                want["timeout"] = v
            lines.append((key, draw(assignment(key, v))))
        if over and key == "timeout":
            want["timeout"] = "2" if stall else "50"
    # blank lines and comments in between; lines of different keys are in arbitrary order, but keep the order per key
    out = []
    pending = [l for l in lines]
    if draw(st.booleans()):
        idx = draw(st.permutations(range(len(pending))))
        perm = [pending[i] for i in idx]
        by = {}
        for l in pending:
            by.setdefault(l[0], []).append(l)
        pending = [by[k].pop(0) for k, _ in perm]
    for key, l in pending:
        for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
            out.append(draw(SPACE) + draw(COMMENT))
        out.append(l)
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        out.append(draw(SPACE) + draw(COMMENT))
    # continuation lines, line ends
    eols = draw(st.sampled_from([["\n"], ["\n"], ["\r\n"], ["\r\n"], ["\n", "\r\n"]]))
    text = ""
    for i, l in enumerate(out):
        for _ in range(draw(st.sampled_from([0, 0, 0, 0, 1, 3]))):
            p = draw(st.integers(0, len(l)))
            # not within an escape sequence, nor behind CR, nor in front of the end of a line
            if p < len(l) and l[p - 1:p] not in ("\\", "\r", "\n") and l[p] not in "\r\n" and (p or "\\" not in l[:1]):
                l = l[:p] + "\\" + draw(st.sampled_from(eols)) + l[p:]
        text += l
        if l[-1:] in ("\\", "\r"):
            text += " "
        if i < len(out) - 1 or draw(st.booleans()):
            text += draw(st.sampled_from(eols))
    host = draw(st.sampled_from(["h", "monitor", "h.example.com", "x" * 31, "x" * 32, "x" * 63, "y" * 64, "Host-Name." * 6, "a_b c%s%n"]))
    return dict(k="valid", text=text, want=want, opts=opts, stall=stall, host=host, tls=12 if "cipher" in want else draw(st.sampled_from([0, 12, 13])),
                pad=draw(st.sampled_from([0] * 8 + [1, 2])))


@st.composite
def invalid(draw):
    good = ["identity = me", "password = p"]
    bad = draw(st.sampled_from([
        "foo = bar", "Identity2 = x", "identit = x", "identityy = x", "passwordx = 1", "password", "password p", "password : p", "port 5",
        "port =", "port = # x", "server =", "= x", "=", "\"password\" = p", "password = \"p\" x", "password = 'p' = ", "identity = me x",
        "identity = \"me\"\"x\"", "timeout = x", "timeout = 1x", "timeout = 1.5", "delay = \"1 \"", "delay = 1s", "delay = foo", "timeout = -",
        "[section]", "include = x", "include(x)", "authorize \"*\" { }", "identity = 'me' 'x'", "password = p q", "password == p q", "{", "}",
        "timeout = 0x", "%n%s%n = %s%n", "password = %s%n %s", "identity", "a" * 5000, "a" * 5000 + " = 1", "\\", "\xff\xfe = x"]))
    if bad == "\\":
        bad = "\\\\x = 1"
    bad = draw(SPACE) + bad
    at = draw(st.integers(0, 2))
    lines = good[:at] + [bad] + good[at:]
    eol = draw(st.sampled_from(["\n", "\r\n"]))
    return dict(k="invalid", text=eol.join(lines) + (eol if draw(st.booleans()) else ""), want={}, opts={})


@st.composite
def garbage(draw):
    kind = draw(st.sampled_from(["bin", "soup", "mutate", "big", "cut"]))
    if kind == "bin":
        t = draw(st.binary(max_size=200))
    elif kind == "soup":
        t = "".join(draw(st.lists(st.sampled_from(["identity", "password", "=", "\"", "'", "\\", "\n", "\r", "\r\n", "#", " ", "\t", "x", "\0",
                                                   "timeout", "1", "\\\n", "\\\r\n", "delay", "\xff", "port", "x" * 100, "y" * 511, "z" * 2047]),
                                  max_size=40))).encode("latin-1")
    elif kind == "big":
        n = draw(st.sampled_from([1, 100, 509, 510, 511, 512, 513, 1021, 1022, 1023, 1024, 1025, 2040, 2045, 2046, 2047, 2048, 2049, 4096, 70000]))
        f = draw(st.sampled_from([b"x", b"\\", b"\\\\", b"\"", b" ", b"\n", b"\r", b"\\\n", b"\0", b"#", b"\\\r\n"]))
        t = draw(st.sampled_from([b"", b"password = ", b"password = \"", b"identity=", b"#"])) + (f * n)[:n] + draw(st.sampled_from(
            [b"", b"\"", b"\\", b"\r", b"\n", b"\r\n", b"\\\n", b"\" x\n", b"\npassword = \"x\"\n"]))
    else:
        t = bytearray(B(draw(valid())["text"]))
        for _ in range(draw(st.integers(1, 6))):
            p = draw(st.integers(0, len(t)))
            o = draw(st.sampled_from(["del", "ins", "set", "dup"]))
            x = bytes([draw(st.sampled_from(list(b"\0\n\r\\\"'# =x\xff")))])
            if kind == "cut":
                t = t[:p]
                break
            if o == "del":
                del t[p:p + draw(st.integers(1, 10))]
            elif o == "ins":
                t[p:p] = x * draw(st.sampled_from([1, 1, 2, 3, 600, 2100]))
            elif o == "set":
                t[p:p + 1] = x
            else:
                t[p:p] = t[:p]
        t = bytes(t).replace(b"\x02", b"127.0.0.1").replace(b"\x03", b"1")
    return dict(k="garbage", text=J(t), want={}, opts={})


class C24(Check):
    rule = ("valid files: every setting assigned 0-2 times in random order, each value (random bytes) spelled bare, single- or double-quoted "
            "with the necessary escapes, white space, comments, blank and continuation lines anywhere, LF/CRLF/mixed, "
            "last newline or not; without an identity, the machine's name (1-64 bytes); -H -p -o -D given or not.  A scripted server sees identity, password (the handshake works), address, "
            "port and cipher; delays of a day show if used; time-outs of 1-2 s are measured against a silent server.  "
            "Invalid files must be rejected without connecting; arbitrary and mutated files must not crash an ASan/UBSan build.  "
            "Non-trivial unless the file is a plain list of assignments.")
    assumptions = ["an even number of backslashes at the end of a line, quotes within bare values, a missing closing quote, values over 2040 "
                   "bytes, identities over 127 and passwords over 256 bytes, octal/hexadecimal/negative integers: don't care"]
    cases = dict(quick=1600, thorough=60000)
    budget = dict(quick=120, thorough=2500)
    shards = 12

    def strategy(self, tier):
        return st.one_of(valid(), valid(), valid(), invalid(), garbage())

    examples = [dict(k="valid", text=t, want=dict(identity="me", password=p), opts=dict(server=1, port=1), stall=False, tls=0, pad=0)
                for t, p in [('identity = me\npassword = "a\\\\"', "a\\"), ("identity = me\npassword = ab\r\n", "ab"),
                             ("identity = me#x\npassword = ab#c", "ab"), ("identity = \\\r\nme\r\npassword=\"x\\\r\ny\"\r\n", "xy"),
                             ('identity = me\npassword = "a\\\\x"', "a\\x"), ('identity = me\npassword = "a\rx"', "a\rx"),
                             ('\n\\\n\nidentity=\\\nme\npassword=q', "q"), ("password=xyz\\\n\nidentity=me", "xyz")]]

    def run(self, env, case):
        text = B(case["text"])
        d = env.dir()
        path = os.path.join(d, "send_nsca.cfg")
        args = ["-C"]
        if case["k"] != "valid":
            srv = Nscad(env)
            with open(path, "wb") as f:
                f.write(text)
            c = Client(env, srv.ip, srv.port, args=args + ["-D", "0", "-o", "1"], conf_path=path, workdir=d)
            c.feed(b"")
            rc = c.wait(60)
            if case["k"] == "invalid":
                if rc == 0 or srv.talks:
                    raise Violation("invalid configuration accepted: %r" % text[:300])
                if not c.err().strip():
                    raise Violation("no message about an invalid configuration")
            return [case["k"]], True
        want, opts = case["want"], case["opts"]
        host = case.get("host")
        ident = B(want.get("identity", host or pysocket.gethostname()))
        kw = dict(preload=[shim("hostname")], extra_env=dict(VF_HOSTNAME=host)) if host and "identity" not in want else {}
        pw = B(want["password"])
        cut = B("X") if case["stall"] else None

        def respond(t, step, info):
            if case["stall"]:
                raise Stop("hang")
        srv = Nscad(env, ids=[(ident, pw)], respond=respond, tls=case["tls"], ciphers="PSK:@SECLEVEL=0" if "cipher" in want else "")
        text = text.replace(b"\x02", srv.ip.encode()).replace(b"\x03", str(srv.port).encode())
        if case["pad"]:
            text = (b"#" * 100 + b"\n") * (200 if case["pad"] == 1 else 2000) + text
        with open(path, "wb") as f:
            f.write(text)
        for k in opts:
            args += {"server": ["-H", srv.ip], "port": ["-p", str(srv.port)], "delay": ["-D", "0"],
                     "timeout": ["-o", want.get("timeout", "50")]}[k]
        t0 = time.monotonic()
        c = Client(env, srv.ip, srv.port, args=args, conf_path=path, workdir=d, addr_args=False, **kw)
        c.feed(b"[1] x\n")
        limit = int(want.get("timeout", "15") or 15)
        measured = case["stall"] and limit in (1, 2)
        if case["stall"] and not measured:
            if not wait_until(lambda: srv.talks and srv.talks[0].requests or c.p.poll() is not None) or c.p.poll() is not None:
                raise Violation("no connection with the configuration %r: %s" % (text[-400:], c.err()[-300:]))
            time.sleep(0.02)
            if c.p.poll() is not None:
                raise Violation("gave up although the timeout is %r" % limit)
            c.p.kill()
            c.p.wait()
            rc = None
        else:
            rc = c.wait(45)
        took = time.monotonic() - t0
        if not srv.talks:
            raise Violation("no connection with the configuration %r: %s" % (text[-400:], c.err()[-300:]))
        if case["stall"]:
            t = srv.talks[0]
        else:
            srv.settle()
            t = srv.one()
        if t is None or t.error or not t.requests:
            raise Violation("no session with the configuration %r (%r): %s" % (text[-400:], t and t.error, c.err()[-300:]))
        if t.identity != ident:
            raise Violation("identity %r instead of %r; configuration %r" % (t.identity, ident, text[-400:]))
        if "cipher" in want and t.cipher != want["cipher"]:
            raise Violation("cipher %s instead of %s" % (t.cipher, want["cipher"]))
        if measured:
            if rc == 0:
                raise Violation("status 0 with a silent server")
            if took < limit * 0.95:
                raise Violation("gave up after %.2f s; the timeout is %d" % (took, limit))
            if took > limit + 8:
                raise Violation("gave up after %.1f s; the timeout is %d" % (took, limit))
        elif not case["stall"]:
            if rc != 0:
                raise Violation("status %d: %s" % (rc, c.err()[-300:]))
            if t.acked != [b"[1] x\n"]:
                raise Violation("submitted %r" % t.acked)
        labels = ["valid"] + (["timeout measured"] if measured else []) + ["option:" + k for k in sorted(opts)]
        if b"\r\n" in text:
            labels.append("CRLF")
        if not text.endswith(b"\n"):
            labels.append("no final newline")
        if b"\\\n" in text or b"\\\r\n" in text:
            labels.append("continuation")
        return labels, any(x in text for x in (b"\\", b"#", b"\r", b"'", b"\n\n")) or len(want) > 2


check = C24()
