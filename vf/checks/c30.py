"""C30: the Perl module's submissions.  Also the base of C31."""
from hypothesis import strategies as st
from ..modules import *
from ..nscad import Nscad
from ..run import Check

TOKENS = ["a", "Z", "9", " ", ";", ",", "%s", "%n", "%", "\\", "\\n", "\\\\", "\t", "'", '"', "$x", "@y", "|", "\xe9", "\xfc", "\r", "[1]",
          "=", "word", "\x7f", "\x01", "\u20ac", "\U0001f600"]
RARE = ["\n", "\0", "\ud800"]
PADS = [0] * 12 + [900, 960, 1000, 1020, 1023, 1024, 1025, 1100, 2000, 5000, 12000]


@st.composite
def text(draw, field=False, mx=8):
    toks = [t for t in TOKENS if not (field and ";" in t)]
    t = "".join(draw(st.lists(st.sampled_from(toks * 3 + (RARE if draw(st.integers(0, 9)) == 5 else [])), min_size=1 if field else 0, max_size=mx)))
    pad = 0
    if draw(st.integers(0, 3)) == 2:
        pad = draw(st.sampled_from(PADS if not field else [0, 60, 300, 950, 1020, 1030]))
        if pad:
            pad += draw(st.integers(-8, 8))
    end = draw(st.sampled_from([""] * 12 + ["\n", "!"]))
    return dict(t=t, pad=pad, end=end, u=draw(st.booleans()))


def chars(x):
    return x["t"] + "p" * x["pad"] + x["end"]


@st.composite
def call(draw, lang):
    k = draw(st.sampled_from(["host", "svc"] + (["command"] if lang == "perl" else [])))
    c = dict(k=k, o=draw(st.integers(0, 2)), text=draw(text()))
    if k == "command":
        c["ts"] = draw(st.sampled_from(["", "", "[1] ", "[1700000000] ", "[0]", "[999999999]  ", "[4294967296] "]))
        c["bad"] = draw(st.sampled_from([None] * 8 + ["[", "[]", "[x] ", "[-1] ", "[1 ", "[99999999999999999999999] ", "[12x] ", "[1.5] ", "[ 1] ", "[+1] ",
                                                     "[0x10] "]))
    else:
        c["host"] = draw(st.one_of(st.just(None), text(True, 4))) if lang == "perl" else draw(text(True, 4))
        c["svc"] = None if k == "host" else draw(st.one_of(st.just(True), text(True, 4))) if lang == "perl" else draw(text(True, 4))
        c["status"] = draw(st.sampled_from([0, 1, 2, 3] * 4 + [4, -1, 255, 2147483647, 2147483648, 4294967295, 4294967296, 4294967298,
                                                               -2147483649, 2 ** 63 - 1]))
    c["style"] = draw(st.sampled_from([0, 0, 1, 5, 2, 3]))
    c["omit"] = lang == "python" and draw(st.integers(0, 9)) == 5
    c["pause"] = draw(st.sampled_from([0] * 15 + [0.3]))
    return c


@st.composite
def cases(draw, lang):
    objs = draw(st.lists(st.fixed_dictionaries(dict(
        tls=st.sampled_from([12, 13]), frag=st.sampled_from([0, 0, 0, 7]), ident=st.sampled_from(["me", "host name", "x" * 100, "\xe9", "%s"]),
        psk=st.sampled_from(["p", "secret word", "k" * 60, "%n%s", "k" * 100 + "l", "k" * 200 + "m"]), node=st.one_of(st.none(), text(True, 4)), svc=st.one_of(st.none(), text(True, 4)),
        style=st.integers(0, 1), delay=st.sampled_from([None, None, None, "moin", "push", "data"]), real=st.integers(0, 4).map(lambda x: x == 3),
        port=st.sampled_from([0] * 30 + [65536, 2 ** 32, -65536, -2 ** 32]))), min_size=1, max_size=3))
    return dict(objs=objs, calls=draw(st.lists(call(lang), min_size=1, max_size=8)), order=draw(st.booleans()))


class Results(Check):
    lang = None
    assumptions = ["semicolons in host names and service descriptions are left out: the external command format cannot express them",
                   "a newline at the end of the text may be dropped; backslashes and newlines may be escaped"]
    cases = dict(quick=500, thorough=15000)
    budget = dict(quick=150, thorough=3000)

    @property
    def rule(self):
        return ("1-3 objects of the %s module (each with its own scripted or real server, TLS version, identity, password) and 1-8 "
                "submissions in any order with generated host names, service descriptions, states (also out of range), and texts (printf directives, "
                "malformed timestamps, backslashes, newlines, NUL, Unicode, lengths around 1024 and up to the server's limit).  Oracle: a call that returns normally has "
                "delivered exactly one command with exactly the given fields; a call that raises has delivered none; arguments that can "
                "be represented must be accepted.  Non-trivial if something was delivered." % ("Perl" if self.lang == "perl" else "Python"))

    def strategy(self, tier):
        return cases(self.lang)

    @property
    def examples(self):
        def t(s, pad=0, end="", u=False):
            return dict(t=s, pad=pad, end=end, u=u)
        o = dict(tls=13, frag=0, ident="me", psk="p", node=None, svc=None, delay=None, real=False)
        out = []
        for n in list(range(925, 1040, 2)) + [2000, 12000]:
            out.append(dict(objs=[o], order=True, calls=[dict(k="host", o=0, text=t("x", n), host=t("h"), svc=None, status=1, pause=0)]))
        for n in range(995, 1030):
            if self.lang == "perl":
                out.append(dict(objs=[o], order=True, calls=[dict(k="command", o=0, text=t("x", n), ts="[1] ", bad=None, pause=0)]))
        for tls in (12, 13):
            for real in (False, True):
                ob = dict(o, tls=tls, real=real, node=t("n"), svc=t("s"))
                cs = [dict(k="host", o=0, text=t("x %d %s \xe9" % i), host=t("h"), svc=None, status=i[0], pause=0) for i in [(0, "a"), (1, "%s"), (2, ""), (3, "\\n")]]
                cs += [dict(k="svc", o=0, text=t("x"), host=t("h"), svc=t("s v"), status=2, pause=0.3)] * 2
                if self.lang == "perl":
                    cs += [dict(k="command", o=0, text=t("FOO;1"), ts=ts, bad=None, pause=0) for ts in ("[1] ", "", "[1700000000] ")]
                    cs += [dict(k="svc", o=0, text=t("y"), host=None, svc=True, status=1, pause=0)]
                out.append(dict(objs=[ob, dict(o, ident="two", psk="q")], calls=cs, order=False))
        for p in (65536, 131072, 2 ** 32, -65536):
            out.append(dict(objs=[dict(o, port=p)], order=True, calls=[dict(k="host", o=0, text=t("x"), host=t("h"), svc=None, status=1, pause=0)]))
        if self.lang == "perl":
            for b in ("[", "[]", "[12x] ", "[1.5] ", "[-1] "):
                out.append(dict(objs=[o], order=True, calls=[dict(k="command", o=0, text=t("FOO"), ts="", bad=b, pause=0)]))
        else:
            for style in range(5):
                out.append(dict(objs=[dict(o, style=style % 2)], order=True, calls=[
                    dict(k=k, o=0, text=t("FOO"), host=t("h"), svc=t("s") if k == "svc" else None, omit=m, style=style, status=1, pause=0)
                    for k in ("host", "svc") for m in (False, True)]))
        for s in ("a\0b", "a\nb"):
            out.append(dict(objs=[o], order=True, calls=[dict(k="host", o=0, text=t(s), host=t("h"), svc=None, status=1, pause=0)]))
            out.append(dict(objs=[o], order=True, calls=[dict(k="svc", o=0, text=t("x"), host=t(s), svc=t(s), status=1, pause=0)]))
        for k in (2 ** 32, 2 ** 32 + 2, 2 ** 31):
            out.append(dict(objs=[o], order=True, calls=[dict(k="svc", o=0, text=t("x"), host=t("h"), svc=t("s"), status=k, pause=0)]))
        return out

    # -- values
    def arg(self, x):
        s = chars(x)
        if self.lang == "python":
            return {"h": s.encode("utf-8", "surrogatepass").hex()}
        if x["u"] or any(ord(c) > 255 for c in s):
            return {"h": s.encode("utf-8", "surrogatepass").hex(), "u": True}
        return {"h": s.encode("latin-1").hex(), "u": False}

    def reps(self, x):
        s = chars(x)
        out = {s.encode("utf-8", "surrogatepass")}
        if self.lang == "perl":
            try:
                out.add(s.encode("latin-1"))
            except UnicodeEncodeError:
                pass
        return out

    def texts(self, x):
        out = set()
        for r in self.reps(x):
            out |= {r, r.rstrip(b"\n"), r[:-1] if r.endswith(b"\n") else r}
            out.add(r.replace(b"\\", b"\\\\").replace(b"\n", b"\\n"))
            out.add(r.replace(b"\n", b"\\n"))
        return out

    def plain(self, *xs):
        return not any(c in chars(x) for x in xs for c in "\n\0\ud800")

    def run(self, env, case):
        objs = case["objs"]
        ip = Interp(env, self.lang)
        srvs, seen = [], []
        labels, nt = set(), False
        for i, o in enumerate(objs):
            psk = B(o["psk"])
            ident = o["ident"].encode("utf-8") if self.lang == "python" else B(o["ident"])
            if o["real"]:
                e = {}
                srv = Server(env, 'authorize "*" {\n password = %s\n commands = ".*"\n}\n' % cq(J(psk)), extra_env=e)
                labels.add("real server")
            else:
                def delay(talk, step, o=o):
                    if step == o["delay"]:
                        time.sleep(0.12)
                srv = Nscad(env, ids=[(ident, psk)], tls=o["tls"], respond=Strict(), frag=o["frag"], delay=delay if o["delay"] else None)
            srvs.append(srv)
            seen.append(0)
            if o.get("port"):
                try:
                    ip.new(i, srv.ip, srv.port + o["port"], "me", psk)
                    raise Violation("constructor accepted port %d" % (srv.port + o["port"]))
                except Died:
                    labels.add("bad port")
            try:
                d = {}
                if self.lang == "perl":
                    for n in ("node", "svc"):
                        if o[n] is not None:
                            d[n] = self.arg(o[n])
                ip.new(i, srv.ip, srv.port, o["ident"].encode("utf-8") if self.lang == "python" else ident, psk, timeout=10, style=o.get("style", 0), **d)
            except Died as x:
                if not self.plain(*[o[n] for n in ("node", "svc") if o[n] is not None]):
                    for j in range(i):
                        ip.call("del", j)
                    return sorted(labels | {"default value refused"}), False
                raise Violation("constructor raised %s" % x)

        def acked(i):
            if objs[i]["real"]:
                srvs[i].nagios.pump()
                return srvs[i].nagios.cmds
            return [c for t in srvs[i].talks for c in t.acked if c is not None]

        for c in case["calls"]:
            i = c["o"] % len(objs)
            o = objs[i]
            if c["pause"]:
                time.sleep(c["pause"])
            t0 = int(time.time())
            omit = c.get("omit") and c["k"] != "command"
            if omit:
                c = dict(c, text=dict(t="", pad=0, end="", u=False))
            must, may, want = self.expect(c, o)
            if c["k"] == "command":
                full = dict(c["text"], t=(c["bad"] or c["ts"]) + c["text"]["t"])
                ip.send("command", i, [self.arg(full)])
            else:
                a = [None if x is None else True if x is True else self.arg(x) for x in (c["host"], c["svc"])]
                ip.send_result(i, a[0], a[1], c["status"], None if omit else self.arg(c["text"]), timeout=10, style=c.get("style", 0))
            try:
                ip.reply(100)
                ok, err = True, None
            except Died as x:
                ok, err = False, x
            t1 = int(time.time())
            if ok and o["real"]:
                srvs[i].nagios.wait(lambda n: len(n.cmds) > seen[i])
            elif ok:
                wait_until(lambda: len(acked(i)) > seen[i], 2)
            new = acked(i)[seen[i]:]
            seen[i] += len(new)
            what = {k: v for k, v in c.items() if k not in ("pause", "o")}
            if not ok:
                if must:
                    raise Violation("%r failed: %s" % (what, err))
                if new:
                    raise Violation("%r raised %s, but %r was submitted" % (what, err, new[0][:300]))
                if not err.msg.strip():
                    raise Violation("%r raised an error without a message" % what)
                labels.add("refused")
                continue
            if len(new) != 1:
                raise Violation("%r: returned normally, but %d commands were acknowledged: %r" % (what, len(new), new[:3]))
            if not may:
                raise Violation("%r: returned normally; submitted %r" % (what, new[0][:300]))
            m = re.match(rb"^\[(\d+)\](.*)\n$", new[0], re.S)
            if not m:
                raise Violation("%r: submitted %r" % (what, new[0][:300]))
            if want["ts"] is None:
                if not t0 - 1 <= int(m.group(1)) <= t1 + 1:
                    raise Violation("%r: wrong time %r" % (what, m.group(1)))
                got = m.group(2)
                good = got[:1] == b" " and got[1:] in want["text"]
            else:
                good = new[0][:-1] in want["text"]
            if not good:
                raise Violation("%r: submitted %d bytes %r...%r" % (what, len(new[0]), new[0][:150], new[0][-100:]))
            if len(new[0]) > 1000:
                labels.add("> 1000 bytes")
            labels.add(c["k"])
            nt = True
        if case["order"]:
            for i in range(len(objs)):
                ip.call("del", i)
        ip.finish()
        for s, o in zip(srvs, objs):
            if o["real"]:
                s.nagios.pump()
                s.stop()
            else:
                s.settle()
                for t in s.talks:
                    if t.error and not t.error.startswith(("handshake", "request without CRLF")):
                        raise Violation("protocol violation: " + t.error)
        for i in range(len(objs)):
            if len(acked(i)) != seen[i]:
                raise Violation("additional submission %r" % acked(i)[seen[i]:][:1])
        return sorted(labels), nt

    def expect(self, c, o):
        """-> (must succeed, may succeed, expectation)"""
        if c["k"] == "command":
            ts = c["ts"]
            x = c["text"]
            p = self.plain(x)
            size = max(map(len, self.reps(x))) + len(ts) + 20
            body = {B(ts) + t for t in self.texts(x)} if ts else self.texts(x)
            if c["bad"]:
                # (a text may complete `[')
                full = c["bad"] + chars(x)
                return False, bool(re.match(r"\[\d+\]", full)), dict(ts=True, text=self.texts(dict(x, t=c["bad"] + x["t"])))
            if not ts and chars(x).startswith("["):
                return False, True, dict(ts=True, text=self.texts(x))
            return p and size < 16384 and not (not ts and not chars(x)), True, dict(ts=True if ts else None, text=body)
        host = c["host"] if c["host"] is not None else o["node"]
        svc = None
        if c["k"] == "svc":
            svc = c["svc"] if c["svc"] is not True else o["svc"]
            if svc is None:
                return False, False, None
        if host is None:
            return False, False, None
        xs = [host, c["text"]] + ([svc] if svc else [])
        p = self.plain(*xs)
        size = sum(max(map(len, self.reps(x))) for x in xs) + 60
        out = set()
        for h in self.reps(host):
            for s in (self.reps(svc) if svc else [None]):
                for t in self.texts(c["text"]):
                    if s is None:
                        out.add(b"PROCESS_HOST_CHECK_RESULT;%s;%d;%s" % (h, c["status"], t))
                    else:
                        out.add(b"PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s" % (h, s, c["status"], t))
        return p and size < 16000 and 0 <= c["status"] <= 3, True, dict(ts=None, text=out)


class C30(Results):
    lang = "perl"


check = C30()
