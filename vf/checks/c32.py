"""C32: the language modules facing hostile servers."""
import re
from hypothesis import strategies as st
from ..modules import *
from ..nscad import Nscad, Sent, Stop
from ..run import Check

TEXTS = ["", "%s%s%s%s%n", "%n", "no", "x" * 200, "x" * 1000, "x" * 1011, "\xff\xfe\x80", "%1$s", "a b c", "'\"\\", "%99999999d", "\x00x", "\t"]
RESP = ["", "\n", "\r\n", "\r", "FAIL", "FAIL\n", "FAIL\r\n", "FAIL \r\n", "BAIL", "BAIL\n", "BAIL\r\n", "MOIN", "MOIN\r\n", "MOIN\n", "MOIN 2\r\n",
        "MOIN 1\r\n", "MOIN 10\r\n", "OKAY", "OKAY\n", "OKAY\r\n", "OKA", "OK\r\n", "fail x\r\n", "PONG 1\r\n", "\0\r\n", "\0\n", "F\n", "x\n",
        "OKAY\r\nOKAY\r\n", "FAIL a\r\nFAIL b\r\n", "MOIN 1\r\nOKAY\r\n", " OKAY\r\n", "QUIT\r\n", "%s%n\r\n"] + \
       ["x" * n for n in (1022, 1023, 1024, 1025, 2048)] + ["x" * n + "\n" for n in (1021, 1022, 1023, 1024, 1025, 5000)] + \
       ["x" * n + "\r\n" for n in (1021, 1022, 1023)]


@st.composite
def cases(draw):
    lang = draw(st.sampled_from(["perl", "python"]))
    resp = draw(st.one_of(st.sampled_from(RESP), st.builds(lambda a, b, c: a + b + c, st.sampled_from(["FAIL ", "BAIL ", "MOIN ", "OKAY ", "FAIL", ""]),
                                                           st.sampled_from(TEXTS), st.sampled_from(["\r\n", "\n", ""]))))
    return dict(lang=lang, tls=draw(st.sampled_from([12, 13])), at=draw(st.sampled_from(["moin", "push", "data", "data", "push", "moin", "quit", "tcp", "refused",
                                                                                     "hello", "garbage", "psk", "flight"])),
                resp=resp, how=draw(st.sampled_from(["go", "go", "go", "fin", "fin", "rst", "notify", "hang", "drip", "late", "good", "slow"])),
                after=draw(st.sampled_from([0, 0, 0, 1, 2])), calls=draw(st.integers(1, 3)), frag=draw(st.sampled_from([0, 0, 1, 5])),
                kind=draw(st.sampled_from(["host", "svc", "command"])), files=draw(st.sampled_from([0] * 6 + [1100])),
                long=draw(st.sampled_from([0, 0, 3000, 14000])), once=draw(st.booleans()), cut=draw(st.integers(0, 100)),
                pieces=draw(st.one_of(st.just([]), st.lists(st.sampled_from([1, 2, 5, 100, 500, 1000, 1022, 1023, 1024, 2000]), min_size=1, max_size=5))),
                reuse=draw(st.booleans()))


class C32(Check):
    rule = ("A Perl or Python program makes 1-3 submissions (timeout 1 s) to a scripted server which, at a generated step (TCP, TLS, MOIN, PUSH, command, "
            "QUIT) and occurrence, answers with a hostile text (empty, partial, overlong, directives, NUL, wrong keyword), possibly in several TLS records, and/or "
            "goes silent, drips, closes, or resets; or whose proper answers arrive in pieces, or late but in time; optionally with more than 1024 descriptors in use.  Oracle: the interpreter and sanitizers stay fine, every call returns in time, "
            "without burning CPU time, returns normally only if its command was acknowledged (and does if it was), and gives the server's reason otherwise.  Non-trivial: all.")
    assumptions = ["the timeout applies to each wait, and the modules may try twice: a call may take 2 x (timeout + 1 s) plus 4 s for delays in the sandbox"]
    cases = dict(quick=500, thorough=15000)
    budget = dict(quick=200, thorough=3000)
    shards = 16

    def strategy(self, tier):
        return cases()

    @property
    def examples(self):
        out = []
        base = dict(tls=13, how="go", after=0, calls=2, frag=0, kind="host", files=0, long=0, once=False, cut=50, reuse=False)
        for lang in ("perl", "python"):
            for at in ("moin", "push", "data"):
                for r in ("\n", "FAIL\r\n", "BAIL\n", "FAIL %s%n%s%n%s%n\r\n", "x" * 1024):
                    out.append(dict(base, lang=lang, at=at, resp=r, kind="command" if "%" in r and lang == "perl" else "host"))
                for r in ("OK\r\n", "OKA\r\n", "O\n", "MOIN\r\n", "MOIN 2\r\n", "MOI 1\r\n", "\r\n", "PONG 1\r\n", "NOOP\r\n", "QUIT\r\n", "BAI x\r\n", "FAI x\r\n",
                          "BAIL not today\r\n", "FAIL not today\n") + \
                        (("OKAY\r\n",) if at == "moin" else ("MOIN 1\r\n",)):
                    out.append(dict(base, lang=lang, at=at, resp=r, calls=1, kind="command" if len(r) % 2 and lang == "perl" else "svc"))
            for at in ("moin", "push", "data"):
                out.append(dict(base, lang=lang, at=at, resp="", how="late", calls=3))
                out.append(dict(base, lang=lang, at=at, resp="", how="slow"))
            for sizes in ([1, 1, 1], [1, 2, 1], [5, 1], [2] * 5, [1] * 8):
                out.append(dict(base, lang=lang, at="all", how="good", resp=["\r\n", "\n"][len(sizes) % 2], pieces=sizes))
            for how in ("fin", "rst", "notify", "hang"):
                for after in (0, 1):
                    out.append(dict(base, lang=lang, at="push", resp="", how=how, after=after))
            for p in ([1000], [1023], [1], [500, 500], [1024]):
                out.append(dict(base, lang=lang, at="push", resp="x" * 2000 + "\r\n", pieces=p))
            out.append(dict(base, lang=lang, at="quit", resp="", files=1100))
            out += [dict(base, lang=lang, at=at, resp="") for at in ("tcp", "refused", "hello", "garbage", "psk", "flight")]
        return out

    def run(self, env, case):
        lang, at, how = case["lang"], case["at"], case["how"]
        T = 2 if how == "slow" else 1
        ip = Interp(env, lang)
        count = {}
        stop = threading.Event()
        env.cleanups.append(stop.set)
        what = "%s, %s at %s, response %r" % (lang, how, at, case["resp"][:60])

        if how == "good":
            at = "all"
        elif how == "slow" and at not in ("moin", "push", "data"):
            at = "moin"

        def before(t, c):
            if case["once"] and len(srv.talks) > 1:
                return
            if at == "hello":
                raise Stop("hang" if how in ("go", "drip", "late") else how)
            if at == "garbage":
                c.raw(B(case["resp"]) or b"HTTP/1.0 400 Bad Request\r\n\r\n")
                raise Stop("hang" if how in ("go", "drip", "late") else how)
            if at == "flight":
                f = c.flight()
                n = len(f) * case["cut"] // 100
                if f:
                    c.raw(f[:n])
                raise Stop("hang" if how in ("go", "drip", "late") else how)

        def respond(t, step, info):
            if case["once"] and srv.talks[0] is not t:
                return None
            if at == "all":     # proper answers in pieces
                whole = (b"MOIN 1" if step == "moin" else b"OKAY") + (b"\n" if case["resp"].endswith("\n") and "\r" not in case["resp"] else b"\r\n")
                r = whole
                for k in case.get("pieces", []):
                    if len(r) > k:
                        conns[id(t)].send(r[:k])
                        r = r[k:]
                        time.sleep(0.02)
                conns[id(t)].send(r)
                return Sent(whole)
            if id(t) in late:
                return b"FAIL no\r\n" if step == "data" else None
            k = count.get((id(t), step), 0)
            count[id(t), step] = k + 1
            if step != at or (k != case["after"] and step not in ("moin", "quit")):
                return None
            if how == "slow":       # but in time
                stop.wait(1.5)
                return None
            if how == "late":       # then refuse everything
                stop.wait(T + 1.3)
                late.add(id(t))
                return None
            r = whole = B(case["resp"])
            conn = conns[id(t)]
            if how != "drip":
                for k in case.get("pieces", []):    # several TLS records
                    if len(r) > k:
                        conn.send(r[:k])
                        r = r[k:]
                        time.sleep(0.02)
            if how == "go":
                conn.send(r or b"\r\n")
                return Sent(whole)
            if how == "drip":
                for b in r + b"x" * 100:
                    if stop.wait(0.15):
                        break
                    conn.send(bytes([b]) if b != 10 else b"y")
                raise Stop("fin")
            if r:
                conn.send(r)
                if whole.upper().startswith(b"OKAY") and step == "data":
                    t.acked[-1] = t.commands[-1]
            raise Stop(how)
        conns, late = {}, set()

        class N(Nscad):
            def talk(self, t, c):
                conns[id(t)] = c
                Nscad.talk(self, t, c)
        srv = N(env, ids=[("me", b"other" if at == "psk" else b"p")], tls=case["tls"], respond=respond,
                before_handshake=before if at in ("hello", "garbage", "flight") else None, frag=case["frag"] if how != "drip" else 0,
                start=at not in ("tcp", "refused"))
        if at == "tcp":
            srv.s.listen(0)
            for _ in range(2):
                s = socket.socket()
                s.setblocking(False)
                s.connect_ex((srv.ip, srv.port))
                env.cleanups.append(s.close)
        elif at == "refused":
            srv.s.close()
        if case["files"]:
            import resource
            soft, hard = resource.prlimit(ip.p.pid, resource.RLIMIT_NOFILE)
            if hard < 2048:
                return ["no descriptors"], False
            resource.prlimit(ip.p.pid, resource.RLIMIT_NOFILE, (2048, hard))
            ip.call("files", 0, [case["files"]])
        try:
            ip.new(0, srv.ip, srv.port, "me", "p", timeout=T)
        except Died as x:
            raise Violation("constructor raised %s" % x)
        early = at in ("moin", "push") and case["resp"].count("OKAY") > 1      # the server acknowledges what it doesn't have yet
        limit = 2 * (T + 1) + 4
        labels = {lang, "at " + at}
        acked = 0
        for n in range(case["calls"]):
            text = b"text %d %s" % (n, b"y" * case["long"])
            if how == "slow" and not n:     # late in a second: they may look at time(2)
                time.sleep((0.8 - time.time()) % 1)
            if case["kind"] == "command" and lang == "perl":
                ip.send("command", 0, [S(b"FOO;" + text)])
            else:
                ip.send_result(0, S("h"), None if case["kind"] == "host" else S("s"), 1, S(text), timeout=T)
            busy = ip.cpu()
            try:
                ip.reply(limit)
                ok = True
                if ip.took > 0.8 and ip.cpu() - busy > 0.5 * ip.took + 0.2:
                    raise Violation("%.1f s CPU time used within %.1f s; %s" % (ip.cpu() - busy, ip.took, what))
            except Died as x:
                ok = False
                if ip.p.poll() is None and ip.took > 0.8 and ip.cpu() - busy > 0.5 * ip.took + 0.2:
                    raise Violation("%.1f s CPU time used within %.1f s; %s" % (ip.cpu() - busy, ip.took, what))
                if at == "all" or how == "slow":
                    raise Violation("%r although the server's answers were fine; %s" % (x.msg, what))
                m = re.match(r"^(FAIL|BAIL) ([!-~]|[!-~][ -~]{0,150}[!-~])\r?\n$", case["resp"])
                if m and how == "go" and at in ("moin", "push", "data") and not case["after"] and not case["once"] and not case["files"] \
                        and m.group(2) not in J(x.msg):
                    raise Violation("the server's reason isn't in the message %r; %s" % (x.msg, what))
                if not x.msg.strip():
                    raise Violation("error without message; " + what)
            tag = b";text %d " % n
            time.sleep(0.002)
            got = [c for t in srv.talks for c in t.acked if c and tag in c]
            if ok and not got:
                wait_until(lambda: any(c and tag in c for t in srv.talks for c in t.acked), 1)
                got = [c for t in srv.talks for c in t.acked if c and tag in c]
            if ok and not got and not early:
                raise Violation("returned normally although not acknowledged; " + what)
            labels.add("success" if ok else "error")
            if ok and ip.took > limit:
                raise Violation("took %.1f s; %s" % (ip.took, what))
            acked += len(got)
            if case["reuse"] and not ok:
                ip.call("del", 0, limit=limit)
                ip.new(0, srv.ip, srv.port, "me", "p", timeout=T, limit=limit)
        if at in ("tcp", "refused", "psk", "hello", "garbage") and not case["once"] and "success" in labels:
            raise Violation("success without a server; " + what)
        if how == "slow" and len(srv.talks) > 1:
            raise Violation("gave up a connection although the answer came within %d s; %s" % (T, what))
        ip.finish(limit)
        return sorted(labels), True


check = C32()
