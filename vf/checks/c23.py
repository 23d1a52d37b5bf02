"""C23: send_nsca exits 0 only if the server confirmed everything."""
import errno
import os
import re
from hypothesis import strategies as st
from ..harness import *
from ..nscad import *
from ..history import shim
from ..run import Check

BADLINE = ["FAIL\r\n", "FAIL no way\r\n", "FAIL %n%n%s%s%1000d\r\n", "BAIL\r\n", "BAIL bye %s%n\r\n", "fail x\r\n", "\r\n", "\n", "PONG 1\r\n",
           "OKAYX\r\n", "OKA\r\n", "\0\r\n", "NOOP\r\n", "QUIT\r\n", "\xff\xfe\xfd\r\n", "x" * 100 + "\r\n", "x" * 1800 + "\r\n",
           "x" * 3000 + "\r\n", "x" * 70000, " " * 200 + "\r\n", "\t\r\n", "%s%s%s%s%n\r\n", "NO\r\nOKAY\r\n", "X OKAY\r\n", "KO\r\n"]
BADMOIN = BADLINE + ["MOIN 2\r\n", "MOIN 0\r\n", "MOIN -1\r\n", "MOIN\r\n", "MOIN \r\n", "MOIN x\r\n", "OKAY\r\n", "MOIN 1 2 3\r\n",
                     "MOIN 99999999999999999999\r\n", "MOIN %n %n\r\n"]
BADANS = BADLINE + ["MOIN 1\r\n"]
GOOD = {"moin": ["MOIN 1\r\n", "MOIN 1\n", "moin 1\r\n"], "okay": ["OKAY\r\n", "OKAY\n", "okay\r\n", "Okay\r\n"]}
# more than one line, or questionable: may be accepted or not
MURKY = ["OKAY \r\n", "OKAY fine\r\n", "OKAY\0x\r\n", "OKAY\r\r\n"]
STOPS = ["notify", "fin", "rst", "half", "hang"]


@st.composite
def cases(draw):
    n = draw(st.sampled_from([0, 1, 1, 2, 3, 6]))
    steps = 2 * n + 2
    bad_at = draw(st.one_of(st.just(-1), st.integers(0, steps - 1), st.integers(0, steps - 1), st.integers(0, steps - 1)))
    script = []
    for i in range(steps):
        good = draw(st.sampled_from(GOOD["moin" if i == 0 else "okay"]))
        if i != bad_at:
            script.append(["say", good])
            continue
        k = draw(st.sampled_from(["bad", "bad", "bad", "stop", "stop", "cut", "double", "murky", "rnd", "raw"]))
        if k == "bad":
            script.append(["say", draw(st.sampled_from(BADMOIN if i == 0 else BADANS))])
        elif k == "stop":
            script.append(["stop", draw(st.sampled_from(STOPS))])
        elif k == "cut":
            script.append(["cut", good[:draw(st.integers(1, len(good) - 1))], draw(st.sampled_from(STOPS))])
        elif k == "double":
            script.append(["say", good + draw(st.sampled_from(BADANS + GOOD["okay"]))])
        elif k == "murky":
            script.append(["say", draw(st.sampled_from(MURKY))])
        elif k == "rnd":
            script.append(["say", J(draw(st.binary(min_size=1, max_size=40))) + "\r\n"])
        else:
            script.append(["raw", J(draw(st.one_of(st.binary(min_size=6, max_size=60), st.sampled_from(
                [b"\x15\x03\x03\x00\x02\x02\x28", b"\x17\x03\x03\x00\x20" + b"x" * 32, b"HTTP/1.0 200 OK\r\n\r\n"]))))])
    hs = draw(st.sampled_from([""] * 14 + ["fin", "rst", "garbage", "cut", "key", "hang", "nobody", "alert"]))
    rekey = draw(st.sampled_from([0, 0, 0, 1]))
    extra = draw(st.sampled_from([""] * 12 + ["rst", "fin", "data", "hang"]))
    stdin = []
    if draw(st.integers(0, 7)) == 3:
        stdin = draw(st.lists(st.tuples(st.sampled_from([1, 1, 2, 2, 3, 3, 4, 5, 8]), st.sampled_from([errno.EINTR, errno.EAGAIN, errno.EIO, errno.EISDIR])),
                              min_size=1, max_size=4))
        if draw(st.booleans()):
            hs, extra, script = "", "", [["say", GOOD["okay" if i else "moin"][0]] for i in range(steps)]
    return dict(n=n, script=script, hs=hs, stdin=stdin, rekey=rekey, extra=extra, mode=draw(st.sampled_from(["C", "R"])),
                tls=draw(st.sampled_from([12, 13])), size=draw(st.sampled_from([10, 10, 10, 3000, 300000])),
                partial=draw(st.integers(0, 4)), unsol=draw(st.sampled_from([""] * 10 + ["BAIL gone\r\n", "FAIL x\r\n", "OKAY\r\n"])))


class C23(Check):
    rule = ("send_nsca submits 0-6 commands to a scripted server which gives proper answers except at one generated place, where it "
            "answers FAIL/BAIL/garbage/overlong/partial/several lines, injects raw bytes, closes (close_notify, FIN, RST, half-close) or falls "
            "silent; or misbehaves before or during the TLS handshake, rekeys, or misbehaves after the last answer; in some cases reading standard input is interrupted or fails.  Oracle: "
            "status 0 iff the answers, in order, were MOIN 1 and 2n+1 times OKAY.  Non-trivial if the misbehaviour "
            "happened after at least one proper answer, or during the handshake.")
    assumptions = ["answers such as `OKAY fine' may be accepted or not", "what follows the confirmation of QUIT may affect the status"]
    cases = dict(quick=1600, thorough=60000)
    budget = dict(quick=150, thorough=3000)
    shards = 16

    def strategy(self, tier):
        return cases()

    examples = [dict(n=3, script=[["say", "MOIN 1\r\n"]] + [["say", "OKAY\r\n"]] * 7, hs="", rekey=0, extra="", mode=m, tls=13, size=10,
                     partial=0, unsol="", stdin=[[k, e]])
                for m in "CR" for k, e in ((1, errno.EIO), (2, errno.EIO), (2, errno.EINTR), (1, errno.EAGAIN), (3, errno.EISDIR))] + [dict(n=1, script=[["say", "MOIN 1\r\n"], ["say", "OKAY\r\n"], ["stop", s], ["say", "OKAY\r\n"]], hs="", rekey=0, extra="",
                     mode="C", tls=t, size=z, partial=2, unsol="") for s in STOPS for t in (12, 13) for z in (10, 300000)]
    # every listed answer at every place
    examples += [dict(n=1, script=[["say", "MOIN 1\r\n"] if i == 0 else ["say", "OKAY\r\n"] for i in range(k)] + [["say", bad]] +
                      [["say", "OKAY\r\n"]] * (3 - k), hs="", rekey=0, extra="", mode="CR"[k % 2], tls=12 + j % 2, size=10, partial=2, unsol="")
                 for k in range(4) for j, bad in enumerate(BADMOIN if k == 0 else BADANS)]

    def run(self, env, case):
        script, n = case["script"], case["n"]
        pos = [0]
        murky = False
        hang = case["hs"] in ("hang", "cut") or case["extra"] == "hang" or \
            any(x[-1] in ("hang", "half") and x[0] != "say" or x[0] == "raw" or x[0] == "say" and "\n" not in x[1] for x in script)
        lines = b""         # everything we said
        said = []
        conn = [None]

        def before(t, c):
            conn[0] = c
            if case["hs"] in ("fin", "rst", "hang"):
                raise Stop(case["hs"])
            if case["hs"] == "garbage":
                c.fill(5)
                c.raw(b"220 mail.example.com ESMTP %n%s\r\n" * 3)
                raise Stop("fin")
            if case["hs"] == "alert":
                c.fill(5)
                c.raw(b"\x15\x03\x03\x00\x02\x02\x28")
                raise Stop("fin")
            if case["hs"] == "cut":
                c.fill(5)
                f = c.flight()
                c.raw(f[:len(f) // 2])
                raise Stop(["fin", "rst", "hang"][case["partial"] % 3])

        def respond(t, step, info):
            if step in ("bail", "other"):
                return b""
            i = pos[0]
            pos[0] += 1
            c = conn[0]
            if i == 1 and case["unsol"]:
                said.append(B(case["unsol"]))
                c.send(B(case["unsol"]))
            if case["rekey"] and i > 0:
                c.rekey()
            if i >= len(script):
                return b"FAIL\r\n"
            s = script[i]
            if s[0] == "stop":
                raise Stop(s[1])
            if s[0] == "cut":
                c.send(B(s[1]))
                raise Stop(s[2])
            if s[0] == "raw":
                c.raw(B(s[1]))
                raise Stop("hang")
            said.append(B(s[1]))
            if i == len(script) - 1 and case["extra"]:
                c.send(B(s[1]))
                if case["extra"] == "data":
                    c.send(b"WHAT ELSE\r\n" * 50)
                    raise Stop("notify")
                raise Stop(case["extra"])
            return B(s[1])
        ids = [("*", b"wrong" if case["hs"] == "key" else b"p")]
        srv = Nscad(env, ids=ids, respond=respond, before_handshake=before, tls=case["tls"])
        if case["hs"] == "nobody":
            srv.stop()
        args = ["-o", "1" if hang else "15" if case["partial"] == 3 else "0"]      # 0: it must end by itself
        size = case["size"] if n <= 2 else min(case["size"], 30000)     # (unoptimised stdin buffering is slow)
        cmds = []
        for i in range(n):
            cmds.append(b"[%d] C;" % i + b"x" * size)
        if case["mode"] == "C":
            data = b"".join(x + b"\n" for x in cmds)
            args.append("-C")
        else:
            data = b"\x17".join(b"h\ts\t0\t" + x + b"\n" for x in cmds)
        kw = {}
        failed = os.path.join(env.dir(), "failed")
        if case.get("stdin"):
            kw = dict(preload=[shim("stdin")], extra_env=dict(VF_STDIN=",".join("%d:%d" % (a, b) for a, b in case["stdin"]),
                                                              VF_STDIN_FAILED=failed))
        c = Client(env, srv.ip, srv.port, CONF, args, **kw)
        c.feed_async(data)
        t0 = time.monotonic()
        rc = c.wait(40)
        took = time.monotonic() - t0
        stream = b"".join(said)
        got = stream.split(b"\n")[:-1]
        need = 2 * n + 2
        got = [l[:-1] if l.endswith(b"\r") else l for l in got]
        okay = lambda l: l.upper() == b"OKAY"
        moin = lambda l: l.upper() == b"MOIN 1"
        confirmed = len(got) >= need and moin(got[0]) and all(okay(l) for l in got[1:need])
        murky = any(l[:4].upper() == b"OKAY" and l[4:5] in (b" ", b"\t", b"\0", b"\r") for l in got[1:]) or \
            any(re.match(rb"(?i)[ \t]*MOIN[ \t]+[+0]*1([^0-9]|$)", l) and not moin(l) for l in got[:1])
        exact = confirmed and len(got) == need and stream.endswith(b"\n") and not case["extra"] and all(x[0] == "say" for x in script)
        err = c.err()
        failed = os.path.exists(failed)
        if rc != 0 and not failed and not case["hs"] and not case["extra"] and not case["unsol"] and not case["rekey"] and \
                all(x[0] == "say" and x[1] in GOOD["okay" if i else "moin"] for i, x in enumerate(script)):
            raise Violation("status %d although the server answered properly: %s" % (rc, err[-300:]))
        if failed:
            exact = False
            if rc == 0:
                raise Violation("status 0 although reading standard input failed")
            if case["mode"] == "C" and any(x[:-1] not in cmds for t in srv.talks for x in t.commands):
                raise Violation("an incomplete command was submitted")
        if case["hs"] and rc == 0:
            raise Violation("status 0 although no session was established")
        if rc == 0 and not confirmed and not murky:
            raise Violation("status 0 although the server's answers were %r" % [x[:60] for x in got])
        if rc != 0 and exact and not case["hs"] and not (case["rekey"] and case["tls"] == 12):
            raise Violation("status %d although everything was confirmed: %s" % (rc, err[-300:]))
        if rc != 0 and not err.strip():
            raise Violation("failed without a message")
        if rc not in (0, 1):
            raise Violation("odd exit status %d" % rc)
        labels = ["status %d" % rc, "hs:" + (case["hs"] or "ok")]
        if case.get("stdin"):
            labels.append("stdin failed" if failed else "stdin interrupted")
        i = next((k for k, x in enumerate(script) if x[0] != "say"), None)
        labels.append("script:" + (script[i][0] + ("/" + script[i][-1] if script[i][0] != "raw" else "") if i is not None else
                                   "clean" if exact else "odd line"))
        return labels, (not exact or bool(case.get("stdin"))) and (case["hs"] != "" or len(got) > 0)


check = C23()
