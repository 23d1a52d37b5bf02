"""C22: chunking and pacing of its inputs do not matter to send_nsca."""
from hypothesis import strategies as st
from ..harness import *
from ..nscad import *
from ..run import Check
from . import c20, c21

CUTS = st.lists(st.tuples(st.sampled_from([1, 1, 2, 3, 7, 16, 127, 128, 129, 500, 4096]), st.sampled_from([0, 0, 0, 1, 3, 20])),
                min_size=1, max_size=25)
# how one response is divided: list of (bytes, pause in ms); the last piece takes the rest
RSPLIT = st.lists(st.tuples(st.integers(1, 6), st.sampled_from([0, 0, 1, 5, 30])), max_size=5)


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["C", "R", "R"]))
    if mode == "R":
        inp = draw(c20.cases())
        inp["run"] = 0
        for r in inp["recs"]:
            if "big" in r:
                r["big"][0] = min(r["big"][0], 20000)
    else:
        inp = draw(c21.cases())
        inp["run"] = False
    at = draw(st.one_of(st.none(), st.none(), st.integers(0, 9)))
    return dict(mode=mode, inp=inp, cuts=draw(CUTS), hold=draw(st.sampled_from([0, 1, 2, 2])), rsplit=draw(st.lists(RSPLIT, min_size=1, max_size=6)),
                frag=draw(st.sampled_from([0, 0, 1, 5, 30])), hsfrag=draw(st.sampled_from([0, 0, 1, 40])),
                bad=None if at is None else [at, draw(st.sampled_from(["FAIL no\r\n", "BAIL x\r\n", "WHAT\r\n", "OKAY\n", "okay\r\n",
                                                                       "FAIL\r\n"]))],
                tls=draw(st.sampled_from([12, 13])))


class C22(Check):
    rule = ("The same input and the same server responses (friendly, or with one odd or refusing response) are presented twice: "
            "as a file and in whole records, and in generated pieces (stdin in writes of 1-4096 bytes with pauses, responses cut into "
            "separate TLS records with pauses, TCP segments of 1-30 bytes also during the handshake).  Exit status, requests and "
            "commands must be identical, and complete records must be submitted while standard input stays open.  Non-trivial if some command was submitted and either side was really cut inside a "
            "record, line or response.")
    assumptions = ["timestamps added by send_nsca are not compared", "pauses stay below the timeout"]
    cases = dict(quick=800, thorough=30000)
    budget = dict(quick=150, thorough=3000)

    def strategy(self, tier):
        return cases()

    def once(self, env, case, data, args, cut, expect=0):
        n = [0]
        stuck = []

        def respond(t, step, info):
            i = n[0]
            n[0] += 1
            if case["bad"] and i == case["bad"][0]:
                return B(case["bad"][1])
            return None
        srv = Nscad(env, respond=respond, tls=case["tls"], start=False)
        if cut:
            def before(t, c):
                c.frag(case["hsfrag"], 0)
            srv.before_handshake = before
            srv.frag = case["frag"]
            say = srv.say

            def split_say(t, c, step, info, default):
                d = srv.respond(t, step, info) or default
                t.sent.append(d)
                pos = 0
                for k, ms in case["rsplit"][len(t.sent) % len(case["rsplit"])]:
                    if pos >= len(d):
                        break
                    c.send(d[pos:pos + k])
                    pos += k
                    time.sleep(ms / 1000)
                if d[pos:]:
                    c.send(d[pos:])
                return d
            srv.say = split_say
        srv.t = threading.Thread(target=srv._accept, daemon=True)
        srv.t.start()
        if not cut:
            p = os.path.join(env.tmp, "input-%d" % env.n)
            with open(p, "wb") as f:
                f.write(data)
            with open(p, "rb") as f:
                c = Client(env, srv.ip, srv.port, CONF, args, stdin=f)
        else:
            c = Client(env, srv.ip, srv.port, CONF, args)

            def feeder():
                pos, i = 0, 0
                try:
                    slept = 0
                    while pos < len(data):
                        k, ms = case["cuts"][i % len(case["cuts"])]
                        if i > 400:
                            k = len(data)
                        i += 1
                        c.p.stdin.write(data[pos:pos + k])
                        pos += k
                        if slept < 600 and ms:
                            slept += ms
                            time.sleep(ms / 1000)
                    if expect:
                        # complete records don't wait for the input's end
                        end = time.monotonic() + 10
                        last = -1
                        while c.p.poll() is None:
                            now = sum(len(t.commands) + len(t.requests) for t in srv.talks)
                            if sum(len(t.commands) for t in srv.talks) >= expect:
                                break
                            if now != last:
                                last, end = now, time.monotonic() + 10
                            if time.monotonic() > end:
                                stuck.append("%d of %d commands submitted, and no progress for 10 s although standard input holds them all" % (
                                    sum(len(t.commands) for t in srv.talks), expect))
                                break
                            time.sleep(0.01)
                    elif case["hold"]:
                        time.sleep(0.03)
                except OSError:
                    pass
                try:
                    c.p.stdin.close()
                except OSError:
                    pass
            th = threading.Thread(target=feeder, daemon=True)
            th.start()
        rc = c.wait()
        if cut:
            th.join(20)
        if stuck:
            raise Violation(stuck[0])
        t = srv.one()
        if t is None:
            raise Violation("%d connections" % len(srv.talks))
        if t.error and t.error.startswith("harness"):
            raise RuntimeError(t.error)
        strip = lambda x: re.sub(rb"^\[\d{9,10}\] ", b"[T] ", x)
        return dict(status=rc, requests=[x if not x.startswith(b"MOIN") else b"MOIN" for x in t.requests],
                    commands=[strip(x) for x in t.commands], error=t.error), c.err()

    def run(self, env, case):
        inp = case["inp"]
        if case["mode"] == "R":
            data = c20.build_input(inp)[0]
            args = ["-d", c20.opt(inp["d"]), "-e", c20.opt(inp["e"])]
            sep = bytes([inp["e"]])
        else:
            lines = [B(x) for x in inp["lines"]]
            data = b"".join(l + b"\n" + b"\n" * g for l, g in zip(lines, inp["gaps"]))
            if not inp["last"]:
                data = data.rstrip(b"\n")
            args = ["-C"]
            sep = b"\n"
        a, ea = self.once(env, case, data, args, False)
        b, eb = self.once(env, case, data, args, True,
                          len(a["commands"]) if case["hold"] == 2 and a["status"] == 0 and data.endswith(sep) and not case["bad"] else 0)
        if case["bad"] and case["bad"][1][:4] != "OKAY" and a["requests"] != b["requests"]:
            # the BAIL of a client which gives up may or may not get through
            a["requests"] = [x for x in a["requests"] if not x.startswith(b"BAIL")]
            b["requests"] = [x for x in b["requests"] if not x.startswith(b"BAIL")]
        for k in a:
            if a[k] != b[k]:
                raise Violation("%s differ(s): unsegmented %r, segmented %r; stderr %r / %r" % (
                    k, str(a[k])[:300], str(b[k])[:300], ea[-150:], eb[-150:]))
        labels = ["mode " + case["mode"], "status %d" % min(a["status"], 1)]
        if case["bad"]:
            labels.append("odd response")
        return labels, bool(a["commands"]) and (any(k < len(data) for k, _ in case["cuts"][:1]) or any(case["rsplit"]))


check = C22()
