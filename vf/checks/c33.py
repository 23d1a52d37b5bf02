"""C33: long-lived module objects survive idle timeouts and server restarts."""
from hypothesis import strategies as st
from ..modules import *
from ..run import Check


@st.composite
def cases(draw):
    lang = draw(st.sampled_from(["perl", "python"]))
    return dict(lang=lang, tls=draw(st.sampled_from([12, 13])), idle=draw(st.sampled_from([0.5, 0.5, 0.8, 0])),
                objs=draw(st.sampled_from([1, 1, 2])),
                ops=draw(st.lists(st.tuples(st.sampled_from(["send"] * 10 + ["idle"] * 2 + ["restart", "restart", "kill", "stop", "start", "reload"]),
                                            st.integers(0, 1), st.sampled_from(["host", "svc", "command"]), st.sampled_from([0, 0, 0, 3000])).map(list),
                                  min_size=3, max_size=10).map(lambda l: [["send", 0, "host", 0]] + l)))


class C33(Check):
    rule = ("1-2 long-lived objects of the Perl or Python module and a real server with an idle timeout of 0.5 or 0.8 s (or none), TLS 1.2 or 1.3: "
            "a random history of submissions, pauses beyond the idle timeout, server restarts (SIGTERM, SIGKILL, SIGHUP), downtimes.  "
            "Oracle: what returned normally was delivered exactly once, what raised at most once; never two failures of an object in a row while the server is up, and none at all with Python, whose objects reconnect by themselves; "
            "no success while it is down; the interpreter survives.  Non-trivial if a submission followed a disruption.")
    assumptions = ["a pause of 0.35 s beyond the idle timeout suffices"]
    cases = dict(quick=350, thorough=10000)
    budget = dict(quick=200, thorough=3000)
    shards = 16

    def strategy(self, tier):
        return cases()

    @property
    def examples(self):
        out = []
        for lang in ("perl", "python"):
            for tls in (12, 13):
                for op in ("idle", "restart", "kill", "reload"):
                    out.append(dict(lang=lang, tls=tls, idle=0.5, objs=1, ops=[["send", 0, "host", 0], [op, 0, "host", 0], ["send", 0, "svc", 0], ["send", 0, "svc", 0],
                                                                               [op, 0, "host", 0], ["send", 0, "svc", 3000], ["send", 0, "host", 0]]))
                out.append(dict(lang=lang, tls=tls, idle=0.5, objs=2, ops=[["stop", 0, "host", 0], ["send", 0, "host", 0], ["start", 0, "host", 0],
                                                                           ["send", 0, "host", 0], ["send", 1, "host", 0], ["stop", 0, "host", 0], ["send", 0, "host", 0],
                                                                           ["send", 1, "host", 0], ["start", 0, "host", 0], ["send", 0, "host", 0], ["send", 1, "host", 0], ["send", 1, "host", 0]]))
        return out

    def run(self, env, case):
        d = env.dir()
        e = {}
        if case["tls"] == 12:
            with open(d + "/openssl.cnf", "w") as f:
                f.write("openssl_conf = a\n[a]\nssl_conf = b\n[b]\nsystem_default = c\n[c]\nMaxProtocol = TLSv1.2\n")
            e["OPENSSL_CONF"] = d + "/openssl.cnf"
        conf = 'timeout = %s\nauthorize "me0" {\n password = "p0"\n commands = ".*"\n}\nauthorize "*" {\n password = "p1"\n commands = ".*"\n}\n' % case["idle"]
        srv = Server(env, conf, extra_env=e)
        ip = Interp(env, case["lang"])
        what = "%s, TLS 1.%d" % (case["lang"], case["tls"] - 10)
        for i in range(case["objs"]):
            try:
                ip.new(i, srv.ip, srv.port, "me%d" % i, "p%d" % i, timeout=3)
            except Died as x:
                raise Violation("constructor raised %s" % x)
        up = True
        failed = [False] * case["objs"]     # the last submission failed, and the server has been up since
        dirty = [False] * case["objs"]
        used = [False] * case["objs"]
        active = [time.monotonic()] * case["objs"]
        n = 0
        results, history = {}, []
        labels, nt = {case["lang"], "TLS 1.%d" % (case["tls"] - 10)}, False
        for op, i, kind, pad in case["ops"]:
            i %= case["objs"]
            history.append(op)
            if op == "send":
                n += 1
                t0 = time.monotonic()
                stale = case["idle"] and t0 - active[i] > case["idle"] * 0.5
                text = b"text %d.%s" % (n, b"y" * pad)
                if kind == "command" and case["lang"] == "perl":
                    ip.send("command", i, [S(b"[1] FOO;" + text)])
                else:
                    ip.send_result(i, S("h"), None if kind != "svc" else S("s"), 1, S(text), timeout=3)
                try:
                    ip.reply(20)
                    ok = True
                except Died as x:
                    ok, err = False, x
                    if not x.msg.strip():
                        raise Violation("error without message")
                results[n] = ok
                active[i] = time.monotonic()
                # the sandbox may be slow: the server may drop the connection at any time
                lame = bool(case["idle"]) and active[i] - t0 > case["idle"] * 0.5
                dirty[i] |= bool(stale) or lame
                if up:
                    if not ok and not dirty[i]:
                        raise Violation("submission failed although nothing had happened: %s; %s; %s" % (err, what, history))
                    if not ok and not lame and case["lang"] == "python":
                        raise Violation("submission failed instead of reconnecting to a healthy server: %s; %s; %s" % (err, what, history))
                    if not ok and failed[i] and not lame:
                        raise Violation("failed twice with a healthy server: %s; %s; %s" % (err, what, history))
                    if ok and dirty[i]:
                        labels.add("reconnected")
                    failed[i] = not ok and not lame
                    if dirty[i] and used[i]:
                        nt = True
                        labels.add("after disruption: " + ("success" if ok else "error"))
                    if ok:
                        dirty[i] = False
                    used[i] = True
                    if ok and not srv.nagios.wait(lambda k: any(b";text %d." % n in c for c in k.cmds)):
                        raise Violation("submission %d returned normally, but wasn't delivered; %s; %s" % (n, what, history))
                elif ok:
                    raise Violation("submission returned normally without a server")
                else:
                    dirty[i] = True
                    labels.add("down")
            elif op == "idle":
                if case["idle"]:
                    time.sleep(case["idle"] + 0.35)
                    dirty = [True] * case["objs"]
            elif op in ("restart", "kill", "stop"):
                if not up:
                    continue
                srv.nagios.pump()
                if op == "kill":
                    srv.kill()
                else:
                    srv.stop()
                dirty, failed = [True] * case["objs"], [False] * case["objs"]
                up = False
                if op != "stop":
                    srv.start()
                    up = True
                labels.add(op)
            elif op == "start":
                if not up:
                    srv.start()
                    up = True
            elif op == "reload" and up:
                k = srv.log().count("starting up")
                os.kill(srv.pid(), signal.SIGHUP)
                dirty, failed = [True] * case["objs"], [False] * case["objs"]

                def ready():
                    try:
                        c = Conn.client(srv.ip, srv.port, "x", "p1", timeout=1)
                        c.free()
                        return True
                    except PeerGone:
                        return False
                if not wait_until(lambda: srv.log().count("starting up") > k or not srv.alive()) or not wait_until(ready):
                    raise Violation("the server did not restart on SIGHUP")
                labels.add("reload")
        ip.finish()
        if up:
            srv.nagios.pump()
            srv.stop()
        srv.nagios.pump()
        for k, ok in results.items():
            got = [c for c in srv.nagios.cmds if b";text %d." % k in c]
            if ok and len(got) != 1 or len(got) > 1:
                raise Violation("submission %d (%s) was delivered %d times; %s; %s" % (k, "success" if ok else "error", len(got), what, history))
        return sorted(labels), nt


check = C33()
