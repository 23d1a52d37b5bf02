"""C26: the real client talking to the real server."""
from hypothesis import strategies as st
from ..harness import *
from ..run import Check
from .c20 import esc, unescape, text

PAT = {"own": "own[0-9]*", "all": ".*"}


@st.composite
def cases(draw):
    limit = draw(st.sampled_from([16384, 16384, 0, 1000, 6000]))
    clients = []
    for i in range(draw(st.sampled_from([1, 1, 2, 3, 5, 8]))):
        mode = draw(st.sampled_from(["results", "results", "commands"]))
        d, e = draw(st.sampled_from([(9, 23), (9, 23), (59, 10), (44, 1), (110, 23)]))
        recs = []
        for j in range(draw(st.one_of(st.integers(1, 4), st.integers(0, 20)))):
            av = {0, d, e}
            host = draw(st.sampled_from(["own", "own7", "own12"] * 3 + ["evil"])) if draw(st.integers(0, 2)) == 1 else "own"
            if mode == "commands":
                t = J(draw(text({0, 10, 13}, 40)))
                recs.append(dict(h=host, m=t, big=0))
            else:
                big = draw(st.sampled_from([0] * 16 + [500, 970, 4000, 4096, 5000, 12000, 17000, 70000]))
                recs.append(dict(h=host, s=draw(st.one_of(st.none(), text(av | {10, 13, 59}, 6).map(J))),
                                 m=J(draw(text({0, e}, 40))), big=big, nl=draw(st.booleans())))
        clients.append(dict(mode=mode, d=d, e=e, recs=recs, auth=draw(st.sampled_from(["ok"] * 8 + ["badpw", "unknown"])),
                            ident=draw(st.sampled_from(["own", "all", "hostname"])),
                            chunks=draw(st.lists(st.integers(1, 200), max_size=4)),
                            pause=draw(st.sampled_from([0, 0, 1, 20]))))
    return dict(limit=limit, clients=clients, reader=draw(st.sampled_from(["on", "on", "late"])),
                fallback=draw(st.booleans()))


class C26(Check):
    rule = ("1-8 concurrent send_nsca processes feed 0-20 check results or commands each (arbitrary text, several delimiters, "
            "0-70 kB, chunked input) to one nsca-ng with per-client authorizations, a size limit, and a command file read "
            "immediately or only afterwards; wrong passwords, unknown identities, forbidden and oversized commands occur.  "
            "Non-trivial if at least two results of a client were delivered, or one refused, or several clients ran.")
    assumptions = ["the order of results sent via spool files relative to others is not promised",
                   "results behind the first refused one are not submitted"]
    cases = dict(quick=900, thorough=30000)
    budget = dict(quick=180, thorough=3000)

    def strategy(self, tier):
        return cases()

    def run(self, env, case):
        conf = "max_command_size = %d\n" % case["limit"]
        for t, p in PAT.items():
            conf += 'authorize "%s" {\n password = "pw-%s"\n hosts = %s\n services = %s\n commands = %s\n}\n' % (
                t, t, cq(p), cq(".*@" + p), cq("CMD;%s;.*" % p))
        if case["fallback"]:
            conf += 'authorize "*" {\n password = "pw-any"\n hosts = ".*"\n services = ".*"\n commands = ".*"\n}\n'
        srv = Server(env, conf)
        runs = []
        for ci, cl in enumerate(case["clients"]):
            d, e = bytes([cl["d"]]), bytes([cl["e"]])
            ident = cl["ident"]
            pw = "pw-any" if ident == "hostname" else "pw-" + ident
            pat = "all" if ident == "hostname" else ident
            auth = True
            if ident == "hostname":
                auth = case["fallback"]
            if cl["auth"] == "badpw":
                pw, auth = pw + "x", False
            elif cl["auth"] == "unknown":
                ident, auth = "stranger", case["fallback"] and pw == "pw-any"
            conf = "password = %s\n" % cq(pw)
            if ident != "hostname":
                conf += "identity = %s\n" % cq(ident)
            raws, exp, stop = [], [], False
            seen = 0
            for ri, r in enumerate(cl["recs"]):
                tag = b"<%d.%d>" % (ci, ri)
                if cl["mode"] == "commands":
                    line = b"CMD;" + B(r["h"]) + b";" + tag + B(r["m"])
                    raws.append(line)
                    want = (b"CMD;" + B(r["h"]), tag + B(r["m"]))
                    n = len(line) + 14
                else:
                    m = tag + b"x" * r["big"] + B(r["m"])
                    if bytes(x for x in tag if x in (d + e)):
                        return ["skipped"], False
                    f = [B(r["h"])] + ([b"sv" + B(r["s"])] if r["s"] is not None else []) + [b"0"]
                    if any(x in d + e for x in b"".join(f) + b"x" * (d != b"n")) or any(x in e for x in m):
                        return ["skipped"], False
                    if r["s"] is None and d in m:
                        # the fourth field makes it a service
                        f, m = f, m.replace(d, b"_")
                        tag = tag.replace(d, b"_")
                    raw = d.join(f + [m])
                    if m.endswith(b"\n") or r["nl"]:
                        if e == b"\n":
                            m = m.rstrip(b"\n")
                            raw = d.join(f + [m])
                        else:
                            raw += b"\n"
                    raws.append(raw)
                    head = b"PROCESS_%s_CHECK_RESULT;" % (b"HOST" if r["s"] is None else b"SERVICE")
                    want = (head + b";".join(esc(x) for x in f), m)
                    n = len(want[0]) + len(esc(m)) + 15
                bad = (case["limit"] and n > case["limit"]) or not re.fullmatch(PAT[pat], r["h"])
                if bad:
                    stop = True
                if not stop:
                    exp.append(want)
            sep = b"\n" if cl["mode"] == "commands" else e
            data = sep.join(raws) + sep
            args = ["-C"] if cl["mode"] == "commands" else []
            if args == [] and (cl["d"], cl["e"]) != (9, 23):
                args = ["-d", "0x%02x" % cl["d"], "-e", "0x%02x" % cl["e"]]
            c = Client(env, srv.ip, srv.port, conf, args)
            runs.append((c, cl, data, exp if auth else [], auth and not stop))

        def feed(c, cl, data):
            i = 0
            for n in cl["chunks"]:
                c.feed(data[i:i + n], close=False)
                i += n
                time.sleep(cl["pause"] / 1000)
            c.feed(data[i:])
        if case["reader"] == "late":
            pass
        ts = []
        for c, cl, data, exp, ok in runs:
            t = threading.Thread(target=feed, args=(c, cl, data), daemon=True)
            t.start()
            ts.append(t)
        end = time.monotonic() + 3 * TIMEOUT
        while any(c.p.poll() is None for c, *_ in runs) and time.monotonic() < end:
            if case["reader"] == "on":
                srv.nagios.pump()
            time.sleep(0.002)
        total = 0
        for c, cl, data, exp, ok in runs:
            rc = c.wait()
            if (rc == 0) != ok:
                raise Violation("send_nsca exited with status %d although %s; %s" % (
                    rc, "everything was acceptable" if ok else "something had to be refused", c.err()[-300:]))
            total += len(exp)
        srv.check_alive()
        srv.nagios.wait(lambda n: len(n.cmds) >= total)
        time.sleep(0.01)
        srv.nagios.pump()
        got = {}
        for l in srv.nagios.cmds:
            m = re.match(rb"^\[\d+\] (.*)\n$", l, re.S)
            t = re.search(rb"<(\d+)[._]\d+>", l) or re.search(rb"<(\d+)", l)
            if not m or not t:
                raise Violation("unknown command delivered: %r" % l[:200])
            got.setdefault(int(t.group(1)), []).append(m.group(1))
        spooled = any(srv.nagios.origin)
        for i, (c, cl, data, exp, ok) in enumerate(runs):
            want = [h + b";" + (m if cl["mode"] == "commands" else esc(m)) for h, m in exp]
            g = got.get(i, [])
            if sorted(g) != sorted(want):
                raise Violation("client %d: delivered %r instead of %r" % (i, [x[:150] for x in g], [x[:150] for x in want]))
            if not spooled and g != want:
                raise Violation("client %d: order changed: %r instead of %r" % (i, [x[:80] for x in g], [x[:80] for x in want]))
        if srv.nagios.problems:
            raise Violation("; ".join(srv.nagios.problems[:3]))
        srv.stop()
        refused = sum(not ok for *_, ok in runs)
        labels = {"clients:%s" % (len(runs) if len(runs) < 3 else "3+")}
        labels |= {cl["mode"] for _, cl, *_ in runs}
        if refused:
            labels.add("refused")
        if spooled:
            labels.add("spool files")
        if case["reader"] == "late":
            labels.add("late reader")
        if any(len(cl["recs"]) and len(exp) and len(exp) < len(cl["recs"]) for _, cl, _, exp, _ in runs):
            labels.add("refused half-way")
        return sorted(labels), len(runs) > 1 or refused > 0 or total > 1


check = C26()
