"""C29: names, addresses and ports."""
import struct
from hypothesis import strategies as st
from ..modules import *
from ..history import shim
from ..nscad import Nscad, Stop
from ..run import Check

SERVICES = [("svn", 3690), ("mysql", 3306), ("x11-1", 6001), ("nfs", 2049), ("openvpn", 1194), ("remctl", 4373)]
NAMES = ["monitor.test", "m", "a-rather-long-host-name-of-a-server." + "subdomain." * 5 + "monitoring.example.test", "Monitor-1.Test"]
LITERALS = {"4": ["%s"], "6": ["::1", "[::1]", "0:0:0:0:0:0:0:1", "[0000:0000:0000:0000:0000:0000:0000:0001]"],
            "m": ["::ffff:%s", "[::ffff:%s]", "0000:0000:0000:0000:0000:FFFF:%s", "[0:0::ffff:%x:%x]"]}
FAST = 5.0


def v6():
    """Is there an IPv6 loopback?"""
    try:
        s = socket.socket(socket.AF_INET6)
        try:
            s.bind(("::1", 0))
        finally:
            s.close()
        return True
    except OSError:
        return False


def spell(fam, n, ip):
    l = LITERALS[fam][n % len(LITERALS[fam])]
    return l % ip if "%s" in l else l % struct.unpack(">HH", socket.inet_aton(ip)) if "%" in l else l


def alt(k):
    """Further loopback addresses no other worker uses."""
    pid = os.getpid() & 0x3fffff
    return "127.%d.%d.%d" % (130 + 20 * k + (pid >> 15) % 20, (pid >> 7) & 255, (pid & 127) + 1)


class Jitter:
    def __enter__(self):
        self.value, self.done = 0.0, threading.Event()
        threading.Thread(target=self.run, daemon=True).start()
        return self

    def run(self):
        while not self.done.is_set():
            b = time.monotonic()
            time.sleep(0.02)
            self.value = max(self.value, time.monotonic() - b - 0.02)

    def __exit__(self, *a):
        self.done.set()


class Once(Nscad):
    """Ends the connection after the first result (if asked to)."""
    close = None

    def say(self, t, c, step, info, default):
        d = Nscad.say(self, t, c, step, info, default)
        if step == "data" and self.close:
            t.acked[-1] = info
            raise Stop(self.close)
        return d


def reserve(fam, addr, port):
    s = socket.socket(socket.AF_INET6 if fam == "6" else socket.AF_INET)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    s.bind((addr, port))
    return s


@st.composite
def client_cases(draw):
    lang = draw(st.sampled_from(["send_nsca", "send_nsca", "perl", "python"]))
    addrs = draw(st.lists(st.sampled_from(["4", "4", "4", "6", "m", "u4", "u6"]), min_size=1, max_size=5))
    # just one IPv6 loopback address
    addrs = [a for i, a in enumerate(addrs) if a != "6" or "6" not in addrs[:i]]
    rounds = draw(st.lists(st.lists(st.sampled_from([False, False, True]), min_size=len(addrs), max_size=len(addrs)), min_size=1, max_size=3))
    return dict(side="client", lang=lang, addrs=addrs, rounds=rounds,
                form=draw(st.sampled_from(["name", "literal", "name"])) if len(addrs) == 1 and addrs[0] in LITERALS else "name",
                spelling=draw(st.integers(0, 3)), port=draw(st.sampled_from(["num", "num", "svc", "default"])), svc=draw(st.integers(0, len(SERVICES) - 1)),
                how=draw(st.sampled_from(["cli", "conf", "mixed", "over"])), close=draw(st.sampled_from(["notify", "fin", None])),
                lines=draw(st.integers(1, 3)))


@st.composite
def server_cases(draw):
    return dict(side="server", addr=draw(st.sampled_from(["ip", "ip", "map", "six", "star", "name", "namemap"])),
                port=draw(st.sampled_from(["num", "default", "svc"])), svc=draw(st.integers(0, len(SERVICES) - 1)), spelling=draw(st.integers(0, 3)),
                how=draw(st.sampled_from(["cli", "conf", "over"])),
                bad=draw(st.sampled_from([None, None, None, None, "inuse", "foreign", "service", "name"])))


class C29(Check):
    rule = ("Client: send_nsca, or one object of the Perl or Python module, submits results in 1-3 rounds to a server given as a name - "
            "resolved, by a shim, to 1-5 addresses (IPv4, ::1, IPv4-mapped, unroutable ones of either family), a generated subset of which has a "
            "listening server in each round - or as a numeric address in various spellings, with a port number, "
            "service name or the default port, from the command line or the file.  Oracle: if an address is reachable, the round "
            "succeeds within 5 s (timeout: 15 s) and delivers each result exactly once; if none is, it fails as fast, with a message naming "
            "the cause.  Server: `-b` or `listen` with an address or name and port number, service name, or no port: it listens on exactly that address and "
            "port, and send_nsca reaches it there; or it can't (address in use or foreign, unknown name or service) and fails saying so. "
            "Non-trivial: several addresses, IPv6, or a name.")
    assumptions = ["a name the server is to bind to has one address; `*` means all IPv4 addresses; ports above 65535 are not judged"]
    cases = dict(quick=500, thorough=9000)
    budget = dict(quick=110, thorough=1500)
    shards = 8

    def strategy(self, tier):
        return st.one_of(client_cases(), client_cases(), client_cases(), server_cases())

    @property
    def examples(self):
        b = dict(side="client", form="name", spelling=0, port="num", svc=0, how="cli", close="fin", lines=2)
        out = []
        for l in ("send_nsca", "perl", "python"):
            out += [dict(b, lang=l, addrs=["4", "4"], rounds=[[False, True], [True, False]]), dict(b, lang=l, addrs=["6", "4"], rounds=[[False, True]]),
                    dict(b, lang=l, addrs=["4", "6"], rounds=[[False, True]]), dict(b, lang=l, addrs=["u6", "u4", "4"], rounds=[[True, True, True]]),
                    dict(b, lang=l, addrs=["4"], rounds=[[False], [True]]), dict(b, lang=l, addrs=["4"], rounds=[[True]], form="literal", port="default")]
            out += [dict(b, lang=l, addrs=[f], rounds=[[True]], form="literal", spelling=i) for f in "6m" for i in range(len(LITERALS[f]))]
        s = dict(side="server", svc=0, spelling=0, how="cli", bad=None)
        out += [dict(s, addr=a, port=p, how=h) for a, p, h in (("ip", "num", "cli"), ("ip", "default", "conf"), ("map", "default", "cli"), ("map", "num", "conf"),
                                                               ("map", "svc", "over"), ("six", "num", "cli"), ("name", "default", "conf"), ("star", "num", "conf"))]
        out += [dict(s, addr=a, port="num", spelling=i) for a in ("map", "six", "name") for i in range(4)]
        out += [dict(s, addr="ip", port="num", bad=x) for x in ("inuse", "foreign", "service", "name")]
        return out

    def run(self, env, case):
        return self.client(env, case) if case["side"] == "client" else self.server(env, case)

    # -- clients
    def client(self, env, case):
        has6, lang, addrs = v6(), case["lang"], case["addrs"]
        gai = shim("gai")
        portform = case["port"]
        if "6" in addrs or (portform == "svc" and lang != "send_nsca"):
            portform = "num"
        socks = {}
        port = None
        if "6" in addrs and has6:
            s = reserve("6", "::1", 0)
            port = s.getsockname()[1]
            socks[addrs.index("6")] = s
        if port is None:
            port = {"num": env.port(), "svc": SERVICES[case["svc"]][1], "default": 5668}[portform]
        text = {}
        for i, f in enumerate(addrs):
            text[i] = {"4": alt(i), "6": "::1", "m": "::ffff:" + alt(i), "u4": ["255.255.255.255", "224.0.0.1"][i % 2], "u6": "ff02::1"}[f]
            if f in "4m":
                socks[i] = reserve(f, alt(i), port)
        env.cleanups.append(lambda: [s.close() for s in socks.values()])
        if case["form"] == "name":
            host = NAMES[case["spelling"]]
        else:
            host = spell(addrs[0], case["spelling"], alt(0))
        extra = {"GAI": "%s=%s" % (host, ",".join(text[i] for i in range(len(addrs))))}
        obj = None
        if lang != "send_nsca":
            obj = Interp(env, lang, dict(extra, LD_PRELOAD=build.libasan() + ":" + gai))
            k = {}
            if lang == "perl" and portform == "default":
                obj.call("new", 1, [S(host), S("me"), S("p")], dict(timeout=15))
            else:
                obj.new(1, host, port, "me", "p", timeout=15)
        connected = False           # may the object have a connection?
        labels = [lang, case["form"], "port " + portform]
        for no, live in enumerate(case["rounds"]):
            live = [bool(l) and i in socks for i, l in enumerate(live)]
            srv = []
            for i, l in enumerate(live):
                if l:
                    socks[i].listen(16)
                    n = Once(env, ids=[(b"me", b"p")], sock=(socks[i], alt(i), port), start=False)
                    if lang != "send_nsca":
                        n.close = case["close"] if no + 1 == len(case["rounds"]) else case["close"] or "fin"
                    n.t = threading.Thread(target=n._accept, daemon=True)
                    n.t.start()
                    srv.append(n)
            usable = [i for i, l in enumerate(live) if l and (addrs[i] == "4" or has6)]
            what = "%s, server %s, addresses %s, listening: %s" % (
                lang, host, [text[i] for i in range(len(addrs))], [text[i] for i in usable] or "none")
            refused = all(f in "4m" or (f == "6" and has6) for f in addrs)
            labels.append("%d of %d" % (len(usable), len(addrs)))
            results = []
            with Jitter() as j:
                if lang == "send_nsca":
                    results = ["r%d-%d" % (no, i) for i in range(case["lines"])]
                    t = time.monotonic()
                    rc, err = self.send(env, case, host, port, portform, gai, extra, results)
                    took = time.monotonic() - t
                    ok = rc == 0
                else:
                    results = ["r%d" % no]
                    t = time.monotonic()
                    for attempt in range(2):
                        obj.send_result(1, S("h"), None, 0, S(results[0]), timeout=15)
                        try:
                            obj.reply(60)
                            ok, err = True, ""
                        except Died as e:
                            ok, err = False, e.msg if isinstance(e.msg, str) else J(e.msg)
                        # a lost connection may be noticed with an error (Perl), but just once
                        if ok or not connected or lang == "python":
                            break
                        connected = False
                    took = time.monotonic() - t
                    connected = ok
            if ok:
                wait_until(lambda: sum(c is not None for n in srv for t in n.talks for c in t.acked) >= len(results), 2)
            got = [c for n in srv for t in n.talks for c in t.acked if c is not None]
            for n in srv:
                n.stop()
            for i, l in enumerate(live):
                if l and no + 1 < len(case["rounds"]):
                    socks[i] = reserve(addrs[i], "::1" if addrs[i] == "6" else alt(i), port)
            bad = [t.error for n in srv for t in n.talks if t.error]
            if ok != bool(usable):
                raise Violation("%s: %s" % (what, "success" if ok else "failure: " + err[-300:]))
            want = sorted(b";h;0;" + r.encode() + b"\n" for r in results) if ok else []
            have = sorted(c[c.index(b";"):] for c in got)
            if have != want:
                raise Violation("%s: %s, but the servers accepted %r of %r (%s)" % (what, "success" if ok else "failure", have, want, bad))
            if took > FAST + 8 * j.value:
                raise Violation("%s: %s only after %.1f s" % (what, "success" if ok else "failure", took))
            if not ok:
                if not err.strip() or "(null)" in err:
                    raise Violation("%s: failed without telling the cause: %r" % (what, err[-300:]))
                if refused and "refused" not in err.lower():
                    raise Violation("%s: the message doesn't tell that the connection was refused: %r" % (what, err[-300:]))
        if obj:
            obj.finish()
        labels += sorted(set(addrs))
        return labels, len(addrs) > 1 or "6" in addrs or "m" in addrs or case["form"] == "name"

    def send(self, env, case, host, port, portform, gai, extra, results):
        p = {"num": str(port), "svc": SERVICES[case["svc"]][0], "default": None}[portform]
        conf, args = 'identity = me\npassword = p\ntimeout = 15\n', []
        how = case["how"]
        if how in ("cli", "over"):
            args += ["-H", host] + (["-p", p] if p else [])
        if how == "mixed":
            args += ["-p", p] if p else []
            conf += 'server = "%s"\n' % host
        if how == "conf":
            conf += 'server = "%s"\n' % host + ('port = "%s"\n' % p if p else "")
        if how == "over":
            conf += 'server = "192.0.2.1"\n' + ("port = 1\n" if p else "")
        c = Client(env, host, port, conf, args, addr_args=False, preload=[gai], extra_env=extra)
        c.feed_async(b"".join(b"h\t0\t%s\n\x17" % r.encode() for r in results))
        rc = c.wait(60)
        return rc, c.err()

    # -- servers
    def server(self, env, case):
        has6, addr, bad = v6(), case["addr"], case["bad"]
        if addr in ("map", "six", "namemap") and not has6:
            return ["no IPv6 here"], False
        portform = case["port"]
        if addr in ("star", "six"):
            portform = "num"
        if bad and (addr in ("star", "six", "map", "namemap")):
            addr = "ip"
        ip = alt(0)
        for attempt in range(4):
            if addr == "star" or addr == "six":
                s = reserve("6" if addr == "six" else "4", "::1" if addr == "six" else "0.0.0.0", 0)
                port = s.getsockname()[1]
                s.close()
            else:
                port = {"num": env.port(), "svc": SERVICES[case["svc"]][1], "default": 5668}[portform]
            name = NAMES[case["spelling"]]
            a = {"ip": ip, "map": spell("m", case["spelling"], ip), "six": spell("6", case["spelling"], ip), "star": "*"}.get(addr, name)
            if ":" in a and a[0] != "[":
                a = "[%s]" % a
            if bad == "foreign":
                a = "192.0.2.1"
            elif bad == "name":
                a = "nonexistent.invalid"
            spec = a + {"num": ":%d" % port, "svc": ":" + SERVICES[case["svc"]][0], "default": ""}[portform]
            if bad == "service":
                spec = a + ":no-such-service"
            conf = 'authorize "me" { password = "p"\n commands = ".*" }\n'
            args = []
            if case["how"] in ("conf",):
                conf = 'listen = "%s"\n' % spec + conf
            else:
                args = ["-b", spec]
                if case["how"] == "over":
                    conf = 'listen = "%s:%d"\n' % (alt(1), env.port()) + conf
            occupied = None
            if bad == "inuse":
                occupied = reserve("4", ip, port)
                occupied.listen(1)
                env.cleanups.append(occupied.close)
            extra = {"GAI": "%s=%s" % (name, ip if addr == "name" else "::ffff:" + ip)}
            srv = Server(env, conf, args, listen=None, start=False, preload=[shim("gai")], extra_env=extra)
            srv.start(wait=False)
            have = []

            def up():
                have[:] = sockets(srv.p.pid)
                return srv.p.poll() is not None or have
            if not wait_until(up):
                raise Violation("nsca-ng -b %s neither listens nor exits: %s" % (spec, srv.log()[-300:]))
            if not bad and srv.p.poll() is not None and addr in ("star", "six") and "in use" in srv.log():
                continue
            break
        what = "listen on %s (%s)" % (spec, case["how"])
        if bad:
            if have:
                wait_until(lambda: srv.p.poll() is not None, 1)
            if srv.p.poll() is None:
                raise Violation("%s: it runs, although that's impossible (%s), and listens on %r" % (what, bad, have))
            check_sanitizer(srv.d, "nsca-ng")
            log = srv.log()
            if srv.p.returncode in (0, 99) or srv.p.returncode < 0:
                raise Violation("%s: exited with status %d: %s" % (what, srv.p.returncode, log[-300:]))
            if spec not in log or "(null)" in log:
                raise Violation("%s: doesn't tell what failed: %s" % (what, log[-300:]))
            if bad == "inuse" and "in use" not in log or bad == "foreign" and "assign" not in log:
                raise Violation("%s: doesn't tell the cause: %s" % (what, log[-300:]))
            return ["server", "impossible: " + bad], True
        if srv.p.poll() is not None:
            check_sanitizer(srv.d, "nsca-ng")
            raise Violation("%s: nsca-ng did not start: %s" % (what, srv.log()[-300:]))
        want = {"ip": ip, "map": "::ffff:" + ip, "six": "::1", "star": "0.0.0.0", "name": ip, "namemap": "::ffff:" + ip}[addr]
        if have != [(want, port)]:
            raise Violation("%s: it listens on %r, not on %r" % (what, have, (want, port)))
        target = {"six": "::1"}.get(addr, ip)
        args = ["-H", target] + ([] if portform == "default" else ["-p", str(port)])
        c = Client(env, target, port, "identity = me\npassword = p\n", args, addr_args=False)
        c.feed_async(b"h\t0\tok\n")
        rc = c.wait()
        if rc != 0:
            raise Violation("%s: send_nsca %s failed: %s" % (what, " ".join(args), c.err()[-300:]))
        if not srv.nagios.wait(lambda n: n.cmds):
            raise Violation("%s: the command was not forwarded" % what)
        if not re.match(rb"^\[\d+\] PROCESS_HOST_CHECK_RESULT;h;0;ok\n$", srv.nagios.cmds[0]) or len(srv.nagios.cmds) != 1:
            raise Violation("%s: forwarded %r" % (what, srv.nagios.cmds))
        srv.stop()
        # the log tells where the command came from
        m = re.search(r"Queuing data from me@(\S+)[^\n]*: \[\d+\] PROCESS_HOST", srv.log())
        source = {"six": ["::1"], "map": ["::ffff:127.0.0.1", "::ffff:" + ip], "namemap": ["::ffff:127.0.0.1", "::ffff:" + ip]}.get(addr, ["127.0.0.1", ip])
        if not m or m.group(1) not in source:
            raise Violation("%s: the log doesn't tell that the command came from %s: %s" % (what, source[0], srv.log()[-300:]))
        return ["server", addr, "port " + portform, case["how"]], addr != "ip" or portform != "num"


def sockets(pid):
    """[(address, port)] this process listens on."""
    ino = set()
    try:
        for x in os.listdir("/proc/%d/fd" % pid):
            try:
                l = os.readlink("/proc/%d/fd/%s" % (pid, x))
            except OSError:
                continue
            if l.startswith("socket:["):
                ino.add(l[8:-1])
    except OSError:
        return []
    out = []
    for f, fam in (("/proc/net/tcp", socket.AF_INET), ("/proc/net/tcp6", socket.AF_INET6)):
        try:
            with open(f) as h:
                rows = [l.split() for l in h]
        except OSError:
            continue
        for w in rows:
            if len(w) > 9 and w[3] == "0A" and w[9] in ino:
                a, p = w[1].split(":")
                b = b"".join(struct.pack("=I", int(a[i:i + 8], 16)) for i in range(0, len(a), 8))
                out.append((socket.inet_ntop(fam, b), int(p, 16)))
    return out


check = C29()
