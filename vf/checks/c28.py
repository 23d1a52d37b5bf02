"""C28: the command lines of both programs."""
from hypothesis import strategies as st
from ..harness import *
from ..nscad import Nscad, CONF
from ..run import Check
from ..history import shim

SHIM = "libsyslog.so"
BADOPT = ["-x", "-Z", "-9", "-?", "--bogus", "--config=x", "--help", "--version", "-=", "-:"]
STRAY = ["file", "-", "x y", "", "host\t0\tok"]


def join(args, r):
    """args: [letter, value or None] in order -> argv, spelled according to the numbers r."""
    out, r = [], list(r) or [0]
    k = 0

    def nxt(n):
        nonlocal k
        k += 1
        return (r[k % len(r)] + k // len(r)) % n
    cluster = None
    for l, v in args:
        if v is None:
            if cluster is not None and nxt(2):
                cluster += l
            else:
                if cluster is not None:
                    out.append("-" + cluster)
                cluster = l
        else:
            head = "-" + l
            if cluster is not None:
                if nxt(2):
                    head = "-" + cluster + l
                else:
                    out.append("-" + cluster)
                cluster = None
            if v != "" and nxt(2):
                out.append(head + v)
            else:
                out += [head, v]
    if cluster is not None:
        out.append("-" + cluster)
    return out


@st.composite
def cases(draw):
    prog = draw(st.sampled_from(["client", "client", "server"]))
    kind = draw(st.sampled_from(["ok"] * 6 + ["info", "bad", "bad"]))
    opts = {}
    fl = lambda l: draw(st.booleans()) and opts.setdefault(l, None)
    if prog == "client":
        for l in "CtSs":
            fl(l)
        opts["v"] = draw(st.integers(0, 4))
        if draw(st.booleans()):
            opts["d"] = draw(st.sampled_from([",", ";", "|", "\\t", "0x3a", "054", "\\v", " ", "-"]))
        if draw(st.booleans()):
            opts["e"] = draw(st.sampled_from(["%", "\\n", "0x17", "0043", "\\f", "~"]))
        if draw(st.booleans()):
            opts["o"] = draw(st.sampled_from(["0", "60", "15"]))
        if draw(st.integers(0, 3)) == 2:
            opts["D"] = draw(st.sampled_from(["0", "0", "0", "1", "2"]))
        opts["H"] = opts["p"] = True
        if draw(st.integers(0, 4)) == 2:
            del opts["H"], opts["p"]
    else:
        for l in "SsP":
            fl(l)
        if draw(st.booleans()):
            opts["l"] = draw(st.sampled_from("012345"))
        for l in "Cb":
            if draw(st.integers(0, 3)):
                opts[l] = True
    return dict(prog=prog, kind=kind, opts=opts, order=draw(st.permutations(range(14))), spell=draw(st.lists(st.integers(0, 9), min_size=1, max_size=8)),
                dup=draw(st.lists(st.sampled_from("cHpodeDbClP"), max_size=3)), dashes=draw(st.booleans()), dirconf=draw(st.booleans()),
                err=draw(st.sampled_from(["opt", "opt", "missing", "stray", "stray", "neg"])), badopt=draw(st.sampled_from(BADOPT)),
                nap=draw(st.sampled_from([0, 0, 0, 1, 2, 3, 100000000])),
                stray=draw(st.sampled_from(STRAY)), at=draw(st.integers(0, 12)), which=draw(st.integers(0, 20)),
                info=draw(st.sampled_from(["-h", "-V", "--help", "--version", "-h", "-V"])))


class C28(Check):
    rule = ("send_nsca or nsca-ng is started with generated options: any subset, order, clustering, attached or separate values, "
            "repetitions (the last one counts), `--'; or with an unknown option, a missing value, a stray or negative argument; or with "
            "-h, -V, --help, --version.  The effects observed (server contacted, commands, delay, listening address, command file, PID file, messages on "
            "stderr and to syslog) must be those of the options, an error must be reported with status > 0 "
            "before anything is contacted or opened, and information is printed to standard output with status 0.  Non-trivial if "
            "there are at least three options, or an error.")
    assumptions = ["values which aren't numbers, given to -o, -D, -l: not judged"]
    cases = dict(quick=1500, thorough=40000)
    budget = dict(quick=120, thorough=2000)
    shards = 16

    def strategy(self, tier):
        return cases()

    examples = [dict(prog=p, kind="info", opts={}, order=list(range(14)), spell=[0], dup=[], dashes=False, dirconf=False, err="opt", badopt="-x", stray="x",
                     at=0, which=0, info=i) for p in ("client", "server") for i in ("-h", "-V", "--help", "--version")] + \
        [dict(prog="client", kind="ok", opts=dict(H=True, p=True, v=0, **o), order=list(range(14)), spell=[1], dup=[], dashes=False, dirconf=False,
              err="opt", badopt="-x", stray="x", at=0, which=0, info="-h", nap=n) for o in ({}, dict(D="1")) for n in (1, 1, 1, 2, 2, 100000000)]

    def spoil(self, case, argv, valued):
        e = case["err"]
        if e == "neg" and case["prog"] == "client":
            return argv[:] + ["-" + "oD"[case["which"] % 2], "-" + str(1 + case["which"])]
        if e == "missing" or e == "neg":
            return argv + ["-" + valued[case["which"] % len(valued)]]
        if e == "stray":
            return argv + (["--"] if case["dashes"] else []) + [case["stray"]]
        o = case["badopt"]
        # before the others, since it mustn't become the value of an option
        if o in ("--help", "--version"):
            return [o] + (argv if argv else ["-F"])
        return [o] + argv if case["at"] % 2 else argv + [o]

    def info(self, env, case, path):
        """-h and -V"""
        d = env.dir()
        o = case["info"]
        a = [path] + [o]
        if o in ("-h", "-V") and case["prog"] == "client":
            a = [path] + ["-" + "CtSv"[:case["at"] % 5] + o[1]] if case["at"] % 5 else a
        e = {"PATH": os.environ["PATH"], "LC_ALL": "C"}
        e.update(san_env(d))
        p = subprocess.run(a, stdin=subprocess.DEVNULL, capture_output=True, env=e, cwd=d, timeout=TIMEOUT)
        check_sanitizer(d, case["prog"])
        if p.returncode != 0 or p.stderr:
            raise Violation("%s: status %d, message %r" % (a[1:], p.returncode, p.stderr[:200]))
        t = J(p.stdout)
        if o in ("-V", "--version"):
            if not re.match(r"^[^\n]*\d+\.\d+[^\n]*\n$", t):
                raise Violation("%s doesn't print the version: %r" % (a[1:], t[:200]))
        else:
            for l in "CcDdeHhopSsVv" if case["prog"] == "client" else "bCcFhlPSsV":
                if not re.search(r"-%s\b" % l, t):
                    raise Violation("the usage information lacks option -%s: %r" % (l, t[:1000]))
        return ["%s %s" % (case["prog"], o)], True

    def run(self, env, case):
        prog, opts, kind = case["prog"], dict(case["opts"]), case["kind"]
        path = os.path.join(build.core("san"), "send_nsca" if prog == "client" else "nsca-ng")
        if kind == "info":
            return self.info(env, case, path)
        return (self.client if prog == "client" else self.server)(env, case, opts, path)

    def args(self, case, real, wrong):
        """real: {letter: value}; -> argv with repetitions"""
        seq = []
        for l, v in real.items():
            if l == "v":
                seq += [["v", None]] * v
            else:
                seq.append([l, v])
        keys = case["order"]
        seq = [x for _, _, x in sorted((keys[i % 14] + i // 14, i, x) for i, x in enumerate(seq))]
        for l in case["dup"]:
            if l in real and l in wrong:
                i = next(i for i, x in enumerate(seq) if x[0] == l)
                seq.insert(case["at"] % (i + 1), [l, wrong[l]])
        return join(seq, case["spell"])

    def client(self, env, case, opts, path):
        n = Nscad(env)
        d = env.dir()
        conf = os.path.join(d, "conf")
        text = CONF
        if "H" not in opts:
            text += b'server = "%s"\nport = "%d"\n' % (n.ip.encode(), n.port)
        else:
            text += b'server = "127.0.0.254"\nport = "9"\n'
        nap = case.get("nap", 0)
        if nap and "D" in opts:
            opts["D"] = str(nap)
        if "D" in opts:
            text += b"delay = 3600\n"
        elif nap:
            text += b"delay = %d\n" % nap
        with open(conf, "wb") as f:
            f.write(text)
        real = {"c": conf}
        for l, v in opts.items():
            real[l] = n.ip if l == "H" else str(n.port) if l == "p" else v
        argv = self.args(case, real, dict(c="/nonexistent", H="127.0.0.253", p="7", o="1", d="x", e="y", D="3600"))
        if case["kind"] == "bad":
            argv = self.spoil(case, argv, "cDdeHop")
        elif case["dashes"]:
            argv.append("--")
        log = os.path.join(d, "syslog")
        e = {"PATH": os.environ["PATH"], "LC_ALL": "C", "TZ": "UTC", "SYSLOG_FILE": log,
             "LD_PRELOAD": os.path.join(build.native(), SHIM)}
        naps = os.path.join(d, "naps")
        if nap:
            e["LD_PRELOAD"] += " " + shim("nap")
            e["VF_NAPS"] = naps
        e.update(san_env(d))
        char = lambda s, dflt: dflt if s is None else chr(int(s, 0) if s.startswith("0x") else int(s, 8) if s.isdigit() else
                                                          {"\\t": 9, "\\v": 11, "\\n": 10, "\\f": 12}[s] if s[0] == "\\" else ord(s))
        dl, sp = char(opts.get("d"), "\t"), char(opts.get("e"), "\x17")
        if "C" in opts:
            data = "[1] FIRST\n[2] SECOND;x\n"
            want = ["[1] FIRST\n", "[2] SECOND;x\n"]
        else:
            data = dl.join(["h1", "0", "first"]) + sp + dl.join(["h2", "s2", "1", "second"]) + sp
            want = ["] PROCESS_HOST_CHECK_RESULT;h1;0;first\n", "] PROCESS_SERVICE_CHECK_RESULT;h2;s2;1;second\n"]
        t0 = time.monotonic()
        p = env.track(subprocess.Popen([path] + argv, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=d))
        try:
            out, err = p.communicate(data.encode(), TIMEOUT + 5)
        except subprocess.TimeoutExpired:
            if nap > 1000 and case["kind"] == "ok" and not os.path.exists(naps):
                return ["delay not recorded"], False  # waits in some other way
            raise Violation("send_nsca %s doesn't terminate" % argv)
        took = time.monotonic() - t0
        check_sanitizer(d, "send_nsca")
        rc, err = p.returncode, J(err)
        sys = b""
        if os.path.exists(log):
            with open(log, "rb") as f:
                sys = f.read()
        sys = J(sys)
        n.settle(1)
        if case["kind"] == "bad":
            if rc <= 0 or rc == 99:
                raise Violation("send_nsca %s: status %d" % (argv, rc))
            if n.talks:
                raise Violation("send_nsca %s contacts the server" % argv)
            if not err.strip() or out:
                raise Violation("send_nsca %s: stdout %r, stderr %r" % (argv, out[:100], err[:100]))
            return ["client bad " + case["err"]], True
        if rc != 0:
            raise Violation("send_nsca %s: status %d, %s%s" % (argv, rc, err[:300], sys[:300]))
        if len(n.talks) != 1 or n.talks[0].error:
            raise Violation("send_nsca %s: %d connections, %s" % (argv, len(n.talks), [t.error for t in n.talks]))
        got = [J(c) for c in n.talks[0].acked]
        if len(got) != len(want) or any(not g.endswith(w) for g, w in zip(got, want)):
            raise Violation("send_nsca %s submits %r instead of %r" % (argv, got, want))
        # where the messages go
        to_err = "S" in opts or "s" not in opts
        to_sys = "s" in opts
        v = opts.get("v", 0)
        for name, sink, there in (("stderr", err, to_err), ("syslog", sys, to_sys)):
            if not there and sink.replace("Ignoring -t option for backward compatibility", "").strip() and "-t" not in sink:
                raise Violation("send_nsca %s: unexpected messages to %s: %r" % (argv, name, sink[:200]))
            if there and (v >= 1) != ("FIRST" in sink if "C" in opts else "h1;0;first" in sink):
                raise Violation("send_nsca %s: submission %sreported to %s: %r" % (argv, "not " if v else "", name, sink[:300]))
            if there and (v >= 2) != ("PUSH" in sink):
                raise Violation("send_nsca %s: protocol messages %sreported to %s: %r" % (argv, "not " if v >= 2 else "", name, sink[:300]))
            if there and (v >= 3) != ("[DEBUG]" in sink):
                raise Violation("send_nsca %s: debugging messages %sreported to %s: %r" % (argv, "not " if v >= 3 else "", name, sink[:300]))
        labels = ["client ok"]
        if nap:
            total = 0
            if os.path.exists(naps):
                with open(naps) as f:
                    total = sum(map(int, f)) / 1e9
            if total > nap:
                raise Violation("send_nsca %s: delay of %.3f s where at most %d s are specified" % (argv, total, nap))
            if total + took < nap / 1e6:
                raise Violation("send_nsca %s: delay of at most %.3f s where up to %d s are specified" % (argv, total + took, nap))
            labels.append("delay recorded")
        elif "D" in opts:
            if took > int(opts["D"]) + 3:
                raise Violation("send_nsca %s took %.1f s" % (argv, took))
            labels.append("delay up to " + opts["D"])
        return labels, len(real) >= 4

    def server(self, env, case, opts, path):
        d = env.dir()
        ip, port = env.ip(), env.port()
        fifo, spool = os.path.join(d, "fifo"), os.path.join(d, "spool")
        os.mkdir(spool)
        os.mkfifo(fifo)
        other = os.path.join(d, "otherfifo")
        os.mkfifo(other)
        nag = Nagios(fifo, spool).open()
        env.cleanups.append(nag.close)
        rest = Nagios(other, spool).open()
        env.cleanups.append(rest.close)
        conf = os.path.join(d, "conf")
        text = 'temp_directory = "%s"\nauthorize "*" { password = "p" commands = "X.*" }\n' % spool
        text += 'command_file = "%s"\n' % (other if "C" in opts else fifo)
        text += 'listen = "%s:%d"\n' % (("127.0.0.252", 9) if "b" in opts else (ip, port))
        text += 'log_level = %d\n' % ((int(opts["l"]) + 3) % 6 if "l" in opts else 3)
        pidfile = os.path.join(d, "pid")
        if "P" in opts:
            text += 'pid_file = "%s"\n' % os.path.join(d, "wrongpid")
        if case["dirconf"]:
            os.mkdir(conf)
            os.mkdir(conf + "/sub")
            with open(conf + "/sub/a.cfg", "w") as f:
                f.write(text)
            with open(conf + "/ignored.txt", "w") as f:
                f.write("garbage\n")
        else:
            with open(conf, "w") as f:
                f.write(text)
        real = {"c": conf, "F": None}
        for l, v in opts.items():
            real[l] = {"C": fifo, "b": "%s:%d" % (ip, port), "P": pidfile}.get(l, v)
        argv = self.args(case, real, dict(c="/nonexistent", C=other, b="127.0.0.251:11", P=os.path.join(d, "dup"), l="0"))
        if case["kind"] == "bad":
            argv = self.spoil(case, argv, "bCclP")
        elif case["dashes"]:
            argv.append("--")
        log = os.path.join(d, "syslog")
        srv = Server(env, None, fifo=False, nagios=False, start=False, conf_path=conf, workdir=d, ip=ip, port=port,
                     extra_env={"SYSLOG_FILE": log}, preload=[os.path.join(build.native(), SHIM)])
        srv.argv = lambda: [path] + argv
        if case["kind"] == "bad":
            srv.start(wait=False)
            try:
                rc = srv.p.wait(TIMEOUT)
            except subprocess.TimeoutExpired:
                raise Violation("nsca-ng %s doesn't fail" % argv)
            check_sanitizer(d, "nsca-ng")
            if rc <= 0 or rc == 99 or not srv.log().strip():
                raise Violation("nsca-ng %s: status %d, message %r" % (argv, rc, srv.log()[:200]))
            if os.path.exists(pidfile):
                raise Violation("nsca-ng %s created the PID file" % argv)
            return ["server bad " + case["err"]], True
        srv.start()
        if "P" in opts:
            if not wait_until(lambda: os.path.exists(pidfile) and open(pidfile).read().strip(), 5):
                raise Violation("nsca-ng %s: no PID file" % argv)
            if open(pidfile).read().strip() != str(srv.p.pid):
                raise Violation("nsca-ng %s: PID file contains %r instead of %d" % (argv, open(pidfile).read(), srv.p.pid))
        for f in ("wrongpid", "dup"):
            if "P" in opts and os.path.exists(os.path.join(d, f)):
                raise Violation("nsca-ng %s: PID file %s was created" % (argv, f))
        s = Session(srv.connect("me", b"p"))
        if not s.submit(b"[1] XYZZY;1\n"):
            raise Violation("nsca-ng %s: command refused" % argv)
        s.quit()
        if not nag.wait_for(b"[1] XYZZY;1\n"):
            raise Violation("nsca-ng %s: command not delivered into %s" % (argv, fifo))
        rest.pump()
        if rest.cmds:
            raise Violation("nsca-ng %s: command delivered into %s" % (argv, other))
        srv.stop()
        sys = ""
        if os.path.exists(log):
            with open(log, "rb") as f:
                sys = J(f.read())
        err = srv.log()
        level = int(opts.get("l", 3))
        to_err = "S" in opts or "s" not in opts
        to_sys = "s" in opts or "S" in opts
        for name, sink, there in (("stderr", err, to_err), ("syslog", sys, to_sys)):
            # (start-up messages go to stderr in any case)
            if not there and ("XYZZY" in sink or "PUSH" in sink):
                raise Violation("nsca-ng %s: unexpected messages to %s: %r" % (argv, name, sink[:200]))
            if there and (level >= 3) != ("XYZZY" in sink):
                raise Violation("nsca-ng %s (level %d): submission %slogged to %s: %r" % (argv, level, "not " if level >= 3 else "", name, sink[:300]))
            if there and (level >= 4) != ("PUSH" in sink):
                raise Violation("nsca-ng %s (level %d): protocol %slogged to %s: %r" % (argv, level, "not " if level >= 4 else "", name, sink[:300]))
            if there and (level >= 5) != ("[DEBUG]" in sink):
                raise Violation("nsca-ng %s (level %d): debugging messages %slogged to %s: %r" % (argv, level, "not " if level >= 5 else "", name, sink[:300]))
        return ["server ok"], len(real) >= 4


check = C28()
