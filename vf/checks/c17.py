"""C17: systemd: socket activation, readiness, watchdog, across reloads."""
from hypothesis import strategies as st
from ..harness import *
from ..history import shim
from ..run import Check


@st.composite
def cases(draw):
    act = draw(st.sampled_from(["self", "self", "self", "other", None]))
    ops = draw(st.lists(st.sampled_from(["reload", "reload", "session", "session", "watch", "parallel", "queued"]), min_size=1, max_size=6))
    return dict(act=act, ops=ops, fg=draw(st.booleans()) or act != "self", listen=draw(st.sampled_from(["default", "cfg", "cli", "both"])),
                notify=draw(st.sampled_from(["path", "path", "abstract", None])),
                wd=draw(st.sampled_from([None, None, 400000, 600000, 1000000, 1500000, 30000000, "0", "", "junk", "-5"])),
                fail=draw(st.sampled_from([None] * 8 + ["conf", "pid", "tmp", "addr", "many"])), pid=draw(st.booleans()),
                slow=draw(st.sampled_from([0, 0, 30])), syslog=draw(st.sampled_from([False, False, True])))


class Notify:
    def __init__(self, env, d, kind):
        self.s = socket.socket(socket.AF_UNIX, socket.SOCK_DGRAM)
        if kind == "abstract":
            self.name = "@vf-%d-%d" % (os.getpid(), env.n)
            self.s.bind("\0" + self.name[1:])
        else:
            self.name = d + "/notify"
            self.s.bind(self.name)
        self.s.setblocking(False)
        env.cleanups.append(self.s.close)
        self.got = []        # (time, message)
        self.lock = threading.Lock()
        self.on_ready = None
        self.problem = None
        self.stop = False
        self.t = threading.Thread(target=self.loop, daemon=True)
        env.cleanups.append(self.halt)
        self.t.start()

    def halt(self):
        self.stop = True
        self.t.join(2)

    def loop(self):
        while not self.stop:
            try:
                r = select.select([self.s], [], [], 0.05)[0]
                if not r:
                    continue
                m = self.s.recv(4096)
            except (OSError, ValueError):
                return
            now = time.monotonic()
            for l in m.split(b"\n"):
                if l == b"READY=1" and self.on_ready:
                    p = self.on_ready()
                    if p and not self.problem:
                        self.problem = p
                with self.lock:
                    self.got.append((now, l))

    def count(self, m):
        with self.lock:
            return sum(x == m for _, x in self.got)

    def times(self, m):
        with self.lock:
            return [t for t, x in self.got if x == m]


class C17(Check):
    rule = ("The server is started with a listening socket as systemd passes it (or with LISTEN_PID naming another process, or "
            "without), any listen setting, a notification socket, and a watchdog interval; then random reloads, sessions, parallel "
            "connections, connections queued during a reload, and watchdog measurements; or with an error preventing the start.  "
            "Non-trivial if the socket was passed, or a notification was due.")
    assumptions = ["the socket is passed in non-blocking mode, as configured in the unit file provided",
                   "scheduling delays of the sandbox stay below half a watchdog interval per 2.5 intervals"]
    cases = dict(quick=500, thorough=15000)
    budget = dict(quick=180, thorough=3000)

    def strategy(self, tier):
        return cases()

    examples = [dict(act="self", ops=["session", "reload", "session", "reload", "queued", "parallel", "watch"], fg=False,
                     listen="both", notify="path", wd=600000, fail=None, pid=True, slow=0, syslog=False)]

    def run(self, env, case):
        d = env.dir()
        act = case["act"]
        active = act == "self"
        ip, port = env.ip(), env.port()
        cport, bport = env.port(), env.port()
        ls, pass_fd = [], []
        if act is not None:
            for i in range(2 if case["fail"] == "many" else 1):
                s = socket.socket()
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind((ip, port if i == 0 else env.port()))
                s.listen(128)
                s.setblocking(False)
                ls.append(s)
                env.cleanups.append(s.close)
        fifo, spool = d + "/cmd", d + "/spool"
        os.mkfifo(fifo)
        os.mkdir(spool)
        nag = Nagios(fifo, spool).open()
        env.cleanups.append(nag.close)
        listen = case["listen"]
        if not active and listen == "default":
            listen = "cli"              # don't occupy the default port
        pidf = d + "/pid"

        def write(gen, bad=False):
            t = "command_file = %s\ntemp_directory = %s\n" % (cq(fifo), cq(spool if case["fail"] != "tmp" else d + "/none"))
            if listen in ("cfg", "both"):
                t += 'listen = "%s:%d"\n' % (ip, cport)
            if case["pid"]:
                t += "pid_file = %s\n" % cq(pidf)
            t += 'authorize "gen-%d" {\n password = "p"\n commands = ".*"\n}\n' % gen
            if bad:
                t += "junk\n"
            with open(d + "/n.cfg", "w") as f:
                f.write(t)
        write(0, case["fail"] == "conf")
        if not active:
            port = cport if listen == "cfg" else bport
        cmd = [os.path.join(build.core("san"), "nsca-ng"), "-c", d + "/n.cfg"]
        if case["fg"]:
            cmd.append("-F")
        if case["syslog"]:
            cmd.append("-s")
        if listen in ("cli", "both"):
            cmd += ["-b", "%s:%d" % (ip, bport)]
        if act is not None:
            cmd = [os.path.join(build.native(), "activate"), ",".join(str(s.fileno()) for s in ls), act if active else "1"] + cmd
        e = {"PATH": os.environ["PATH"], "HOME": "/root", "LC_ALL": "C"}
        e.update(san_env(d))
        if case["slow"]:
            e["LD_PRELOAD"] = shim("slow")
            e["SLOW_MS"] = str(case["slow"])
        n = None
        if case["notify"]:
            n = Notify(env, d, case["notify"])
            e["NOTIFY_SOCKET"] = n.name
        if case["wd"] is not None:
            e["WATCHDOG_USEC"] = str(case["wd"])
        blockers = []
        if case["fail"] == "pid":
            import fcntl
            f = open(pidf, "w")
            f.write("1")
            f.flush()
            fcntl.flock(f, fcntl.LOCK_EX)
            blockers.append(f)
            env.cleanups.append(f.close)
        if case["fail"] == "addr" and not active:
            s = socket.socket()
            s.bind((ip, port))
            s.listen(1)
            env.cleanups.append(s.close)
        err = open(d + "/err", "wb")
        p = env.track(subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=e, cwd=d,
                                       pass_fds=[s.fileno() for s in ls], start_new_session=True))
        err.close()
        for s in ls:
            s.close()
        what = "%r" % {k: case[k] for k in ("act", "fg", "listen", "notify", "wd", "pid")}

        def log():
            check_sanitizer(d, "nsca-ng")
            with open(d + "/err", errors="replace") as f:
                return f.read()[-500:]

        def dead():
            return p.poll() is not None
        fail = case["fail"]
        if fail and not (fail == "pid" and not case["pid"]) and not (fail == "addr" and active) and not (fail == "many" and not active):
            if not wait_until(dead):
                raise Violation("started although that should be impossible (%s); %s" % (fail, what))
            time.sleep(0.01)
            log()
            if p.returncode <= 0 or p.returncode == 99:
                raise Violation("status %d when unable to start (%s); %s" % (p.returncode, fail, log()))
            if n and n.count(b"READY=1"):
                raise Violation("READY=1 sent although unable to serve (%s); %s" % (fail, what))
            return ["start failed: " + fail], n is not None or active

        def conn(gen):
            c = Conn.client(ip, port, "gen-%d" % gen, "p")
            env.cleanups.append(c.free)
            return c
        gen = 0
        if n:
            def ready_state():
                if not listening(ip, port):
                    return "READY=1 sent while not listening"
                if case["pid"]:
                    with open(pidf) as f:
                        if f.read() != str(p.pid):
                            return "READY=1 sent before the PID file was written"
            if not active:
                n.on_ready = ready_state

        def ready():
            if dead():
                return True
            try:
                conn(gen).free()
                return True
            except PeerGone:
                return False
        labels = {"passed socket" if active else "no passed socket"}

        def await_ready(count, w):
            # with an inherited socket a client may connect at any time
            if not wait_until(ready) or dead():
                raise Violation("not serving on %s:%d after %s (status %s): %s; %s" % (ip, port, w, p.poll(), log(), what))
            if n:
                if not wait_until(lambda: n.count(b"READY=1") >= count):
                    raise Violation("no READY=1 after %s; %s" % (w, what))
                if n.problem:
                    raise Violation("%s (%s); %s" % (n.problem, w, what))
        await_ready(1, "start")
        readies = 1
        seq = [0]

        def session(c, k=2):
            s = Session(c)
            for _ in range(k):
                seq[0] += 1
                l = b"[%d] X%s\n" % (seq[0], b"y" * (seq[0] % 3))
                if not s.submit(l):
                    raise Violation("command refused")
                if not nag.wait_for(l):
                    raise Violation("command not delivered")
            return s
        wd = case["wd"] if isinstance(case["wd"], int) else None
        for op in case["ops"]:
            if op == "reload":
                c = conn(gen)
                gen += 1
                readies += 1
                write(gen)
                os.kill(p.pid, signal.SIGHUP)
                await_ready(readies, "SIGHUP")
                labels.add("reload")
            elif op == "queued":
                if not active:
                    continue
                # the connection is established although no process accepts it yet
                gen += 1
                readies += 1
                write(gen)
                os.kill(p.pid, signal.SIGHUP)
                deadline = time.monotonic() + TIMEOUT
                while n is not None and n.count(b"READY=1") < readies and time.monotonic() < deadline:
                    try:
                        s = socket.create_connection((ip, port), TIMEOUT)
                    except OSError as x:
                        raise Violation("connection refused during a reload: %s; %s" % (x, what))
                    s.close()
                    time.sleep(0.005)
                await_ready(readies, "SIGHUP")
                labels.add("connections during reload")
            elif op == "session":
                session(conn(gen)).quit()
            elif op == "parallel":
                cs = [conn(gen) for _ in range(8)]
                for c in reversed(cs):
                    session(c, 1)
                for c in cs:
                    c.free()
            elif op == "watch" and n and wd and wd <= 1500000 and "watchdog" not in labels:
                iv = wd / 1e6
                t0 = time.monotonic()
                c = conn(gen)
                s = session(c, 1)
                while time.monotonic() < t0 + 2.5 * iv:
                    s.submit(b"[1] load\n")
                    nag.pump()
                    time.sleep(0.02)
                ts = [t for t in n.times(b"WATCHDOG=1") if t > t0]
                if len(ts) < 4:
                    raise Violation("%d WATCHDOG=1 messages within 2.5 intervals of %.1f s; %s" % (len(ts), iv, what))
                labels.add("watchdog")
                c.free()
        if dead():
            raise Violation("terminated: %s; %s" % (log(), what))
        # addresses to be ignored
        for x in {cport, bport} - {port}:
            if listening(ip, x):
                raise Violation("listening on the configured address although %s; %s" % (
                    "a socket was passed" if active else "-b overrides it", what))
        if active:
            if listening("0.0.0.0", 5668):
                with open("/proc/net/tcp") as f:
                    inodes = {l.split()[9] for l in f if len(l.split()) > 9 and l.split()[1].endswith(":%04X" % 5668)}
                for x in os.listdir("/proc/%d/fd" % p.pid):
                    try:
                        t = os.readlink("/proc/%d/fd/%s" % (p.pid, x))
                    except OSError:
                        continue
                    if t.startswith("socket:[") and t[8:-1] in inodes:
                        raise Violation("listening on the default port although a socket was passed; " + what)
        if n and wd is None and n.count(b"WATCHDOG=1"):
            raise Violation("WATCHDOG=1 sent although no watchdog is configured; " + what)
        nt = active or n is not None
        p.send_signal(signal.SIGTERM)
        try:
            rc = p.wait(TIMEOUT)
        except subprocess.TimeoutExpired:
            raise Violation("not terminated by SIGTERM")
        log()
        if rc != 0:
            raise Violation("status %d on SIGTERM: %s" % (rc, log()))
        if n:
            labels.add("notification")
            k = n.count(b"READY=1")
            if k != readies:
                raise Violation("%d READY=1 messages for %d starts; %s" % (k, readies, what))
        return sorted(labels), nt


check = C17()
