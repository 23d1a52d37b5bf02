"""C15: reload, PID file, termination: histories of one service."""
from hypothesis import strategies as st
from ..harness import *
from ..run import Check

OPS = ["reload", "reload", "reload", "reload", "second", "second", "kill", "stop", "race"]
STALE = ["", "12345678", "1", "@self", "garbage\n", "99999999999999999999\n", "x" * 100, "-1", "4711\n"]


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["fg", "fg", "fg", "daemon"]))
    n = draw(st.one_of(st.integers(1, 4), st.integers(1, 8)))
    ops = []
    for _ in range(n):
        o = draw(st.sampled_from(OPS))
        ops.append([o, dict(pw=draw(st.sampled_from(["p", "other", "x y"])), pat=draw(st.sampled_from(["A.*", "B.*", ".*"])),
                            limit=draw(st.sampled_from([0, 100, 16384])), pid=draw(st.integers(0, 2)) if draw(st.integers(0, 2)) == 1 else None,
                            move=draw(st.integers(0, 3)) == 1, sig=draw(st.sampled_from(["TERM", "INT"])),
                            stale=draw(st.sampled_from([None] + STALE)))])
    return dict(mode=mode, ops=ops, sessions=draw(st.lists(st.sampled_from(["idle", "moin", "push", "raw", "part"]), max_size=3)),
                pidopt=draw(st.sampled_from(["cfg", "cfg", "cli", None])), listen=draw(st.sampled_from(["cfg", "cli"])),
                stale=draw(st.sampled_from([None] + STALE)), include=draw(st.booleans()), user=draw(st.integers(0, 4)) == 2,
                end=draw(st.sampled_from(["TERM", "INT", "TERM", "noexec", "badconf"])))


class Svc:
    """The service: configuration, process, and what's known about it."""

    def __init__(self, env, case):
        self.env, self.case = env, case
        self.d = env.dir()
        self.gen = 0
        self.ip = env.ip()
        self.port = env.port()
        self.pidn = 0
        self.cfg = dict(pw="p", pat=".*", limit=0)
        self.fifo, self.spool = self.d + "/cmd", self.d + "/spool"
        os.mkdir(self.spool)
        self.rundir = self.d + "/run"
        os.mkdir(self.rundir)
        if case["user"]:
            os.chown(self.spool, 65534, 65534)
            os.chown(self.rundir, 65534, 65534)
        os.mkfifo(self.fifo)
        os.chmod(self.fifo, 0o622)
        self.nag = Nagios(self.fifo, self.spool).open()
        env.cleanups.append(self.nag.close)
        env.cleanups.append(self.reap)
        self.exe = self.d + "/nsca-ng"
        os.link(os.path.join(build.core("san"), "nsca-ng"), self.exe) if os.stat(build.BUILD).st_dev == os.stat(self.d).st_dev \
            else shutil.copy2(os.path.join(build.core("san"), "nsca-ng"), self.exe)
        self.err = self.d + "/err"
        self.p = None
        self.pid = None
        self.n = 0
        self.write()

    def pidfile(self):
        c = self.case["pidopt"]
        return None if c is None else self.rundir + ("/cli.pid" if c == "cli" else "/pid%d" % self.pidn)

    def write(self, bad=False):
        t = "temp_directory = %s\ncommand_file = %s\nmax_command_size = %d\n" % (cq(self.spool), cq(self.fifo), self.cfg["limit"])
        t += "log_level = 2\n"
        if self.case["user"]:
            t += 'user = "nobody"\n'
        if self.case["pidopt"] == "cfg":
            t += "pid_file = %s\n" % cq(self.pidfile())
        if self.case["listen"] == "cfg":
            t += 'listen = "%s:%d"\n' % (self.ip, self.port)
        a = 'authorize "gen-%d" {\n password = "g"\n commands = ".*"\n}\n' % self.gen
        a += 'authorize "client" {\n password = %s\n commands = %s\n}\n' % (cq(self.cfg["pw"]), cq(self.cfg["pat"]))
        if bad:
            a += "nonsense {\n"
        if self.case["include"]:
            os.makedirs(self.d + "/conf.d", exist_ok=True)
            for f in os.listdir(self.d + "/conf.d"):
                os.unlink(self.d + "/conf.d/" + f)
            with open(self.d + "/conf.d/gen%d.cfg" % self.gen, "w") as f:
                f.write(a)
            t += "include(%s)\n" % cq(self.d + "/conf.d")
        else:
            t += a
        with open(self.d + "/n.cfg", "w") as f:
            f.write(t)

    def argv(self, port=None, fg=None):
        a = [self.exe, "-c", self.d + "/n.cfg"]
        if self.case["mode"] == "fg" if fg is None else fg:
            a.insert(1, "-F")
        if self.case["listen"] == "cli" or port:
            a += ["-b", "%s:%d" % (self.ip, port or self.port)]
        if self.case["pidopt"] == "cli":
            a += ["-P", self.pidfile()]
        return a

    def spawn(self, port=None):
        e = {"PATH": os.environ["PATH"], "HOME": "/root", "LC_ALL": "C"}
        e["ASAN_OPTIONS"] = SAN_ENV["ASAN_OPTIONS"].split(":log_path")[0]
        e["UBSAN_OPTIONS"] = "print_stacktrace=1"
        with open(self.err, "ab") as f:
            return self.env.track(subprocess.Popen(self.argv(port), stdin=subprocess.DEVNULL, stdout=f, stderr=f, env=e, cwd=self.d,
                                                   start_new_session=True))

    def pids(self):
        """Processes of this service."""
        out = []
        for x in os.listdir("/proc"):
            if x.isdigit():
                try:
                    with open("/proc/%s/cmdline" % x, "rb") as f:
                        c = f.read().split(b"\0")[0]
                    with open("/proc/%s/stat" % x) as f:
                        st_ = f.read().rsplit(")", 1)[1].split()[0]
                except OSError:
                    continue
                if c == self.exe.encode() and st_ != "Z":
                    out.append(int(x))
        return out

    def reap(self):
        for p in self.pids():
            try:
                os.kill(p, 9)
            except OSError:
                pass

    def log(self):
        with open(self.err, errors="replace") as f:
            l = f.read()
        if "Sanitizer" in l or "runtime error" in l:
            raise Violation("sanitizer report: " + san_summary(l))
        return l[-600:]

    def content(self):
        try:
            with open(self.pidfile()) as f:
                return f.read()
        except OSError:
            return None

    def start(self):
        self.p = self.spawn()
        if self.case["mode"] == "daemon":
            try:
                rc = self.p.wait(TIMEOUT)
            except subprocess.TimeoutExpired:
                raise Violation("nsca-ng didn't daemonize")
            if rc != 0:
                raise Violation("nsca-ng did not start (status %d): %s" % (rc, self.log()))
        self.await_ready("start")

    def await_ready(self, what):
        fg = self.case["mode"] == "fg"

        def up():
            if fg and self.p.poll() is not None:
                return True
            try:
                self.conn("gen-%d" % self.gen, "g").free()
                return True
            except PeerGone:
                return False
        if not wait_until(up) or (fg and self.p.poll() is not None):
            raise Violation("not serving according to the configuration after %s (status %s): %s" % (what, self.p.poll(), self.log()))
        if fg:
            self.pid = self.p.pid
        else:
            old = self.pid

            def one():
                x = self.pids()
                return len(x) == 1 and x[0] != (old if what == "start" else None)
            if not wait_until(one):
                raise Violation("processes of the daemon: %r" % self.pids())
            self.pid = self.pids()[0]

    def conn(self, i, pw):
        c = Conn.client(self.ip, self.port, i, pw)
        self.env.cleanups.append(c.free)
        return c

    def ended(self):
        if self.case["mode"] == "fg":
            return self.p.poll() is not None
        return self.pid not in self.pids()

    def verify(self):
        """The one instance serves according to its configuration."""
        if self.pidfile():
            c = wait_until(lambda: self.content() == str(self.pid) and "y")
            if c != "y":
                raise Violation("PID file contains %r instead of %d" % (self.content(), self.pid))
        for f in os.listdir(self.rundir):
            if f not in self.stale and self.rundir + "/" + f != self.pidfile():
                raise Violation("stale PID file %s" % f)
        for pw in ("p", "other", "x y"):
            try:
                c = self.conn("client", pw)
            except PeerGone:
                if pw == self.cfg["pw"]:
                    raise Violation("client not let in with the configured password %r" % pw)
                continue
            if pw != self.cfg["pw"]:
                raise Violation("client let in with the wrong password %r" % pw)
            s = Session(c)
            for w in "ABC":
                self.n += 1
                line = b"[%d] %s" % (self.n, w.encode()) + b"x\n"
                ok = s.submit(line)
                if ok != (re.fullmatch(self.cfg["pat"], w + "x") is not None):
                    raise Violation("%r %s with pattern %r" % (line, "accepted" if ok else "refused", self.cfg["pat"]))
                if ok and not self.nag.wait_for(line):
                    raise Violation("acknowledged command not delivered")
            if self.cfg["limit"]:
                if s.req("PUSH %d" % (self.cfg["limit"] + 1))[:4] != b"FAIL":
                    raise Violation("max_command_size %d not in effect" % self.cfg["limit"])
            c.free()
        if self.gen:
            try:
                self.conn("gen-%d" % (self.gen - 1), "g")
            except PeerGone:
                pass
            else:
                raise Violation("client of the previous configuration let in")
        self.log()


class C15(Check):
    rule = ("Histories of 1-8 operations (reload with a changed configuration and open sessions, start of a second instance, "
            "simultaneous starts, kill -9 and restart, termination and restart, stale PID files) on a foreground or daemonized "
            "server, with the PID file given by configuration, option, or not at all.  Non-trivial if the history contains a "
            "reload, a second start, or a take-over.")
    assumptions = ["the next signal is sent once the previous reload is complete",
                   "with a broken configuration or a missing executable, a reload may end the server, but only in an orderly fashion"]
    cases = dict(quick=800, thorough=20000)
    budget = dict(quick=180, thorough=3000)

    def strategy(self, tier):
        return cases()

    O = dict(pw="other", pat="A.*", limit=100, pid=None, move=False, sig="TERM", stale=None)
    examples = [
        dict(mode="fg", ops=[["reload", dict(O, pid=2)]] * 3, sessions=["idle", "push"], pidopt="cfg", listen="cfg", stale=None,
             include=True, user=True, end="TERM"),
        dict(mode="daemon", ops=[["reload", O], ["second", O]], sessions=[], pidopt="cfg", listen="cli", stale="4711\n",
             include=True, user=False, end="INT"),
        dict(mode="fg", ops=[["reload", O]], sessions=[], pidopt="cfg", listen="cli", stale=None, include=False, user=False,
             end="noexec"),
        dict(mode="fg", ops=[["race", O], ["second", O]], sessions=[], pidopt="cli", listen="cli", stale=None, include=False,
             user=False, end="badconf"),
    ]

    def run(self, env, case):
        v = Svc(env, case)
        v.stale = set()
        try:
            return self.history(env, case, v)
        except PeerGone as e:
            v.log()
            raise Violation("unexpected end of the conversation: %s; %s" % (e, v.log()))

    def stale(self, v, s):
        if v.pidfile() and s is not None and not os.path.exists(v.pidfile()):
            with open(v.pidfile(), "w") as f:
                f.write(s.replace("@self", str(os.getpid())))
            if v.case["user"]:
                os.chown(v.pidfile(), 65534, 65534)

    def sessions(self, v, kinds):
        out = []
        for k in kinds:
            if k == "raw":
                s = socket.create_connection((v.ip, v.port))
                v.env.cleanups.append(s.close)
                out.append(s)
                continue
            c = v.conn("gen-%d" % v.gen, "g")
            if k != "idle":
                s = Session(c)
                if k == "push":
                    s.req("PUSH 50")
                    c.send(b"[1] incomplete")
                elif k == "part":
                    c.send(b"NO")
            out.append(c)
        return out

    def gone(self, v, ss):
        for s in ss:
            if isinstance(s, socket.socket):
                s.settimeout(TIMEOUT)
                try:
                    while s.recv(4096):
                        pass
                except socket.timeout:
                    raise Violation("connection still open after a restart")
                except OSError:
                    pass
            elif s.ending()[0] == "timeout":
                raise Violation("session still open after a restart")

    def end(self, v, sig):
        os.kill(v.pid, getattr(signal, "SIG" + sig))
        if not wait_until(v.ended):
            raise Violation("SIG%s did not end the server" % sig)
        v.log()
        if v.case["mode"] == "fg" and v.p.returncode != 0:
            raise Violation("status %d on SIG%s: %s" % (v.p.returncode, sig, v.log()))
        if v.pidfile() and os.path.exists(v.pidfile()):
            raise Violation("PID file left behind after SIG%s" % sig)

    def history(self, env, case, v):
        labels = set()
        self.stale(v, case["stale"])
        v.start()
        v.verify()
        fds = None
        nontrivial = False
        for op, a in case["ops"]:
            labels.add(op)
            ss = self.sessions(v, case["sessions"])
            if op == "reload":
                nontrivial = True
                pid = v.pid
                v.gen += 1
                v.cfg = dict(pw=a["pw"], pat=a["pat"], limit=a["limit"])
                if a["move"] and case["listen"] == "cfg":
                    v.port = env.port()
                    labels.add("new address")
                if a["pid"] is not None and case["pidopt"] == "cfg":
                    v.pidn = a["pid"]
                v.write()
                os.kill(v.pid, signal.SIGHUP)
                v.await_ready("SIGHUP")
                if case["mode"] == "fg":
                    if v.p.poll() is not None or v.pid != pid:
                        raise Violation("the process did not survive SIGHUP")
                    n = len(os.listdir("/proc/%d/fd" % v.pid)) if not case["user"] else 0
                    if fds is not None and n > fds + 2:
                        raise Violation("descriptors leaked by reloading: %d, then %d" % (fds, n))
                    fds = n if fds is None else fds
                self.gone(v, ss)
            elif op == "second":
                if not v.pidfile():
                    continue
                nontrivial = True
                before = v.content()
                p = v.spawn(port=env.port())
                try:
                    rc = p.wait(TIMEOUT)
                except subprocess.TimeoutExpired:
                    raise Violation("a second instance runs with the same PID file")
                v.log()
                if rc <= 0 or rc == 99 or (case["mode"] == "daemon" and wait_until(lambda: v.pids() == [v.pid], 2) is False):
                    raise Violation("second instance: status %d, processes %r; %s" % (rc, v.pids(), v.log()))
                if v.content() != before:
                    raise Violation("second instance changed the PID file from %r to %r" % (before, v.content()))
                for s in ss:
                    if not isinstance(s, socket.socket) and s.ending(0.02)[0] != "timeout":
                        raise Violation("second instance disturbed a session of the first one")
            elif op == "kill":
                os.kill(v.pid, 9)
                if not wait_until(v.ended):
                    raise RuntimeError("cannot kill")
                if case["mode"] == "fg":
                    v.p.wait()
                nontrivial = nontrivial or v.pidfile() is not None
                self.stale(v, a["stale"])
                v.start()
            elif op == "stop":
                self.end(v, a["sig"])
                self.stale(v, a["stale"])
                v.start()
                self.gone(v, ss)
            elif op == "race" and case["mode"] == "fg":
                if not v.pidfile() or case["listen"] != "cli":
                    continue
                nontrivial = True
                self.end(v, a["sig"])
                self.stale(v, a["stale"])
                ports = [env.port() for _ in range(4)]
                ps = [v.spawn(port=x) for x in ports]

                def settled():
                    dead = [p for p in ps if p.poll() is not None]
                    if len(dead) == len(ps):
                        return True
                    up = [x for x in ports if listening(v.ip, x)]
                    return len(dead) >= len(ps) - 1 and len(up) == 1
                wait_until(settled)
                alive = [i for i, p in enumerate(ps) if p.poll() is None]
                if len(alive) != 1:
                    raise Violation("%d of 4 simultaneously started instances run; %s" % (len(alive), v.log()))
                v.p, v.port = ps[alive[0]], ports[alive[0]]
                v.await_ready("simultaneous starts")
            v.verify()
        ss = self.sessions(v, case["sessions"])
        if case["end"] == "noexec" and case["mode"] == "fg":
            labels.add("executable removed")
            os.unlink(v.exe)
            os.kill(v.pid, signal.SIGHUP)
            if not wait_until(v.ended):
                raise Violation("SIGHUP without an executable did not end the server")
            v.log()
            if v.p.returncode <= 0 or v.p.returncode > 64:
                raise Violation("status %d after a failed restart: %s" % (v.p.returncode, v.log()))
            if v.pidfile() and os.path.exists(v.pidfile()):
                raise Violation("PID file left behind after a failed restart")
        elif case["end"] == "badconf":
            labels.add("broken configuration")
            v.gen += 1
            v.write(bad=True)
            os.kill(v.pid, signal.SIGHUP)
            wait_until(v.ended, 3)
            v.log()
            if v.ended():
                if case["mode"] == "fg" and not 0 < v.p.returncode < 64:
                    raise Violation("status %d after a reload of a broken configuration" % v.p.returncode)
                if v.pidfile() and os.path.exists(v.pidfile()):
                    raise Violation("PID file left behind after a reload of a broken configuration")
                v.write()
                v.start()
                v.verify()
                self.end(v, "TERM")
        else:
            self.end(v, case["end"] if case["end"] != "noexec" else "TERM")
            self.gone(v, ss)
        labels.add(case["mode"])
        labels.add("PID file: %s" % case["pidopt"])
        if case["user"]:
            labels.add("unprivileged")
        return sorted(labels), nontrivial


check = C15()
