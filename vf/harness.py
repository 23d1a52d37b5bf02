"""Processes under test, their environment, and the monitoring side (FIFO)."""
import errno, glob, json, os, re, select, shutil, signal, socket, stat, subprocess, sys, tempfile, threading, time
from . import build
from .peer import Conn, PeerGone, TIMEOUT


class Violation(Exception):
    """The property is broken."""


def J(b):
    """bytes -> JSON-able string."""
    return b.decode("latin-1")


def B(s):
    return s if isinstance(s, bytes) else s.encode("latin-1")


class Env:
    """Resources of one worker process."""
    counter = 0

    def __init__(self, shard=0):
        self.shard = shard
        base = "/tmp"
        self.tmp = tempfile.mkdtemp(prefix="vf-", dir=base)
        os.chmod(self.tmp, 0o755)
        self.procs = []
        self.cleanups = []
        self.n = 0
        pid = os.getpid() & 0x3fffff
        self.ipbase = (pid >> 11, pid & 0x7ff)
        self.tier = "quick"

    def ip(self):
        # 127.x.y.z derived from the pid: no two workers share an address
        pid = os.getpid() & 0x3fffff
        return "127.%d.%d.%d" % (1 + (pid >> 15), (pid >> 7) & 255, (pid & 127) + 1)

    def port(self):
        self.n += 1
        return 10000 + (self.n % 20000)

    def dir(self, mode=0o755):
        d = os.path.join(self.tmp, "c%d" % self.n)
        self.n += 1
        os.mkdir(d)
        os.chmod(d, mode)
        return d

    def track(self, p):
        self.procs.append(p)
        return p

    def cleanup_case(self):
        for f in self.cleanups:
            try:
                f()
            except Exception:
                pass
        self.cleanups = []
        for p in self.procs:
            try:
                p.kill()
            except Exception:
                pass
            try:
                p.wait(10)
            except Exception:
                pass
        self.procs = []
        for d in os.listdir(self.tmp):
            p = os.path.join(self.tmp, d)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                try:
                    os.unlink(p)
                except OSError:
                    pass

    def close(self):
        self.cleanup_case()
        shutil.rmtree(self.tmp, ignore_errors=True)


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:handle_abort=1:allocator_may_return_null=1:"
                    "verify_asan_link_order=0:detect_stack_use_after_return=0:log_path=%s",
    "UBSAN_OPTIONS": "print_stacktrace=1:log_path=%s",
}


FILL = [0xbe]       # what uninitialised memory contains (depends on the case)


def san_env(d, leaks=False):
    e = {k: v % os.path.join(d, "san") for k, v in SAN_ENV.items()}
    e["ASAN_OPTIONS"] += ":malloc_fill_byte=%d" % FILL[0]
    if leaks:
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    return e


def check_sanitizer(d, who):
    for f in glob.glob(os.path.join(d, "san.*")):
        with open(f, errors="replace") as fh:
            t = fh.read()
        if t.strip() and "LeakSanitizer has encountered a fatal error" not in t:
            raise Violation("%s: sanitizer report: %s" % (who, san_summary(t)))


def san_summary(t):
    m = re.search(r"(ERROR: \w+Sanitizer: \S+|runtime error: [^\n]*)", t)
    fr = re.findall(r"#\d+ 0x\w+ in (\S+)", t)
    return "%s in %s" % (m.group(1) if m else t.strip()[:120], "<".join(fr[:4]))


def wait_until(f, timeout=None, step=0.002):
    end = time.monotonic() + (TIMEOUT if timeout is None else timeout)
    while True:
        r = f()
        if r:
            return r
        if time.monotonic() >= end:
            return f()
        time.sleep(step)
        step = min(step * 1.5, 0.05)


_tcp_re = None


def listening(ip, port):
    a = "".join("%02X" % int(x) for x in reversed(ip.split(".")))
    any4 = "00000000:%04X" % port
    want = "%s:%04X" % (a, port)
    with open("/proc/net/tcp") as f:
        for l in f:
            w = l.split()
            if len(w) > 3 and w[3] == "0A" and (w[1] == want or w[1] == any4):
                return True
    return False


def tcp_state(lip, lport, rip, rport):
    """State (hex) of a TCP socket, or None."""
    def a(ip, port):
        return "".join("%02X" % int(x) for x in reversed(ip.split("."))) + ":%04X" % port
    l, r = a(lip, lport), a(rip, rport)
    with open("/proc/net/tcp") as f:
        for x in f:
            w = x.split()
            if len(w) > 3 and w[1] == l and w[2] == r:
                return w[3]
    return None


def cq(s):
    """Quote a string for libConfuse (double quotes)."""
    s = s if isinstance(s, str) else J(s)
    out = '"'
    for c in s:
        if c in '"\\':
            out += "\\" + c
        elif c == "\n":
            out += "\\n"
        elif c == "$":
            out += "\\$" if False else c
        else:
            out += c
    return out + '"'


class Nagios:
    """The reader of the command file.  `lines` are the raw lines read, `cmds`
    the commands after resolving (and deleting) spool files."""

    def __init__(self, path, spool, root=""):
        """`root` is prepended to the spool files' names (chroot)."""
        self.path, self.spool, self.root = path, spool, root
        self.fd = -1
        self.raw = b""
        self.pending = b""
        self.cmds = []          # bytes incl. newline, in order
        self.origin = []        # parallel: None or spool path
        self.spools = []        # (path, mode, uid, size)
        self.problems = []
        self.foreign = []

    def open(self):
        self.fd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)
        return self

    def close(self):
        if self.fd != -1:
            os.close(self.fd)
            self.fd = -1

    def pump(self, limit=None):
        """Read what is available now."""
        got = 0
        while self.fd != -1 and (limit is None or got < limit):
            try:
                d = os.read(self.fd, 65536 if limit is None else min(65536, limit - got))
            except BlockingIOError:
                break
            if not d:
                break
            got += len(d)
            self.raw += d
            self.pending += d
        while b"\n" in self.pending:
            i = self.pending.index(b"\n") + 1
            line, self.pending = self.pending[:i], self.pending[i:]
            self._line(line, None)
        return got

    def _line(self, line, origin):
        m = re.match(rb"^\[(\d+)\] PROCESS_FILE;([^;]*);(\d+)\n$", line)
        if m and os.path.dirname(J(m.group(2))) == self.spool:
            p = self.root + J(m.group(2))
            if m.group(3) != b"1":
                self.problems.append("PROCESS_FILE without deletion flag 1: %r" % line)
            try:
                st = os.stat(p)
                with open(p, "rb") as f:
                    data = f.read()
                os.unlink(p)
            except OSError as e:
                self.problems.append("spool file %s: %s" % (p, e))
                return
            self.spools.append((p, stat.S_IMODE(st.st_mode), st.st_uid, len(data), st.st_gid))
            if data and not data.endswith(b"\n"):
                self.problems.append("spool file does not end with a complete line: %r" % data[-80:])
            for l in data.splitlines(True) if b"\r" not in data else _nl(data):
                self._line(l, p)
            return
        self.cmds.append(line)
        self.origin.append(origin)

    def wait(self, pred, timeout=None, step=0.001):
        end = time.monotonic() + (TIMEOUT if timeout is None else timeout)
        while True:
            self.pump()
            if pred(self):
                return True
            left = end - time.monotonic()
            if left <= 0:
                return False
            if self.fd == -1:
                time.sleep(min(left, 0.01))
            else:
                # poll() on a FIFO without writers returns POLLHUP at once
                pl = select.poll()
                pl.register(self.fd, select.POLLIN)
                ev = pl.poll(min(left, 0.05) * 1000)
                if ev and not ev[0][1] & select.POLLIN:
                    time.sleep(step)

    def wait_for(self, cmd, timeout=None):
        return self.wait(lambda n: cmd in n.cmds, timeout)


def _nl(data):
    out, i = [], 0
    while i < len(data):
        j = data.find(b"\n", i)
        j = len(data) if j == -1 else j + 1
        out.append(data[i:j])
        i = j
    return out


Nagios_nl = _nl


class Server:
    """An nsca-ng process."""

    def __init__(self, env, conf, args=(), variant="san", fifo=True, nagios=True, preload=(),
                 extra_env=None, listen="cli", start=True, conf_path=None, cmd_prefix=(),
                 workdir=None, foreground=True, wait=True, pass_paths=True, ip=None, port=None,
                 fd3=None):
        self.env = env
        self.d = workdir or env.dir()
        self.variant = variant
        self.ip, self.port = ip or env.ip(), port or env.port()
        self.fifo = os.path.join(self.d, "cmd")
        self.spool = os.path.join(self.d, "spool")
        os.makedirs(self.spool, exist_ok=True)
        if fifo and not os.path.exists(self.fifo):
            os.mkfifo(self.fifo, 0o666)
            os.chmod(self.fifo, 0o666)
        self.nagios = Nagios(self.fifo, self.spool)
        if fifo and nagios:
            self.nagios.open()
            env.cleanups.append(self.nagios.close)
        if conf_path is None:
            conf_path = os.path.join(self.d, "nsca-ng.cfg")
            text = conf if isinstance(conf, bytes) else conf.encode("latin-1")
            if pass_paths:
                text = ('temp_directory = "%s"\ncommand_file = "%s"\n' % (self.spool, self.fifo)).encode() + text
            with open(conf_path, "wb") as f:
                f.write(text)
        self.conf_path = conf_path
        self.args = list(args)
        self.listen = listen
        self.preload = preload
        self.extra_env = extra_env or {}
        self.cmd_prefix = list(cmd_prefix)
        self.foreground = foreground
        self.fd3 = fd3
        self.p = None
        self.errfile = os.path.join(self.d, "stderr")
        if start:
            self.start(wait)

    def argv(self):
        a = [os.path.join(build.core(self.variant), "nsca-ng")]
        if self.foreground:
            a.append("-F")
        a += ["-c", self.conf_path]
        if self.listen == "cli":
            a += ["-b", "%s:%d" % (self.ip, self.port)]
        return self.cmd_prefix + a + self.args

    def environ(self):
        e = {"PATH": os.environ["PATH"], "HOME": "/root", "LC_ALL": "C", "TZ": "UTC"}
        e.update(san_env(self.d))
        if self.preload:
            e["LD_PRELOAD"] = " ".join(self.preload)
        e.update(self.extra_env)
        return e

    def start(self, wait=True):
        err = open(self.errfile, "ab")
        self.p = self.env.track(subprocess.Popen(
            self.argv(), stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=self.environ(),
            cwd=self.d, start_new_session=True))
        err.close()
        if wait:
            self.wait_ready()
        return self

    def wait_ready(self):
        def up():
            return self.p.poll() is not None or listening(self.ip, self.port)
        if not wait_until(up) or self.p.poll() is not None:
            check_sanitizer(self.d, "nsca-ng")
            raise Violation("nsca-ng did not start with a valid configuration (status %s): %s" % (
                self.p.poll(), self.log()[-500:]))

    def log(self):
        try:
            with open(self.errfile, "rb") as f:
                return J(f.read())
        except OSError:
            return ""

    def pid(self):
        return self.p.pid

    def alive(self):
        return self.p.poll() is None

    def fds(self):
        out = []
        d = "/proc/%d/fd" % self.p.pid
        for x in os.listdir(d):
            try:
                out.append(os.readlink(os.path.join(d, x)))
            except OSError:
                pass
        return out

    def cpu(self):
        with open("/proc/%d/stat" % self.p.pid) as f:
            w = f.read().rsplit(")", 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")

    def check_alive(self):
        check_sanitizer(self.d, "nsca-ng")
        if not self.alive():
            raise Violation("nsca-ng terminated unexpectedly with status %s; log tail: %s" % (
                self.p.poll(), self.log()[-400:]))

    def stop(self, sig=signal.SIGTERM, check=True, timeout=None):
        """Terminate it in an orderly fashion."""
        if check:
            self.check_alive()
        self.p.send_signal(sig)
        try:
            rc = self.p.wait(TIMEOUT if timeout is None else timeout)
        except subprocess.TimeoutExpired:
            raise Violation("nsca-ng did not terminate on signal %d" % sig)
        if check:
            check_sanitizer(self.d, "nsca-ng")
            if rc != 0:
                raise Violation("nsca-ng exited with status %s on signal %d" % (rc, sig))
        return rc

    def kill(self):
        self.p.kill()
        self.p.wait()

    # -- clients
    def connect(self, identity, psk, **kw):
        c = Conn.client(self.ip, self.port, identity, psk, **kw)
        self.env.cleanups.append(c.free)
        return c

    def session(self, identity, psk, sid="sess", **kw):
        return Session(self.connect(identity, psk, **kw), sid)


class Session:
    """A well-behaved lock-step protocol client."""

    def __init__(self, conn, sid="sess", moin=True):
        self.c = conn
        if moin:
            r = self.req("MOIN 1 " + sid)
            if r != b"MOIN 1\r\n":
                raise Violation("unexpected response to MOIN: %r" % r)

    def req(self, line, timeout=None):
        self.c.send(B(line) + b"\r\n")
        return self.c.line(timeout)

    def push(self, data, timeout=None, announce=None):
        """-> (first response, second response or None)"""
        data = B(data)
        r = self.req("PUSH %s" % (len(data) if announce is None else announce), timeout)
        if r != b"OKAY\r\n":
            return r, None
        self.c.send(data)
        return r, self.c.line(timeout)

    def submit(self, data, timeout=None):
        """True if acknowledged, False if refused."""
        r1, r2 = self.push(data, timeout)
        if r1 != b"OKAY\r\n":
            raise Violation("PUSH of %d bytes refused: %r" % (len(data), r1))
        if r2 == b"OKAY\r\n":
            return True
        if r2.startswith(b"FAIL ") and r2.endswith(b"\r\n"):
            return False
        raise Violation("unexpected response to a command: %r" % r2)

    def quit(self):
        r = self.req("QUIT")
        if r != b"OKAY\r\n":
            raise Violation("unexpected response to QUIT: %r" % r)
        kind, extra = self.c.ending()
        if kind != "closed" or extra:
            raise Violation("QUIT not followed by a clean TLS shutdown: %s %r" % (kind, extra))
        self.c.close_notify()
        self.c.free()


def free_listener(env, backlog=128, rcvbuf=0):
    s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
    if rcvbuf:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    for attempt in range(10):
        ip, port = env.ip(), env.port()
        try:
            s.bind((ip, port))
            break
        except OSError as x:
            if x.errno != errno.EADDRINUSE or attempt == 9:
                raise
    s.listen(backlog)
    env.cleanups.append(s.close)
    return s, ip, port


class Client:
    """A send_nsca process."""

    def __init__(self, env, ip, port, conf=b"", args=(), variant="san", stdin=subprocess.PIPE,
                 workdir=None, addr_args=True, conf_path=None, extra_env=None, preload=()):
        self.env = env
        self.d = workdir or env.dir()
        if conf_path is None:
            conf_path = os.path.join(self.d, "send_nsca.cfg")
            with open(conf_path, "wb") as f:
                f.write(B(conf))
        a = [os.path.join(build.core(variant), "send_nsca"), "-c", conf_path]
        if addr_args:
            a += ["-H", ip, "-p", str(port)]
        a += list(args)
        e = {"PATH": os.environ["PATH"], "HOME": "/root", "LC_ALL": "C", "TZ": "UTC"}
        e.update(san_env(self.d))
        if preload:
            e["LD_PRELOAD"] = " ".join(preload)
        e.update(extra_env or {})
        self.errfile = os.path.join(self.d, "stderr-%d" % env.n)
        self.outfile = os.path.join(self.d, "stdout-%d" % env.n)
        env.n += 1
        self.argv = a
        with open(self.errfile, "wb") as err, open(self.outfile, "wb") as out:
            self.p = env.track(subprocess.Popen(a, stdin=stdin, stdout=out, stderr=err, env=e, cwd=self.d,
                                                bufsize=0))

    def cpu(self):
        """CPU time used so far (0 if it's gone)."""
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                w = f.read().rsplit(")", 1)[1].split()
        except OSError:
            return 0
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")

    def feed(self, data, close=True):
        try:
            if data:
                mv = memoryview(data)
                while mv:
                    n = self.p.stdin.write(mv)
                    mv = mv[n:]
            if close:
                self.p.stdin.close()
        except (BrokenPipeError, OSError, ValueError):
            try:
                self.p.stdin.close()
            except OSError:
                pass

    def feed_async(self, data, close=True):
        t = threading.Thread(target=self.feed, args=(data, close), daemon=True)
        t.start()
        return t

    def wait(self, timeout=None):
        """Exit status; hanging beyond the patience is a violation."""
        try:
            rc = self.p.wait(TIMEOUT if timeout is None else timeout)
        except subprocess.TimeoutExpired:
            raise Violation("send_nsca did not terminate; stderr: %s" % self.err()[-300:])
        check_sanitizer(self.d, "send_nsca")
        if rc < 0 or rc == 99:
            raise Violation("send_nsca crashed with status %d: %s" % (rc, self.err()[-300:]))
        return rc

    def err(self):
        with open(self.errfile, "rb") as f:
            return J(f.read())

    def out(self):
        with open(self.outfile, "rb") as f:
            return J(f.read())
