"""Drives the Perl and Python modules."""
import json, re, time
from .harness import *

HERE = os.path.dirname(os.path.abspath(__file__))


def S(s, u=False):
    """A string argument (bytes)."""
    return {"h": B(s).hex(), "u": u}


class Died(Exception):
    """The call raised."""

    def __init__(self, msg):
        Exception.__init__(self, J(msg))
        self.msg = msg


class Interp:
    """An interpreter with the module loaded."""

    def __init__(self, env, lang, extra_env=None, memory=None):
        self.env, self.lang = env, lang
        self.d = env.dir()
        e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8", "HOME": "/root"}
        e.update(san_env(self.d))
        e["LD_PRELOAD"] = build.libasan()
        if lang == "perl":
            d = build.perl()
            cmd = ["/usr/bin/perl", "-I" + d + "/blib/lib", "-I" + d + "/blib/arch", HERE + "/drivers/driver.pl"]
        else:
            e["NSCANG_PATH"] = build.python()
            e["PYTHONMALLOC"] = "malloc"
            e["PYTHONDONTWRITEBYTECODE"] = "1"
            cmd = ["/usr/bin/python3", "-S", HERE + "/drivers/driver.py"]
        e.update(extra_env or {})
        self.errfile = self.d + "/err"
        err = open(self.errfile, "wb")
        self.p = env.track(subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=e, cwd=self.d))
        err.close()
        self.buf = b""

    def cpu(self):
        try:
            with open("/proc/%d/stat" % self.p.pid) as f:
                w = f.read().rsplit(")", 1)[1].split()
        except OSError:
            return 0
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")

    def sockets(self):
        """Sockets open."""
        n = 0
        d = "/proc/%d/fd" % self.p.pid
        for x in os.listdir(d):
            try:
                n += os.readlink(d + "/" + x).startswith("socket:")
            except OSError:
                pass
        return n

    def dead(self, during):
        try:
            rc = self.p.wait(5)
        except subprocess.TimeoutExpired:
            rc = None
        check_sanitizer(self.d, self.lang + " module")
        with open(self.errfile, errors="replace") as f:
            t = f.read()
        t = san_summary(t) if "Sanitizer" in t or "runtime error" in t else t[-400:]
        raise Violation("the %s interpreter died with status %s during %s: %s" % (self.lang, rc, during, t))

    def send(self, op, id=0, a=(), k=None, ref=False):
        c = dict(op=op, id=id, a=list(a), k=k or {}, ref=ref)
        self.t0 = time.monotonic()
        self.what = "%s(%s)" % (op, json.dumps([c["a"], c["k"]])[:300])
        try:
            self.p.stdin.write(json.dumps(c).encode() + b"\n")
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self.dead(self.what)

    def reply(self, limit):
        """-> None or value; raises Died"""
        end = self.t0 + limit
        while b"\n" not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                raise Violation("%s module: no result of %s within %.1f s" % (self.lang, self.what, limit))
            if not select.select([self.p.stdout], [], [], left)[0]:
                continue
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                self.dead(self.what)
            self.buf += d
        self.took = time.monotonic() - self.t0
        l, self.buf = self.buf.split(b"\n", 1)
        if self.lang == "perl" and not self.what.startswith("exit("):
            try:
                with open("/proc/%d/status" % self.p.pid) as f:
                    m = re.search(r"^SigIgn:\s*([0-9a-f]+)", f.read(), re.M)
            except OSError:
                m = None
            if m and int(m.group(1), 16) >> (signal.SIGPIPE - 1) & 1:
                raise Violation("the Perl module left SIGPIPE ignored after %s" % self.what)
        r = json.loads(l)
        if r["r"] != "ok":
            raise Died(bytes.fromhex(r["m"]))
        return r.get("v")

    def call(self, op, id=0, a=(), k=None, limit=60, ref=False):
        self.send(op, id, a, k, ref)
        return self.reply(limit)

    def finish(self, limit=20):
        """Destroys all objects and exits."""
        try:
            self.call("exit", limit=limit)
            rc = self.p.wait(limit)
        except subprocess.TimeoutExpired:
            raise Violation("the %s interpreter doesn't exit" % self.lang)
        check_sanitizer(self.d, self.lang + " module")
        if rc != 0:
            self.dead("exit")

    # -- uniform interface
    def new(self, id, host, port, identity, psk, timeout=5, ciphers=None, node=None, svc=None, limit=60, style=0):
        """style: hash-style (0) or hashref (1) with Perl, positional (0) or keyword (1) arguments with Python."""
        if self.lang == "perl":
            k = dict(port=port, timeout=timeout)
            if ciphers is not None:
                k["ciphers"] = S(ciphers)
            if node is not None:
                k["node_name"] = node
            if svc is not None:
                k["svc_description"] = svc
            self.call("new", id, [S(host), S(identity), S(psk)], k, limit, bool(style))
        else:
            k = {} if ciphers is None else dict(ciphers=S(ciphers))
            if style:
                k.update(host=S(host), port=port, identity=S(identity), psk=S(psk))
            self.call("new", id, [] if style else [S(host), port, S(identity), S(psk)], k, limit)

    def send_result(self, id, host, svc, status, text, timeout=5, style=0):
        """host/svc/text: argument values; svc None: host result; text None: omitted (Python)."""
        if self.lang == "perl":
            k = {}
            if host is not None:
                k["node_name"] = host
            if svc is not None and svc is not True:
                k["svc_description"] = svc
            self.send("svc_result" if svc is not None else "host_result", id, [status, text], k, bool(style))
        else:
            a = [("host_name", host)] + ([("svc_description", svc)] if svc is not None else []) + [("return_code", status)]
            if text is not None:
                a.append(("plugin_output", text))
            n = len(a) if not style else style % (len(a) + 1)
            k = dict(a[n:])
            if timeout is not None:
                k["timeout"] = timeout
            self.send("host_result" if svc is None else "svc_result", id, [v for _, v in a[:n]], k)


class Strict:
    """What a real server refuses."""

    def __init__(self, limit=16384, delay=0):
        self.limit, self.delay = limit, delay

    def __call__(self, talk, step, info):
        if step == "push" and self.limit and info > self.limit:
            return b"FAIL PUSH data size too large\r\n"
        if step == "push" and info == 0:
            return b"FAIL Expected number of bytes\r\n"
        if step == "data":
            if b"\n" in info[:-1] or not info.endswith(b"\n") or b"\0" in info or not re.match(rb"^\[[^\]]*\]", info):
                return b"FAIL You're not authorized\r\n"
        return None
