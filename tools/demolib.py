"""Helpers of the demonstrations: a server, a reader of its FIFO, and peers made from openssl(1)."""
import os, sys, time, select, socket, subprocess, tempfile, shutil, atexit, signal, errno

REPO = os.getcwd()
SERVER = os.path.join(REPO, "_build/src/server/nsca-ng")
CLIENT = os.path.join(REPO, "_build/src/client/send_nsca")
TMP = tempfile.mkdtemp(prefix="demo.", dir="/tmp")
PROCS = []
AUTH = 'authorize "*" { password = "secret" commands = ".*" }\n'


def cleanup():
    for p in PROCS:
        try:
            p.kill()
            p.wait()
        except OSError:
            pass
    shutil.rmtree(TMP, ignore_errors=True)


atexit.register(cleanup)


def check(ok, msg):
    print(("ok: " if ok else "FAILED: ") + msg)
    if not ok:
        sys.exit(1)


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def wait(f, timeout=20.0, step=0.01):
    end = time.time() + timeout
    while True:
        v = f()
        if v or time.time() > end:
            return v
        time.sleep(step)


class Fifo:
    def __init__(self, path):
        self.path, self.fd, self.data = path, None, b""

    def open(self):
        self.fd = os.open(self.path, os.O_RDONLY | os.O_NONBLOCK)

    def close(self):
        os.close(self.fd)
        self.fd = None

    def read(self, limit=65536):
        try:
            d = os.read(self.fd, limit)
        except BlockingIOError:
            d = b""
        self.data += d
        return d

    def wait_for(self, s, timeout=20.0):
        def f():
            self.read()
            return s in self.data
        return wait(f, timeout)


class Server:
    def __init__(self, conf=AUTH, args=(), env=None, read=True, pid_file=False, pre=None, popen=None, name="srv"):
        self.dir = os.path.join(TMP, name)
        os.makedirs(self.dir + "/spool", exist_ok=True)
        self.fifo = Fifo(self.dir + "/fifo")
        if not os.path.exists(self.fifo.path):
            os.mkfifo(self.fifo.path)
        if read:
            self.fifo.open()
        self.conf = self.dir + "/nsca-ng.cfg"
        if conf is not None:
            self.write_conf(conf)
        self.port = free_port()
        self.log_path = self.dir + "/log"
        self.args = [SERVER, "-F", "-c", self.conf, "-b", "127.0.0.1:%d" % self.port] + list(args)
        self.env = dict(os.environ, **(env or {}))
        self.popen = popen or {}

    def write_conf(self, conf, path=None):
        with open(path or self.conf, "w") as f:
            f.write('command_file = "%s"\ntemp_directory = "%s/spool"\n%s' % (self.fifo.path, self.dir, conf))

    def start(self, ready=True):
        self.p = subprocess.Popen(self.args, env=self.env, stdin=subprocess.DEVNULL,
                                  stdout=subprocess.DEVNULL, stderr=open(self.log_path, "ab"), **self.popen)
        PROCS.append(self.p)
        if ready:
            def up():
                s = socket.socket()
                try:
                    s.connect(("127.0.0.1", self.port))
                    return True
                except OSError:
                    return self.p.poll() is not None
                finally:
                    s.close()
            wait(up)
        return self

    def log(self):
        return open(self.log_path, "rb").read()


class Session:
    """A lock-step client of the server."""
    def __init__(self, port, identity="client", psk=b"secret", moin=True, tls="-tls1_2"):
        self.p = subprocess.Popen(["openssl", "s_client", "-connect", "127.0.0.1:%d" % port, "-quiet", tls]
                                  + (["-cipher", "PSK-AES256-CBC-SHA"] if tls == "-tls1_2" else [])
                                  + ["-psk_identity", identity, "-psk", psk.hex()],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        PROCS.append(self.p)
        self.buf = b""
        if moin:
            r = self.req(b"MOIN 1 demo-session")
            assert r == b"MOIN 1", r

    def send(self, data):
        try:
            self.p.stdin.write(data)
            self.p.stdin.flush()
        except OSError:
            pass

    def line(self, timeout=20.0):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                return None
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                return None
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        return l.rstrip(b"\r")

    def req(self, line, timeout=20.0):
        self.send(line + b"\r\n")
        return self.line(timeout)

    def push(self, data, timeout=20.0):
        r = self.req(b"PUSH %d" % len(data), timeout)
        if r != b"OKAY":
            return r
        self.send(data)
        return self.line(timeout)

    def closed(self, timeout=20.0):
        """Whether the server ends the connection within the time."""
        end = time.time() + timeout
        while time.time() < end:
            r, _, _ = select.select([self.p.stdout], [], [], 0.1)
            if r:
                d = os.read(self.p.stdout.fileno(), 65536)
                if not d:
                    return True
                self.buf += d
        return False

    def stop(self):
        self.p.kill()
        self.p.wait()


class Peer:
    """A scripted server for send_nsca."""
    def __init__(self, psk=b"secret"):
        self.port = free_port()
        self.p = subprocess.Popen(["openssl", "s_server", "-accept", "127.0.0.1:%d" % self.port, "-quiet", "-nocert",
                                   "-tls1_2", "-cipher", "PSK-AES256-CBC-SHA", "-psk", psk.hex(), "-naccept", "1",
                                   "-psk_identity", "client"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        PROCS.append(self.p)
        self.buf = b""

        def up():
            with open("/proc/net/tcp") as f:
                return any(l.split()[1].endswith(":%04X" % self.port) and l.split()[3] == "0A" for l in f.readlines()[1:])
        wait(up)
    send, line = Session.send, Session.line

    def read(self, n, timeout=20.0):
        end = time.time() + timeout
        while len(self.buf) < n:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r:
                break
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                break
            self.buf += d
        d, self.buf = self.buf[:n], self.buf[n:]
        return d

    def serve(self, n=None):
        """Confirm everything; return the commands."""
        cmds = []
        while True:
            l = self.line()
            if l is None:
                return cmds
            if l.startswith(b"MOIN"):
                self.send(b"MOIN 1\r\n")
            elif l.startswith(b"PUSH"):
                self.send(b"OKAY\r\n")
                cmds.append(self.read(int(l.split()[1])))
                self.send(b"OKAY\r\n")
            elif l.startswith(b"QUIT"):
                self.send(b"OKAY\r\n")
                return cmds


class Client:
    def __init__(self, port, args=(), conf='identity = client\npassword = secret\n', stdin=b"", wait_stdin=True, name="send_nsca.cfg"):
        path = os.path.join(TMP, name)
        with open(path, "w") as f:
            f.write(conf)
        self.p = subprocess.Popen([CLIENT, "-c", path, "-H", "127.0.0.1", "-p", str(port)] + list(args),
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        PROCS.append(self.p)
        if stdin is not None:
            try:
                self.p.stdin.write(stdin)
                self.p.stdin.close()
            except OSError:
                pass
            self.p.stdin = None

    def wait(self, timeout=60):
        try:
            out, err = self.p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, b""
        return self.p.returncode, out + err
