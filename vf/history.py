"""Model-based histories of clients, the server and the reader of the command
file, shared by C04, C05, C06, C11 and C19."""
import os, time
from hypothesis import strategies as st
from . import build
from .harness import *


def shim(name):
    return os.path.join(build.native(), "lib%s.so" % name)


CONF = ('timeout = 0\nmax_command_size = 0\n'
        'authorize "client" { password = "p"\n commands = "OK.*" }\n'
        'authorize "sentinel" { password = "p"\n commands = ".*" }\n')


def make_cmd(i, size, ok=True):
    head = b"[%d] %s;%d;" % (1000 + i, b"OK" if ok else b"NO", i)
    # text that would be noticed if cut, doubled or shifted
    body = (b"%d." % i) * (size // 2 + 1)
    return head + body[:max(0, size - len(head) - 1)] + b"\n"


class World:
    def __init__(self, env, conf=CONF, nagios="up", warp=100, preload=(), pipe=0, extra_env=None, aioms=0, **kw):
        self.env = env
        e = dict(WARP=str(warp))
        if aioms:           # asynchronous writes take their time
            e["VF_AIOMS"] = str(aioms)
            preload = list(preload) + [shim("aioslow")]
        e.update(extra_env or {})
        self.srv = Server(env, conf, nagios=(nagios != "down"), preload=[shim("warp")] + list(preload),
                          extra_env=e, **kw)
        self.n = self.srv.nagios
        self.state = nagios          # up, stalled, down
        self.pipe = pipe
        if nagios != "down":
            self._setpipe()
        self.clock = 0
        self.seq = 0
        self.acked = []              # (cmd, t_sent, t_acked)
        self.optional = set()
        self.never = set()
        self.sess = {}
        self.labels = set()
        self.was_down = nagios == "down"
        self.gone = "close"

    def _setpipe(self):
        if self.pipe:
            import fcntl
            try:
                fcntl.fcntl(self.n.fd, 1031, self.pipe)     # F_SETPIPE_SZ
            except OSError:
                pass                                        # more than that in it already

    def tick(self):
        self.clock += 1
        return self.clock

    def session(self, c):
        if c not in self.sess:
            self.sess[c] = self.srv.session("client", "p", tls=12 + c % 2)
        return self.sess[c]

    def pump(self):
        if self.state == "up":
            self.n.pump()

    def result(self, cmd, ok, r, t0):
        if r == b"OKAY\r\n":
            if not ok:
                raise Violation("forbidden command acknowledged")
            self.acked.append((cmd, t0, self.tick()))
        elif r.startswith(b"FAIL "):
            if ok:
                raise Violation("permitted command refused: %r" % r)
            self.never.add(cmd)
        else:
            raise Violation("unexpected response %r" % r)

    def new(self, size, ok=True):
        self.seq += 1
        return make_cmd(self.seq, size, ok)

    # -- operations
    def push(self, c, size, ok=True):
        cmd = self.new(size, ok)
        s = self.session(c)
        if s.req("PUSH %d" % len(cmd)) != b"OKAY\r\n":
            raise Violation("PUSH %d refused" % len(cmd))
        t0 = self.tick()
        s.c.send(cmd)
        self.result(cmd, ok, s.c.line(), t0)
        self.pump()

    def burst(self, cs, size):
        cmds = [(c, self.new(max(20, size - 7 * k))) for k, c in enumerate(cs)]
        for c, cmd in cmds:
            self.session(c).c.send(b"PUSH %d\r\n" % len(cmd))
        for c, cmd in cmds:
            if self.sess[c].c.line() != b"OKAY\r\n":
                raise Violation("PUSH refused")
        t0 = self.tick()
        for c, cmd in cmds:
            self.sess[c].c.send(cmd)
        rs = [self.sess[c].c.line() for c, cmd in cmds]
        for (c, cmd), r in zip(cmds, rs):
            self.result(cmd, True, r, t0)
        self.pump()
        self.labels.add("burst")

    def abort(self, c, size, sent, how):
        cmd = self.new(size)
        sent = min(sent, len(cmd))
        s = self.session(c)
        del self.sess[c]
        s.c.send(b"PUSH %d\r\n" % len(cmd))
        if s.c.line() != b"OKAY\r\n":
            raise Violation("PUSH refused")
        if sent:
            s.c.send(cmd[:sent])
        if how == "notify":
            s.c.close_notify()
        s.c.free(rst=(how == "rst"))
        (self.optional if sent == len(cmd) else self.never).add(cmd)
        self.labels.add("aborted")

    def quit(self, c):
        if c in self.sess:
            self.sess.pop(c).quit()

    def drain(self, timeout=None):
        """Everything acknowledged so far must arrive."""
        if self.state == "down":
            self.up()
        self.state = "up"
        want = {x[0] for x in self.acked}
        seen = [0, set()]

        def done(n):
            for x in n.cmds[seen[0]:]:
                seen[1].add(x)
            seen[0] = len(n.cmds)
            return n.problems or want <= seen[1]
        if not self.n.wait(done, timeout) or self.n.problems:
            if self.n.problems:
                raise Violation("; ".join(self.n.problems))
            miss = [x[0] for x in self.acked if x[0] not in seen[1]]
            self.srv.check_alive()
            raise Violation("%d of %d acknowledged commands never delivered, first: %r" % (
                len(miss), len(want), miss[0][:60]))

    def down(self, how="close"):
        """The reader goes away.  Nagios also removes its command file and
        creates a new one when it's back; `how` may be "remove" or "replace"
        (removed only when it comes back)."""
        if self.state == "down":
            return
        self.drain()
        self.n.close()
        if how == "remove":
            os.unlink(self.n.path)
        self.gone = how
        if how != "close":
            self.labels.add("recreated")
        self.state = "down"
        self.labels.add("down")

    def up(self):
        if self.state == "down":
            if self.gone == "replace":
                os.unlink(self.n.path)
            if self.gone != "close":
                os.mkfifo(self.n.path, 0o600)
            self.n.open()
            self._setpipe()
            self.gone = "close"
            self.state = "up"
            self.labels.add("restarted")

    def stall(self):
        if self.state == "up":
            self.n.pump()
            self.state = "stalled"
            self.labels.add("stalled")

    def resume(self):
        if self.state == "stalled":
            self.state = "up"
            self.n.pump()

    def exact(self):
        """Nothing but the acknowledged commands, each once."""
        want = {x[0] for x in self.acked}
        seen = set()
        for x in self.n.cmds:
            if x in seen:
                raise Violation("command delivered twice: %r" % x[:60])
            seen.add(x)
            if x not in want and x not in self.optional:
                what = "refused or incomplete" if x in self.never else "unknown or damaged"
                raise Violation("%s command delivered: %r" % (what, x[:100]))
        if want - seen:
            raise Violation("acknowledged command never delivered: %r" % min(want - seen)[:60])
        if self.n.pending:
            raise Violation("incomplete line in the command file: %r" % self.n.pending[:100])

    def finish(self, stop=True):
        self.drain()
        self.exact()
        # a last command behind everything else
        end = b"[1] SENTINEL\n"
        root = self.srv.session("sentinel", "p")
        root.submit(end)
        self.acked.append((end, self.tick(), self.tick()))
        self.drain()
        self.exact()
        if stop:
            self.srv.stop()
            self.n.pump()
            self.exact()
        left = os.listdir(self.srv.spool)
        if left and not self.optional:
            raise Violation("spool files left behind: %r" % left[:3])
        if self.n.spools:
            self.labels.add("spooled")

    def order(self):
        """Commands acknowledged before another was sent precede it: in the
        whole stream if nothing was spooled, and within every spool file."""
        t = {x[0]: (x[1], x[2]) for x in self.acked}

        def check(seq, where):
            lo = 0          # largest t_sent seen so far
            for x in seq:
                if x not in t:
                    continue
                sent, acked = t[x]
                if acked < lo:
                    raise Violation("%s: %r delivered after a command sent after its acknowledgement" % (where, x[:40]))
                lo = max(lo, sent)
        if not self.n.spools:
            check(self.n.cmds, "command file")
        else:
            for o in set(self.n.origin) - {None}:
                check([x for x, y in zip(self.n.cmds, self.n.origin) if y == o], "spool file")

    def run(self, op):
        k = op[0]
        if k == "push":
            self.push(op[1], op[2], op[3])
        elif k == "burst":
            self.burst(sorted(set(op[1])), op[2])
        elif k == "abort":
            self.abort(op[1], op[2], op[3], op[4])
        elif k == "quit":
            self.quit(op[1])
        elif k in ("down", "up", "stall", "resume"):
            getattr(self, k)(*op[1:])
        elif k == "pause":
            time.sleep(op[1] / 1000.0)
            self.pump()
        else:
            raise ValueError(k)


AIOMS = st.sampled_from([0, 0, 3, 40])
SMALL = st.one_of(st.integers(20, 400), st.integers(20, 60))
EDGE = st.sampled_from([4094, 4095, 4096, 4097, 4098, 2048, 2047, 2049, 4095 - 40, 127, 128, 129])
LARGE = st.one_of(st.integers(4097, 20000), st.sampled_from([8192, 16384, 16385, 65536, 65537, 100000]))


DOWN = st.sampled_from([("down",), ("down",), ("down", "remove"), ("down", "replace")])


def op_strategy(sizes, clients=4, weights=None, down=st.just(("down",))):
    c = st.integers(0, clients - 1)
    w = dict(push=8, burst=2, abort=1, quit=1, down=1, up=2, stall=1, resume=2, pause=1)
    w.update(weights or {})
    mk = dict(
        push=st.tuples(st.just("push"), c, sizes, st.sampled_from([True] * 7 + [False])),
        burst=st.tuples(st.just("burst"), st.lists(c, min_size=2, max_size=clients), sizes),
        abort=st.tuples(st.just("abort"), c, sizes, st.one_of(st.integers(0, 300), st.just(10**6), st.integers(0, 5000)),
                        st.sampled_from(["notify", "rst", "fin"])),
        quit=st.tuples(st.just("quit"), c),
        down=down, up=st.just(("up",)), stall=st.just(("stall",)), resume=st.just(("resume",)),
        pause=st.tuples(st.just("pause"), st.sampled_from([1, 5, 30, 130])))
    kinds = [k for k, n in sorted(w.items()) for _ in range(n)]
    return st.sampled_from(kinds).flatmap(lambda k: mk[k]).map(list)
