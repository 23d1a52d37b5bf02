"""C19: operating system failures are contained."""
import resource
from hypothesis import strategies as st
from ..harness import *
from ..history import *
from ..run import Check

EINTR, EIO, EAGAIN, EACCES, EMFILE, ENOSPC, EPIPE, ENXIO = (
    errno.EINTR, errno.EIO, errno.EAGAIN, errno.EACCES, errno.EMFILE, errno.ENOSPC, errno.EPIPE, errno.ENXIO)
FAULTS = {
    "mkstemp": [ENOSPC, EACCES, EMFILE, errno.EROFS],
    "spool_write": [ENOSPC, EIO, EINTR, "short", "short"],
    "spool_close": [EIO, EINTR, ENOSPC],
    "aio_write": [EAGAIN, errno.ENOSYS],
    "aio_error": [ENOSPC, EIO],
    "aio_return": ["short"],
    "fifo_open": [EINTR, EACCES, EMFILE, ENXIO],
    "fifo_fstat": [EIO],
    "fifo_write": [EINTR, EAGAIN, EPIPE, EIO],
    "accept": [EMFILE, errno.ECONNABORTED, EINTR, errno.ENFILE],
    "getpeername": [errno.ENOTCONN],
}
# faults which cannot be survived without losing what was about to be spooled
LOSSY = {"mkstemp", "aio_write", "aio_error", "aio_return"}


def lossy(cls, what):
    return cls in LOSSY or cls == "spool_write" and what not in (str(EINTR), "short") or \
        cls == "spool_close" and what != str(EINTR)


@st.composite
def cases(draw):
    variant = draw(st.sampled_from(["san", "noaio"]))
    names = [n for n in FAULTS if not (variant == "noaio" and n.startswith("aio") or
                                       variant == "san" and n == "spool_write")]
    group = draw(st.sampled_from(["all", "all", "harmless"]))
    if group == "harmless":
        names = [n for n in names if n not in LOSSY and n not in ("spool_close",)]
    names += [n for n in names if n[:3] in ("mks", "spo", "aio")] * 2
    plan = draw(st.lists(st.sampled_from(names).flatmap(
        lambda n: st.tuples(st.just(n), st.integers(1, 6 if n.startswith("fifo") else 3), st.sampled_from(FAULTS[n]))),
        min_size=1, max_size=5))
    if group == "harmless":
        plan = [p for p in plan if not lossy(p[0], str(p[2]))] or [("fifo_write", 1, EINTR)]
    if draw(st.integers(0, 15)) == 7:
        plan = [draw(st.sampled_from([("aio_error", ENOSPC), ("aio_return", "short"), ("spool_close", EIO), ("spool_close", ENOSPC)]))]
        return dict(ops=[], plan=[[plan[0][0], 1, plan[0][1]]], variant="san", nagios="up", nofile=0, aioms=draw(st.sampled_from([0, 20, 100])),
                    stuck=draw(st.lists(st.one_of(SMALL, LARGE, EDGE), min_size=1, max_size=5)))
    op = op_strategy(st.one_of(SMALL, LARGE, LARGE, EDGE), weights=dict(stall=1, resume=1, down=1, up=2, burst=3, quit=3))
    return dict(ops=draw(st.lists(op, min_size=3, max_size=18)), plan=[list(p) for p in plan], variant=variant,
                nagios=draw(st.sampled_from(["up", "up", "down"])), nofile=draw(st.sampled_from([0] * 10 + [1, 1, 2])), aioms=draw(AIOMS))


class W(World):
    def fired(self):
        try:
            with open(self.flog) as f:
                return [l.split(None, 3) for l in f]
        except OSError:
            return []

    exhausted = False

    def is_lossy(self):
        return self.exhausted or any(lossy(x[0], x[2]) for x in self.fired())

    def session(self, c):
        for i in range(12):
            try:
                return World.session(self, c)
            except PeerGone as e:
                if not any(x[0] in ("accept", "getpeername") for x in self.fired()):
                    raise Violation("cannot establish a session: %s" % e)
        raise Violation("cannot establish a session after transient failures")

    def drain(self, timeout=None):
        if not self.is_lossy():
            try:
                # ask again now and then: a fault may fire while waiting
                end = time.monotonic() + TIMEOUT
                while True:
                    try:
                        return World.drain(self, 1)
                    except Violation:
                        if self.n.problems or self.is_lossy() or time.monotonic() > end or not self.srv.alive():
                            raise
            except Violation:
                if not self.is_lossy():
                    raise
        if self.state == "down":
            self.up()
        self.state = "up"
        if self.n.problems:
            raise Violation("; ".join(self.n.problems))
        self.sync()

    def sync(self):
        """Delivery goes on: a later command arrives (a few attempts, as the
        command itself may fall victim to a fault)."""
        for i in range(6):
            self.seq += 1
            end = b"[1] OK;SYNC;%d\n" % self.seq
            before = len(self.fired())
            s = self.session(9)
            if not s.submit(end):
                raise Violation("permitted command refused")
            self.optional.add(end)
            t = time.monotonic()
            while time.monotonic() - t < TIMEOUT:
                if self.n.wait(lambda n: end in n.cmds, 0.5):
                    return
                if len(self.fired()) > before and time.monotonic() - t > 3:
                    break
            else:
                self.srv.check_alive()
                raise Violation("nothing is delivered any more after %r" % self.fired())
        raise Violation("nothing is delivered any more after %r" % self.fired())


class C19(Check):
    needs = ("san", "noaio")
    level = "fault_enumeration"
    rule = ("A case is a history as in C04 together with 1-5 injected faults (k-th call of mkstemp, write/close/AIO of a "
            "spool file, open/fstat/write of the command file, accept, getpeername failing with a plausible errno, short "
            "writes), with and without POSIX AIO, sometimes with slow asynchronous writes, or with the descriptor limit exhausted for real.  Non-trivial if a fault fired.")
    assumptions = ["a failure to create, fill or close a spool file may lose the commands concerned; no other fault may lose "
                   "anything"]
    cases = dict(quick=720, thorough=16000)
    examples = [dict(variant=v, nagios="up", nofile=0, plan=[p], ops=[["push", 0, 9000, True], ["push", 0, 50, True],
                     ["push", 1, 9000, True], ["push", 0, 60, True], ["pause", 130], ["push", 2, 20, True]])
                for v, p in [("san", ["aio_error", 1, ENOSPC]), ("san", ["aio_return", 1, "short"]),
                             ("noaio", ["spool_write", 1, "short"]), ("noaio", ["spool_write", 1, ENOSPC]),
                             ("san", ["getpeername", 1, errno.ENOTCONN]), ("san", ["mkstemp", 1, ENOSPC]),
                             ("noaio", ["mkstemp", 1, ENOSPC]), ("san", ["spool_close", 1, EIO]),
                             ("san", ["fifo_write", 1, EPIPE]), ("san", ["aio_write", 1, EAGAIN]),
                             ("san", ["accept", 2, EMFILE])]] + \
        [dict(variant="san", nagios="up", nofile=0, plan=[p], ops=[], aioms=a, stuck=s)
         for p in (["aio_error", 1, ENOSPC], ["aio_return", 1, "short"], ["spool_close", 1, EIO])
         for a, s in ((150, [5000, 100]), (150, [60, 5000, 60]), (150, [4000, 4000, 4000]), (0, [5000]))]

    def strategy(self, tier):
        return cases()

    def stuck(self, env, case):
        """What was queued while a large command was being written to a file, in vain, must not wait for further commands."""
        d = env.dir()
        cls, sizes = case["plan"][0][0], case["stuck"]
        w = W(env, variant="san", workdir=d, preload=[shim("fault")], aioms=case["aioms"],
              extra_env=dict(VF_PLAN="%s@%d=%s" % tuple(case["plan"][0]), VF_FLOG=os.path.join(d, "faults"), VF_FIFO=os.path.join(d, "cmd"),
                             VF_SPOOL=os.path.join(d, "spool")))
        w.flog = os.path.join(d, "faults")
        w.push(0, 9000)
        w.optional.add(w.acked.pop()[0])
        for i, n in enumerate(sizes):
            w.push(i % 3, n)
        if not w.n.wait(lambda n: {x[0] for x in w.acked} <= set(n.cmds), TIMEOUT):
            w.srv.check_alive()
            raise Violation("commands of %r bytes are stuck after %r" % (sizes, w.fired()))
        w.exact()
        fired = w.fired()
        w.srv.stop()
        return ["queued behind a failure", "fault " + cls], bool(fired)

    def run(self, env, case):
        if case.get("stuck"):
            return self.stuck(env, case)
        d = env.dir()
        flog = os.path.join(d, "faults")
        plan = ";".join("%s@%d=%s" % tuple(p) for p in case["plan"])
        w = W(env, nagios=case["nagios"], variant=case["variant"], workdir=d, preload=[shim("fault")], aioms=case.get("aioms", 0),
              extra_env=dict(VF_PLAN=plan, VF_FLOG=flog, VF_FIFO=os.path.join(d, "cmd"), VF_SPOOL=os.path.join(d, "spool")))
        w.flog = flog
        for op in case["ops"]:
            w.run(op)
        if case["nofile"] == 1:
            w.drain()               # nothing to be spooled while there are no descriptors
            self.exhaust(env, w)
        elif case["nofile"]:
            w.exhausted = True      # spool files cannot be created
            self.exhaust(env, w)
        w.drain()
        w.sync()
        if not w.is_lossy():
            w.exact()
        else:
            # complete acknowledged commands only, none twice
            w.optional |= {x[0] for x in w.acked}
            w.acked = []
            w.exact()
        fired = w.fired()
        for f in fired:
            w.labels.add("fault " + f[0])
            path = f[3].strip()
            if lossy(f[0], f[2]) and path != "-" and any(s[0] == path for s in w.n.spools):
                raise Violation("PROCESS_FILE submitted for %s although %s failed" % (path, f[0]))
        if any(lossy(f[0], f[2]) for f in fired) and not w.srv.log().strip():
            raise Violation("a failure was not logged: %r" % fired)
        # nothing leaked
        for c in list(w.sess):
            w.quit(c)

        def leaked():
            f = w.srv.fds()
            bad = [x for x in f if x.startswith(w.srv.spool)]
            socks = [x for x in f if x.startswith("socket:")]
            return bad + socks[1:]
        if not wait_until(lambda: not leaked(), 5):
            raise Violation("descriptors left open: %r after faults %r" % (leaked(), fired))
        # a file that could not be completed is removed; others may refer to each other, so that they get lost with it
        failed = {os.path.basename(f[3].strip()) for f in fired if lossy(f[0], f[2])}

        def files():
            w.n.pump()
            return [x for x in os.listdir(w.srv.spool) if x in failed or not w.is_lossy()]
        if not wait_until(lambda: not files(), 5):
            raise Violation("temporary files left behind: %r after faults %r" % (files(), fired))
        w.srv.stop()
        w.n.pump()
        w.exact()
        return sorted(w.labels), bool(fired)

    @staticmethod
    def exhaust(env, w):
        """Really no descriptors left: what goes on, goes on; later sessions work."""
        old = w.session(0)
        pid = w.srv.pid()
        used = len(w.srv.fds())
        hard = resource.prlimit(pid, resource.RLIMIT_NOFILE)[1]
        resource.prlimit(pid, resource.RLIMIT_NOFILE, (used + 3, hard))
        cs = []
        for i in range(6):
            s = socket.socket()
            s.settimeout(5)
            try:
                s.connect((w.srv.ip, w.srv.port))
            except OSError:
                pass
            cs.append(s)
        wait_until(lambda: len(w.srv.fds()) >= used + 3, 2)
        w.push(0, 60)
        for s in cs:
            s.close()
        w.push(0, 61)
        resource.prlimit(pid, resource.RLIMIT_NOFILE, (1024, hard))
        w.push(8, 62)
        w.labels.add("no descriptors")
        del old


check = C19()
