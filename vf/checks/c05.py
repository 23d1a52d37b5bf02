"""C05: atomic whole-line writes to the command file; private, complete spool files."""
import random, re, threading
from hypothesis import strategies as st
from ..harness import *
from ..history import *
from ..run import Check


def foreign_line(i, size):
    head = b"[%d] FOREIGN;" % i
    return head + (b"f%d." % i * size)[:max(0, size - len(head) - 1)] + b"\n"


class Foreign(threading.Thread):
    """Another process' writes into the same FIFO, each at most PIPE_BUF."""

    def __init__(self, path, seed):
        threading.Thread.__init__(self, daemon=True)
        self.path, self.rnd, self.halt = path, random.Random(seed), False
        self.written = []
        self.i = 0

    def run(self):
        fd = -1
        while not self.halt:
            if fd == -1:
                try:
                    fd = os.open(self.path, os.O_WRONLY | os.O_NONBLOCK)
                    if not stat.S_ISFIFO(os.fstat(fd).st_mode):
                        os.close(fd)
                        fd = -1
                except OSError:
                    pass
            if fd != -1:
                l = foreign_line(self.i, self.rnd.choice([20, 100, 1000, 4096, 3000]))
                try:
                    os.write(fd, l)
                    self.written.append(l)
                except BlockingIOError:
                    pass
                except OSError:
                    os.close(fd)
                    fd = -1
                self.i += 1
            time.sleep(self.rnd.choice([0.0002, 0.001, 0.003]))
        if fd != -1:
            os.close(fd)


@st.composite
def cases(draw):
    sizes = draw(st.sampled_from([st.one_of(SMALL, SMALL, EDGE, LARGE), EDGE, st.one_of(EDGE, SMALL)]))
    op = op_strategy(sizes, weights=dict(stall=3, resume=3, burst=3))
    ops = draw(st.lists(st.one_of(op, op, op, op, op, op, op, op, st.just(["swap"])), min_size=3, max_size=22))
    return dict(ops=ops, nagios=draw(st.sampled_from(["up", "up", "up", "down"])),
                pipe=draw(st.sampled_from([0, 4096, 8192])), variant=draw(st.sampled_from(["san", "san", "noaio"])),
                foreign=draw(st.sampled_from([0, 1, 2, 3])), aioms=draw(AIOMS),
                odd=draw(st.sampled_from(["", "", "", "regular", "symlink", "dir", "missing"])))


class C05(Check):
    needs = ("san", "noaio")
    rule = ("A case is a history like C04's with command sizes around PIPE_BUF, in which foreign processes write whole "
            "lines into the same FIFO and the command file is sometimes a regular file, symlink or directory, or missing, at start or "
            "later; a preloaded recorder observes every write to the FIFO and the file named by each PROCESS_FILE at that "
            "moment.  Non-trivial if data was spooled, or a write was rejected with EAGAIN, or the file was no FIFO.")
    assumptions = ["PIPE_BUF is 4096 (Linux)"]
    cases = dict(quick=700, thorough=12000)

    def strategy(self, tier):
        return cases()

    def run(self, env, case):
        d = env.dir()
        log = os.path.join(d, "writes")
        fifo = os.path.join(d, "cmd")
        odd = case["odd"]
        precious = os.path.join(d, "precious")
        with open(precious, "wb") as f:
            f.write(b"precious\n")
        if odd == "regular":
            os.link(precious, fifo)
        elif odd == "symlink":
            os.symlink(precious, fifo)
        elif odd == "dir":
            os.mkdir(fifo)
        w = World(env, nagios="down" if odd else case["nagios"], pipe=case["pipe"], variant=case["variant"], workdir=d, aioms=case.get("aioms", 0),
                  preload=[shim("record")], extra_env=dict(VF_FIFO=fifo, VF_LOG=log), fifo=not odd)
        blocked = bool(odd)         # the command file is not a FIFO at the moment
        ths = [Foreign(fifo, k) for k in range(1)] if case["foreign"] else []
        for t in ths:
            t.start()
            env.cleanups.append(lambda t=t: setattr(t, "halt", True))

        def intact():
            with open(precious, "rb") as f:
                x = f.read()
            if x != b"precious\n":
                raise Violation("the command file was written to although it is not a FIFO: %r" % x[:200])

        def restore():
            intact()
            if os.path.isdir(fifo):
                if os.listdir(fifo):
                    raise Violation("something was created inside the command file directory")
                os.rmdir(fifo)
            elif os.path.lexists(fifo):
                if odd == "missing" and not swapped:
                    raise Violation("the server created the command file itself")
                os.unlink(fifo)
            os.mkfifo(fifo, 0o600)

        swapped = False
        for op in case["ops"]:
            if op[0] == "swap":
                if not blocked:
                    w.down()
                    os.unlink(fifo)
                    os.link(precious, fifo)
                    blocked = swapped = True
                    w.labels.add("swapped")
                else:
                    restore()
                    blocked = False
                continue
            if blocked and op[0] in ("up", "stall", "resume", "down"):
                time.sleep(0.02)
                intact()
                continue
            w.run(op)
        if blocked:
            time.sleep(0.15)    # time for an attempt at opening it
            restore()
        for t in ths:
            t.halt = True
            t.join()
        foreign = [l for t in ths for l in t.written]
        # drain, setting foreign lines aside
        fset = set(foreign)
        n = w.n
        orig = n._line

        def split():
            keep = [(x, o) for x, o in zip(n.cmds, n.origin) if not (x in fset and o is None)]
            n.foreign += [x for x, o in zip(n.cmds, n.origin) if x in fset and o is None]
            n.cmds[:] = [x for x, o in keep]
            n.origin[:] = [o for x, o in keep]
        w.drain()
        split()
        w.exact()
        w.finish(stop=False)
        split()
        lost = len(foreign) - len(n.foreign)
        if sorted(n.foreign) != sorted(set(n.foreign)):
            raise Violation("a foreign line was duplicated")
        w.srv.stop()
        n.pump()
        intact()
        recs = []
        if os.path.exists(log):
            with open(log) as f:
                recs = [l.split() for l in f]
        eagain = False
        named = {}
        for r in recs:
            if r[0] == "W":
                req, ret, err = int(r[1]), int(r[2]), int(r[3])
                data = bytes.fromhex(r[4]) if len(r) > 4 else b""
                if req > 4096:
                    raise Violation("write of %d bytes to the command file" % req)
                if not data.endswith(b"\n"):
                    raise Violation("write to the command file does not end with a complete line: %r" % data[-60:])
                if not data.startswith(b"["):
                    raise Violation("write to the command file starts within a line: %r" % data[:60])
                if ret != req and ret != -1:
                    raise Violation("short write to the command file")
                eagain |= err == errno.EAGAIN
            else:
                named.setdefault(r[1], []).append(r)
        for path, mode, uid, size, _ in n.spools:
            if mode != 0o600:
                raise Violation("spool file has mode %o" % mode)
            if uid != os.getuid():
                raise Violation("spool file belongs to uid %d" % uid)
            for r in named.get(path, []):
                if r[2] != "1":
                    raise Violation("PROCESS_FILE submitted for a file that does not exist yet")
                if int(r[3]) != size:
                    raise Violation("PROCESS_FILE submitted when only %s of %d bytes were written" % (r[3], size))
                if r[4] != "600":
                    raise Violation("spool file has mode %s when submitted" % r[4])
        if len({s[0] for s in n.spools}) != len(n.spools):
            raise Violation("spool file name reused")
        if eagain:
            w.labels.add("EAGAIN")
        if n.foreign:
            w.labels.add("foreign")
        if odd:
            w.labels.add(odd)
        return sorted(w.labels), bool(n.spools) or eagain or bool(odd) or swapped


check = C05()
