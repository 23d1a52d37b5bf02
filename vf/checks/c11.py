"""C11: the backlog is bounded and dropped as whole commands."""
from hypothesis import strategies as st
from ..harness import *
from ..history import *
from ..run import Check

MB = 1 << 20


@st.composite
def cases(draw):
    limit = draw(st.sampled_from([1, 1, 1, 2, 0, None]))
    sizes = draw(st.lists(st.one_of(st.integers(100, 3000), st.integers(30000, 300000), st.integers(30000, 300000),
                                    st.sampled_from([MB // 2, MB // 4, MB // 8, 262143, 262145, MB - 1, MB, MB + 1])),
                          min_size=4, max_size=24))
    # steer sums to the very limit now and then
    if draw(st.booleans()) and limit:
        k = draw(st.integers(1, len(sizes)))
        s = sum(sizes[1:k])
        gap = limit * MB - s
        if 40 <= gap <= MB:
            sizes.insert(k, gap + draw(st.integers(-2, 2)))
    rounds = draw(st.integers(1, 2))
    return dict(limit=limit, sizes=sizes, again=draw(st.lists(st.integers(100, 300000), max_size=8)) if rounds == 2 else [],
                start=draw(st.sampled_from(["down", "down", "lost"])), variant=draw(st.sampled_from(["san", "noaio"])),
                flood=draw(st.sampled_from([0] * 30 + [30])))


class C11(Check):
    needs = ("san", "noaio", "plain")
    rule = ("A case pushes 4-25 commands of 100 bytes to 1 MB while no reader is there, with max_queue_size 1, 2, 0 "
            "(unlimited) or the default, then lets the reader appear; the model tracks which commands a drop-everything-"
            "on-overflow queue holds, once counting the command at the head and once not.  Non-trivial if the queue overflowed or came "
            "within 10 % of the limit.")
    assumptions = ["the head command, which the server has already taken out of the queue for writing, may or may not count "
                   "towards the limit", "memory is judged by what is delivered and, in the flood cases, by VmRSS"]
    cases = dict(quick=320, thorough=6000)
    examples = [dict(limit=1, sizes=[100] + [100000] * 11 + [500], again=[], start=s, variant=v, flood=f)
                for s in ("down", "lost") for v in ("san", "noaio") for f in (0, 30)]

    def strategy(self, tier):
        return cases()

    def run(self, env, case):
        limit = case["limit"]
        conf = ("" if limit is None else "max_queue_size = %d\n" % limit) + CONF
        lim = None if limit == 0 else (1024 if limit is None else limit) * MB
        variant = "plain" if case["flood"] else case["variant"]
        w = World(env, conf=conf, nagios="down" if case["start"] == "down" else "up", variant=variant)
        if case["start"] == "lost":
            w.push(0, 50)
            w.down()
        labels = set()
        overflow = near = False
        ends = set()
        for phase in (case["sizes"], case["again"]):
            if not phase:
                continue
            if w.state != "down":
                w.down()
            base = len(w.acked)
            sims = [[0, []], [0, []]]        # [queued bytes, commands] without/with the head
            head = None
            if not (phase is case["sizes"] and case["start"] == "down"):
                # let the server notice that the reader has gone
                w.push(0, 60)
                head = w.acked[-1][0]
                sims[1] = [len(head), [head]]
                if not wait_until(lambda: w.srv.fifo not in w.srv.fds()):
                    raise Violation("the server keeps a command file open whose reader has gone")
            if case["flood"]:
                rss0 = self.rss(w)
                for i in range(case["flood"]):
                    phase = phase + [MB - 1]
            for size in phase:
                w.push(0, size)
                cmd = w.acked[-1][0]
                if head is None:
                    head = cmd
                    sims[1] = [len(cmd), [cmd]]
                    continue
                for q in sims:
                    if lim is not None and q[0] + len(cmd) > lim:
                        overflow = True
                        q[0], q[1] = 0, []
                    elif lim is not None and q[0] + len(cmd) > lim * 9 // 10:
                        near = True
                    q[0] += len(cmd)
                    q[1].append(cmd)
            if case["flood"] and lim is not None:
                grown = self.rss(w) - rss0
                # the queue is made of 128-byte blocks, which costs memory on top
                if grown > 3 * lim + 12 * MB:
                    raise Violation("memory grew by %d MB with max_queue_size = %d" % (grown // MB, limit))
                labels.add("flood")
            must = set(sims[0][1]) & set(sims[1][1])
            may = {x[0] for x in w.acked[base:]}
            # let the reader come back
            w.up()
            n = w.n
            if not n.wait(lambda n: must <= set(n.cmds) or n.problems):
                miss = [x for x in sims[0][1] if x in must and x not in set(n.cmds)]
                w.srv.check_alive()
                raise Violation("%d of %d commands which fit into the queue (limit %s MB) were lost, first: %r" % (
                    len(miss), len(must), limit, miss[0][:40]))
            w.seq += 1
            last = w.srv.session("sentinel", "p")
            end = b"[1] SENTINEL %d\n" % w.seq
            ends.add(end)
            last.submit(end)
            if not n.wait(lambda n: end in n.cmds):
                raise Violation("delivery does not continue after the backlog")
            last.quit()
            got = [x for x in n.cmds if x not in ends]
            known = {x[0] for x in w.acked}
            for x in got:
                if x not in known:
                    raise Violation("damaged or unknown command delivered: %d bytes, %r" % (len(x), x[:60]))
            if len(set(got)) != len(got):
                raise Violation("command delivered twice")
            order = {x[0]: i for i, x in enumerate(w.acked)}
            here = [x for x in got if x in may]
            if [order[x] for x in here] != sorted(order[x] for x in here):
                raise Violation("backlog delivered out of order")
            if lim is not None:
                total = sum(map(len, here)) - (len(head) if head in here else 0)
                if total > max(lim, max(map(len, here), default=0)):
                    raise Violation("backlog of %d bytes kept with max_queue_size = %d" % (total, limit))
            elif set(here) != may:
                raise Violation("commands lost although max_queue_size is unlimited")
            # what was dropped is no longer expected
            w.acked = [x for x in w.acked if x[0] in set(got)]
        if n.pending or n.problems:
            raise Violation("%r %r" % (n.pending[:60], n.problems))
        w.srv.stop()
        if overflow:
            labels.add("overflow")
        labels.add("limit %s" % limit)
        return sorted(labels), overflow or near

    @staticmethod
    def rss(w):
        with open("/proc/%d/status" % w.srv.pid()) as f:
            for l in f:
                if l.startswith("VmRSS"):
                    return int(l.split()[1]) * 1024


check = C11()
