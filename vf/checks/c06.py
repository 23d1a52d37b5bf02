"""C06: order of submission."""
from hypothesis import strategies as st
from ..harness import *
from ..history import *
from ..run import Check


@st.composite
def cases(draw):
    mode = draw(st.sampled_from(["direct", "direct", "mixed"]))
    if mode == "direct":
        # at most PIPE_BUF bytes queue up while the reader is away
        ops = []
        queued = 0
        away = draw(st.booleans())
        start = "down" if away else "up"
        for _ in range(draw(st.integers(5, 40))):
            k = draw(st.integers(0, 11))
            if k <= 7:
                n = draw(st.one_of(st.integers(20, 120), st.integers(20, 600)))
                if away and queued + n > 3900:
                    continue
                queued += n
                ops.append(["push", draw(st.integers(0, 3)), n, draw(st.sampled_from([True] * 7 + [False]))])
            elif k == 8 and not away:
                ops.append(["burst", [0, 1, 2, 3][:draw(st.integers(2, 4))], draw(st.integers(60, 500))])
            elif k == 9:
                if not away:
                    ops.append(list(draw(st.sampled_from([("down",), ("stall",), ("stall",), ("down", "remove"), ("down", "replace")]))))
                    away, queued = True, 0
                    # a stalled reader needs a full pipe first: two commands of almost PIPE_BUF each
                    if ops[-1][0] == "stall":
                        ops += [["push", 0, 4000, True]]
            elif k == 10:
                if away:
                    ops += [["up"], ["resume"], ["pause", 150]]
                    away = False
            else:
                ops.append(["quit", draw(st.integers(0, 3))])
        return dict(ops=ops, nagios=start, pipe=4096, variant=draw(st.sampled_from(["san", "noaio"])), mode=mode, aioms=draw(AIOMS))
    op = op_strategy(st.one_of(SMALL, SMALL, EDGE), weights=dict(stall=3, resume=2, abort=0, push=12), down=DOWN)
    return dict(ops=draw(st.lists(op, min_size=5, max_size=30)), nagios=draw(st.sampled_from(["up", "down"])),
                pipe=draw(st.sampled_from([4096, 0])), variant=draw(st.sampled_from(["san", "noaio"])), mode=mode, aioms=draw(AIOMS))


class C06(Check):
    needs = ("san", "noaio")
    rule = ("A case is a history of up to 40 pushes by 4 clients with the reader absent or stalled (pipe of one page) at "
            "times; every pair of commands of which one was sent after the other's acknowledgement must be delivered in "
            "that order - in the whole stream if nothing was spooled, else within each spool file.  Non-trivial if at "
            "least three commands were queued while the reader was absent or stalled.")
    assumptions = ["once something is spooled, no order is promised between spool files and directly written commands"]
    cases = dict(quick=800, thorough=16000)

    def strategy(self, tier):
        return cases()

    def run(self, env, case):
        w = World(env, nagios=case["nagios"], pipe=case["pipe"], variant=case["variant"], aioms=case.get("aioms", 0))
        queued = most = 0
        for op in case["ops"]:
            before = len(w.acked)
            w.run(op)
            if w.state == "up":
                queued = 0
            else:
                queued += len(w.acked) - before
                most = max(most, queued)
        w.finish()
        w.order()
        w.labels.add("direct only" if not w.n.spools else "with spool files")
        if most >= 3:
            w.labels.add("queued")
        return sorted(w.labels), most >= 3


check = C06()
