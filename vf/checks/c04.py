"""C04: acknowledged commands are delivered exactly once, unmodified."""
from hypothesis import strategies as st
from ..harness import *
from ..history import *
from ..run import Check


@st.composite
def cases(draw):
    sizes = draw(st.sampled_from([st.one_of(SMALL, SMALL, EDGE, LARGE), SMALL, st.one_of(EDGE, LARGE)]))
    return dict(ops=draw(st.lists(op_strategy(sizes, down=DOWN), min_size=3, max_size=25)),
                nagios=draw(st.sampled_from(["up", "up", "down"])),
                pipe=draw(st.sampled_from([0, 4096, 4096])),
                variant=draw(st.sampled_from(["san", "san", "noaio"])), aioms=draw(AIOMS))


class C04(Check):
    needs = ("san", "noaio")
    rule = ("A case is a history of up to 25 operations of 4 clients (pushes of 20 to 100000 bytes, simultaneous bursts, "
            "uploads broken off after k bytes) and of the reader (stalled, resumed, closed, reopened, absent at start, its FIFO removed and created anew), with "
            "and without POSIX AIO; the model is the multiset of acknowledged commands.  Non-trivial if the reader was "
            "stalled or absent or an upload was broken off, and at least two commands were acknowledged.")
    assumptions = ["the reader drains the pipe before it goes away (data inside a pipe dies with it)",
                   "the server's clock runs 100 times faster, so that its 10 s interval for reopening the command file passes quickly"]
    cases = dict(quick=800, thorough=16000)
    examples = [
        dict(variant=v, nagios="down", pipe=4096, ops=[["push", 0, 5000, True], ["push", 1, 50, True], ["up"],
             ["push", 0, 70000, True], ["push", 0, 30, True], ["stall"], ["push", 0, 4096, True], ["push", 1, 4096, True],
             ["push", 2, 4096, True], ["push", 2, 30, True], ["resume"], ["down"], ["push", 0, 40, True],
             ["push", 0, 40, True], ["pause", 130], ["up"]]) for v in ("san", "noaio")] + [
        dict(variant=v, nagios="up", pipe=0, ops=[["push", 0, 50, True], ["down", how], ["push", 0, 40, True], ["push", 1, size, True],
             ["pause", 130], ["push", 0, 41, True], ["up"], ["push", 2, 60, True]])
        for v in ("san", "noaio") for how in ("remove", "replace") for size in (40, 9000)] + [
        # stopped while a spool file is being written
        dict(variant="san", nagios="up", pipe=4096, aioms=100, ops=[["push", 1, 50, True], ["abort", 0, 18837, 1000000, "notify"], ["pause", 40]])]

    def strategy(self, tier):
        return cases()

    def run(self, env, case):
        w = World(env, nagios=case["nagios"], pipe=case["pipe"], variant=case["variant"], aioms=case.get("aioms", 0))
        for op in case["ops"]:
            w.run(op)
        w.finish()
        return sorted(w.labels), bool(w.labels & {"stalled", "down", "aborted", "restarted"}) and len(w.acked) > 2


check = C04()
