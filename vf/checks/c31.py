"""C31: the Python module's submissions; objects in any state."""
from hypothesis import strategies as st
from ..modules import *
from ..nscad import Nscad
from .c30 import Results, cases

# submissions with arguments of the wrong type
MISUSE = {"host none": ("host_result", [None, 0, S("x")]), "host int": ("host_result", [1, 0, S("x")]), "status text": ("host_result", [S("h"), S("1"), S("x")]),
          "status none": ("host_result", [S("h"), None, S("x")]), "status float": ("host_result", [S("h"), 1.5, S("x")]),
          "output none": ("host_result", [S("h"), 0, None]), "output int": ("host_result", [S("h"), 0, 7]), "timeout text": ("host_result", [S("h"), 0, S("x"), S("3")]),
          "none": ("host_result", []), "few": ("svc_result", [S("h"), S("s")]), "many": ("host_result", [S("h"), 0, S("x"), 3, 4]),
          "svc none": ("svc_result", [S("h"), None, 0, S("x")]), "svc int": ("svc_result", [S("h"), 0, 0, S("x")]), "svc output none": ("svc_result", [S("h"), S("s"), 0, None]),
          "svc host none": ("svc_result", [None, S("s"), 0, S("x")]), "svc status text": ("svc_result", [S("h"), S("s"), S("0"), S("x")]),
          "svc status none": ("svc_result", [S("h"), S("s"), None, S("x")]), "svc timeout none": ("svc_result", [S("h"), S("s"), 0, S("x"), None])}
GOOD, BAD = "good", ["noargs", "cipher", "type", "nul"]


@st.composite
def life(draw):
    """Unusual object life cycles."""
    return dict(life=draw(st.lists(st.tuples(st.sampled_from(["new", "new", "bare", "init", "init", "del", "get", "send", "send", "churn", "misuse"]),
                                             st.integers(0, 2), st.one_of(st.sampled_from([GOOD, GOOD, GOOD] + BAD), st.sampled_from(sorted(MISUSE)))), min_size=1, max_size=10).map(
                                                 lambda l: [list(x) for x in l])))


class C31(Results):
    lang = "python"

    def strategy(self, tier):
        return st.one_of(cases("python"), cases("python"), cases("python"), life())

    @property
    def examples(self):
        return Results.examples.fget(self) + [dict(life=l) for l in (
            [["new", 0, "noargs"]], [["new", 0, "cipher"]], [["bare", 0, GOOD], ["send", 0, GOOD]], [["bare", 0, GOOD], ["get", 0, GOOD], ["del", 0, GOOD]],
            [["new", 0, GOOD], ["init", 0, GOOD], ["send", 0, GOOD], ["get", 0, GOOD]], [["new", 0, GOOD], ["churn", 0, GOOD], ["get", 0, GOOD]],
            [["new", 0, GOOD], ["send", 0, GOOD], ["init", 0, GOOD], ["send", 0, GOOD], ["del", 0, GOOD]],
            [["new", 0, GOOD]] + [["misuse", 0, x] for x in sorted(MISUSE)] + [["send", 0, GOOD]] + [["misuse", 0, x] for x in sorted(MISUSE)] + [["send", 0, GOOD]],
            [["new", 0, GOOD], ["init", 0, "cipher"], ["send", 0, GOOD], ["del", 0, GOOD]],
            [["new", 0, GOOD], ["send", 0, GOOD], ["init", 0, "noargs"], ["send", 0, GOOD], ["get", 0, GOOD]])]

    def run(self, env, case):
        if "life" not in case:
            return Results.run(self, env, case)
        ip = Interp(env, "python")
        srv = Nscad(env, ids=[("me", b"p")], respond=Strict())
        state = {}                  # None: never (successfully) initialized; "maybe": unknown; dict: values
        n = 0
        labels = set()

        def args(how):
            if how == "noargs":
                return [], {}
            a = [S(srv.ip), srv.port, S("me"), S("p")]
            k = {}
            if how == "cipher":
                k["ciphers"] = S("NONSENSE")
            elif how == "type":
                a[1] = S("x")
            elif how == "nul":
                a[0] = S("a\0b")
            return a, k
        for op, i, how in case["life"]:
            if op == "misuse":
                if how not in MISUSE:
                    how = sorted(MISUSE)[len(how) + i]
                if i not in state:
                    continue
            elif how in MISUSE:
                how = GOOD
            labels.add("%s %s" % (op, how) if op in ("new", "init", "misuse") else op)
            if op in ("new", "init"):
                if op == "init" and i not in state:
                    continue
                a, k = args(how)
                try:
                    ip.call(op, i, a, k)
                    if how != GOOD:
                        raise Violation("constructor accepted %r, %r" % (a, k))
                    state[i] = "good"
                except Died as x:
                    if how == GOOD:
                        raise Violation("constructor raised %s" % x)
                    if op == "init":
                        state[i] = "maybe"
            elif op == "bare":
                ip.call("bare", i)
                state[i] = None
            elif op == "del":
                ip.call("del", i)
                state.pop(i, None)
            elif op == "churn":
                ip.call("churn")
            elif op == "misuse":
                m, a = MISUSE[how]
                before = len(srv.talks)
                try:
                    ip.call(m, i, a)
                    raise Violation("%s(%r) accepted (%s)" % (m, a, how))
                except Died as x:
                    if not x.msg.startswith(b"TypeError") and not (state[i] is None and b"initialized" in x.msg):
                        raise Violation("%s(%r) (%s): %r" % (m, a, how, x.msg))
                if len(srv.talks) != before:
                    raise Violation("%s(%r) (%s): it contacted the server" % (m, a, how))
            elif i not in state:
                continue
            elif op == "get":
                for name, want in (("host", B(srv.ip)), ("port", srv.port)):
                    try:
                        v = ip.call("get", i, [name])
                    except Died as x:
                        raise Violation("attribute %s: %s" % (name, x))
                    if isinstance(v, dict):
                        v = bytes.fromhex(v["h"])
                    if state[i] == "good" and v != want:
                        raise Violation("attribute %s is %r, not %r" % (name, v, want))
            elif op == "send":
                n += 1
                t = "text %d" % n
                ip.send_result(i, S("h"), None, 0, S(t), timeout=3)
                try:
                    ip.reply(60)
                    ok = True
                except Died as x:
                    ok = False
                    if state[i] == "good":
                        raise Violation("submission failed: %s" % x)
                def acked():
                    return [c for k in srv.talks for c in k.acked if c and c.endswith(b";h;0;" + t.encode() + b"\n")]
                if ok:
                    wait_until(acked, 2)
                got = acked()
                if len(got) != ok or (ok and state[i] is None):
                    raise Violation("%s, but %d commands were acknowledged" % ("success" if ok else "failure", len(got)))
            if op in ("new", "init", "del") and ip.sockets() > len(state):
                raise Violation("%d connections of %d objects are still open after %s" % (ip.sockets(), len(state), op))
        ip.finish()
        return sorted(labels), True


check = C31()
