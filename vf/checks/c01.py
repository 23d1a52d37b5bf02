"""C01: authorization decisions against a reference regex model."""
import re
from hypothesis import strategies as st
from ..harness import *
from ..run import Check
from .. import regexgen as rg

HOSTC, SVCC = b"PROCESS_HOST_CHECK_RESULT", b"PROCESS_SERVICE_CHECK_RESULT"


def allowed(case, line):
    """True/False, or None where the documentation leaves it open.  `line` is the
    complete command without its newline."""
    m = re.match(rb"\[([^\]]*)\]", line)
    if not m:
        return False
    body = line[m.end():].lstrip(b" \t")
    verdicts = []
    f = body.split(b";")
    for a in case["commands"]:
        if rg.fullmatch(a, body):
            verdicts.append(True)
        elif rg.fullmatch(a, body + b"\n"):
            verdicts.append(None)
    for a in case["hosts"]:
        if f[0] == HOSTC and len(f) >= 3 and rg.fullmatch(a, f[1]):
            verdicts.append(True if b";".join(f[2:]) else None)
    for s, h in case["services"]:
        if f[0] == SVCC and len(f) >= 4 and rg.fullmatch(s, f[2]) \
                and (rg.fullmatch(h, f[1]) if h is not None else True):
            ok = len(f) >= 5 and re.fullmatch(rb"\d+", f[3]) and b";".join(f[4:])
            ok = ok and (h is not None or f[1])
            verdicts.append(True if ok else None)
    v = True if True in verdicts else None if None in verdicts else False
    if v and not re.fullmatch(rb"\d{1,12}", m.group(1)):
        return None
    return v


def conf_text(case):
    def lst(xs):
        return "{%s}" % ", ".join(cq(x) for x in xs) if len(xs) != 1 or case.get("braces") else cq(xs[0])
    pad = case.get("pad", 0)  # patterns which match nothing, in front of the others

    def fill(f):
        return [f % (i, "QZ" * (1 + i % 7)) for i in range(pad)]
    t = 'authorize "sentinel" {\n password = "p"\n commands = ".*"\n}\n'
    t += 'authorize "client" {\n password = "p"\n'
    if case["commands"]:
        t += " commands = %s\n" % lst(fill("Q%d(%s)+Z") + [rg.ere(a) for a in case["commands"]])
    if case["hosts"]:
        t += " hosts = %s\n" % lst(fill("Q%d%sZ|QQZ") + [rg.ere(a) for a in case["hosts"]])
    if case["services"]:
        t += " services = %s\n" % lst(fill("Q%d@%s") + [rg.ere(s) + ("" if h is None else "@" + rg.ere(h))
                                                        for s, h in case["services"]])
    return t + "}\n"


def mutate(draw, s):
    k = draw(st.integers(0, 9))
    if not s or k == 0:
        return s + draw(st.sampled_from(["x", ";x", " ", ";0;a", "jupiter"]))
    i = draw(st.integers(0, len(s) - 1))
    if k <= 2:
        return s[:i] + s[i + 1:]
    if k <= 5:
        return s[:i] + draw(st.sampled_from("abjx01 ;@-_.]\\n|^$")) + s[i:]
    if k == 6:
        return draw(st.sampled_from(["x", ";", "SHUTDOWN_PROGRAM;", "PROCESS_HOST_CHECK_RESULT;"])) + s
    if k == 7:
        return s[:i] + s[i].swapcase() + s[i + 1:]
    if k == 8:
        return s[:i]
    return s[:i] + draw(st.sampled_from(";jupiter;|;mars;0;|\xe4|;;".split("|"))) + s[i:]


@st.composite
def cases(draw):
    ha = rg.asts(semicolon=False)
    sa = rg.asts(at=True)
    hosts = draw(st.lists(ha, max_size=2))
    services = draw(st.lists(st.one_of(st.tuples(sa, ha), st.tuples(rg.asts(), st.none())), max_size=2))
    cmds = draw(st.lists(st.one_of(rg.asts(alphabet="abjx01-_ ", semicolon=True,
                                           words=("ENABLE_NOTIFICATIONS", "PROCESS_HOST_CHECK_RESULT;",
                                                  "jupiter", "DEL_ALL")),), max_size=2))
    if not (hosts or services or cmds):
        hosts = [rg.word("jupiter")]
    services = [list(x) for x in services]
    lines = []
    n = draw(st.integers(3, 14))
    for _ in range(n):
        src = []
        if hosts:
            src += ["host"] * 3
        if services:
            src += ["svc"] * 3
        if cmds:
            src += ["cmd"] * 2
        src += ["other"]
        k = draw(st.sampled_from(src))
        # occasionally keep fields free of ; and occasionally not
        def S(a, field):
            s = rg.sample(draw, a)
            if field and draw(st.integers(0, 5)):
                s = s.replace(";", "a")
            return s
        out = draw(st.sampled_from(["OK", "0", "DISK OK - 50%;x", "a;b;c", "mars", "jupiter;0;x", "\\n[1] X", "[1] A]b"]))
        stt = draw(st.sampled_from(["0", "1", "2", "3", "00"]))
        if k == "host":
            h = S(draw(st.sampled_from(hosts)), True)
            if draw(st.integers(0, 3)) == 0:
                h = mutate(draw, h)
            body = "PROCESS_HOST_CHECK_RESULT;%s;%s;%s" % (h, stt, out)
        elif k == "svc":
            s, h = draw(st.sampled_from(services))
            hs = S(h, True) if h is not None else draw(st.sampled_from(["jupiter", "mars", "a"]))
            ss = S(s, True)
            if draw(st.integers(0, 3)) == 0:
                ss = mutate(draw, ss)
            if draw(st.integers(0, 3)) == 0:
                hs = mutate(draw, hs)
            body = "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%s;%s" % (hs, ss, stt, out)
        elif k == "cmd":
            body = S(draw(st.sampled_from(cmds)), False)
        else:
            # cross-overs: patterns' strings where they do not belong
            pool = [rg.sample(draw, a) for a in hosts + [s for s, h in services] +
                    [h for s, h in services if h is not None]] or ["x"]
            x, y = draw(st.sampled_from(pool)), draw(st.sampled_from(pool))
            tmpl = draw(st.sampled_from([
                "%s", "SHUTDOWN_PROGRAM;%s", "PROCESS_HOST_CHECK_RESULT;evil;%s;0;x",
                "PROCESS_HOST_CHECK_RESULT;evil;0;%s", "PROCESS_HOST_CHECK_RESULT;%s",
                "PROCESS_HOST_CHECK_RESULT;evil;PROCESS_HOST_CHECK_RESULT;%s;0;x",
                "PROCESS_SERVICE_CHECK_RESULT;evil;evil;0;%s", "PROCESS_SERVICE_CHECK_RESULT;%s;evil;0;x",
                "PROCESS_SERVICE_CHECK_RESULT;evil;%s;0;x", "PROCESS_SERVICE_CHECK_RESULT;evil;a;b;%s;0;x",
                "PROCESS_HOST_CHECK_RESULT_X;%s;0;x", "XPROCESS_HOST_CHECK_RESULT;%s;0;x",
                "PROCESS_SERVICE_CHECK_RESULT;%s;0;x", "SCHEDULE_HOST_CHECK;%s;0;x", ";%s;0;x", "%s;0;x", "%s;",
                "process_host_check_result;%s;0;x"]))
            body = tmpl % x
            if draw(st.booleans()):
                body = body + ";" + y + ";0;x"
        if draw(st.integers(0, 7)) == 0:
            body = mutate(draw, body)
        pre = draw(st.sampled_from(["[1600000000] "] * 12 + ["[1] ", "[1600000000]", "[1600000000]  \t ", "",
                                                            "x[1] ", " [1] ", "] ", "FOO;] ", "[",
                                                            "[1600000000", "SHUTDOWN_PROGRAM [1] ", "[1][2] "]))
        line = pre + body
        line = line.replace("\n", "").replace("\0", "")
        lines.append(line)
    pad = max(0, draw(st.integers(0, 70)) - 35)
    return dict(hosts=hosts, services=services, commands=cmds, lines=lines, pad=pad,
                braces=draw(st.booleans()), tls=draw(st.sampled_from([12, 13])))


class C01(Check):
    rule = ("A case is a random set of host, service and command patterns (ERE syntax trees) and 3-14 command lines "
            "sampled from them, mutated, or crossing patterns into wrong fields; it is non-trivial if the model both "
            "accepts at least one line and rejects at least one.")
    assumptions = ["Python's re module and glibc's regex agree on the generated sub-language",
                   "where a command lacks fields (no status/output) or has a non-numeric timestamp, both verdicts are allowed"]
    cases = dict(quick=1600, thorough=30000)

    def strategy(self, tier):
        return cases()

    examples = [
        dict(hosts=[["alt", [rg.word("a"), rg.word("b")]]], services=[], commands=[], braces=False, tls=13,
             lines=["[1] PROCESS_HOST_CHECK_RESULT;a;0;x", "[1] PROCESS_HOST_CHECK_RESULT;b;0;x",
                    "[1] SHUTDOWN_PROGRAM;b;0;x", "[1] PROCESS_HOST_CHECK_RESULT;axx;0;x"]),
        dict(hosts=[], services=[[["alt", [rg.word("a"), rg.word("b")]], ["alt", [rg.word("c"), rg.word("d")]]]],
             commands=[["alt", [rg.word("A"), rg.word("B")]]], braces=False, tls=12,
             lines=["[1] PROCESS_SERVICE_CHECK_RESULT;c;a;0;x", "[1] PROCESS_SERVICE_CHECK_RESULT;d;b;0;x",
                    "[1] PROCESS_SERVICE_CHECK_RESULT;c;z;0;x", "[1] PROCESS_SERVICE_CHECK_RESULT;z;a;0;x",
                    "[1] B", "[1] A", "[1] AX", "[1] XB", "[1] PROCESS_SERVICE_CHECK_RESULT;cX", "[1] ;b;0;x"]),
        dict(hosts=[["seq", [["rep", ["any"], "*"], *rg.word("foo")[1]]]],
             services=[[["seq", [["rep", ["any"], "*"], *rg.word("disk")[1]]], None]], commands=[],
             braces=False, tls=13,
             lines=["[1] PROCESS_HOST_CHECK_RESULT;evil;0;x;foo;0", "[1] PROCESS_HOST_CHECK_RESULT;xfoo;0;x",
                    "[1] PROCESS_SERVICE_CHECK_RESULT;h;evil;0;disk;0;x", "[1] PROCESS_SERVICE_CHECK_RESULT;h;adisk;0;x"]),
        dict(hosts=[rg.word("jupiter")], services=[], commands=[], braces=True, tls=13,
             lines=["SHUTDOWN_PROGRAM;] PROCESS_HOST_CHECK_RESULT;jupiter;0;x", "x[1] PROCESS_HOST_CHECK_RESULT;jupiter;0;x",
                    "PROCESS_HOST_CHECK_RESULT;jupiter;0;x", "[1] PROCESS_HOST_CHECK_RESULT;jupiter;0;x"]),
    ]

    def run(self, env, case):
        srv = Server(env, conf_text(case))
        s = srv.session("client", "p", tls=case["tls"])
        root = srv.session("sentinel", "p")
        expect, labels = [], []
        for i, l in enumerate(case["lines"]):
            line = B(l)
            v = allowed(case, line)
            ok = s.submit(line + b"\n")
            if v is True and not ok:
                raise Violation("permitted command refused: %r (patterns: %s)" % (l, conf_text(case)))
            if v is False and ok:
                raise Violation("command accepted although no pattern permits it: %r (patterns: %s)" % (
                    l, conf_text(case)))
            labels.append({True: "permitted", False: "forbidden", None: "open"}[v])
            if ok:
                expect.append(line + b"\n")
        end = b"[1] SENTINEL\n"
        if not root.submit(end):
            raise Violation("sentinel command refused")
        if not srv.nagios.wait_for(end):
            raise Violation("sentinel command never delivered")
        if srv.nagios.cmds != expect + [end]:
            raise Violation("delivered %r instead of %r" % (srv.nagios.cmds, expect + [end]))
        s.quit()
        srv.check_alive()
        return sorted(labels), "permitted" in labels and "forbidden" in labels


check = C01()
