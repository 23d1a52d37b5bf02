"""C18: log messages."""
import base64, hashlib
from collections import Counter
from hypothesis import strategies as st
from ..harness import *
from ..history import shim
from ..nscad import Nscad, Stop
from ..run import Check

NAMES = {"FATAL": 0, "ERROR": 1, "WARNING": 2, "NOTICE": 3, "INFO": 4, "DEBUG": 5}
PRI = {2: 0, 3: 1, 4: 2, 5: 3, 6: 4, 7: 5}      # syslog priorities
TOKENS = ["%s", "%n", "%x", "%d%d%d", "%m", "%%", "%", "%1$s", "%99999d", "%.2f", "%*d", "\\n", "\\", "a", "b", "word", "[1]", ";", ";;",
          "\xe4", "\x01", "\x1b", "'", '"', "`", "`%s'", "{}", "$x", "<3>", "x" * 40]


def password(seed, n):
    t = b""
    while len(t) < n:
        t += base64.b64encode(hashlib.sha256(b"%d %d" % (seed, len(t))).digest()).translate(None, b"+/=")
    return t[:n]


def windows(pw):
    """Anything which would reveal (part of) a password."""
    out = set()
    for f in (pw, pw.hex().encode(), pw.hex().upper().encode(), pw[::-1]):
        out |= {f[i:i + 8] for i in range(len(f) - 7)}
    for k in range(3):
        e = base64.b64encode(pw[k:])
        out |= {e[i:i + 10] for i in range(0, len(e) - 13)}
    return out


def reveal(text, pws):
    for pw in pws:
        for w in windows(pw):
            if w in text:
                i = text.index(w)
                return text[max(0, i - 100):i + 60]
    return None


def text(sep=" ", mn=0, mx=8):
    return st.lists(st.sampled_from(TOKENS + [sep] * 4), min_size=mn, max_size=mx).map("".join)


word = text(sep="_", mn=1, mx=6).filter(lambda s: s.strip() == s)
sizes = st.sampled_from([0] * 6 + [100, 500, 700, 800, 3000])


@st.composite
def command(draw):
    return dict(op="push", ok=draw(st.booleans()), text=draw(text()), pad=draw(sizes),
                bad=draw(st.sampled_from([None] * 12 + ["no newline", "embedded newline", "nul", "no timestamp"])))


line = st.one_of(text(mn=1), text(mn=1).map(lambda s: "PUSH " + s), text(mn=1).map(lambda s: "FOO " + s),
                 st.sampled_from(["PUSH", "PUSH 0", "PUSH -1", "PUSH 999999999", "%s%s%s%n", "MOIN 1 x", "HELP", "GET / HTTP/1.0"]))


@st.composite
def session(draw):
    return dict(who=draw(st.integers(0, 3)), auth=draw(st.sampled_from(["ok"] * 8 + ["wrong", "unknown"])), src=draw(st.integers(1, 5)),
                sid=draw(word), pre=draw(st.lists(line, max_size=1)),
                ops=draw(st.lists(st.one_of(command(), command(), command(), line.map(lambda l: dict(op="line", text=l)), st.just(dict(op="noop"))),
                                  max_size=5)),
                end=draw(st.sampled_from(["quit"] * 4 + ["bail", "notify", "fin", "ping", "long"])), bye=draw(text()), tls=draw(st.sampled_from([12, 13])))


@st.composite
def server_case(draw):
    level = draw(st.sampled_from([0, 1, 2, 3, 3, 4, 4, 5, 5]))
    return dict(kind="server", level=level, via=draw(st.sampled_from(["cfg", "cli", "both", "both"])) if level != 3 else
                draw(st.sampled_from(["cfg", "cli", "both", "default", "default"])),
                target=draw(st.sampled_from(["F", "F", "F", "FS", "Fs", "daemon", "act"])),
                ids=draw(st.lists(word.map(lambda s: s[:100]), min_size=4, max_size=4)), sessions=draw(st.lists(session(), min_size=1, max_size=4)),
                pw=draw(st.integers(0, 10 ** 6)), pwlen=draw(st.sampled_from([12, 16, 24, 60, 200])),
                other=draw(st.sampled_from([None, None, 0, 1, 2, 3, 4, 5])), star=draw(st.booleans()))


@st.composite
def client_case(draw):
    return dict(kind="client", v=draw(st.integers(0, 4)), target=draw(st.sampled_from(["", "", "-S", "-s", "-sS"])),
                cmds=draw(st.lists(command(), min_size=1, max_size=4)), raw=draw(st.booleans()),
                at=draw(st.sampled_from([None, None, "moin", "push", "data", "quit"])), nth=draw(st.integers(0, 2)),
                say=draw(st.sampled_from(["FAIL ", "BAIL ", "fail ", ""])), text=draw(text()), end=draw(st.booleans()),
                pw=draw(st.integers(0, 10 ** 6)), pwlen=draw(st.sampled_from([12, 16, 24, 60, 200])), wrong=draw(st.sampled_from([False] * 5 + [True])),
                ident=draw(word))


@st.composite
def conf_case(draw):
    return dict(kind=draw(st.sampled_from(["cconf", "sconf"])), v=draw(st.integers(0, 4)), pw=draw(st.integers(0, 10 ** 6)),
                pwlen=draw(st.sampled_from([12, 16, 24, 60, 200, 1990, 2046, 2047, 2048, 3000])), quote=draw(st.sampled_from(['"', "'", ""])),
                form=draw(st.sampled_from(["ok", "junk after", "word after", "quoted after", "append", "no value", "other after", "other before",
                                           "open", "twice", "continued", "escaped", "list", "section", "number", "unknown after", "comment"])),
                extra=draw(text(mn=1)), listfile=draw(st.booleans()))


def cases(tier):
    return st.one_of(server_case(), server_case(), server_case(), client_case(), client_case(), conf_case())


def parse(data, daemon=False):
    """[(level, text)] of what was written to standard error."""
    out = []
    for l in data.split(b"\n"):
        m = re.match(rb"^(?:nsca-ng|send_nsca): \[([A-Z]+)\] (.*)$", l, re.S)
        k = re.match(rb"^<([2-7])>(.*)$", l, re.S) if daemon else None
        if m:
            out.append([NAMES[J(m.group(1))], m.group(2)])
        elif k:
            out.append([PRI[int(k.group(1))], k.group(2)])
        elif out:
            out[-1][1] += b"\n" + l
        elif l:
            out.append([None, l])
    for o in out:
        o[1] = o[1].rstrip(b"\n")
    return [tuple(o) for o in out]


def parse_syslog(path):
    out = []
    if not os.path.exists(path):
        return out
    with open(path, "rb") as f:
        data = f.read()
    while data:
        head, data = data.split(b"\n", 1)
        pri, n = map(int, head.split())
        msg, data = data[:n], data[n + 1:]
        m = re.match(rb"^\[([A-Z]+)\] (.*)$", msg, re.S)
        if not m:
            raise Violation("syslog message %r" % msg[:200])
        lv = NAMES[J(m.group(1))]
        if PRI.get(pri & 7) != lv:
            raise Violation("syslog priority %d for %r" % (pri, msg[:200]))
        out.append((lv, m.group(2).rstrip(b"\n")))
    return out


def payload(i, o):
    b = B(o["text"]) + b"y" * o["pad"]
    d = b"[%d] %s;%d;%s\n" % (1700000000 + i, b"OK" if o["ok"] else b"NO", i, b)
    ok = o["ok"] and b"\0" not in d
    if o.get("bad") == "no newline":
        d, ok = d[:-1], False
    elif o.get("bad") == "embedded newline":
        d, ok = d[:20] + b"\n" + d[20:], False
    elif o.get("bad") == "nul":
        d, ok = d[:25] + b"\0" + d[25:], False
    elif o.get("bad") == "no timestamp":
        d, ok = d[1:], False
    return d, ok


def visible(d):
    """The part of a command the log must show at least."""
    return d.rstrip(b"\n").split(b"\n")[0].split(b"\0")[0][:400]


class C18(Check):
    rule = ("Server: a log level set by -l and/or log_level, a log target (stderr, syslog, both, a daemon's, systemd's), and sessions of "
            "various identities from various addresses submitting permitted and forbidden commands and malformed requests full of "
            "printf(3) directives; repeated with another level.  Client: -v options, targets, submissions, and hostile answers.  "
            "Configuration errors around passwords.  Oracle: the messages expected at the level; no message above it; the "
            "messages of the lower level are those of the higher level minus those above the lower level; no 8 characters of a "
            "password anywhere.  Non-trivial if something was submitted or a password was at stake.")
    assumptions = ["the first 400 bytes of a command (up to a NUL or embedded newline) are to be logged",
                   "a shim stands in for syslog(3)"]
    cases = dict(quick=900, thorough=25000)
    budget = dict(quick=150, thorough=3000)

    def strategy(self, tier):
        return cases(tier)

    examples = [dict(kind="server", level=l, via="cfg" if l != 3 else "default", target=t, ids=["a%n%s", "b", "c", "d"], star=False, pw=l, pwlen=16, other=5 - l,
                     sessions=[dict(who=0, auth="ok", src=2, sid="%s%n", pre=["%s"], end="quit", bye="", tls=13, ops=[
                         dict(op="push", ok=True, text="%s %n", pad=0, bad=None), dict(op="push", ok=False, text="%s", pad=900, bad=None),
                         dict(op="noop"), dict(op="line", text="PUSH %s"), dict(op="push", ok=True, text="", pad=800, bad=None)]),
                         dict(who=1, auth="wrong", src=1, sid="x", pre=[], ops=[], end="quit", bye="", tls=12),
                         dict(who=1, auth="unknown", src=1, sid="x", pre=[], ops=[], end="quit", bye="", tls=12),
                         dict(who=1, auth="ok", src=3, sid="x", pre=[], ops=[], end="bail", bye="%n %s", tls=12)])
                for l, t in enumerate(["F", "FS", "Fs", "daemon", "act", "F"])] + \
               [dict(kind=k, v=v, pw=7, pwlen=16, quote='"', form=f, extra="x", listfile=False) for k in ("cconf", "sconf") for v in (0, 3)
                for f in ("junk after", "word after", "list", "twice", "other after", "open")]

    def run(self, env, case):
        return getattr(self, case["kind"] if case["kind"] in ("server", "client") else "conf")(env, case)

    # -- server
    def server(self, env, case):
        labels = {"target " + case["target"], "level %d" % case["level"]}
        m1, nt = self.serve(env, case, case["level"], case["via"], labels)
        if case["other"] is not None and case["other"] != case["level"]:
            m2, _ = self.serve(env, case, case["other"], "cli", set())
            lo, hi = sorted([(case["level"], m1), (case["other"], m2)], key=lambda x: x[0])
            a = Counter(m for m in lo[1])
            b = Counter(m for m in hi[1] if m[0] <= lo[0])
            if a != b:
                d = (a - b) or (b - a)
                raise Violation("levels %d and %d differ in a message of level <= %d: %r" % (lo[0], hi[0], lo[0], list(d)[0]))
            labels.add("two levels")
        return sorted(labels), nt

    def serve(self, env, case, level, via, labels):
        d = env.dir()
        ip, port = env.ip(), env.port()
        ids = []
        for i, x in enumerate(case["ids"]):
            ids.append(x if x not in ids and x != "*" else "id-%d" % i)
        pws = [password(case["pw"] + i, case["pwlen"]) for i in range(4)]
        wrong = password(case["pw"] + 9, case["pwlen"])
        target = case["target"]
        os.mkfifo(d + "/cmd")
        os.mkdir(d + "/spool")
        nag = Nagios(d + "/cmd", d + "/spool").open()
        env.cleanups.append(nag.close)
        conf = 'command_file = "%s/cmd"\ntemp_directory = "%s/spool"\npid_file = "%s/pid"\n' % (d, d, d)
        if via in ("cfg", "both"):
            conf += "log_level = %d\n" % (level if via == "cfg" else 5 - level)
        for i, (x, pw) in enumerate(zip(ids, pws)):
            if case["star"] and i == 3:
                x = "*"
            conf += "authorize %s {\n password = %s\n commands = \"OK.*\"\n}\n" % (cq(x), cq(J(pw)))
        with open(d + "/n.cfg", "wb") as f:
            f.write(B(conf))
        cmd = [os.path.join(build.core("san"), "nsca-ng"), "-c", d + "/n.cfg"]
        if via in ("cli", "both"):
            cmd += ["-l", str(level)]
        cmd += {"F": ["-F"], "FS": ["-FS"], "Fs": ["-F", "-s"], "daemon": [], "act": []}[target]
        fds = []
        if target == "act":
            s = socket.socket()
            s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
            s.bind((ip, port))
            s.listen(16)
            s.setblocking(False)
            fds = [s.fileno()]
            cmd = [os.path.join(build.native(), "activate"), str(s.fileno()), "self"] + cmd
        else:
            cmd += ["-b", "%s:%d" % (ip, port)]
        e = {"PATH": os.environ["PATH"], "HOME": "/root", "LC_ALL": "C", "LD_PRELOAD": shim("syslog"), "SYSLOG_FILE": d + "/syslog"}
        e.update(san_env(d))
        with open(d + "/err", "wb") as err:
            p = env.track(subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=e, cwd=d, pass_fds=fds,
                                           start_new_session=True))
        if fds:
            s.close()
        what = "level %d via %s, target %s" % (level, via, target)

        def raw():
            check_sanitizer(d, "nsca-ng")
            with open(d + "/err", "rb") as f:
                return f.read()
        if target == "daemon":
            try:
                rc = p.wait(TIMEOUT)
            except subprocess.TimeoutExpired:
                raise Violation("did not daemonize")
            def pid():
                try:
                    with open(d + "/pid") as f:
                        return int(f.read() or 0)
                except (OSError, ValueError):
                    return 0
            if rc != 0 or not wait_until(pid):
                raise Violation("did not start: %r" % raw()[-300:])
            pid = pid()
            env.cleanups.append(lambda: kill(pid))
        else:
            if not wait_until(lambda: p.poll() is not None or listening(ip, port)) or p.poll() is not None:
                raise Violation("did not start: %r" % raw()[-300:])
            pid = p.pid
            if target == "act" and not wait_until(lambda: os.path.exists(d + "/pid") and os.path.getsize(d + "/pid") > 0):
                raise Violation("did not start: %r" % raw()[-300:])
        subs, lines, n = [], [], 0
        for si, se in enumerate(case["sessions"]):
            src = "127.88.0.%d" % se["src"]
            who = ids[se["who"]]
            pw = pws[se["who"]]
            if se["auth"] == "unknown":
                who = "nobody-%s" % who
                if case["star"]:
                    pw = pws[3]
            if se["auth"] == "wrong":
                pw = wrong
            me = (B(who), B(src))
            try:
                c = Conn.client(ip, port, who, pw, tls=se["tls"], src=src)
            except PeerGone:
                if se["auth"] == "ok":
                    raise Violation("cannot connect (%s)" % what)
                labels.add("not authenticated")
                ping(ip, port, ids, pws, case)
                continue
            env.cleanups.append(c.free)

            def say(l):
                c.send(B(l) + b"\r\n")
                r = c.line()
                lines.append((me, B(l)))
                lines.append((me, r.rstrip(b"\r\n")))
                return r
            try:
                for l in se["pre"]:
                    if not re.match("(?i)moin|ping|bail|quit", l):
                        say(l)
                if se["end"] == "ping":
                    say("PING 1")
                    c.ending()
                    c.free()
                    ping(ip, port, ids, pws, case)
                    continue
                if say("MOIN 1 " + se["sid"]) != b"MOIN 1\r\n":
                    raise Violation("MOIN refused")
                for o in se["ops"]:
                    if o["op"] == "noop":
                        say("NOOP")
                    elif o["op"] == "line":
                        l = o["text"]
                        if re.match("(?i)bail|quit|noop", l) or (re.match(r"(?i)push\S*[ \t]*[0-9]", l) and l not in ("PUSH 0", "PUSH 999999999")):
                            continue
                        say(l)
                    else:
                        n += 1
                        data, ok = payload(n, o)
                        if say("PUSH %d" % len(data)) != b"OKAY\r\n":
                            raise Violation("PUSH refused")
                        c.send(data)
                        r = c.line()
                        if (r == b"OKAY\r\n") != ok:
                            raise Violation("response %r to %r" % (r, data[:80]))
                        lines.append((me, visible(data)))
                        lines.append((me, r.rstrip(b"\r\n")))
                        subs.append((me, visible(data), ok))
                        labels.add("accepted" if ok else "refused")
                if se["end"] == "quit":
                    say("QUIT")
                    c.ending()
                    c.close_notify()
                elif se["end"] == "bail":
                    l = b"BAIL " + B(se["bye"])
                    c.send(l + b"\r\n")
                    lines.append((me, l))
                    c.ending()
                elif se["end"] == "long":
                    c.send(b"%n" * 1100)
                    r = c.line()
                    lines.append((me, r.rstrip(b"\r\n")))
                    c.ending()
                elif se["end"] == "notify":
                    c.close_notify()
                labels.add("end " + se["end"])
            except PeerGone as x:
                raise Violation("connection ended (%s); %s" % (x, what))
            c.free()
            ping(ip, port, ids, pws, case)
        os.kill(pid, signal.SIGTERM)
        if target == "daemon":
            if not wait_until(lambda: not os.path.exists(d + "/pid")):
                raise Violation("not terminated by SIGTERM")
            if not wait_until(lambda: gone(pid)):
                raise Violation("not terminated by SIGTERM")
        else:
            try:
                if p.wait(TIMEOUT) != 0:
                    raise Violation("status %d on SIGTERM: %r" % (p.returncode, raw()[-300:]))
            except subprocess.TimeoutExpired:
                raise Violation("not terminated by SIGTERM")
        err = raw()
        e_msgs = parse(err, target == "act")
        s_msgs = parse_syslog(d + "/syslog")
        with open(d + "/syslog", "rb") if os.path.exists(d + "/syslog") else open(os.devnull, "rb") as f:
            r = reveal(err + b"\n" + f.read(), pws + [wrong])
        if r:
            raise Violation("password in the log (%s): %r" % (what, r))
        # which messages go where
        if target in ("F", "act"):
            if s_msgs:
                raise Violation("message sent to syslog: %r; %s" % (s_msgs[0], what))
            msgs = e_msgs
            if target == "act" and any(m[0] is None for m in msgs):
                raise Violation("message without level: %r" % (msgs[0],))
        else:
            msgs = s_msgs
            if target == "FS":
                lost = Counter(s_msgs) - Counter(e_msgs)
                if lost:
                    raise Violation("message sent to syslog, but not to standard error: %r" % list(lost)[0])
        run = [m for m in msgs if m[0] is not None]
        for lv, m in e_msgs + s_msgs:
            if lv is None or lv > level:
                raise Violation("message %r of level %s in spite of log level %d; %s" % (m[:200], lv, level, what))

        def count(msgs, me, text):
            return sum(me[0] in m and me[1] in m and text in m for _, m in msgs)

        def demand(items, name):
            for (me, text), k in Counter(items).items():
                for ms, where in ([(e_msgs, "standard error"), (s_msgs, "syslog")] if target == "FS" else [(run, "log")]):
                    got = count(ms, me, text)
                    if got < k:
                        raise Violation("%s %r of %r from %r is in the %s %d times instead of %d times; %s" % (
                            name, text[:120], me[0], me[1], where, got, k, what))
        if level >= 3:
            demand([(me, t) for me, t, ok in subs], "command")
        if level >= 4:
            demand(lines, "protocol line")
        if level >= 5 and not any(lv == 5 for lv, _ in run):
            raise Violation("no debugging messages at log level 5; %s" % what)
        for me, t, ok in subs:
            if level < (3 if ok else 2) and any(t in m for _, m in e_msgs + s_msgs):
                raise Violation("command %r logged at level %d" % (t[:100], level))
        if target == "Fs":
            for me, t, ok in subs:
                if any(t in m for _, m in e_msgs):
                    raise Violation("command %r written to standard error; %s" % (t[:100], what))
        norm = [(lv, m.replace(B(d), b"DIR").replace(b"%s:%d" % (B(ip), port), b"LISTEN")) for lv, m in run]
        return norm, bool(subs)

    # -- client
    def client(self, env, case):
        pw = password(case["pw"], case["pwlen"])
        bad = password(case["pw"] + 5, case["pwlen"])
        at, seen = case["at"], Counter()
        said = []

        def respond(t, step, info):
            k = seen[step]
            seen[step] += 1
            if step == at and (k == case["nth"] or step in ("moin", "quit")):
                if case["say"] == "" and case["end"]:
                    raise Stop("fin")
                l = B(case["say"] + case["text"])
                said.append(l)
                return l + b"\r\n"
        srv = Nscad(env, ids=[("*", pw)], respond=respond)
        raw = case["raw"]
        cmds = []
        for i, o in enumerate(case["cmds"]):
            d = payload(i, dict(o, bad=None))[0][:-1].replace(b"\n", b"")
            cmds.append(d if raw else d.replace(b"\t", b" ").replace(b"\x17", b"").replace(b"\\", b"/"))
        inp = b"".join(c + b"\n" for c in cmds) if raw else b"\x17".join(b"host\t%d\t%s" % (i % 3, c) for i, c in enumerate(cmds))
        args = (["-C"] if raw else []) + ["-v"] * case["v"] + ([case["target"]] if case["target"] else []) + ["-o", "5"]
        conf = b"identity = %s\npassword = \"%s\"\n" % (cconf(case["ident"]), bad if case["wrong"] else pw)
        d = env.dir()
        c = Client(env, srv.ip, srv.port, conf, args, workdir=d, preload=[shim("syslog")], extra_env=dict(SYSLOG_FILE=d + "/syslog"))
        c.feed(inp)
        rc = c.wait()
        srv.settle()
        err, out = B(c.err()), B(c.out())
        e_msgs, s_msgs = parse(err), parse_syslog(d + "/syslog")
        sys = b"\n".join(m for _, m in s_msgs)
        r = reveal(err + b"\n" + out + b"\n" + sys, [pw, bad])
        what = "arguments %s" % args
        if r:
            raise Violation("password in the output: %r; %s" % (r, what))
        level = min(2 + case["v"], 5)
        for lv, m in e_msgs + s_msgs:
            if lv is None or lv > level:
                raise Violation("message %r in spite of %d x -v" % (m[:200], case["v"]))
        groups = []
        if case["target"] in ("", "-S", "-sS"):
            groups.append((e_msgs, "standard error"))
        if case["target"] in ("-s", "-sS"):
            groups.append((s_msgs, "syslog"))
        if case["target"] == "-s" and e_msgs:
            raise Violation("message on standard error in spite of -s: %r" % (e_msgs[0],))
        if case["target"] in ("", "-S") and s_msgs:
            raise Violation("message sent to syslog: %r" % (s_msgs[0],))
        if rc != 0 and not all(g for g, _ in groups):
            raise Violation("no message in spite of status %d; %s" % (rc, what))
        t = srv.one()
        sent = list(t.commands) if t else []
        for g, where in groups:
            if level >= 3:
                for text, k in Counter(visible(x) for x in sent).items():
                    if sum(text in m for _, m in g) < k:
                        raise Violation("submission %r not in the messages on %s; %s" % (text[:100], where, what))
            if level >= 4 and t:
                for text, k in Counter([x.rstrip(b"\r\n") for x in t.requests] + [x.rstrip(b"\r\n") for x in t.sent]).items():
                    if text[:200] and sum(text[:200] in m for _, m in g) < k and not (rc and text in said):
                        raise Violation("protocol line %r not in the messages on %s (%r); %s" % (text[:100], where, g[-3:], what))
            if rc and said and case["say"]:
                if not any(lv == 0 and said[0].split(b"\n")[0][:400] in m for lv, m in g):
                    raise Violation("the server's message %r was not reported verbatim: %r" % (said[0][:100], g[-2:]))
        labels = ["client -v %d" % case["v"], "client " + (case["target"] or "default target")]
        if said:
            labels.append("hostile answer")
        return labels, bool(sent) or case["wrong"]

    # -- configuration errors
    def conf(self, env, case):
        pw = password(case["pw"], case["pwlen"])
        form, q, x = case["form"], B(case["quote"]), B(case["extra"])
        val = q + pw + q
        d = env.dir()
        srv = case["kind"] == "sconf"
        if srv and q == b"'" :
            val = b"'" + pw + b"'"
        line = b"password = " + val
        pre = post = b""
        if form == "junk after":
            line += b" " + x
        elif form == "word after":
            line += b" word"
        elif form == "quoted after":
            line += b' "word"'
        elif form == "append":
            line = b"password += " + val
        elif form == "no value":
            post = b"password =\n"
        elif form == "other after":
            post = b"timeout = x\n"
        elif form == "unknown after":
            post = b"nonsense = 1\n"
        elif form == "other before":
            pre = b"timeout = 1 2\n"
        elif form == "open":
            line = b"password = " + (q or b'"') + pw
        elif form == "twice":
            post = line + b"\n"
        elif form == "continued" and (q == b'"' or not srv):    # elsewhere, libConfuse has no continuation lines
            line = b"password = " + q + pw[:5] + b"\\\n" + pw[5:] + q
        elif form == "escaped":
            line = b"password = " + q + b"".join(b"\\" + c.to_bytes(1, "big") if i % 2 and chr(c) not in "abefnrtvx0123456789" else c.to_bytes(1, "big")
                                                 for i, c in enumerate(pw)) + q
        elif form == "list":
            line = b"password = { " + val + b" }"
        elif form == "section":
            line = b"password = " + val + b" {"
        elif form == "number":
            post = b"port = \n"
        elif form == "comment":
            line += b" # " + x.replace(b"\n", b" ")
        text = pre + line + b"\n" + post
        sysf = d + "/syslog"
        env_ = dict(SYSLOG_FILE=sysf)
        if not srv:
            s = Nscad(env, ids=[("*", pw)])
            c = Client(env, s.ip, s.port, text, ["-v"] * case["v"] + ["-o", "5"], workdir=d, preload=[shim("syslog")], extra_env=env_)
            c.feed(b"host\t0\tx\n")
            rc = c.wait()
            got = B(c.err()) + b"\n" + B(c.out())
        else:
            os.mkfifo(d + "/cmd")
            nag = Nagios(d + "/cmd", d).open()
            env.cleanups.append(nag.close)
            body = b'command_file = "%s/cmd"\ntemp_directory = "%s"\nauthorize "x" {\n%scommands = ".*"\n}\n' % (B(d), B(d), text)
            with open(d + "/n.cfg", "wb") as f:
                f.write(body)
            ip, port = env.ip(), env.port()
            e = {"PATH": os.environ["PATH"], "LC_ALL": "C", "LD_PRELOAD": shim("syslog")}
            e.update(san_env(d))
            e.update(env_)
            with open(d + "/err", "wb") as err:
                p = env.track(subprocess.Popen([os.path.join(build.core("san"), "nsca-ng"), "-F", "-c", d + "/n.cfg", "-b", "%s:%d" % (ip, port), "-l", str(case["v"] + 1)],
                                               stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=e, cwd=d, start_new_session=True))
            if not wait_until(lambda: p.poll() is not None or listening(ip, port)):
                raise Violation("neither started nor exited")
            if p.poll() is None:
                p.send_signal(signal.SIGTERM)
                try:
                    p.wait(TIMEOUT)
                except subprocess.TimeoutExpired:
                    raise Violation("not terminated by SIGTERM")
            rc = p.returncode
            check_sanitizer(d, "nsca-ng")
            with open(d + "/err", "rb") as f:
                got = f.read()
        if os.path.exists(sysf):
            with open(sysf, "rb") as f:
                got += b"\n" + f.read()
        r = reveal(got, [pw])
        if r:
            raise Violation("%s: password in a message: %r" % ("nsca-ng" if srv else "send_nsca", r))
        return ["%s configuration %s" % ("server" if srv else "client", "error" if rc else "fine")], True


def cconf(s):
    return b'"' + B(s).replace(b"\\", b"\\\\").replace(b'"', b'\\"') + b'"'


def kill(pid):
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


def gone(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[0] in "ZX"
    except OSError:
        return True


def ping(ip, port, ids, pws, case):
    """Let the server process the end of previous connections."""
    c = Conn.client(ip, port, ids[0], pws[0], src="127.88.1.1")
    c.send(b"PING 1\r\n")
    if c.line() != b"PONG 1\r\n":
        raise Violation("PING not answered")
    c.ending()
    c.close_notify()
    c.free()


check = C18()
