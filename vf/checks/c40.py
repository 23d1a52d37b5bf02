"""C40: the contributed submission scripts."""
from hypothesis import strategies as st
from ..harness import *
from ..nscad import *
from ..run import Check

TOKENS = ["a", "Z", "9", " ", "-", "%s", "%d", "%%", "%", "\\n", "\\t", "\\\\", "\\", "\\c", "\\0101", "\\x41", "\\101", "'", '"', "$HOME", "`id`", "$(id)", "*",
          "?", "[a]", "~", "&", ">", "<", "#", "!", "(", "{", "=", "C:\\temp\\new", "\xe9", "|", ",", "word", "  "]
DATES = ["now", "+3 hours", "+2hours", "2030-01-01", "2030-01-01 10:00", "@1700000000", "tomorrow 12:00", "next monday", "+90 min", "1 Jan 2031 0:30", "yesterday",
         "-1 day"]


@st.composite
def word(draw, extra=(), mx=5):
    return "".join(draw(st.lists(st.sampled_from(TOKENS + list(extra)), min_size=1, max_size=mx)))


NAME = st.one_of(st.sampled_from(["h", "www", "host.example", "My Host"]), word())


@st.composite
def cases(draw):
    k = draw(st.sampled_from(["acknowledge", "downtime", "downtime", "invoke_check", "invoke_check", "enable_notifications", "disable_notifications"]))
    c = dict(k=k, sh=draw(st.sampled_from(["sh", "sh", "bash", "posix"])), conf=draw(st.sampled_from(["conf"] * 8 + ["my conf", "a*", "-x"])),
             args=draw(st.sampled_from([[], [], [], ["-o", "20"], ["-S", "-v"], ["-p", "PORT"], ["-p", "PORT"]])),
             misuse=draw(st.sampled_from([None] * 12 + ["unknown", "stray", "lacking"])), fault=draw(st.sampled_from([None] * 6 + ["refuse", "down", "psk"])))
    if k in ("acknowledge", "downtime", "invoke_check"):
        c["host"] = draw(st.one_of(st.none(), NAME))
        c["svc"] = draw(st.one_of(st.none(), NAME))
    if k in ("acknowledge", "downtime"):
        c["comment"] = draw(st.one_of(st.none(), word([";"], 8)))
        c["user"] = draw(st.sampled_from(["root", "root", "nobody", None]))
        c["gecos"] = draw(st.sampled_from(["The Author", "", "A,,,", "a\\nb", "x %s"]))
    if k == "downtime":
        c["start"], c["end"] = draw(st.one_of(st.none(), st.sampled_from(DATES))), draw(st.one_of(st.none(), st.sampled_from(DATES)))
    if k == "invoke_check":
        c["out"] = draw(st.one_of(word([";", "\n", "\t"], 10), word([";", "\n", "\t"], 10), st.just(""), st.integers(1, 9000).map(lambda n: "o\\" * (n // 2))))
        c["nl"] = draw(st.booleans())
        c["state"] = draw(st.sampled_from([0, 1, 2, 3, 0, 1, 2, 3, 4, 255]))
        c["plugin"] = draw(st.sampled_from(["check_disk", "check_http", "disk", "check_my_app", "my-plugin", "Check_X"]))
        c["path"] = draw(st.booleans())
        c["pargs"] = draw(st.lists(st.one_of(word(), st.sampled_from(["-w", "20%", "-H", "-c", "--", "-h", ""])), max_size=3))
    return c


class C40(Check):
    rule = ("contrib/acknowledge, downtime, invoke_check, enable_notifications, and disable_notifications run by sh, bash, or bash --posix with generated hosts, services, comments, "
            "dates, and plugins (arguments, output with backslashes, directives, shell characters, newlines, tabs; exit status), "
            "configuration paths, SEND_NSCA_ARGS, against a scripted server which accepts, refuses, or is unavailable; or with an unknown option, a stray or a lacking argument.  Oracle: exactly the one command which the arguments describe is "
            "submitted, with the texts verbatim (newlines and backslashes escaped the way send_nsca does for check results), and times computed by date(1); exit status 0 if and only if it was accepted; a plugin with an invalid status is an "
            "error and submits nothing; the plugin gets its arguments verbatim.  Non-trivial if the texts need care, or something fails.")
    assumptions = ["no semicolons in host names and service descriptions (the external command format cannot express them)",
                   "stand-ins for hostname and getent; comments without newlines"]
    cases = dict(quick=2000, thorough=40000)
    budget = dict(quick=120, thorough=2400)

    def strategy(self, tier):
        return cases()

    @property
    def examples(self):
        base = dict(sh="sh", conf="conf", args=[], fault=None)
        a = dict(host=None, svc=None, comment=None, user="root", gecos="The Author")
        out = [dict(base, k=k) for k in ("enable_notifications", "disable_notifications")]
        for k in ("acknowledge", "downtime"):
            d = dict(start=None, end=None) if k == "downtime" else {}
            for svc in (None, "s v"):
                out += [dict(base, k=k, **dict(a, svc=svc, **d)), dict(base, k=k, **dict(a, svc=svc, host="www", comment="C:\\new\\temp %s", **d)),
                        dict(base, k=k, **dict(a, svc=svc, comment="x", user=None, **d))]
            for f in ("refuse", "down", "psk"):
                out.append(dict(base, k=k, **dict(a, **d)) | dict(fault=f))
            out.append(dict(base, k=k, **dict(a, **d)) | dict(conf="my conf"))
        for k in ("enable_notifications", "disable_notifications", "acknowledge", "downtime", "invoke_check"):
            more = dict(a) if k in ("acknowledge", "downtime") else {}
            if k == "downtime":
                more.update(start=None, end=None)
            if k == "invoke_check":
                more = dict(host="h", svc="s v", out="OK", nl=True, state=0, plugin="check_disk", path=False, pargs=[])
            out += [dict(base, k=k, **more) | dict(args=["-p", "PORT"])] + [dict(base, k=k, **more) | dict(misuse=m) for m in ("unknown", "stray", "lacking")]
            if "svc" in more:
                out += [dict(base, k=k, **more) | dict(args=["-p", "PORT"], svc="x y", host=None)]
        for s in DATES:
            out.append(dict(base, k="downtime", **dict(a, start=s, end=None)))
            out.append(dict(base, k="downtime", **dict(a, start=None, end=s)))
        i = dict(host="h", svc=None, out="OK - C:\\new\\temp 5%|x=1", nl=True, state=0, plugin="check_disk", path=False, pargs=[])
        for n in (0, 1, 2, 3, 4, 127):
            out.append(dict(base, k="invoke_check", **dict(i, state=n)))
        out += [dict(base, k="invoke_check", **dict(i, out=o)) for o in ("", "a\nb\nc", "a\tb", "\\n", "\\", "%s", "x" * 9000)]
        out += [dict(base, k="invoke_check", **dict(i, path=True, host=None, plugin=p, pargs=["-w", "20%", "a  b", "*", "-h"])) for p in ("check_disk", "check_my_app")]
        return out

    def run(self, env, case):
        k, d = case["k"], env.dir()
        os.mkdir(d + "/bin")
        os.mkdir(d + "/cwd")
        os.symlink(os.path.join(build.core("san"), "send_nsca"), d + "/bin/send_nsca")

        def script(name, text):
            with open(d + "/bin/" + name, "w") as f:
                f.write(text)
            os.chmod(d + "/bin/" + name, 0o755)
        script("hostname", '#!/bin/sh\ncase "$*" in -s) echo MyHost;; "") echo MyHost.example.org;; *) exit 1;; esac\n')
        with open(d + "/gecos", "w") as f:
            f.write("%s:x:0:0:%s:/root:/bin/sh\n" % (case.get("user"), case.get("gecos")))
        script("getent", '#!/bin/sh\ntest $# -eq 2 && test "$1" = passwd && test -n "$2" && exec grep "^$2:" "%s/gecos"\nexit 2\n' % d)

        def respond(t, step, info):
            return b"FAIL no\r\n" if case["fault"] == "refuse" and step == "push" else None
        srv = Nscad(env, ids=[("me", b"p")], respond=respond, start=case["fault"] != "down")
        if case["fault"] == "down":
            srv.s.close()
        conf = d + "/cwd/" + case["conf"]
        with open(conf, "wb") as f:
            f.write(b'identity = "me"\npassword = "%s"\nserver = "%s"\nport = "%d"\n' % (b"q" if case["fault"] == "psk" else b"p", B(srv.ip), 1 if "PORT" in case["args"] else srv.port))
        with open(d + "/cwd/a-file", "w"):
            pass
        argv = {"sh": ["/bin/sh"], "bash": ["/bin/bash"], "posix": ["/bin/bash", "--posix"]}[case["sh"]] + [os.path.join(build.REPO, "contrib", k)]
        argv += ["-c", case["conf"] if case["conf"] != "conf" else conf]
        careful = case["fault"] is not None

        def opt(o, v):
            if v is not None:
                argv.extend([o, v])
        host, svc = (None if x is None else x.replace(";", "") or "x" for x in (case.get("host"), case.get("svc")))
        misuse = case.get("misuse")
        if misuse == "stray" and k == "invoke_check":
            misuse = None
        if misuse == "unknown":
            argv.append("-x")
        opt("-H", host)
        opt("-S", svc)
        e = {"PATH": d + "/bin:/usr/bin:/bin", "HOME": d, "LC_ALL": "C.UTF-8", "TZ": "UTC", "OUT": d + "/args"}
        e.update(san_env(d))
        if case["args"]:
            e["SEND_NSCA_ARGS"] = " ".join(case["args"]).replace("PORT", str(srv.port))
        text = None
        if k in ("acknowledge", "downtime"):
            opt("-C", case["comment"])
            if case["user"]:
                e["USER"] = case["user"]
        if k == "downtime":
            opt("-s", case["start"])
            opt("-e", case["end"])
        if k == "invoke_check":
            with open(d + "/output", "wb") as f:
                f.write(case["out"].encode() + (b"\n" if case["nl"] else b""))
            script(case["plugin"], '#!/bin/sh\nfor i do printf "%%s\\n" "$i"; done >"$OUT"\ncat "%s/output"\nexit %d\n' % (d, case["state"]))
            if misuse != "lacking":
                argv.append(d + "/bin/" + case["plugin"] if case["path"] else case["plugin"])
                argv += case["pargs"]
        elif misuse == "stray":
            argv.append("word")
        elif misuse == "lacking":
            argv.append("-c")

        def date(s):
            return int(subprocess.run(["date", "-d", s, "+%s"], env=e, stdout=subprocess.PIPE, check=True).stdout)
        s0 = [date(case["start"] or "now"), date(case["end"] or "+2 hours")] if k == "downtime" else None
        t0 = int(time.time())
        with open(d + "/err", "wb") as err:
            p = env.track(subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=e, cwd=d + "/cwd"))
        try:
            rc = p.wait(40)
        except subprocess.TimeoutExpired:
            raise Violation("%s hangs" % k)
        t1 = int(time.time())
        s1 = [date(case["start"] or "now"), date(case["end"] or "+2 hours")] if k == "downtime" else None
        check_sanitizer(d, "send_nsca")
        with open(d + "/err", "rb") as f:
            msg = J(f.read()[-300:])
        what = "%s: " % " ".join(repr(x) if " " in x or "\n" in x or not x else x for x in [k] + argv[argv.index("-c") + 2:])
        srv.settle()
        cmds = [c for t in srv.talks for c in t.acked if c is not None]
        invalid = k == "invoke_check" and case["state"] > 3
        labels = {k, "fault: %s" % case["fault"]}
        if invalid:
            labels.add("invalid status")
        if misuse:
            labels.add("misuse: " + misuse)
        if case["fault"] or invalid or misuse:
            if cmds:
                raise Violation(what + "submitted %r" % cmds[0][:200])
            if rc == 0:
                raise Violation(what + "exit status 0, but nothing was submitted")
            if not msg.strip():
                raise Violation(what + "no error message")
            return sorted(labels), True
        if rc != 0:
            raise Violation(what + "exit status %d: %s" % (rc, msg))
        if len(cmds) != 1:
            raise Violation(what + "%d commands were submitted: %r" % (len(cmds), [c[:100] for c in cmds[:3]]))
        m = re.match(rb"^\[(\d+)\] (.*)\n$", cmds[0], re.S)
        if not m or not t0 - 1 <= int(m.group(1)) <= t1:
            raise Violation(what + "submitted %r at %d-%d" % (cmds[0][:200], t0, t1))
        got = m.group(2).decode("utf-8", "replace")
        if k in ("enable_notifications", "disable_notifications"):
            want = k.upper()
        elif k == "invoke_check":
            text = (case["out"] + ("\n" if case["nl"] else "")).rstrip("\n").replace("\\", "\\\\").replace("\n", "\\n")
            h = host or "myhost"
            s = svc or re.sub(".*[_/]", "", case["plugin"]).upper()
            want = "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s" % (h.replace("\\", "\\\\"), s.replace("\\", "\\\\"), case["state"], text)
            with open(d + "/args") as f:
                a = f.read()
            if a != "".join(x + "\n" for x in case["pargs"]):
                raise Violation(what + "the plugin was called with %r" % a)
        else:
            tail = "%s;%s" % (case["gecos"] if case["user"] else "", case["comment"] or "Submitted by send_nsca@MyHost")
            h = host or "MyHost"
            obj = ("HOST", h) if not svc else ("SVC", "%s;%s" % (h, svc))
            if k == "acknowledge":
                want = "ACKNOWLEDGE_%s_PROBLEM;%s;1;0;1;%s" % (obj[0], obj[1], tail)
            else:
                pre, post = "SCHEDULE_%s_DOWNTIME;%s;" % obj, ";1;0;0;" + tail
                mid = got[len(pre):len(got) - len(post)]
                x = re.match(r"^(\d+);(\d+)$", mid)
                if not x or not all(a <= int(b) <= c for a, b, c in zip(s0, x.groups(), s1)):
                    raise Violation(what + "submitted %r; the times should be %r" % (got[:200], s0))
                want = pre + mid + post
        if got != want:
            raise Violation(what + "submitted %r, not %r" % (got[:300], want[:300]))
        nt = any(c in want[10:] for c in "\\% '\"$*`") or case["conf"] != "conf"
        return sorted(labels), nt


check = C40()
