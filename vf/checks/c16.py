"""C16: privileges and root directory.  Everything runs in a user namespace of its own,
with generated account files mounted there."""
from hypothesis import strategies as st
from ..harness import *
from ..history import shim
from ..run import Check

FAULTS = [k + ":%d" % e for k, es in (("user", (errno.EAGAIN, errno.EPERM)), ("group", (errno.EPERM,)), ("groups", (errno.ENOMEM, errno.EPERM)),
                                      ("chroot", (errno.EPERM,)), ("chdir", (errno.EACCES,))) for e in es]


@st.composite
def cases(draw):
    uids = draw(st.lists(st.integers(2000, 60000), min_size=3, max_size=3, unique=True))
    gids = draw(st.lists(st.integers(2000, 60000), min_size=6, max_size=6, unique=True))
    users = [["vfa", uids[0], gids[0]], ["vfb", uids[1], gids[draw(st.integers(0, 1))]], ["2718", uids[2], gids[2]]]
    groups = [["g%d" % i, g, draw(st.lists(st.sampled_from(["vfa", "vfb", "2718", "root"]), unique=True, max_size=3))]
              for i, g in enumerate(gids)]
    user = draw(st.sampled_from([None, "vfa", "vfa", "vfb", "vfb", "2718", "root", "ghost", "2000", ""]))
    paths = draw(st.sampled_from(["inside", "shadow", "relative"]))
    return dict(users=users, groups=groups, user=user, chroot=draw(st.booleans()), paths=paths,
                initial=draw(st.lists(st.integers(1, 1000), max_size=4, unique=True)), pid=draw(st.sampled_from(["cfg", "cli", None])),
                cli_fifo=draw(st.booleans()), pidperm=draw(st.sampled_from(["ok", "ok", "ok", "root"])),
                sizes=draw(st.lists(st.sampled_from([30, 300, 5000, 9000]), min_size=1, max_size=3)),
                reloads=draw(st.sampled_from([0, 0, 1, 2])), badroot=draw(st.integers(0, 11)) == 7,
                fault=draw(st.sampled_from([None] * 12 + FAULTS)),
                order=draw(st.permutations([0, 1, 2])))


class C16(Check):
    rule = ("Random accounts and group memberships, initial groups, `user` (known, numeric-looking, unknown, root, unset), `chroot`, "
            "absolute paths existing inside only or on both sides, relative paths, PID file by configuration or option, reloads, failures of the calls that change identity or root directory.  "
            "Non-trivial if `user` or `chroot` is set.")
    assumptions = ["root privileges within a user namespace behave as those of the initial one",
                   "reloading is only required without `chroot`"]
    cases = dict(quick=1500, thorough=40000)
    budget = dict(quick=180, thorough=3000)

    def strategy(self, tier):
        return cases()

    examples = [dict(users=[["vfa", 2001, 2002]], groups=[["g0", 2002, []], ["g1", 3000, ["vfa"]]], user="vfa", chroot=False,
                     paths="inside", initial=[4, 5], pid="cfg", cli_fifo=False, pidperm="ok", sizes=[30, 5000], reloads=2,
                     badroot=False, order=[0, 1, 2])] + \
        [dict(users=[["vfa", 2001, 2002]], groups=[["g0", 2002, []], ["g1", 3000, ["vfa"]]], user="vfa", chroot=c, paths="inside",
              initial=[4, 5], pid=None, cli_fifo=False, pidperm="ok", sizes=[30], reloads=0, badroot=False, order=[0, 1, 2], fault=f)
         for f in FAULTS for c in (False, True) if c or f[:2] != "ch"]

    def run(self, env, case):
        d = env.dir()
        etc = os.path.join(d, "acc")
        os.mkdir(etc)
        with open(etc + "/passwd", "w") as f:
            f.write("root:x:0:0:root:/root:/bin/sh\n" + "".join("%s:x:%d:%d::/:/bin/sh\n" % tuple(u) for u in case["users"]))
        with open(etc + "/group", "w") as f:
            f.write("root:x:0:\n" + "".join("%s:x:%d:%s\n" % (g[0], g[1], ",".join(g[2])) for g in case["groups"]))
        acc = {u[0]: (u[1], u[2]) for u in case["users"]}
        acc["root"] = (0, 0)
        user, chroot = case["user"], case["chroot"]
        if user is None:
            uid, gid, sup = 0, 0, set(case["initial"])
        elif user in acc:
            uid, gid = acc[user]
            sup = {g[1] for g in case["groups"] if user in g[2]} | {gid}
        else:
            uid = gid = sup = None
        root = d + "/jail" if chroot else ""
        if case["paths"] == "shadow" or not chroot:
            base = d + "/data"              # exists on both sides
        elif case["paths"] == "relative":
            base = "data"
        else:
            base = "/data"
        real = os.path.join(root or "/", base.lstrip("/"))
        dirs = [real] + ([d + "/data"] if chroot and case["paths"] == "shadow" else [])
        if case["paths"] == "relative" and chroot:
            dirs.append(d + "/data")        # the working directory's one
        for x in dirs:
            for s in ("rw", "tmp", "run"):
                os.makedirs(x + "/" + s)
                os.chown(x + "/" + s, uid or 0, gid or 0)
            if case["pidperm"] == "root":
                os.chown(x + "/run", 0, 0)
            os.mkfifo(x + "/rw/cmd")
            os.chmod(x + "/rw/cmd", 0o622)
            os.chown(x + "/rw/cmd", uid or 0, gid or 0)
        fifo, tmp, pidf = base + "/rw/cmd", base + "/tmp", base + "/run/pid"
        conf = ['command_file = %s\n' % cq(fifo if not case["cli_fifo"] else "/nonexistent/cmd"),
                'temp_directory = %s\n' % cq(tmp)]
        c3 = ""
        if user is not None:
            c3 += "user = %s\n" % cq(user)
        if chroot:
            c3 += "chroot = %s\n" % cq(root + ("/none" if case["badroot"] else ""))
        args = []
        if case["cli_fifo"]:
            args += ["-C", fifo]
        if case["pid"] == "cfg":
            c3 += "pid_file = %s\n" % cq(pidf)
        elif case["pid"] == "cli":
            args += ["-P", pidf]
        conf.append(c3)
        text = "".join(conf[i] for i in case["order"]) + 'authorize "a" {\n password = "p"\n commands = ".*"\n}\n'
        nsrun = [os.path.join(build.native(), "nsrun"), "-e", etc]
        if case["initial"]:
            nsrun += ["-g", ",".join(map(str, case["initial"]))]
        idlog = os.path.join(d, "idlog")
        if case.get("fault"):
            with open(idlog, "w") as f:
                f.write("-")
            nsrun += ["/usr/bin/env", "LD_PRELOAD=" + shim("idfault"), "VF_IDFAIL=" + case["fault"], "VF_IDLOG=" + idlog]
        srv = Server(env, text, args=args, fifo=False, nagios=False, pass_paths=False, start=False, workdir=d,
                     cmd_prefix=nsrun, extra_env={"ASAN_OPTIONS": SAN_ENV["ASAN_OPTIONS"].split(":log_path")[0],
                                                  "UBSAN_OPTIONS": "print_stacktrace=1"})
        nags = {x: Nagios(x + "/rw/cmd", tmp if case["paths"] != "relative" or not chroot else tmp,
                          root=(root + ("/" if not base.startswith("/") else "") if x == real else "")).open() for x in dirs}
        for n in nags.values():
            env.cleanups.append(n.close)
        nag = nags[real]
        what = "configuration %r, options %r, accounts %r %r" % (text, args, case["users"], case["groups"])

        def diag():
            l = srv.log()
            if "Sanitizer" in l or "runtime error" in l:
                raise Violation("sanitizer report: " + san_summary(l))
            return l
        fails = uid is None or (chroot and case["badroot"]) or (case["pid"] and case["pidperm"] == "root" and uid != 0)
        if fails:
            srv.start(wait=False)
            if not wait_until(lambda: srv.p.poll() is not None or listening(srv.ip, srv.port)) or srv.p.poll() is None:
                raise Violation("the server started although that's impossible as specified; %s" % what)
            diag()
            if srv.p.returncode <= 0 or srv.p.returncode == 125:
                raise Violation("status %d when unable to start; %s; %s" % (srv.p.returncode, srv.log()[-300:], what))
            if any(os.path.exists(x + "/run/pid") for x in dirs):
                raise Violation("PID file created; " + what)
            return ["refused: " + ("unknown user" if uid is None else "no root directory" if chroot and case["badroot"] else
                                   "PID file not writable by the user")], True
        if case.get("fault"):
            srv.start(wait=False)
            if not wait_until(lambda: srv.p.poll() is not None or listening(srv.ip, srv.port)):
                raise Violation("the server neither starts nor fails after %s; %s" % (case["fault"], what))
            diag()
            with open(idlog) as f:
                fired = f.read() == "x"
            if fired:
                if srv.p.poll() is None:
                    raise Violation("the server started although a call failed: %s; %s" % (case["fault"], what))
                if srv.p.returncode <= 0 or srv.p.returncode == 125 or not srv.log().strip():
                    raise Violation("status %d after %s; %s; %s" % (srv.p.returncode, case["fault"], srv.log()[-300:], what))
                return ["refused: " + case["fault"].split(":")[0] + " fails"], True
            if srv.p.poll() is not None:
                raise Violation("the server did not start: %s; %s" % (srv.log()[-300:], what))
        else:
            try:
                srv.start()
            except Violation as v:
                raise Violation("%s; %s" % (v, what))
        labels = set()
        seen = 0
        for round_ in range(1 + (0 if chroot else case["reloads"])):
            if round_:
                with open(srv.conf_path, "a") as f:
                    f.write('authorize "r%d" {\n password = "p"\n commands = ".*"\n}\n' % round_)
                os.chmod(srv.conf_path, 0o644)
                srv.p.send_signal(signal.SIGHUP)

                def again():
                    if srv.p.poll() is not None:
                        return True
                    try:
                        srv.connect("r%d" % round_, "p").free()
                        return True
                    except PeerGone:
                        return False
                if not wait_until(again) or srv.p.poll() is not None:
                    diag()
                    raise Violation("not serving after SIGHUP: %s; %s" % (srv.log()[-300:], what))
                labels.add("reload")
            # identities of all threads
            s = srv.session("a", "p")
            for z in case["sizes"]:
                line = b"[%d] X;" % (seen + 1) + b"y" * z + b"\n"
                if not s.submit(line):
                    raise Violation("command refused")
                seen += 1
                nag.wait(lambda n: len(n.cmds) >= seen)
                if len(nag.cmds) != seen or nag.cmds[-1] != line or nag.problems:
                    raise Violation("command not delivered: %r %r; %s; %s" % (nag.raw[-200:], nag.problems, srv.log()[-300:], what))
            tasks = "/proc/%d/task" % srv.pid()
            for t in os.listdir(tasks):
                try:
                    with open("%s/%s/status" % (tasks, t)) as f:
                        st_ = dict(l.split(":", 1) for l in f if ":" in l)
                except OSError:
                    continue
                for k, want in (("Uid", uid), ("Gid", gid)):
                    v = [int(x) for x in st_[k].split()]
                    if v != [want] * 4:
                        raise Violation("%s of the server: %r instead of %d; %s" % (k, v, want, what))
                gs = {int(x) for x in st_["Groups"].split()}
                if gs - {gid} != sup - {gid} or (user is not None and gid not in gs | {gid}):
                    raise Violation("groups of the server: %r instead of %r; %s" % (sorted(gs), sorted(sup), what))
                if uid and int(st_["CapEff"], 16):
                    raise Violation("capabilities kept: %s; %s" % (st_["CapEff"], what))
            for sp in nag.spools:
                if sp[2] != uid or sp[4] != gid:
                    raise Violation("spool file belongs to %d:%d instead of %d:%d; %s" % (sp[2], sp[4], uid, gid, what))
                labels.add("spool file")
            for x in dirs:
                if os.listdir(x + "/tmp"):
                    raise Violation("files left in %s; %s" % (x, what))
                p = x + "/run/pid"
                if x == real and case["pid"]:
                    sb = os.stat(p)
                    with open(p) as f:
                        c = f.read()
                    if (sb.st_uid, sb.st_gid) != (uid, gid) or c.strip() != str(srv.pid()):
                        raise Violation("PID file: owner %d:%d, content %r; %s" % (sb.st_uid, sb.st_gid, c, what))
                    labels.add("PID file")
                elif os.path.exists(p):
                    raise Violation("PID file in the wrong place; " + what)
                if x != real:
                    nags[x].pump()
                    if nags[x].raw:
                        raise Violation("data delivered outside of the root directory; " + what)
            s.c.free()
        srv.p.send_signal(signal.SIGTERM)
        try:
            rc = srv.p.wait(TIMEOUT)
        except subprocess.TimeoutExpired:
            raise Violation("not terminated by SIGTERM")
        diag()
        if rc != 0:
            raise Violation("status %d on SIGTERM: %s" % (rc, srv.log()[-300:]))
        if os.path.exists(real + "/run/pid"):
            raise Violation("PID file left behind; " + what)
        labels.add("user" if user is not None else "no user")
        labels.add("chroot, %s paths" % case["paths"] if chroot else "no chroot")
        return sorted(labels), user is not None or chroot


check = C16()
