"""C14: the server's configuration: a logical configuration rendered into arbitrary files."""
import re, string
from hypothesis import strategies as st
from ..harness import *
from ..run import Check

PATTERNS = ["web[0-9]+", "db|mail", "(www|ftp)\\.example\\.org", "a.c", ".*", "x y", "disk /var", "#1", "it's",
            "say \"hi\"", "mail", "[^;]+", "c:\\\\dir", "[{=,}]+", "a+b?", "\\$\\{HOME\\}", "z{2,3}"]
NAMES = ["web1", "web12", "web", "db", "mail", "www.example.org", "wwwXexample.org", "ftp.example.org", "abc", "a.c", "ac",
         "x y", "disk /var", "#1", "it's", "say \"hi\"", "c:\\dir", "{=}", "aab", "b", "${HOME}", "zz", "zzzz", "anything"]
CMDPAT = ["ENABLE_.*", "DEL_(HOST|SVC)_DOWNTIME;[0-9]+", "SHUTDOWN_PROGRAM", "PROCESS_HOST_CHECK_RESULT;db;.*"]
CMDS = ["ENABLE_NOTIFICATIONS", "DEL_HOST_DOWNTIME;12", "DEL_SVC_DOWNTIME;x", "SHUTDOWN_PROGRAM", "SHUTDOWN_PROGRAM;1",
        "DISABLE_NOTIFICATIONS"]
TITLES = ["alpha", "beta", "client-1", "host.example.org", "a b", "*", "it's", "\"q\"", "#x", "Alpha", "{}", "back\\slash", "?", "a*"]
PWS = ["secret", "p", "x y", "it's", "\"q\"", "#hash", "a\\b", "tab\tx", "=,{}", "ilzNanlE9XjMLdjrMkXnk09XBCTFQrj5", "$HOME", "*",
       "\xe4\xf6", "end\\", "'\"'"]
SAFE = re.compile(r"^[A-Za-z0-9_.:/-]+$")
CIPHERS = ["PSK-AES256-CBC-SHA", "PSK-AES128-CBC-SHA", "PSK-AES128-GCM-SHA256", "PSK-AES256-GCM-SHA384",
           "PSK-CHACHA20-POLY1305"]


def sp(s):
    return re.compile(s + r"\n?\Z", re.S)


def match(pats, s):
    return any(re.fullmatch(p, s) for p in pats)


def svc_match(pats, host, svc):
    for p in pats:
        if "@" in p:
            a, b = p.rsplit("@", 1)
            if re.fullmatch(a, svc) and re.fullmatch(b, host):
                return True
        elif re.fullmatch(p, svc):
            return True
    return False


class Text:
    """Renders values and items; all choices come from `draw`."""

    def __init__(self, draw, env):
        self.draw, self.env = draw, env
        self.labels = set()

    def pick(self, *xs):
        return self.draw(st.sampled_from(xs))

    def ws(self):
        return self.pick("", " ", " ", "\t", "  ")

    def wsn(self):
        return self.pick("", " ", "\n", "\n\n  ", " # a comment\n", "\t", "#\n", "\n# authorize \"x\" { password = \"y\" }\n")

    def string(self, s):
        """One of the documented ways to write a string."""
        ways = ["dq"]
        if SAFE.match(s) and "//" not in s:
            ways += ["bare", "bare"]
        if "\n" not in s and not s.endswith("\\"):
            ways += ["sq"]
        if s and all(0x20 <= ord(c) < 0x7f for c in s):
            ways += ["env", "envdq", "default", "defaultset"] if self.draw(st.integers(0, 3)) == 2 else []
        w = self.pick(*ways)
        if w == "bare":
            return s
        if w == "sq" and "'" not in s and "\\\\" not in s:
            return "'" + s + "'"
        if w == "sq" and "'" in s and "\\" not in s:
            self.labels.add("escaped single quote")
            return "'" + s.replace("'", "\\'") + "'"
        if w in ("env", "envdq", "defaultset"):
            n = "VF_%d" % len(self.env)
            self.env[n] = s
            self.labels.add("environment variable")
            v = "${%s%s}" % (n, ":-other" if w == "defaultset" else "")
            return '"' + v + '"' if w == "envdq" else v
        if w == "default" and re.match(r"^[A-Za-z0-9_. -]+$", s):
            self.labels.add("environment default")
            v = "${VF_UNSET:-%s}" % s
            return '"' + v + '"'
        out = cq(s)
        if "${" in s:
            out = "'" + s + "'" if "'" not in s and "\\\\" not in s else out.replace("${", "\\${")
        if len(out) > 6 and "\\" not in out and "${" not in out and "__" not in out \
                and self.draw(st.integers(0, 8)) == 4 and out[0] == '"':
            i = self.draw(st.integers(1, len(out) - 2))
            self.labels.add("continuation line")
            out = out[:i] + "\\\n" + out[i:]
        return out

    def lst(self, xs):
        if len(xs) == 1 and self.draw(st.booleans()):
            return self.string(xs[0])
        self.labels.add("list")
        nl = lambda: self.ws() + self.pick("", "", "\n", "\n  ")
        return "{" + nl() + ("," + nl()).join(self.string(x) + nl() for x in xs) + "}"

    def setting(self, k, v):
        if isinstance(v, list):
            r = self.lst(v)
        elif isinstance(v, str):
            r = self.string(v)
        elif isinstance(v, float):
            r = self.pick(repr(v), "%.3f" % v, *(["%d" % v] if v == int(v) else []))
        else:
            r = str(v)
        return k + self.ws() + "=" + self.ws() + r

    def item(self, it):
        if it[0] == "set":
            return self.setting(it[1], it[2])
        body = [self.setting(k, v) for k, v in self.draw(st.permutations(list(it[2].items())))]
        sep = self.pick("\n", "\n    ", " ", " # c\n")
        t = "authorize " + self.string(it[1]) + self.ws() + self.pick("", "\n") + "{" + self.wsn() + (sep).join(body) + sep + "}"
        return t

    def items(self, its):
        out = self.wsn()
        for it in its:
            out += self.item(it) + self.pick("\n", "\n\n", " # a comment\n", "\n# ' \"\n", " \n", "\n\t")
        return out


@st.composite
def cases(draw):
    titles = draw(st.lists(st.sampled_from(TITLES), min_size=1, max_size=4, unique=True))
    sets = {}
    g = {}
    spat = st.one_of(st.sampled_from(PATTERNS),
                     st.tuples(st.sampled_from(PATTERNS), st.sampled_from(PATTERNS)).map("@".join))
    pl = lambda s: st.lists(s, min_size=1, max_size=3)
    P = dict(hosts=pl(st.sampled_from(PATTERNS)), services=pl(spat), commands=pl(st.sampled_from(CMDPAT)))
    for k in P:
        if draw(st.integers(0, 3)) == 1:
            g[k] = draw(P[k])
    gp = draw(st.integers(0, 2)) == 1
    if gp:
        g["password"] = draw(st.sampled_from(PWS))
    auth = []
    for t in titles:
        d = {}
        if not gp or draw(st.integers(0, 2)):
            d["password"] = draw(st.sampled_from(PWS))
        for k in P:
            if draw(st.integers(0, 1)):
                d[k] = draw(P[k])
        auth.append([t, d])
    o = {}
    if draw(st.booleans()):
        o["max_command_size"] = draw(st.sampled_from([0, 1, 64, 1000, 4096, 5000, 16384, 20000]))
    if draw(st.booleans()):
        o["log_level"] = draw(st.integers(0, 5))
    if draw(st.booleans()):
        o["tls_ciphers"] = ":".join(draw(st.lists(st.sampled_from(CIPHERS), min_size=1, max_size=3, unique=True)))
    if draw(st.booleans()):
        o["pid_file"] = "__D__/" + draw(st.sampled_from(["pid", "nsca ng.pid", "run.d"]))
    if draw(st.integers(0, 2)) == 1:
        o["timeout"] = draw(st.sampled_from([1.5, 1.0, 2.0, 0.0, 60.0]))
    if draw(st.integers(0, 2)) == 1:
        o["max_queue_size"] = draw(st.sampled_from([0, 1, 512]))
    o["command_file"] = "__D__/" + draw(st.sampled_from(["cmd", "rw/nagios.cmd", "a b/c'd"]))
    o["temp_directory"] = "__D__/" + draw(st.sampled_from(["spool", "tmp dir", "t/u"]))
    listen = draw(st.sampled_from(["ipport", "ipport", "ip", "any", "cli", "clioverride"]))
    cli = {}
    if draw(st.integers(0, 3)) == 1:
        cli["command_file"] = "__D__/cli.cmd"
    if draw(st.integers(0, 3)) == 1:
        cli["log_level"] = draw(st.integers(0, 5))
    if draw(st.integers(0, 3)) == 1:
        cli["pid_file"] = "__D__/cli.pid"
    if listen in ("ipport", "ip", "any"):
        o["listen"] = "__%s__" % listen.upper()
    elif listen == "clioverride":
        o["listen"] = "203.0.113.7:99"
    items = [["set", k, v] for k, v in {**g, **o}.items()] + [["auth", t, d] for t, d in auth]
    items = draw(st.permutations(items))
    # distribute over files
    env = {}
    files, links = {}, []
    invalid = None
    tx = Text(draw, env)
    cnt = [0]

    def fname(ext=True):
        cnt[0] += 1
        stem = draw(st.sampled_from(["f%d", "00-%d", "n s%d", ".h%d", "x.conf.%d", "it's%d", "b\\\\s%d", "F%d"])) % cnt[0]
        return stem + (draw(st.sampled_from([".cfg", ".conf"])) if ext else
                       draw(st.sampled_from(["", ".txt", ".cfg", ".inc"])))

    JUNK = ["garbage {", "authorize \"alpha\" { password = \"evil\" }\n", "max_command_size = 3\nunknown = 1\n", "\"", ""]

    def write_dir(path, its, depth):
        its = list(its)
        subs = [path]
        for i in range(draw(st.integers(0, 2))):
            subs.append(draw(st.sampled_from(subs)) + "/" + draw(st.sampled_from(["sub%d", "d%d.cfg", "s p%d", ".git%d"])) % i)
        if draw(st.integers(0, 14)) == 7:
            subs.append(path + "/deep" * draw(st.integers(5, 30)))
            tx.labels.add("deep directory")
        if draw(st.integers(0, 14)) == 7:
            for i in range(draw(st.integers(5, 120))):
                cnt[0] += 1
                files[draw(st.sampled_from(subs)) + "/crowd%d.cfg" % cnt[0]] = \
                    'authorize "crowd%d" {\n password = "cp"\n}\n' % cnt[0] if i % 3 else "# %d\n" % i
            tx.labels.add("many files")
        nf = draw(st.integers(1, 3))
        groups = [[] for _ in range(nf)]
        for it in its:
            groups[draw(st.integers(0, nf - 1))].append(it)
        for gr in groups:
            d = draw(st.sampled_from(subs))
            write_file(d + "/" + fname(), gr, depth + 1, linkable=True)
        for d in subs:
            files.setdefault(d + "/", None)
        for i in range(draw(st.integers(0, 2))):
            d = draw(st.sampled_from(subs))
            n = draw(st.sampled_from(["readme.txt", "a.cfg~", "b.cfg.bak", "nodot", "cfg", "c.CFG", "d.cfg.", "e.config", "conf", "f.cfgx",
                                      "g.conf-old", "#h.cfg#", "i.cfg,v"]))
            files[d + "/" + n] = draw(st.sampled_from(JUNK))
            tx.labels.add("decoy file")

    def write_file(path, its, depth, linkable=False):
        its = list(its)
        text = ""
        i = 0
        while i < len(its):
            if depth < 3 and draw(st.integers(0, 5)) == 3:
                n = draw(st.integers(1, len(its) - i))
                sub = its[i:i + n]
                i += n
                if draw(st.booleans()):
                    p = "__R__/" + fname(False)
                    tx.labels.add("include file")
                    write_file(p, sub, depth + 1)
                else:
                    cnt[0] += 1
                    p = "__R__/" + draw(st.sampled_from(["dir%d", "dir %d", "conf.d%d", "o'dir%d"])) % cnt[0]
                    tx.labels.add("include directory")
                    write_dir(p, sub, depth + 1)
                if draw(st.integers(0, 3)) == 2:
                    p = draw(st.sampled_from(["etc/", "./etc/", "etc//../etc/"])) + p[6:]
                    tx.labels.add("relative include")
                q = draw(st.sampled_from(["double", "double", "single", "none"]))
                if q == "none" and re.fullmatch(r"[A-Za-z0-9_./-]+", p.replace("__R__/", "/")):
                    q = p
                else:
                    q = "'" + p.replace("\\", "\\\\").replace("'", "\\'") + "'" if q == "single" else cq(p)
                text += tx.wsn() + "include(" + q + ")" + draw(st.sampled_from(["\n", "\n\n", " # x\n"]))
            else:
                text += tx.items(its[i:i + 1])
                i += 1
        if draw(st.integers(0, 9)) == 5:
            text = text.replace("\n", "\r\n") if "continuation line" not in tx.labels and "\\\n" not in text else text
        if draw(st.integers(0, 9)) == 5:
            text = text.rstrip("\n") if "#" not in text.split("\n")[-2 if text.endswith("\n") and "\n" in text[:-1] else -1] else text
        if linkable and draw(st.integers(0, 4)) == 2:
            cnt[0] += 1
            real = "__R__/real%d" % cnt[0]
            files[real] = text
            links.append([path, real])
            tx.labels.add("symlinked file")
        else:
            files[path] = text

    top = draw(st.sampled_from(["file", "file", "dir"]))
    if top == "file":
        conf = "__R__/nsca-ng.cfg"
        write_file(conf, items, 0)
    else:
        conf = "__R__/" + draw(st.sampled_from(["etc", "nsca ng.d", "x.cfg", "o'etc"]))
        tx.labels.add("-c directory")
        write_dir(conf, items, 0)
        if draw(st.integers(0, 3)) == 1:
            links.append(["__R__/linked", conf])
            conf = "__R__/linked"
            tx.labels.add("symlinked directory")
    probes = []
    for t, d in auth:
        for _ in range(draw(st.integers(2, 5))):
            k = draw(st.sampled_from(["h", "s", "c"]))
            if k == "c":
                probes.append([t, "c", draw(st.sampled_from(CMDS))])
            elif k == "h":
                probes.append([t, "h", draw(st.sampled_from(NAMES))])
            else:
                probes.append([t, "s", draw(st.sampled_from(NAMES)), draw(st.sampled_from(NAMES))])
    bad = None
    if draw(st.integers(0, 5)) == 3:
        bad = draw(st.sampled_from(["nopw", "unknown", "unknownauth", "notitle", "negsize", "neglevel", "negqueue", "negtimeout",
                                    "nonint", "nonfloat", "badhost", "badservice", "badservicehost", "badcommand", "badglobal", "missinginclude",
                                    "noauth", "unterminatedstring", "section", "inttrail", "noequals", "emptyinclude", "twoincludes", "fifo",
                                    "missingconf", "notmpdir", "globalsection"]))
    return dict(g=g, auth=auth, o=o, cli=cli, listen=listen, files=files, links=links, env=env, conf=conf, probes=probes,
                labels=sorted(tx.labels), bad=bad, big=draw(st.booleans()), rel=draw(st.sampled_from([False, False, False, True])), tls=draw(st.sampled_from([12, 13])))


BAD = dict(unknown="bogus = 1\n", unknownauth='authorize "zz" {\n password = "p"\n bogus = "x"\n}\n',
           notitle='authorize {\n password = "p"\n}\n',
           negsize="max_command_size = -1\n", neglevel="log_level = -1\n", negqueue="max_queue_size = -5\n",
           negtimeout="timeout = -0.5\n", nonint="max_command_size = many\n", nonfloat="timeout = soon\n",
           badhost='authorize "zz" {\n password = "p"\n hosts = "(a"\n}\n',
           badservice='authorize "zz" {\n password = "p"\n services = {"a", "[b"}\n}\n',
           badservicehost='authorize "zz" {\n password = "p"\n services = "ok@(a"\n}\n',
           badcommand='authorize "zz" {\n password = "p"\n commands = "a[[:foo:]]"\n}\n',
           badglobal='hosts = "*a("\nauthorize "zz" {\n password = "p"\n}\n',
           missinginclude='include("__R__/does-not-exist")\n', unterminatedstring='pid_file = "abc\n',
           section='client "x" {\n password = "p"\n}\n', inttrail="log_level = 1x\n", noequals='password "x"\n',
           emptyinclude="include()\n", twoincludes='include("__R__/a", "__R__/b")\n', fifo='include("__D__/cmd")\n',
           globalsection='commands {\n}\n')


class C14(Check):
    rule = ("A case is a random logical configuration (global settings, global fallbacks, authorize sections), rendered into random "
            "files, directories, includes, links, quoting, lists, comments and environment references, plus command-line overrides; "
            "or such a configuration with one error.  It is non-trivial if the server was observed to apply at least one setting "
            "other than a default, or rejected the erroneous configuration.")
    assumptions = ["continuation lines are only generated within double-quoted strings (libConfuse handles no others)",
                   "unquoted values use letters, digits and ._:/- only"]
    cases = dict(quick=700, thorough=20000)

    def strategy(self, tier):
        return cases()

    examples = [
        dict(g={"commands": ["A", "B"], "hosts": ["x", "y"], "services": ["s@h", "t"]}, auth=[["c", {"password": "p"}]],
             o={"command_file": "__D__/cmd", "temp_directory": "__D__/spool"}, cli={}, listen="cli", links=[], env={}, conf="__R__/nsca-ng.cfg",
             files={"__R__/nsca-ng.cfg": 'commands = {"A", "B"}\nhosts = {x, "y"}\nservices={"s@h","t"}\n'
                    'command_file="__D__/cmd"\ntemp_directory="__D__/spool"\nauthorize c {\n password = p\n}\n'},
             probes=[["c", "c", "B"], ["c", "c", "C"], ["c", "h", "y"], ["c", "s", "q", "t"], ["c", "s", "h", "s"], ["c", "s", "q", "s"]],
             labels=[], bad=None, big=True, tls=13),
        dict(g={}, auth=[["c", {"password": "p", "hosts": ["a"]}]],
             o={"command_file": "__D__/cmd", "temp_directory": "__D__/spool"}, cli={}, listen="cli", links=[], env={}, conf="__R__/o'etc",
             files={"__R__/o'etc/it's.cfg": 'command_file="__D__/cmd"\ntemp_directory="__D__/spool"\n',
                    "__R__/o'etc/b\\\\s.conf": "authorize c {\n password = p\n hosts = a\n}\n"},
             probes=[["c", "h", "a"]], labels=[], bad=None, big=False, tls=13),
    ]

    def run(self, env, case):
        d = env.dir()
        r = os.path.join(d, "etc")
        os.mkdir(r)
        sub = lambda s: s.replace("__R__", r).replace("__D__", d) if isinstance(s, str) else s
        o = {k: sub(v) for k, v in case["o"].items()}
        cli = {k: sub(v) for k, v in case["cli"].items()}
        ip = env.ip()
        port = 31000 + env.shard * 150 % 1200 + env.n % 150 if case["listen"] == "any" else 5668 if case["listen"] == "ip" else env.port()
        lt = {"__IPPORT__": "%s:%d" % (ip, port), "__IP__": ip, "__ANY__": "*:%d" % port}
        bad = case["bad"]
        files = dict(case["files"])
        conf = case["conf"]
        if bad in BAD or bad in ("nopw", "noauth"):
            t = BAD.get(bad)
            if bad == "nopw":
                t = 'authorize "zz" {\n hosts = ".*"\n}\n'
            # one more file, included last
            if bad == "noauth":
                files = {"__R__/x.cfg": 'log_level = 3\npassword = "p"\ncommand_file = %s\ntemp_directory = %s\n' % (
                    cq(o["command_file"]), cq(o["temp_directory"]))}
                conf = "__R__/x.cfg" if case["big"] else "__R__"
            else:
                if bad == "nopw" and "password" in case["g"]:
                    return ["skipped"], False
                if bad == "badglobal" and "hosts" in case["g"]:
                    t = t.replace('hosts = "*a("', "").replace("}", ' hosts = "*a("\n}')
                first = conf
                files["__R__/bad-inner"] = t
                if case["big"] and bad != "unterminatedstring":
                    # the error sits in the main file, behind everything else
                    files["__R__/bad-outer"] = 'include(%s)\n' % cq(sub(conf)) + t
                else:
                    files["__R__/bad-outer"] = 'include(%s)\ninclude(%s)\n' % (cq(sub(conf)), cq(sub("__R__/bad-inner")))
                conf = "__R__/bad-outer"
        elif bad == "missingconf":
            conf = "__R__/does-not-exist.cfg"

        def render(t):
            for k, v in lt.items():
                t = t.replace(k, v)
            return sub(t)
        for p, t in files.items():
            p = sub(p)
            if t is None:
                os.makedirs(p, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(B(render(t)))
        for a, b in case["links"]:
            a, b = sub(a), sub(b)
            os.makedirs(os.path.dirname(a), exist_ok=True)
            os.symlink(b, a)
        spool = o["temp_directory"]
        if bad != "notmpdir":
            os.makedirs(spool, exist_ok=True)
        fifo = cli.get("command_file", o["command_file"])
        for f in {o["command_file"], fifo, os.path.join(d, "cmd")}:
            os.makedirs(os.path.dirname(f), exist_ok=True)
            if not os.path.exists(f):
                os.mkfifo(f)
        args = []
        if "command_file" in cli:
            args += ["-C", fifo]
        if "log_level" in cli:
            args += ["-l", str(cli["log_level"])]
        if "pid_file" in cli:
            args += ["-P", cli["pid_file"]]
        e = {k: render(v) for k, v in case["env"].items()}
        srv = Server(env, None, args=args, fifo=False, nagios=False, listen="cli" if case["listen"].startswith("cli") else "conf",
                     start=False, conf_path=os.path.relpath(sub(conf), d) if case.get("rel") else sub(conf), workdir=d, ip=ip, port=port, extra_env=e)
        what = lambda: "configuration: " + json.dumps({sub(k): render(v) if v else v for k, v in files.items()})[:1500]
        if bad == "notmpdir" and os.path.isdir(spool):
            os.rmdir(spool)
        if bad is not None:
            srv.start(wait=False)
            try:
                rc = srv.p.wait(TIMEOUT)
            except subprocess.TimeoutExpired:
                raise Violation("erroneous configuration (%s) accepted; %s" % (bad, what()))
            check_sanitizer(d, "nsca-ng")
            if rc == 0 or rc < 0 or rc == 99:
                raise Violation("exit status %d for an erroneous configuration (%s); %s" % (rc, bad, what()))
            if not srv.log().strip():
                raise Violation("no error message for an erroneous configuration (%s); %s" % (bad, what()))
            return ["rejected: " + bad], True
        other = None
        if o["command_file"] != fifo:
            other = Nagios(o["command_file"], spool).open()
            env.cleanups.append(other.close)
        nag = Nagios(fifo, spool).open()
        env.cleanups.append(nag.close)
        try:
            srv.start()
        except Violation as v:
            raise Violation("%s; %s" % (v, what()))
        labels = set(case["labels"])
        auth = {t: {**case["g"], **a} for t, a in case["auth"]}
        level = cli.get("log_level", o.get("log_level", 3))
        limit = o.get("max_command_size", 16384)
        ident = lambda t: "nobody-else" if t == "*" else t

        # TLS ciphers
        allowed = o.get("tls_ciphers", "PSK-AES256-CBC-SHA:PSK-AES128-CBC-SHA").split(":")
        t0, a0 = next(iter(auth.items()))
        for c in CIPHERS:
            try:
                k = srv.connect(ident(t0), B(a0["password"]), tls=12, ciphers=c)
                ok = True
                k.free()
            except PeerGone:
                ok = False
            if ok != (c in allowed):
                raise Violation("TLS cipher %s %s although the acceptable ciphers are %s; %s" % (
                    c, "accepted" if ok else "refused", allowed, what()))
        idle = None
        tmo = o.get("timeout", 60.0)
        if "timeout" in o:
            t_idle = time.monotonic()
            idle = srv.session(ident(t0), B(a0["password"]), sid="idle")
        # identities and passwords
        ss = {}
        for t, a in auth.items():
            try:
                ss[t] = srv.session(ident(t), B(a["password"]), tls=case["tls"])
            except PeerGone as x:
                raise Violation("client %r not let in with its password %r: %s; %s" % (ident(t), a["password"], x, what()))
            for wrong in {a["password"] + "x", "other", case["g"].get("password", "nope")} - {a["password"]}:
                try:
                    srv.connect(ident(t), B(wrong), tls=case["tls"])
                except PeerGone:
                    continue
                raise Violation("client %r let in with password %r instead of %r; %s" % (ident(t), wrong, a["password"], what()))
        if "*" not in auth:
            try:
                srv.connect("nobody-else", B(next(iter(auth.values()))["password"]))
            except PeerGone:
                pass
            else:
                raise Violation("unknown identity let in; " + what())
        # sizes
        s0 = ss[t0]
        expect, logged = [], []
        if limit:
            if s0.req("PUSH %d" % (limit + 1))[:5] != b"FAIL ":
                raise Violation("command longer than max_command_size %d not refused; %s" % (limit, what()))
        n = limit or 40000
        line = b"[1] XX" + b"y" * 50000
        line = line[:n - 1] + b"\n" if n > 6 else b"\n" * n
        if n > 1:
            s0.submit(line)     # refused by the patterns, but not for its size
        # authorizations
        for p in case["probes"]:
            t, a = p[0], auth[p[0]]
            if p[1] == "c":
                ok = match(a.get("commands", []), p[2])
                line = "[7] %s\n" % p[2]
            elif p[1] == "h":
                line = "[7] PROCESS_HOST_CHECK_RESULT;%s;0;out\n" % p[2]
                ok = match(a.get("hosts", []), p[2]) or match(a.get("commands", []), line[4:-1])
            else:
                line = "[7] PROCESS_SERVICE_CHECK_RESULT;%s;%s;0;out\n" % (p[2], p[3])
                ok = svc_match(a.get("services", []), p[2], p[3]) or match(a.get("commands", []), line[4:-1])
            if limit and len(line) > limit:
                continue
            got = ss[t].submit(line)
            if got != ok:
                raise Violation("%r %s for %r whose settings are %r; %s" % (line, "accepted" if got else "refused", t, a, what()))
            logged.append((ok, line[:-1]))
            if ok:
                expect.append(B(line))
        # a big command goes via the temporary directory
        pat = [(t, x) for t in auth for x in auth[t].get("hosts", []) if x in ("mail", "db|mail", ".*", "[^;]+")]
        if case["big"] and pat and (limit == 0 or limit >= 5000):
            line = b"[7] PROCESS_HOST_CHECK_RESULT;mail;0;" + b"z" * 4500 + b"\n"
            if not ss[pat[0][0]].submit(line):
                raise Violation("permitted long command refused; " + what())
            expect.append(line)
            labels.add("spool file")
        if not nag.wait(lambda n: len(n.cmds) >= len(expect)) or sorted(nag.cmds) != sorted(expect) or nag.problems:
            raise Violation("delivered %r instead of %r %r; %s" % (
                [c[:100] for c in nag.cmds], [c[:100] for c in expect], nag.problems, what()))
        if other is not None:
            other.pump()
            if other.raw:
                raise Violation("data in the command file overridden by -C; " + what())
        # log level
        log = srv.log()

        def want(cond, text, w):
            if cond != (text in log):
                raise Violation("log level %d: %s %s; log: %s" % (level, w, "missing" if cond else "logged", log[-600:]))
        for ok, l in logged:
            want(level >= (3 if ok else 2), ("Queuing data from" if ok else "Refusing data from"), "submission")
            want(level >= 3, l + "\n", "command") if ok and not any(not k and m == l for k, m in logged) else None
        want(level >= 4, "MOIN 1", "protocol message")
        if level >= 5 and log.count("\n") < 3:
            raise Violation("no debug output at log level 5")
        want(level >= 3, "starting up", "startup notice")
        # PID file
        pf = cli.get("pid_file", o.get("pid_file"))
        for f in {cli.get("pid_file"), o.get("pid_file"), d + "/pid"} - {None}:
            if f == pf:
                try:
                    with open(f) as fh:
                        c = fh.read()
                except OSError as x:
                    raise Violation("no PID file: %s; %s" % (x, what()))
                if c.strip() != str(srv.pid()):
                    raise Violation("PID file contains %r instead of %d; %s" % (c, srv.pid(), what()))
                labels.add("PID file")
            elif os.path.exists(f):
                raise Violation("PID file %s written; %s" % (f, what()))
        # timeout
        if idle is not None:
            if tmo in (0.0, 60.0):
                kind = idle.c.ending(0.2)[0]
                if kind != "timeout":
                    raise Violation("connection closed (%s) despite timeout %s; %s" % (kind, tmo, what()))
            else:
                kind, extra = idle.c.ending(TIMEOUT)
                dt = time.monotonic() - t_idle
                if kind == "timeout":
                    raise Violation("idle connection not closed within %.1f s, timeout %s; %s" % (dt, tmo, what()))
                if dt < tmo - 0.02:
                    raise Violation("idle connection closed after %.2f s, timeout %s; %s" % (dt, tmo, what()))
                labels.add("timeout")
        srv.stop()
        if pf and os.path.exists(pf):
            raise Violation("PID file left behind; " + what())
        for k in case["o"]:
            labels.add("setting " + k)
        for k in case["cli"]:
            labels.add("option " + k)
        for k in case["g"]:
            labels.add("fallback " + k)
        return sorted(labels), True


check = C14()
