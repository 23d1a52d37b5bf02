"""Builds the programs under test from /repo's working tree, and our own native
helpers, into /verif/build/<content hash>/ (or VERIF_BUILD).  Sources are found
by globbing so that refactorings which move code between files need no change
here."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NATIVE = os.path.join(VERIF, "native")

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
BASE = ["-g", "-w", "-DHAVE_CONFIG_H", '-DSYSCONFDIR="/nonexistent/etc"',
        '-DLOCALSTATEDIR="/nonexistent/var"',
        '-DNSCA_VERSION="1.7"']
INC = ["-Isrc/common", "-Ilib", "-Ilib/ev", "-Ilib/pidfile"]


class BuildError(Exception):
    pass


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def _run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (
            " ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, ".lock-" + name), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _files(*globs):
    out = []
    for g in globs:
        out += [p for p in glob.glob(os.path.join(REPO, g), recursive=True) if os.path.isfile(p)]
    return sorted(set(out))


def _prune(prefix, keep, n=6):
    ds = [d for d in glob.glob(os.path.join(BUILD, prefix + "-*")) if d != keep]
    ds.sort(key=os.path.getmtime)
    for d in ds[:-n] if n else ds:
        shutil.rmtree(d, ignore_errors=True)


def native(force=False):
    """libpeer.so and the preload shims."""
    srcs = sorted(glob.glob(os.path.join(NATIVE, "*.c")))
    d = os.path.join(BUILD, "native-" + _hash(srcs))
    with _Lock("native"):
        if os.path.exists(os.path.join(d, ".done")):
            return d
        os.makedirs(d, exist_ok=True)

        def one(s):
            name = os.path.basename(s)[:-2]
            if name.startswith("prog_"):
                _run(["gcc", "-O1", "-Wall", "-o", os.path.join(d, name[5:]), s])
                return
            libs = ["-lssl", "-lcrypto"] if name == "peer" else ["-ldl", "-lpthread"]
            _run(["gcc", "-O1", "-Wall", "-shared", "-fPIC", "-o",
                  os.path.join(d, "lib%s.so" % name), s] + libs)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(one, srcs))
        open(os.path.join(d, ".done"), "w").close()
        _prune("native", d)
    return d


VARIANTS = {
    # name: (extra cflags, config.h macros to undefine)
    "san": (["-O1"] + SAN, []),
    "noaio": (["-O1"] + SAN, ["HAVE_POSIX_AIO", "HAVE_AIO_INIT"]),
    "plain": (["-O2"], []),
}


def core(variant="san"):
    """send_nsca and nsca-ng; returns the directory holding both."""
    flags, undef = VARIANTS[variant]
    srcs = _files("src/**/*.[ch]", "lib/**/*.[ch]")
    d = os.path.join(BUILD, "core-%s-%s" % (variant, _hash(
        srcs + [os.path.join(NATIVE, "config/config.h")], repr((flags, undef, BASE, INC, 2)))))
    with _Lock("core-" + variant):
        if os.path.exists(os.path.join(d, ".done")):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(NATIVE, "config/config.h")) as f:
            conf = f.read()
        for u in undef:
            conf += "\n#undef %s\n" % u
        with open(os.path.join(d, "config.h"), "w") as f:
            f.write(conf)
        common = _files("src/common/*.c") + [os.path.join(REPO, "lib/wrappers.c"),
                                             os.path.join(REPO, "lib/progname.c")]
        pidf = [os.path.join(REPO, "lib/pidfile", x) for x in ("pidfile.c", "flopen.c")]
        ev = os.path.join(REPO, "lib/ev/ev.c")
        client, server = _files("src/client/*.c"), _files("src/server/*.c")
        objs = {}

        def comp(s):
            o = os.path.join(d, os.path.relpath(s, REPO).replace("/", "_")[:-2] + ".o")
            fl = list(flags)
            if s == ev:
                # third-party code with known benign UB
                fl = [x for x in fl if "undefined" not in x or "address" in x]
                fl = ["-fsanitize=address" if x.startswith("-fsanitize=address") else x for x in fl]
            _run(["gcc", "-c", "-o", o, s, "-I" + d] + INC + BASE + fl, cwd=REPO)
            objs[s] = o
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, [ev] + common + pidf + client + server))
        lib = [objs[s] for s in [ev] + common]
        link = [x for x in flags if x.startswith("-fsanitize")]
        if link:
            link += ["-static-libasan"]

        def ln(args):
            name, extra, libs = args
            tmp = os.path.join(d, name)
            _run(["gcc", "-o", tmp] + link + [objs[s] for s in extra] + lib +
                 libs + ["-lssl", "-lcrypto", "-lm", "-ldl", "-lpthread"])
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(ln, [("send_nsca", client, []),
                             ("nsca-ng", server + pidf, ["-lconfuse", "-lsystemd", "-lrt"])]))
        for o in objs.values():
            os.unlink(o)
        os.chmod(d, 0o755)
        open(os.path.join(d, ".done"), "w").close()
        _prune("core-" + variant, d)
    return d


def _copy(src, dst, skip):
    shutil.copytree(src, dst, symlinks=True, ignore=shutil.ignore_patterns(*skip))


ASAN_FLAGS = "-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"


def perl():
    """The Perl module built with sanitizers; returns the blib directory."""
    srcs = _files("perl/*.[ch]", "perl/*.xs", "perl/typemap", "perl/Makefile.PL", "perl/lib/**/*.pm")
    d = os.path.join(BUILD, "perl-" + _hash(srcs, ASAN_FLAGS + "1"))
    with _Lock("perl"):
        if os.path.exists(os.path.join(d, ".done")):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        _copy(os.path.join(REPO, "perl"), d, ["blib", "*.o", "Client.c", "Makefile", "MYMETA*",
                                              "pm_to_blib", "Makefile.in", "Makefile.am"])
        # Client.xs generates Client.c; a case-insensitive ignore of client.c must not happen
        env = dict(os.environ, PERL_MM_USE_DEFAULT="1")
        env.pop("MAKEFLAGS", None)
        _run(["perl", "Makefile.PL"], cwd=d, env=env)
        _run(["make", "OPTIMIZE=-O1 -g -w " + ASAN_FLAGS,
              "OTHERLDFLAGS=" + ASAN_FLAGS], cwd=d, env=env)
        open(os.path.join(d, ".done"), "w").close()
        _prune("perl", d)
    return d


def python():
    srcs = _files("python/*.[ch]", "python/setup.py")
    d = os.path.join(BUILD, "python-" + _hash(srcs, ASAN_FLAGS + "1"))
    with _Lock("python"):
        if os.path.exists(os.path.join(d, ".done")):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        _copy(os.path.join(REPO, "python"), d, ["build", "*.so", "__pycache__", "Makefile*"])
        env = dict(os.environ, CFLAGS="-O1 -g -w " + ASAN_FLAGS, LDFLAGS=ASAN_FLAGS)
        env.pop("MAKEFLAGS", None)
        _run(["/usr/bin/python3", "setup.py", "build_ext", "--inplace"], cwd=d, env=env)
        open(os.path.join(d, ".done"), "w").close()
        _prune("python", d)
    return d


_libasan = None


def libasan():
    global _libasan
    if _libasan is None:
        a = _run(["gcc", "-print-file-name=libasan.so"]).strip()
        u = _run(["gcc", "-print-file-name=libubsan.so"]).strip()
        _libasan = "%s %s" % (os.path.realpath(a), os.path.realpath(u))
    return _libasan


if __name__ == "__main__":
    print(native())
    for v in sys.argv[1:] or ["san"]:
        print(perl() if v == "perl" else python() if v == "python" else core(v))
