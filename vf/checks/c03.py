"""C03: authentication against the configured sections."""
import ssl
from hypothesis import strategies as st
from ..harness import *
from ..run import Check
from ..peer import PeerGone

names = st.one_of(
    st.sampled_from(["alpha", "beta", "alphabet", "Alpha", "alpha ", "*", "a", "b", "ab", "ba", "host.example.com", "**",
                     "a*", "root", "ROOT", "0", "x" * 40, "x" * 41, "x" * 100]),
    st.text(alphabet="abcAB*01 .-_@;", min_size=1, max_size=6).filter(lambda s: s.strip() == s or True),
    st.text(alphabet="abc", min_size=1, max_size=3))
pws = st.one_of(st.sampled_from(["secret", "Secret", "secret1", "secre", "p", "x" * 64, "x" * 65, "x" * 200, "pass word", "pa\"ss", "#c"]),
                st.text(alphabet="abAB01 #%$;'\"\\\xe4", min_size=1, max_size=10).filter(lambda s: "${" not in s))


@st.composite
def cases(draw):
    big = draw(st.integers(0, 9)) == 0
    ids = draw(st.lists(names, min_size=1, max_size=40 if big else 6, unique=True))
    if big:
        ids = list(dict.fromkeys(ids + ["h%d" % i for i in range(draw(st.integers(5, 60)))]))
    if draw(st.booleans()) and "*" not in ids:
        ids.append("*")
    glob = draw(st.one_of(st.none(), pws))
    secs = []
    for i in ids:
        pw = draw(pws)
        if glob is not None and draw(st.integers(0, 2)) == 0:
            pw = None
        secs.append([i, pw])
    attempts = []
    for _ in range(draw(st.integers(2, 6))):
        if draw(st.integers(0, 3)):
            i = draw(st.sampled_from(ids))
        else:
            i = draw(names)
        if draw(st.integers(0, 5)) == 0:
            i = draw(st.sampled_from([i + "x", i[:-1] or "q", i.swapcase(), "*" + i, i + " ", i + i]))
        k = draw(st.integers(0, 9))
        key = None          # the right one
        if k <= 4:
            key = None
        elif k <= 6:        # somebody else's
            key = draw(st.sampled_from(secs))[1] or glob
        elif k == 7:
            key = draw(st.one_of(pws, st.just(["nopsk", 0])))
        else:
            key = ["mut", draw(st.integers(0, 5))]
        attempts.append([i[:120], key, draw(st.sampled_from([12, 13]))])
    return dict(secs=secs, glob=glob, attempts=attempts, globfirst=draw(st.booleans()))


def mutate(k, s):
    return [s + "x", s[:-1], s.swapcase(), "x" + s, s[1:], s + s][k]


def without_psk(srv, tls):
    """A client without any key; -> whether the server talks to it."""
    s = socket.create_connection((srv.ip, srv.port), 10)
    try:
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        ctx.minimum_version = ssl.TLSVersion.TLSv1
        ctx.maximum_version = ssl.TLSVersion.TLSv1_3 if tls == 13 else ssl.TLSVersion.TLSv1_2
        ctx.set_ciphers("ALL:NULL:ADH:AECDH:@SECLEVEL=0")
        t = ctx.wrap_socket(s)
        t.sendall(b"MOIN 1 sess\r\n")
        return bool(t.recv(100))
    except (OSError, ssl.SSLError):
        return False
    finally:
        s.close()


class C03(Check):
    rule = ("A case is 1-100 authorize sections (some relying on a global password), and 2-6 connection attempts with an "
            "exact, similar or unknown identity and the right, another section's or a slightly different key, or none at all, "
            "over TLS 1.2 or 1.3; each successful session then tries the commands of all sections. Non-trivial if at least one attempt "
            "must succeed and at least one must fail.")
    assumptions = ["identities are 1-120 bytes and passwords 1-200 bytes without NUL"]
    cases = dict(quick=1000, thorough=20000)

    def strategy(self, tier):
        return cases()

    def run(self, env, case):
        t = ""
        if case["glob"] is not None and case["globfirst"]:
            t += "password = %s\n" % cq(case["glob"])
        for n, (i, pw) in enumerate(case["secs"]):
            t += "authorize %s {\n" % cq(i)
            if pw is not None:
                t += " password = %s\n" % cq(pw)
            t += ' commands = "CMD_%d"\n}\n' % n
        if case["glob"] is not None and not case["globfirst"]:
            t += "password = %s\n" % cq(case["glob"])
        srv = Server(env, t)
        ids = [s[0] for s in case["secs"]]
        labels = set()
        expect = []
        for i, key, tls in case["attempts"]:
            sec = ids.index(i) if i in ids else ids.index("*") if "*" in ids else None
            if isinstance(key, list) and key[0] == "nopsk":
                labels.add("wrong key: none at all, tls%d" % tls)
                if without_psk(srv, tls):
                    raise Violation("a client without any password got a session")
                continue
            right = None if sec is None else case["secs"][sec][1] or case["glob"]
            base = right or "secret"
            k = base if key is None else mutate(key[1], base) if isinstance(key, list) else key
            if not k:
                k = "zz"
            ok = right is not None and k == right
            labels.add(("exact " if i in ids else "fallback " if "*" in ids else "unknown ") +
                       ("right key" if ok else "wrong key") + " tls%d" % tls)
            got = True
            try:
                c = Conn.client(srv.ip, srv.port, i, k, tls=tls)
                env.cleanups.append(c.free)
                # in TLS 1.3 the client's handshake ends before the server checked it
                c.send(b"MOIN 1 sess\r\n")
                r = c.line()
            except PeerGone as e:
                if e.kind == "timeout":
                    raise Violation("no answer to the handshake of %r" % i)
                got = False
            if got and not ok:
                raise Violation("identity %r got a session with key %r, configured: %r" % (i, k, right))
            if ok and not got:
                raise Violation("identity %r with its password %r was rejected (TLS 1.%d)" % (i, k, tls - 10))
            if got:
                if r != b"MOIN 1\r\n":
                    raise Violation("unexpected response to MOIN: %r" % r)
                s = Session(c, moin=False)
                tries = sorted(set([sec] + [0, len(ids) - 1] + [j for j in range(min(len(ids), 5))]))
                for j in tries:
                    cmd = b"[1] CMD_%d\n" % j
                    a = s.submit(cmd)
                    if a != (j == sec):
                        raise Violation("identity %r (section %r): command of section %r was %s" % (
                            i, ids[sec], ids[j], "accepted" if a else "refused"))
                    if a:
                        expect.append(cmd)
                s.quit()
        srv.nagios.wait(lambda n: len(n.cmds) >= len(expect))
        if srv.nagios.cmds != expect:
            raise Violation("delivered %r instead of %r" % (srv.nagios.cmds, expect))
        srv.stop()
        r = any("right" in l for l in labels) and any("wrong" in l for l in labels)
        return sorted(labels), r


check = C03()
