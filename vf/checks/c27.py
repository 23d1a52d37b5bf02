"""C27: clients submit only to a server that proves knowledge of the password."""
import ssl
from hypothesis import strategies as st
from ..modules import *
from ..nscad import Nscad, Stop
from ..run import Check

CERTS = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "native", "certs")
VERS = {10: ssl.TLSVersion.TLSv1, 11: ssl.TLSVersion.TLSv1_1, 12: ssl.TLSVersion.TLSv1_2, 13: ssl.TLSVersion.TLSv1_3}


class Imposter:
    """Accepts connections; plays a server that doesn't know the password, but accepts everything."""

    def __init__(self, env, how, tls, cert, hello):
        self.s, self.ip, self.port = free_listener(env)
        self.how, self.tls, self.cert, self.hello = how, tls, cert, hello
        self.got = b""          # application data received
        self.established = 0
        self.stopping = False
        self.threads = []
        env.cleanups.remove(self.s.close)
        env.cleanups.append(self.stop)
        self.t = threading.Thread(target=self.accept, daemon=True)
        self.t.start()

    def stop(self):
        if not self.stopping:
            self.stopping = True
            try:
                self.s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            self.t.join(9)
            self.s.close()

    def accept(self):
        while not self.stopping:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            c.settimeout(8)
            try:
                self.serve(c)
            except (OSError, ssl.SSLError):
                pass
            finally:
                c.close()

    def serve(self, c):
        if self.how == "plain":
            if self.hello:
                c.sendall(b"MOIN 1\r\n")
            d = c.recv(65536)
            while d:
                # a ClientHello is all a client may send
                if not d.startswith(b"\x16\x03"):
                    self.got += d
                c.sendall(b"MOIN 1\r\n" if b"MOIN" in d else b"OKAY\r\n")
                d = c.recv(65536)
            return
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
        ctx.minimum_version = ctx.maximum_version = VERS[self.tls]
        if self.how == "anon":
            ctx.set_ciphers("ADH:AECDH:@SECLEVEL=0")
        else:
            ctx.set_ciphers("ALL:RSA-PSK-AES256-CBC-SHA:@SECLEVEL=0" if self.how == "cert" else "NULL:@SECLEVEL=0")
            ctx.load_cert_chain(os.path.join(CERTS, self.cert + ".pem"))
        t = ctx.wrap_socket(c, server_side=True)
        self.established += 1
        if self.hello:
            t.sendall(b"MOIN 1\r\n")
        d = t.recv(65536)
        while d:
            self.got += d
            t.sendall(b"MOIN 1\r\n" if d.startswith(b"MOIN") else b"OKAY\r\n")
            if d.startswith(b"QUIT"):
                t.unwrap()
                return
            d = t.recv(65536)


@st.composite
def cases(draw):
    psk = draw(st.text("abcXYZ019 _-", min_size=1, max_size=40))
    how = draw(st.sampled_from(["cert", "cert", "cert", "cert", "anon", "null", "plain", "key", "key", "right"]))
    wrong = draw(st.sampled_from(["+", "-", "case", "empty", "other", "rev", "nul", "id"]))
    return dict(lang=draw(st.sampled_from(["send_nsca", "send_nsca", "perl", "python"])), how=how, psk=psk, wrong=wrong,
                tls=draw(st.sampled_from([12, 12, 13, 13, 13, 10, 11])), cert=draw(st.sampled_from(["rsa", "ec", "ip", "chain"])),
                ciphers=draw(st.sampled_from([None, None, "PSK", "ALL", "DEFAULT", "HIGH", "PSK-AES256-CBC-SHA", "kRSAPSK:PSK", "ECDHE-RSA-AES256-GCM-SHA384:PSK"])),
                trust=draw(st.booleans()), hello=draw(st.sampled_from([False, False, True])), kind=draw(st.sampled_from(["host", "svc", "raw"])),
                identity=draw(st.sampled_from(["me", "a.example.com", "x" * 100])), calls=draw(st.integers(1, 2)))


def wrong_key(psk, w, ident):
    k = {"+": psk + "x", "-": psk[:-1] or "q", "case": psk.swapcase(), "empty": "", "other": "completely different", "rev": psk[::-1],
         "nul": psk + "\0", "id": ident}[w]
    return k if k != psk else psk + "z"


class C27(Check):
    rule = ("send_nsca, a Perl or a Python program submits results to an imposter which does not know the password, but "
            "accepts everything: it presents a certificate (RSA, ECDSA, naming the address, or one the environment trusts via SSL_CERT_FILE) over TLS "
            "1.0-1.3, offers anonymous or NULL cipher suites, talks NSCA-ng without TLS, or uses a similar key; or, as a control, the "
            "right one.  The client's cipher list is the default or a generated one.  Oracle: an imposter gets no application data "
            "at all, and the client reports an error; the right server gets the result.  Non-trivial: all imposters.")
    assumptions = ["cipher lists which enable anonymous suites by @SECLEVEL=0 are not generated"]
    cases = dict(quick=800, thorough=20000)
    budget = dict(quick=150, thorough=2400)
    shards = 8

    def strategy(self, tier):
        return cases()

    @property
    def examples(self):
        base = dict(psk="secret", wrong="+", cert="rsa", ciphers=None, trust=False, hello=False, kind="host", identity="me", calls=1)
        out = [dict(base, lang=l, how=h, tls=t) for l in ("send_nsca", "perl", "python") for h in ("cert", "key", "right") for t in (12, 13)]
        out += [dict(base, lang=l, how="cert", tls=13, cert="ip", trust=True, ciphers=c) for l in ("send_nsca", "perl", "python") for c in (None, "PSK")]
        return out

    def run(self, env, case):
        lang, how = case["lang"], case["how"]
        ids = [(case["identity"].encode(), case["psk"].encode())]
        imp = None
        if how in ("key", "right"):
            key = case["psk"] if how == "right" else wrong_key(case["psk"], case["wrong"], case["identity"])
            n = Nscad(env, ids=[(case["identity"].encode(), key.encode()), (b"*", key.encode())], tls=case["tls"] if case["tls"] >= 12 else 12)
        else:
            n = imp = Imposter(env, how, case["tls"], case["cert"], case["hello"])
        extra = {}
        if case["trust"]:
            extra["SSL_CERT_FILE"] = os.path.join(CERTS, "ca.pem")
        ok = 0
        err = ""
        host, svc = "myhost", None if case["kind"] != "svc" else "disk"
        # default suites suffice for TLS 1.2; others may have none in common
        compatible = case["tls"] >= 13 or case["ciphers"] in (None, "PSK", "ALL", "PSK-AES256-CBC-SHA", "kRSAPSK:PSK")
        if lang == "send_nsca":
            conf = 'identity = "%s"\npassword = "%s"\ntimeout = 6\n' % (case["identity"], case["psk"])
            if case["ciphers"]:
                conf += 'tls_ciphers = "%s"\n' % case["ciphers"]
            line = b"[1] SHUTDOWN_PROGRAM\n" if case["kind"] == "raw" else b"myhost\t" + (b"disk\t" if svc else b"") + b"0\tconfidential\n"
            c = Client(env, n.ip, n.port, conf, ["-C"] if case["kind"] == "raw" else [], extra_env=extra)
            c.feed_async(line)
            rc = c.wait()
            err = c.err()
            ok = int(rc == 0)
            if rc != 0 and not err.strip():
                raise Violation("send_nsca failed with status %d without a message" % rc)
            total = 1
        else:
            p = Interp(env, lang, extra_env=extra)
            total = case["calls"]
            try:
                p.new(1, n.ip, n.port, case["identity"], case["psk"], timeout=6, ciphers=case["ciphers"])
                for i in range(total):
                    try:
                        if case["kind"] == "raw" and lang == "perl":
                            p.send("command", 1, [S("[1] SHUTDOWN_PROGRAM")])
                        else:
                            p.send_result(1, S(host), None if svc is None else S(svc), 0, S("confidential"))
                        p.reply(60)
                        ok += 1
                    except Died as e:
                        err += e.msg if isinstance(e.msg, str) else J(e.msg)
            except Died as e:
                err += e.msg if isinstance(e.msg, str) else J(e.msg)
            p.finish()
        if imp is not None:
            imp.stop()
            if imp.got:
                raise Violation("%s sent application data to a server that doesn't know the password (%s, TLS %s): %r" % (
                    lang, how, case["tls"], imp.got[:200]))
            if ok:
                raise Violation("%s reports success though the server doesn't know the password (%s, TLS %s)" % (lang, how, case["tls"]))
            return [lang, "%s %s" % (how, case["tls"]), "trusted" if case["trust"] else "untrusted"], True
        n.settle()
        if how == "key":
            data = [r for t in n.talks for r in t.requests]
            if data or ok:
                raise Violation("%s talked to a server with the key %r instead of %r: %r, %d successes" % (
                    lang, key, case["psk"], data[:3], ok))
            return [lang, "wrong key " + case["wrong"]], True
        got = [c for t in n.talks for c in t.acked if c]
        if compatible and (ok != total or len(got) != total):
            raise Violation("%s cannot submit to the server with the right password (TLS %s, ciphers %s): %s" % (
                lang, case["tls"], case["ciphers"], err[:300]))
        if ok != len(got):
            raise Violation("%d successes, but %d commands accepted" % (ok, len(got)))
        return [lang, "right key", "ciphers %s: %s" % (case["ciphers"], bool(ok))], False


check = C27()
