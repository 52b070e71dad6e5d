"""C24: command line tools give the library's results and leak nothing."""
import argparse  # noqa: what the tools import, so that forked runs need not
import ast
import json
import tempfile

import jwkest.jwe
import jwkest.jws
import requests
from Cryptodome.PublicKey import RSA

from vmon import der, gen, httpd, ref, taint
from vmon.core import Group, short
from vmon.httpd import answer
from vmon.tool import Bench

RULE = ("A case is one chain of tool runs in a scratch directory (generate, export, sign, "
        "verify, encrypt, decrypt, inspect) with the keys given by file, option or URL and the "
        "message by argument, file or standard input; some as real processes, some in a forked "
        "interpreter. Files and standard output are read by the reference implementation, and "
        "reference-made tokens and altered ones are fed in. Non-trivial: distinct argument "
        "lists and inputs.")
MINIMUM = {"more keys": 20, "signed": 40, "verified": 65, "verification refused": 100, "encrypted": 43,
           "decrypted": 46, "decryption refused": 115, "generated": 43, "exported": 14,
           "peeked": 48, "separate process": 40, "signed and encrypted": 14, "scanned": 1300,
           "by URL": 60}
ASSUME = ["tools run under a UTF-8 locale", "an option that is missing may be reported on "
          "standard error with exit status 0; no token is printed then",
          "jwkutil without -a makes unsecured tokens; that is not judged here",
          "jwkutil strips newlines around a message file, as its code says"]
SMALL_RSA = gen.R1024
WRONG = 3           # wrong-key or altered-input runs per chain


class Bed(object):
    """scratch directory, secrets in play, and the reading of results"""

    def __init__(self, ctx):
        self.ctx = ctx

    def __enter__(self):
        self.tmp = tempfile.TemporaryDirectory(prefix="vmon-c24-")
        self.b = Bench(self.ctx, self.tmp.name)
        self.secrets = taint.Secrets()
        return self

    def __exit__(self, *a):
        self.tmp.cleanup()

    def get(self, name):
        """a file the tool was to write"""
        try:
            return self.b.get(name)
        except OSError as e:
            self.ctx.need(False, "a file that the tool was to write is not there",
                          mechanism="missing file", name=name, error=str(e))

    def use(self, key):
        if key["kty"] == "oct":
            if len(key["k"]) >= taint.WIN:
                self.secrets.add("shared key", key["k"])
        else:
            self.secrets.add_key(key)

    def scan(self, what, text, **detail):
        self.ctx.event("scanned")
        s = self.secrets.scan(text)
        self.ctx.check(s is None, "%s shows a secret" % what, mechanism="leak " + what,
                       secret=s, text=text, **detail)

    def run(self, tool, *argv, **kw):
        r = self.b.run(tool, *argv, **kw)
        self.ctx.case(tool, argv, kw.get("stdin"))
        self.scan("stdout", r.out, run=r)
        self.scan("stderr", r.err, run=r)
        return r

    def log(self):
        """jwkutil options that write a log, which is scanned afterwards"""
        if self.ctx.rng.random() < .3:
            self.b.n += 1
            self.logfile = "log%d" % self.b.n
            return ["-l", self.logfile]
        self.logfile = None
        return []

    def scan_log(self):
        if self.logfile:
            try:
                t = self.b.get(self.logfile)
            except OSError:
                return
            self.ctx.event("log scanned")
            self.scan("log file", t.decode("utf-8", "replace"))

    def good(self, r, what):
        self.ctx.need(r.code == 0, "%s failed" % what, mechanism="failed " + r.argv[0], run=r)
        self.ctx.need(r.out.endswith("\n"), "no line on standard output",
                      mechanism="output " + r.argv[0], run=r)
        return r.out[:-1]

    def bad(self, r, what, secret=None):
        self.ctx.check(r.code != 0, "%s did not fail" % what, mechanism="accepted " + r.argv[0],
                       run=r)
        if secret is not None and len(secret) > 7:
            self.ctx.check(secret not in r.out, "%s printed the message" % what,
                           mechanism="printed " + r.argv[0], run=r)


def pem_of(rng, key, private):
    if private:
        return der.pem("RSA PRIVATE KEY", der.pkcs1_private(key)) if rng.random() < .5 else \
            der.pem("PRIVATE KEY", der.pkcs8(key))
    k = rng.randrange(3)
    if k == 0:
        return der.pem("RSA PUBLIC KEY", der.pkcs1_public(key))
    return der.pem("PUBLIC KEY", der.spki(key)) if k == 1 else \
        der.pem("CERTIFICATE", der.cert(key, key, rng))


def key_set(rng, key, private, meta, decoys=True):
    L = [ref.jwk(key, private, **meta)]
    while decoys and rng.random() < .4:
        d = rng.choice([x for x in SMALL_RSA + gen.ECK["P-256"] + gen.OCT
                        if x["kty"] != key["kty"]])
        L.insert(rng.randrange(len(L) + 1), ref.jwk(d, private and rng.random() < .5))
    if decoys and rng.random() < .12:       # a long set
        pool = [x for x in SMALL_RSA + gen.ECK["P-256"] + gen.OCT if x["kty"] != key["kty"]]
        for _ in range(rng.choice([20, 60, 150])):
            L.insert(rng.randrange(len(L) + 1), ref.jwk(rng.choice(pool)))
    return json.dumps({"keys": L})


def by_url(ctx, text, ctype="application/json"):
    w = httpd.world()
    ctx.event("by URL")
    return w.plain.put("/k%d" % ctx.rng.randrange(10**12), [answer(200, text.encode(),
                                                                    ctype=ctype)])


def as_text(key):
    try:
        t = key["k"].decode("ascii")
    except UnicodeDecodeError:
        return None
    return t if t and t.isprintable() and not t.startswith("-") else None


def util_source(bed, key, private, kid=""):
    """jwkutil options that hand over a key -> options, key id it has"""
    rng = bed.ctx.rng
    hows = ["-j", "-j", "-J", "-u"]
    if key["kty"] == "RSA":
        hows += ["-r"] * 3
    if key["kty"] == "oct" and as_text(key):
        hows = ["-k"] * 3 + hows
        if kid:
            hows.remove("-k"), hows.remove("-k"), hows.remove("-k")
    how = rng.choice(hows)
    meta = {"kid": kid} if kid else {}
    if how == "-r":
        return ["-r", bed.b.put(pem_of(rng, key, private), ".pem")] + (["-i", kid] if kid else [])
    if how == "-k":
        return ["-k", as_text(key)]
    if how == "-j":
        return ["-j", bed.b.put(json.dumps(ref.jwk(key, private, **meta)), ".jwk")]
    text = key_set(rng, key, private, meta)
    if how == "-J":
        return ["-J", bed.b.put(text, ".jwks")]
    return ["-u", by_url(bed.ctx, text)]


def more_source(bed, key, taken, private=False):
    """now and then another jwkutil option, handing over a key that is of no use"""
    rng = bed.ctx.rng
    if rng.random() > .4:
        return []
    how = rng.choice([h for h in ("-j", "-J", "-r", "-u", "-k") if h not in taken])
    kty = {"-r": "RSA", "-k": "oct"}.get(how) or rng.choice(["RSA", "EC", "oct"])
    if kty == key["kty"]:
        if how in ("-r", "-k"):
            return []
        kty = "EC" if kty == "oct" else "oct"
    d = rng.choice({"RSA": SMALL_RSA, "EC": gen.ECK["P-256"], "oct": gen.OCT}[kty])
    bed.ctx.event("more keys")
    if how == "-r":
        return [how, bed.b.put(pem_of(rng, d, private), ".pem")]
    if how == "-k":
        return [how, "not this one"]
    if how == "-j":
        return [how, bed.b.put(json.dumps(ref.jwk(d, private)), ".jwk")]
    text = json.dumps({"keys": [ref.jwk(d, private)]})
    return [how, bed.b.put(text, ".jwks") if how == "-J" else by_url(bed.ctx, text)]


def enc_source(bed, key, private):
    """jwenc and jwdecrypt options that hand over a key"""
    rng = bed.ctx.rng
    how = rng.choice(["-j", "-J"] + (["-r", "-r", "-x", "-X"] if key["kty"] == "RSA" else ["-j"]))
    if how == "-j":
        return ["-j", bed.b.put(key_set(rng, key, private, {}), ".jwks")]
    if how == "-J":
        return ["-J", by_url(bed.ctx, key_set(rng, key, private, {}))]
    text = pem_of(rng, key, private)
    if how == "-X":
        return ["-X", by_url(bed.ctx, text, "text/plain")]
    return [how, bed.b.put(text, ".pem")]


WORDS = ["hello", "{}", '{"iss": "joe", "n": 12345, "ok": true}', "[1, 2, 3]", "12", "null",
         "\u00e5\u00e4\u00f6 \u20ac \U0001f600", "a.b.c", "two\nlines", "tab\there", " padded ",
         '{"deep": {"x": ["\u00e9", null, 1.5]}}', '"just text"', "x" * 5000,
         "The true sign of intelligence is not knowledge but imagination."]


def message(rng):
    if rng.random() < .06:
        return "".join(rng.choice("abc de\u00e5") for _ in range(40)) * rng.choice([120, 1700, 3300])
    if rng.random() < .6:
        return rng.choice(WORDS)
    return "".join(rng.choice("abc XYZ0189{}[]\",:.\u00e5\u4e2d") for _ in range(
        rng.choice([1, 2, 15, 16, 17, 31, 32, 33, 100, 900]))).strip() or "m"


def feed(bed, msg, strip):
    """-> options, standard input that hand over a message"""
    rng = bed.ctx.rng
    how = rng.choice(["arg", "file", "stdin"])
    if how == "arg" and len(msg) < 30000 and not msg.startswith("-") and "\0" not in msg:
        return [msg], b""
    if how == "file" and not (strip and msg.strip("\n") != msg):
        return ["-f", bed.b.put(msg + ("\n" if strip and rng.random() < .5 else ""))], b""
    return ["-"], msg


def feed_token(bed, token, stdin=True):
    rng = bed.ctx.rng
    how = rng.choice(["arg", "file", "stdin"] if stdin else ["arg", "file"])
    if how == "arg" and len(token) > 100000:
        how = "file"
    if how == "file":
        return ["-f", bed.b.put(token + rng.choice(["", "\n"]))], b""
    if how == "stdin":
        return ["-"], token
    return [token], b""


TEXT_KEYS = [dict(kty="oct", k=k) for k in (b"secret", b"a", b"correct horse battery staple 0123",
                                            b"0123456789abcdef" * 4, b" padded secret  ", b"a b",
                                            b"'quoted secret'", b"c2VjcmV0", b"%41%42=+/")]


def sign_key(rng, alg):
    if alg.startswith("HS"):
        return rng.choice(TEXT_KEYS + gen.OCT)
    k = gen.sig_key(rng, alg)
    if alg == "PS512":
        return [x for x in gen.RSAK if ref.rsa_k(x["n"]) >= 131][0]
    return k if k["kty"] != "RSA" else rng.choice(SMALL_RSA)


def others(rng, key):
    """keys of the same type that are not this one"""
    pool = {"RSA": SMALL_RSA, "oct": TEXT_KEYS + gen.OCT}.get(key["kty"]) or \
        gen.ECK[key.get("crv")]
    return [k for k in pool if gen.public(k) != gen.public(key) and
            k.get("x") is None or k.get("x") != key.get("x")]


def altered(rng, token):
    """the token with one part's octets changed"""
    p = token.split(".")
    idx = [n for n in range(len(p)) if p[n]]
    while True:
        n = rng.choice(idx)
        o = ref.b64d(p[n])
        m = bytearray(o)
        m[rng.randrange(len(m))] ^= 1 << rng.randrange(8)
        q = list(p)
        q[n] = ref.b64e(bytes(m))
        if q != p:
            return ".".join(q)


def pub_or_priv(rng, key):
    return key["kty"] == "oct" or rng.random() < .4


def g_sign(ctx, i):
    rng = ctx.rng
    with Bed(ctx) as bed:
        alg = ref.SIG_ALGS[i % len(ref.SIG_ALGS)]
        key = sign_key(rng, alg)
        kid = rng.choice(["", "", "k1", "\u00e5 key"])
        if alg == "PS512":
            kid = ""
        bed.use(key)
        msg = message(rng)
        want = str(gen.model_payload(msg.encode("utf-8"), {}))
        typ = rng.choice(["", "", "JWT", "x/y"])
        src = util_source(bed, key, True, kid)
        if src[0] == "-k":
            kid = ""
        src += more_source(bed, key, src)
        if rng.random() < .7:
            args, inp = feed(bed, msg, True)
            r = bed.run("jwkutil", "-s", "-a", alg, *(src + bed.log() +
                                                      (["-t", typ] if typ else []) + args),
                        stdin=inp)
            bed.scan_log()
            tok = bed.good(r, "signing")
            ctx.event("signed")
            p = tok.split(".")
            ctx.need(len(p) == 3, "no signed token on standard output", mechanism="token", run=r)
            h = json.loads(ref.b64d(p[0]))
            ctx.check(h.get("alg") == alg and h.get("kid", "") == kid and
                      h.get("typ", "") == typ, "the header of a token made by the tool is not "
                      "what was asked for", mechanism="header", header=h, kid=kid, run=r)
            ctx.check(ref.b64d(p[1]) == msg.encode("utf-8"), "the signed payload is not the "
                      "message", mechanism="payload", run=r)
            ctx.check(ref.verify(alg, (p[0] + "." + p[1]).encode(), ref.b64d(p[2]), key),
                      "the tool's signature does not verify", mechanism="signature", run=r)
        else:
            h = {"alg": alg}
            if kid:
                h["kid"] = kid
            tok = ref.jws(h, msg.encode("utf-8"), key, rng)
        args, inp = feed_token(bed, tok, False)
        src = util_source(bed, key, pub_or_priv(rng, key), kid)
        src += more_source(bed, key, src)
        r = bed.run("jwkutil", "-v", *(src + bed.log() + args), stdin=inp)
        bed.scan_log()
        ctx.event("verified")
        ctx.check(bed.good(r, "verification") == want, "verifying does not print the payload",
                  mechanism="verified payload", run=r, expected=want)
        for _ in range(WRONG):
            k = rng.randrange(4)
            vkey, t, what = key, tok, "verifying"
            if k == 0:
                vkey, what = rng.choice(others(rng, key)), "verifying with another key"
            elif k == 1:
                t, what = altered(rng, tok), "verifying an altered token"
            elif k == 2:
                p = tok.split(".")
                t, what = p[0] + "." + p[1] + ".", "verifying without a signature"
            else:
                t = ref.b64e(ref.jdump({"alg": "none"})) + "." + tok.split(".")[1] + "."
                what = "verifying an unsecured token"
            bed.use(vkey)
            args, inp = feed_token(bed, t, False)
            r = bed.run("jwkutil", "-v", *(util_source(bed, vkey, pub_or_priv(rng, vkey), kid) +
                                           bed.log() + args), stdin=inp)
            bed.scan_log()
            ctx.event("verification refused")
            bed.bad(r, what, want)


def enc_key(rng, alg, enc):
    if alg.startswith("A") or alg == "dir":
        return gen.enc_key(rng, alg, enc)
    return gen.enc_key(rng, alg, enc)


PAIRS = [(a, e) for a in ref.ENC_ALGS for e in ref.ENCS]


def decryptable(token, key, msg):
    try:
        return ref.jwe_open(token, key) == msg.encode("utf-8")
    except ref.Bad:
        return False


def g_encrypt(ctx, i):
    rng = ctx.rng
    with Bed(ctx) as bed:
        alg = ref.ENC_ALGS[i % len(ref.ENC_ALGS)]
        enc = rng.choice(ref.ENCS if rng.random() < .25 else ref.ENCS[:3])
        key = enc_key(rng, alg, enc)
        bed.use(key)
        msg = message(rng)
        how = rng.choice(["jwenc", "jwkutil", "reference"])
        if how == "reference":
            tok = ref.jwe({"alg": alg, "enc": enc}, msg.encode("utf-8"), key, rng)
        else:
            args, inp = feed(bed, msg, how == "jwkutil")
            if how == "jwenc":
                src = enc_source(bed, key, pub_or_priv(rng, key))
                r = bed.run("jwenc", "-a", alg, "-e", enc, *(src + args), stdin=inp)
            else:
                src = util_source(bed, key, pub_or_priv(rng, key))
                r = bed.run("jwkutil", "-e", "-A", alg, "-E", enc, *(src + bed.log() + args),
                            stdin=inp)
                bed.scan_log()
            tok = bed.good(r, "encryption")
            ctx.event("encrypted")
            p = tok.split(".")
            ctx.need(len(p) == 5, "no encrypted token on standard output", mechanism="token",
                     run=r)
            h = json.loads(ref.b64d(p[0]))
            ctx.check(h.get("alg") == alg and h.get("enc") == enc, "the header of a token made "
                      "by the tool is not what was asked for", mechanism="header", header=h)
            ctx.check(decryptable(tok, key, msg), "the tool's token does not decrypt to the "
                      "message", mechanism="ciphertext", run=r, wanted=msg)
            for other in others(rng, key)[:2]:
                ctx.check(not decryptable(tok, other, msg), "another key decrypts the tool's "
                          "token", mechanism="ciphertext", run=r)
        tool = rng.choice(["jwdecrypt", "jwkutil"])

        def decrypt(key, t):
            args, inp = feed_token(bed, t, tool == "jwkutil")
            if tool == "jwdecrypt":
                return bed.run(tool, *(enc_source(bed, key, True) + args), stdin=inp)
            src = util_source(bed, key, True)
            src += more_source(bed, key, src, True)
            r = bed.run(tool, "-d", *(src + bed.log() + args), stdin=inp)
            bed.scan_log()
            return r
        r = decrypt(key, tok)
        ctx.event("decrypted")
        ctx.check(bed.good(r, "decryption") == msg, "decrypting does not print the message",
                  mechanism="plaintext", run=r, expected=msg)
        for _ in range(WRONG):
            ctx.event("decryption refused")
            if rng.random() < .4:
                other = rng.choice(others(rng, key))
                bed.use(other)
                bed.bad(decrypt(other, tok), "decrypting with another key", msg)
            else:
                bed.bad(decrypt(key, altered(rng, tok)), "decrypting an altered token", msg)


PAD = [" a ", "  ", "\ta\t", "a ", " a", "\u00a0a\u2003", "\r\na b\r\n", "a\r", "\x0ba\x0c", "a\x1c",
       "\ufeffa", "\u2028a\u2028", "a\x85", "'a'", '"a"', "\\n", "%s %d", "{0}", "$HOME", "a;b",
       "0", "-0", "1e5", "0x10", "True", "None", "nan", "a\x00b", "\x7f", "a" * 70000]


EDGE_KEYS = [dict(kty="oct", k=k.encode("utf-8")) for k in (
    " padded secret  ", "\u00e5\u4e2d secret", "YWJj", "0", "0x41", "a\n", "\ta", "'a'", "{}",
    "k" * 65, "k" * 129, "a=b", "[1]", "\u00a0a")]


def g_edge(ctx, i):
    """messages that begin, end or consist of something that is easily lost on the way"""
    rng = ctx.rng
    with Bed(ctx) as bed:
        msg = PAD[i % len(PAD)]
        tool = ("sign", "jwkutil", "jwenc")[i // len(PAD) % 3]
        how = rng.choice(["file", "file", "stdin", "arg"])
        if how == "arg" and ("\0" in msg or msg.startswith("-") or len(msg) > 50000):
            how = "stdin"
        if "\r" in msg:
            how = "arg"         # text files and standard input are read with any line ends
        key = rng.choice(gen.OCT[2:6] if tool == "sign" else [
            gen.enc_key(rng, "A128KW", "A128CBC-HS256")])
        bed.use(key)
        if how == "file":
            args, inp = ["-f", bed.b.put(msg)], b""
        elif how == "stdin":
            args, inp = ["-"], msg
        else:
            args, inp = [msg], b""
        fn = bed.b.put(key_set(rng, key, True, {}), ".jwks")
        if tool == "sign":
            src = ["-J", fn]
            if i % 2:
                key = EDGE_KEYS[i // 2 % len(EDGE_KEYS)]
                src = ["-k", key["k"].decode("utf-8")]
            r = bed.run("jwkutil", "-s", "-a", "HS256", *(src + args), stdin=inp)
            p = bed.good(r, "signing").split(".")
            ctx.check(len(p) == 3 and ref.verify("HS256", (p[0] + "." + p[1]).encode(),
                                                 ref.b64d(p[2]), key),
                      "the tool's signature does not verify", mechanism="signature", run=r)
            ctx.event("signed")
            got = ref.b64d(p[1]) if len(p) == 3 else None
            ctx.check(got == msg.encode("utf-8"), "the signed payload is not the message",
                      mechanism="payload", run=r, how=how, got=got, wanted=msg)
            return
        if tool == "jwkutil":
            r = bed.run("jwkutil", "-e", "-A", "A128KW", "-E", "A128CBC-HS256", "-J", fn, *args,
                        stdin=inp)
        else:
            r = bed.run("jwenc", "-a", "A128KW", "-e", "A128CBC-HS256", "-j", fn, *args,
                        stdin=inp)
        t = bed.good(r, "encryption")
        ctx.event("encrypted")
        ctx.check(decryptable(t, key, msg), "the tool's token does not decrypt to the message",
                  mechanism="ciphertext", run=r, wanted=msg, how=how)
        tool = rng.choice([["jwdecrypt", "-j", fn], ["jwkutil", "-d", "-J", fn]])
        args, inp = feed_token(bed, t, tool[0] == "jwkutil")
        r = bed.run(*(tool + args), stdin=inp)
        ctx.event("decrypted")
        ctx.check(bed.good(r, "decryption") == msg, "decrypting does not print the message",
                  mechanism="plaintext", run=r, expected=msg)


def g_both(ctx, i):
    """jwkutil -s -e and back with -d -v, over one key set"""
    rng = ctx.rng
    with Bed(ctx) as bed:
        alg = rng.choice(["HS256", "RS256", "ES256", "PS256", "HS512"])
        ealg = rng.choice(["RSA-OAEP", "RSA1_5", "A128KW", "ECDH-ES", "ECDH-ES+A128KW"])
        enc = rng.choice(ref.ENCS[:3])
        fam = {"H": "oct", "R": "RSA", "P": "RSA", "E": "EC"}[alg[0]]
        efam = "RSA" if ealg.startswith("RSA") else "EC" if ealg.startswith("ECDH") else "oct"
        skey = sign_key(rng, alg)
        ekey = skey if fam == efam and not (fam == "RSA" and ref.rsa_k(skey["n"]) < 110) \
            else gen.enc_key(rng, ealg, enc)
        bed.use(skey)
        bed.use(ekey)
        msg = message(rng)
        want = str(gen.model_payload(msg.encode("utf-8"), {}))
        L = [ref.jwk(skey, True)] + ([ref.jwk(ekey, True)] if ekey is not skey else [])
        rng.shuffle(L)
        ks = bed.b.put(json.dumps({"keys": L}), ".jwks")
        args, inp = feed(bed, msg, True)
        r = bed.run("jwkutil", "-s", "-e", "-a", alg, "-A", ealg, "-E", enc, "-J", ks,
                    *(bed.log() + args), stdin=inp)
        bed.scan_log()
        tok = bed.good(r, "signing and encrypting")
        ctx.event("signed and encrypted")
        try:
            inner = ref.jwe_open(tok, ekey).decode("ascii")
            p = inner.split(".")
            fine = len(p) == 3 and ref.b64d(p[1]) == msg.encode("utf-8") and \
                json.loads(ref.b64d(p[0])).get("alg") == alg and \
                ref.verify(alg, (p[0] + "." + p[1]).encode(), ref.b64d(p[2]), skey)
        except (ref.Bad, ValueError) as err:
            fine, inner = False, repr(err)
        ctx.check(fine, "the tool's nested token does not hold a signed token with the message",
                  mechanism="nested", run=r, inner=inner)
        args, inp = feed_token(bed, tok)
        r = bed.run("jwkutil", "-d", "-v", "-J", ks, *(bed.log() + args), stdin=inp)
        bed.scan_log()
        ctx.check(bed.good(r, "decrypting and verifying") == want,
                  "decrypting and verifying does not print the payload", mechanism="nested back",
                  run=r, expected=want)
        # a nested token whose signature is by somebody else
        wrong = rng.choice(others(rng, skey))
        t = ref.jwe({"alg": ealg, "enc": enc}, ref.jws({"alg": alg}, msg.encode("utf-8"), wrong,
                                                       rng).encode(), ekey, rng)
        args, inp = feed_token(bed, t)
        r = bed.run("jwkutil", "-d", "-v", "-J", ks, *args, stdin=inp)
        ctx.event("verification refused")
        bed.bad(r, "verifying a nested token signed by another key", want)


def g_symkey(ctx, i):
    rng = ctx.rng
    with Bed(ctx) as bed:
        n = [16, 48, 64, 65, 100, 128, 256, 999, 8, 12, 17, 24, 32, 33, 72, 500][i % 16]
        kid = rng.choice([None, None, "a", "k\u00e4y 1"])
        args = (["-n", n] if rng.random() < .8 or n != 48 else []) + \
            (["--kid", kid] if kid else [])
        seen = set()
        for _ in range(3):
            r = bed.run("gen_symkey", *args)
            ctx.event("generated")
            d = json.loads(bed.good(r, "generating"))
            ctx.need(isinstance(d, dict) and len(d.get("keys", [])) == 1, "gen_symkey does not "
                     "print a set of one key", mechanism="symkey", run=r)
            k = d["keys"][0]
            ctx.check(k.get("kty") == "oct" and k.get("kid") == kid and
                      set(k) <= {"kty", "k", "kid"}, "the generated key is not a symmetric key "
                      "with the key id asked for", mechanism="symkey", run=r)
            octs = ref.b64d(k["k"], True)
            ctx.check(len(octs) == n, "the generated key has another length than asked for",
                      mechanism="symkey size", run=r)
            ctx.check(len(set(octs)) >= min(6, n // 3), "the generated key is not random",
                      mechanism="symkey random", run=r)
            # no eight octets in a row come twice, in this key or in an earlier one
            win = [octs[x:x + 8] for x in range(len(octs) - 7)]
            ctx.check(len(set(win)) == len(win), "the generated key repeats itself",
                      mechanism="symkey random", run=r)
            ctx.check(not seen & set(win), "gen_symkey repeated a key or a part of it",
                      mechanism="symkey fresh", run=r)
            ctx.check(n < 256 or len(set(octs)) > 24, "the generated key uses few characters",
                      mechanism="symkey random", run=r)
            seen.update(win)
        fn = bed.b.put(r.out, ".jwks")
        key = dict(kty="oct", k=octs)
        bed.secrets.add("shared key", octs) if n >= 12 else None
        alg = rng.choice(["HS256", "HS384", "HS512"])
        t = bed.good(bed.run("jwkutil", "-s", "-a", alg, "-J", fn, "message"), "signing")
        p = t.split(".")
        ctx.event("signed")
        ctx.check(ref.verify(alg, (p[0] + "." + p[1]).encode(), ref.b64d(p[2]), key),
                  "the tool's signature does not verify", mechanism="signature", token=t)
        ctx.event("verified")
        ctx.check(bed.good(bed.run("jwkutil", "-v", "-J", fn, t), "verification") == "message",
                  "verifying does not print the payload", mechanism="verified payload")


def g_create(ctx, i):
    rng = ctx.rng
    with Bed(ctx) as bed:
        size = rng.choice([1024, 1024, 1024, 1280, 1536])
        if i % 12 == 5:
            size = (2048, 3072)[i // 12 % 2 ^ 1]
        name = rng.choice(["pyoidc", "my key", "k\u00e4y", "a.b", "x.key", "v1.2.3", ".hid"])
        args = [] if name == "pyoidc" and rng.random() < .5 else ["-n", name]
        if size != 1024 or rng.random() < .5:
            args += ["-s", size]
        where = ""
        if rng.random() < .5:
            where = "sub/"
            import os
            os.mkdir(bed.b.path("sub"))
            args += ["-p", rng.choice(["sub", "sub/", bed.b.path("sub")])]
        ns = []
        for _ in range(2):
            r = bed.run("jwk_create", *args)
            ctx.event("generated")
            ctx.need(r.code == 0, "generating failed", mechanism="failed jwk_create", run=r)
            priv = RSA.import_key(bed.get(where + name + ".key"))
            pub = RSA.import_key(bed.get(where + name + ".pub"))
            key = {"kty": "RSA", "n": int(priv.n), "e": int(priv.e), "d": int(priv.d),
                   "p": int(priv.p), "q": int(priv.q)}
            bed.use(key)
            ctx.check(priv.has_private() and key["n"].bit_length() == size and
                      key["p"] * key["q"] == key["n"], "the generated key has not the size asked "
                      "for", mechanism="rsa size", run=r, bits=key["n"].bit_length())
            ctx.check(not pub.has_private() and (pub.n, pub.e) == (priv.n, priv.e),
                      "the public key file is not the public part of the key",
                      mechanism="pub file")
            jwk = json.loads(bed.get(where + name + ".jwk").decode("utf-8"))
            ctx.check(jwk == ref.jwk(key), "the JWK file is not the public part of the key",
                      mechanism="jwk file", jwk=jwk)
            for x in (".pub", ".jwk"):
                bed.scan("file " + x, bed.get(where + name + x))
            bed.scan("stdout", r.out)
            bed.scan("stderr", r.err)
            ns.append((key["n"], key["p"], key["q"]))
        ctx.check(not set(ns[0]) & set(ns[1]), "jwk_create repeated a key or a prime",
                  mechanism="rsa fresh", keys=ns)
        f = where + name
        msg = message(rng)
        if msg.startswith("-"):
            msg = "m" + msg
        t = bed.good(bed.run("jwkutil", "-s", "-a", "RS256", "-r", f + ".key", msg), "signing")
        p = t.split(".")
        ctx.event("signed")
        ctx.check(ref.verify("RS256", (p[0] + "." + p[1]).encode(), ref.b64d(p[2]), key),
                  "the tool's signature does not verify", mechanism="signature", token=t)
        for src in (["-r", f + ".pub"], ["-j", f + ".jwk"]):
            r = bed.run("jwkutil", "-v", *(src + [t]))
            ctx.event("verified")
            ctx.check(bed.good(r, "verification") == str(gen.model_payload(msg.encode(), {})),
                      "verifying does not print the payload", mechanism="verified payload",
                      run=r)
        r = bed.run("jwenc", "-a", "RSA-OAEP", "-e", "A128CBC-HS256", "-r", f + ".pub", msg)
        ctx.event("encrypted")
        t = bed.good(r, "encryption")
        ctx.check(decryptable(t, key, msg), "the tool's token does not decrypt to the message",
                  mechanism="ciphertext", run=r, wanted=msg)
        r = bed.run("jwdecrypt", "-r", f + ".key", t)
        ctx.event("decrypted")
        ctx.check(bed.good(r, "decryption") == msg, "decrypting does not print the message",
                  mechanism="plaintext", run=r, expected=msg)


def g_export(ctx, i):
    rng = ctx.rng
    with Bed(ctx) as bed:
        key = rng.choice(gen.R1024 + gen.R2048)
        bed.use(key)
        private = rng.random() < .7
        fn = bed.b.put(pem_of(rng, key, private), ".pem")
        name = rng.choice(["pyoidc", "out", "o.p"])
        r = bed.run("jwk_export", "-k", fn, *([] if name == "pyoidc" else ["-n", name]))
        ctx.event("exported")
        ctx.need(r.code == 0, "exporting failed", mechanism="failed jwk_export", run=r)
        raw = bed.get(name + ".jwk")
        bed.scan("file .jwk", raw)
        d = json.loads(raw.decode("utf-8"))
        ctx.check(d == {"keys": [ref.jwk(key)]}, "the exported key set is not the public key",
                  mechanism="export", got=d)
        t = ref.jws({"alg": "RS256"}, b"exported", key, rng)
        r = bed.run("jwkutil", "-v", "-J", name + ".jwk", t)
        ctx.event("verified")
        ctx.check(bed.good(r, "verification") == "exported", "verifying does not print the "
                  "payload", mechanism="verified payload", run=r)
        r = bed.run("jwenc", "-a", "RSA1_5", "-e", "A128CBC-HS256", "-j", name + ".jwk", "hello")
        ctx.event("encrypted")
        t = bed.good(r, "encryption")
        ctx.check(decryptable(t, key, "hello"), "the tool's token does not decrypt to the "
                  "message", mechanism="ciphertext", run=r)
        # what is not an RSA key must not leave a key set behind
        bad = rng.choice(["", "garbage", pem_of(rng, key, True)[:300], "{}"])
        r = bed.run("jwk_export", "-k", bed.b.put(bad, ".pem"), "-n", "broken")
        bed.bad(r, "exporting a damaged key")


def g_peek(ctx, i):
    rng = ctx.rng
    with Bed(ctx) as bed:
        k = i % 4
        if k == 0:
            alg = rng.choice(["HS256", "RS256", "ES256"])
            h = {"alg": alg}
            if rng.random() < .5:
                h.update(typ="JWT", kid=rng.choice(["a", "\u00e5"]))
            pl = message(rng).encode("utf-8")
            t = ref.jws(h, pl, gen.sig_key(rng, alg), rng)
            r = bed.run("peek", t)
            L = bed.good(r, "peek").split("\n", 2)
            ctx.check(L[0] == "jws" and len(L) == 3, "peek does not recognise a signed token",
                      mechanism="peek", run=r)
            try:
                hh, pp = ast.literal_eval(L[1]), ast.literal_eval(L[2])
            except (ValueError, SyntaxError, IndexError):
                hh = pp = None
            pp = pp.encode("utf-8") if isinstance(pp, str) else pp
            ctx.check(hh == h and (pp == pl or L[2:] == [pl.decode("utf-8")]),
                      "peek does not show the header and payload of a signed token",
                      mechanism="peek content", run=r, header=h, payload=pl)
        elif k == 1:
            alg = rng.choice(["RSA1_5", "A128KW", "ECDH-ES"])
            key = gen.enc_key(rng, alg, "A128CBC-HS256")
            t = ref.jwe({"alg": alg, "enc": "A128CBC-HS256"}, b"hidden text", key, rng)
            r = bed.run("peek", t)
            ctx.check(bed.good(r, "peek").split("\n")[0] == "jwe",
                      "peek does not recognise an encrypted token", mechanism="peek", run=r)
        else:
            t = gen.mut_text(rng, ref.jws({"alg": "HS256"}, b"x", gen.OCT[0], rng))[1]
            t = t.replace("\0", "")
            if k == 3 or t.startswith("-"):
                t = rng.choice(["", "a", "a.b", "a.b.c", "a.b.c.d.e", "{}", "[]", "1", "...."])
            try:
                t.encode("utf-8")
            except UnicodeEncodeError:
                t = "a"
            r = bed.run("peek", t)
            first = r.out.split("\n")[0]
            p = t.split(".")
            try:
                h = json.loads(ref.b64d(p[0]))
                known = isinstance(h, dict) and "alg" in h
            except (ref.Bad, ValueError, RecursionError):
                known = False
            if not known and not t.lstrip().startswith("{"):
                ctx.check(first not in ("jws", "jwe"), "peek recognises what is not a token",
                          mechanism="peek", run=r)
        ctx.event("peeked")


def g_wrong(ctx, i):
    """missing or unusable key sources, algorithms and messages: no result is printed"""
    rng = ctx.rng
    with Bed(ctx) as bed:
        key = rng.choice(SMALL_RSA)
        bed.use(key)
        src = ["-r", bed.b.put(pem_of(rng, key, True), ".pem")]
        w = httpd.world()
        k = i % 9
        body = json.dumps({"keys": [ref.jwk(key, True)]}).encode()
        if k == 0:
            r = bed.run("jwenc", "-a", "RSA-OAEP", "-e", rng.choice(["XX", "A128", "a128gcm"]),
                        *(src + ["secret message"]))
        elif k == 1:
            r = bed.run("jwenc", "-a", rng.choice(["XX", "rsa-oaep", "RS256"]), "-e", "A128GCM",
                        *(src + ["secret message"]))
        elif k == 2:
            r = bed.run("jwenc", *(src + rng.choice([["-a", "RSA-OAEP"], ["-e", "A128GCM"], []]) +
                                   ["secret message"]))
        elif k == 3:
            url = w.plain.put("/gone%d" % rng.randrange(10**9),
                              [answer(rng.choice([404, 500, 204]), body)])
            tool = rng.choice([["jwenc", "-a", "RSA-OAEP", "-e", "A128GCM", "-J", url],
                               ["jwkutil", "-s", "-a", "RS256", "-u", url],
                               ["jwkutil", "-e", "-A", "RSA-OAEP", "-E", "A128GCM", "-u", url],
                               ["jwenc", "-a", "RSA-OAEP", "-e", "A128GCM", "-X", url]])
            r = bed.run(*(tool + ["secret message"]))
            bed.bad(r, "using keys that could not be fetched")
        elif k == 4:
            t = ref.jwe({"alg": "RSA-OAEP", "enc": "A128CBC-HS256"}, b"secret message", key, rng)
            url = w.plain.put("/gone%d" % rng.randrange(10**9), [answer(403, body)])
            r = bed.run(*rng.choice([["jwdecrypt", "-J", url, t], ["jwkutil", "-d", "-u", url, t],
                                     ["jwdecrypt", "-X", url, t]]))
            bed.bad(r, "using keys that could not be fetched")
        elif k == 5:
            r = bed.run("jwkutil", "-s", "-a", rng.choice(["HS256", "ES256"]),
                        *(src + ["secret message"]))
            bed.bad(r, "signing with a key of another type")
        elif k == 6:
            bad = rng.choice([b"", b"garbage", b"\xff\xfe", b"{}", b'{"keys": [{"kty": "RSA"}]}'])
            fn = bed.b.put(bad, ".x")
            r = bed.run(*(rng.choice([["jwkutil", "-s", "-a", "RS256", rng.choice(["-r", "-j",
                                                                                   "-J"])],
                                      ["jwenc", "-a", "RSA-OAEP", "-e", "A128GCM",
                                       rng.choice(["-r", "-j", "-x"])]]) +
                          [fn, "secret message"]))
            bed.bad(r, "using a damaged key file")
        elif k == 7:
            r = bed.run("jwkutil", rng.choice(["-s", "-v", "-e", "-d"]), "secret message")
            bed.bad(r, "jwkutil without a key")
        else:
            r = bed.run("jwkutil", "-e", "-A", rng.choice(["XX", "A128KW", "ECDH-ES"]), "-E",
                        "A128GCM", *(src + ["secret message"]))
            bed.bad(r, "encrypting with an unfit algorithm")
        ctx.event("no result")
        ctx.check(r.out.count(".") < 2 and "secret message" not in r.out,
                  "a result was printed although there can be none", mechanism="no result",
                  run=r)
        ctx.check(r.code != 0 or r.err.strip() or r.out.strip(), "the tool failed without a word",
                  mechanism="silent", run=r)


GROUPS = [Group("sign", g_sign, 48, 900), Group("encrypt", g_encrypt, 66, 1200),
          Group("both", g_both, 24, 400), Group("edge", g_edge, 90, 900), Group("symkey", g_symkey, 16, 200),
          Group("create", g_create, 12, 200), Group("export", g_export, 24, 300),
          Group("peek", g_peek, 80, 1500), Group("wrong", g_wrong, 54, 900)]
CHUNK = 2
