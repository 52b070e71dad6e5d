"""C26: certificates and PEM files yield the right public key or an error."""
import base64
import datetime
import hashlib
import json
import os
import tempfile
import textwrap

from Cryptodome.PublicKey import RSA

from vmon import der, gen, ref
from vmon.core import Group, boost
from vmon.props.c14 import view
from jwkest.jwk import (KEYS, RSAKey, der2rsa, der_cert2rsa, import_rsa_key,
                        import_rsa_key_from_file, keyrep, pem_cert2rsa, rsa_load, x509_rsa_load)
from jwkest.jws import JWS

RULE = ("A case is one certificate or key file, made by an independent DER encoder from a known "
        "key, loaded through one of the library's doors; or a corruption, truncation, wrong "
        "thumbprint or wrong passphrase. The key that comes out must be the one put in; from "
        "damaged input it must be the same one, an error, or (only where no thumbprint guards a "
        "public key) literally what the damaged octets say. Non-trivial: distinct input octets "
        "and door.")
MINIMUM = {"certificate loaded": 900, "key file loaded": 350, "thumbprint right": 90,
           "thumbprint wrong": 350, "thumbprint guards": 300, "truncated": 500, "corrupted": 900,
           "passphrase right": 50, "passphrase wrong": 100, "corrupted private": 400,
           "not an RSA key": 60, "refused": 1500}
ASSUME = ["the signature of a certificate is not checked by the library, so an altered public key "
          "inside it is noticed only through a thumbprint",
          "a JWK that states n and e itself is read from those members",
          "Cryptodome encrypts the key files (some by openssl in the fixtures)"]
POOL = gen.R1024 + gen.R1024 + gen.R2048


def b64(b, how, rng):
    t = base64.b64encode(b).decode()
    if how == 1:
        t = "\n".join(textwrap.wrap(t, 64)) + "\n"
    elif how == 2:
        t = "\r\n".join(textwrap.wrap(t, 76))
    elif how == 3:
        t = " ".join(textwrap.wrap(t, 50))
    return t


class Scratch(object):
    def __enter__(self):
        self.dir = tempfile.TemporaryDirectory(prefix="vmon-c26-")
        self.n = 0
        return self

    def __exit__(self, *a):
        self.dir.cleanup()

    def put(self, text):
        self.n += 1
        fn = os.path.join(self.dir.name, "f%d.pem" % self.n)
        if isinstance(text, str):
            text = text.encode("utf-8", "surrogatepass")
        with open(fn, "wb") as f:
            f.write(text)
        return fn


def make(rng, key=None, **kw):
    key = key or rng.choice(POOL)
    signer = key if rng.random() < .5 else rng.choice(POOL[:5])
    h = rng.choice(["256", "256", "384", "512"])
    return key, der.cert(
        key, signer, rng, cn=rng.choice(["localhost", "\u00c5ngstr\u00f6m CA", "", "x" * 60, "a"]),
        issuer=rng.choice([None, "Root", "\u00e9"]), h=h,
        first=datetime.datetime(rng.choice([1999, 2020, 2049, 2051]), 1, 2, 3, 4, 5),
        last=datetime.datetime(rng.choice([2001, 2039, 2050, 2099]), 1, 1),
        hosts=rng.choice([(), ("localhost",), ("a.example", "b.example")]),
        ca=rng.random() < .5, extra=rng.sample(range(1, 200), rng.randrange(4)),
        v3=rng.random() < .8, **kw)     # otherwise version 1, which has no version field


def key_of(v):
    """(n, e, private?) of whatever a door gives"""
    if isinstance(v, RSAKey):
        w = view(v, True)
        if not isinstance(w, dict):
            return None
        return w["n"], w["e"], w.get("d")
    if isinstance(v, list) and len(v) == 1 and isinstance(v[0], tuple):
        v = v[0][1]
    try:
        return int(v.n), int(v.e), int(v.d) if v.has_private() else None
    except Exception:
        return None


def cert_doors(rng, scratch, c, full=True):
    """-> [(name, function)]"""
    t = b64(c, 0, rng)
    pem = der.pem("CERTIFICATE", c)
    k = rng.randrange(4)
    jwk = {"kty": "RSA", "x5c": [t]}
    doors = [("der2rsa", lambda: der2rsa(c)),
             ("der_cert2rsa", lambda: der_cert2rsa(b64(c, k, rng))),
             ("RSAKey(x5c)", lambda: RSAKey(x5c=[t])),
             ("keyrep", lambda: keyrep(dict(jwk))),
             ("keyrep chain", lambda: keyrep({"kty": "RSA", "x5c": [t, "AAAA"]})),
             ("load_jwks", lambda: KEYS().load_jwks(json.dumps({"keys": [jwk]})).keys()[0]),
             ("import_rsa_key", lambda: import_rsa_key(pem)),
             ("import_rsa_key der", lambda: import_rsa_key(c)),
             ("x509_rsa_load", lambda: x509_rsa_load(pem)),
             ("pem_cert2rsa", lambda: pem_cert2rsa(scratch.put(pem))),
             ("rsa_load", lambda: rsa_load(scratch.put(pem))),
             ("RSAKey.load", lambda: RSAKey().load(scratch.put(pem))),
             ("import_rsa_key_from_file", lambda: import_rsa_key_from_file(scratch.put(pem)))]
    return doors if full else rng.sample(doors, 4)


# what a key may say of itself next to its certificate
MEMBERS = [("kid", ["k1", "\u00e5"]), ("use", ["sig", "enc"]), ("alg", ["RS256", "RSA-OAEP"]),
           ("key_ops", [["verify"]]), ("x5u", ["https://127.0.0.1/c"])]


def g_cert(ctx, i):
    rng = ctx.rng
    key, c = make(rng)
    with Scratch() as scratch:
        for name, fn in cert_doors(rng, scratch, c):
            ctx.case(name, c)
            v = ctx.must(name, fn)
            ctx.event("certificate loaded")
            ctx.check(key_of(v) == (key["n"], key["e"], None),
                      "a certificate yields another key than it contains", mechanism=name,
                      got=key_of(v), expected=gen.ident(key), der=c.hex())
    # the thumbprint
    t = base64.b64encode(c).decode()
    right = hashlib.sha1(c).digest()
    x5t = ref.b64e(right)
    for x in (x5t, x5t.encode()):
        m = dict((name, rng.choice(vs + [x5t])) for name, vs in MEMBERS
                 if name not in ("x5u", "key_ops") and rng.random() < .3)
        v = ctx.must("x5t right", RSAKey, x5c=[t], x5t=x, **m)
        ctx.event("thumbprint right")
        ctx.check(key_of(v)[:2] == (key["n"], key["e"]), "another key", mechanism="x5t right")
    other = make(rng)[1]
    wrong = [ref.b64e(gen.mut_octets(rng, right)[1]) for _ in range(4)] + [
        ref.b64e(hashlib.sha256(c).digest()), ref.b64e(hashlib.md5(c).digest()),
        ref.b64e(hashlib.sha1(other).digest()), ref.b64e(hashlib.sha256(c).digest()[:20]),
        ref.b64e(hashlib.sha1(t.encode()).digest()), right.hex(), x5t[:-1], x5t + "AA", "!", "A",
        x5t.swapcase(), ref.b64e(hashlib.sha1(der.pkcs1_public(key)).digest())]
    for w in wrong:
        try:
            if ref.b64d(w) == right:
                continue
        except ref.Bad:
            pass
        if not w:
            continue
        ctx.case("x5t", c, w)
        chain = rng.choice([[t], [t, base64.b64encode(other).decode()]])
        m = {}
        for name, vs in MEMBERS:
            if rng.random() < .3:
                m[name] = rng.choice(vs + [w])
        fn = rng.choice([lambda: RSAKey(x5c=chain, x5t=w, **m),
                         lambda: keyrep(dict(m, kty="RSA", x5c=chain, x5t=w)),
                         lambda: KEYS().load_dict({"keys": [dict(m, kty="RSA", x5c=chain,
                                                                 x5t=w)]}),
                         lambda: KEYS().load_jwks(json.dumps({"keys": [
                             dict(m, kty="RSA", x5c=chain, x5t=w)]})),
                         lambda: KEYS().add(dict(m, kty="RSA", x5c=chain, x5t=w))])
        out = ctx.call("x5t wrong", fn)
        ctx.event("thumbprint wrong")
        ctx.event("refused" if not out.ok else "taken")
        ctx.check(not out.ok, "a certificate whose thumbprint does not match is accepted",
                  mechanism="x5t wrong", x5t=w, right=x5t)
    # in use: what the certificate's key signed, it verifies
    lk = RSAKey(x5c=[t])
    tok = ref.jws({"alg": "RS256"}, b"{\"a\":1}", key, rng)
    ctx.check(ctx.must("verify", JWS().verify_compact, tok, [lk]) == {"a": 1},
              "the key of a certificate does not verify", mechanism="use")


def judge_damaged(ctx, name, out, key, data, private, guarded=False):
    if not out.ok:
        ctx.event("refused")
        return
    k = key_of(out.value)
    if not ctx.check(k is not None, "damaged input yields something that is no key",
                     mechanism="no key " + name, got=out.value):
        return
    same = k[:2] == (key["n"], key["e"]) and (k[2] is None or k[2] == key["d"])
    if private or guarded:
        ctx.check(same, "damaged input yields another key", mechanism="other key " + name,
                  got=k, expected=gen.ident(key), data=data.hex())
    else:
        ctx.check(same or der.tlv(2, b"\0" + ref.i2o(k[0])) in data or
                  ref.i2o(k[0]) in data,
                  "damaged input yields a key that is not in it",
                  mechanism="invented key " + name, got=k, expected=gen.ident(key),
                  data=data.hex())


def damage(rng, c):
    k = rng.randrange(6)
    if k == 0:
        i = rng.randrange(len(c))
        return c[:i] + bytes([c[i] ^ 1 << rng.randrange(8)]) + c[i + 1:]
    if k == 1:
        i = rng.randrange(min(60, len(c)))
        return c[:i] + bytes([rng.randrange(256)]) + c[i + 1:]
    if k == 2:
        i = rng.randrange(len(c))
        return c[:i] + c[i + rng.randrange(1, 5):]
    if k == 3:
        i = rng.randrange(len(c))
        return c[:i] + rng.randbytes(rng.randrange(1, 5)) + c[i:]
    if k == 4:
        return rng.choice([b"", b"\0", b"\x30", b"\x30\x80", b"\x30\x00", c[1:], c + c,
                           c + b"\0", rng.randbytes(100), b"\x30\x82\xff\xff" + c[4:]])
    i, j = sorted(rng.sample(range(len(c)), 2))
    return c[:i] + c[j:]


def g_damaged(ctx, i):
    rng = ctx.rng
    key, c = make(rng, rng.choice(gen.R1024))
    with Scratch() as scratch:
        # cut anywhere
        for _ in range(8):
            cut = c[:rng.choice([rng.randrange(len(c)), len(c) - rng.randrange(1, 40)])]
            for name, fn in cert_doors(rng, scratch, cut, False):
                ctx.case("cut", name, cut)
                ctx.event("truncated")
                out = ctx.call("cut " + name, fn)
                ctx.event("refused" if not out.ok else "taken")
                ctx.check(not out.ok, "a truncated certificate is accepted",
                          mechanism="truncated " + name, length=len(cut), full=len(c),
                          der=c.hex())
        x5t = ref.b64e(hashlib.sha1(c).digest())
        for _ in range(12):
            bad = damage(rng, c)
            if bad == c:
                continue
            for name, fn in cert_doors(rng, scratch, bad, False):
                ctx.case("damaged", name, bad)
                ctx.event("corrupted")
                out = ctx.call("damaged " + name, fn)
                judge_damaged(ctx, name, out, key, bad, False)
            out = ctx.call("guarded", lambda: RSAKey(x5c=[base64.b64encode(bad).decode()],
                                                     x5t=x5t))
            ctx.event("thumbprint guards")
            ctx.event("refused" if not out.ok else "taken")
            ctx.check(not out.ok, "an altered certificate passes its thumbprint",
                      mechanism="guarded", der=bad.hex(), x5t=x5t)


# -- key files -------------------------------------------------------------------------

def file_doors(scratch, data, text):
    """data: DER or None, text: PEM or None"""
    d = []
    if data is not None:
        d += [("import_rsa_key der", lambda: import_rsa_key(data))]
    if text is not None:
        d += [("import_rsa_key", lambda: import_rsa_key(text)),
              ("x509_rsa_load", lambda: x509_rsa_load(text)),
              ("rsa_load", lambda: rsa_load(scratch.put(text))),
              ("RSAKey.load", lambda: RSAKey().load(scratch.put(text))),
              ("RSAKey(key)", lambda: RSAKey(key=import_rsa_key(text))),
              ("import_rsa_key_from_file", lambda: import_rsa_key_from_file(scratch.put(text)))]
    return d


FORMS = [("RSA PRIVATE KEY", der.pkcs1_private, True), ("PRIVATE KEY", der.pkcs8, True),
         ("PUBLIC KEY", der.spki, False), ("RSA PUBLIC KEY", der.pkcs1_public, False)]


def g_file(ctx, i):
    rng = ctx.rng
    key = rng.choice(POOL)
    label, enc, private = FORMS[i % 4]
    data = enc(key)
    text = der.pem(label, data)
    with Scratch() as scratch:
        for name, fn in file_doors(scratch, data, text):
            ctx.case(label, name, data)
            v = ctx.must(name, fn)
            ctx.event("key file loaded")
            k = key_of(v)
            ctx.check(k is not None and k[:2] == (key["n"], key["e"]) and
                      (k[2] is not None and k[2] * key["e"] % (key["p"] - 1) == 1 and
                       k[2] * key["e"] % (key["q"] - 1) == 1 if private else k[2] is None),
                      "a key file yields another key", mechanism="file " + name, got=k,
                      expected=gen.ident(key), label=label)
            if isinstance(v, RSAKey):
                want = ref.jwk(key, private)
                got = v.serialize(private)
                ctx.check(all(got.get(m) == want[m] for m in ("kty", "n", "e")),
                          "a loaded key exports something else", mechanism="file export",
                          got=got)
        for _ in range(10):
            cut = data[:rng.choice([rng.randrange(len(data)),
                                    len(data) - rng.randrange(1, 20)])]
            for name, fn in rng.sample(file_doors(scratch, cut, der.pem(label, cut)), 2):
                ctx.case("cut", label, name, cut)
                out = ctx.call("cut " + name, fn)
                ctx.event("truncated")
                ctx.event("refused" if not out.ok else "taken")
                ctx.check(not out.ok, "a truncated key file is accepted",
                          mechanism="truncated " + label, length=len(cut), full=len(data))
        for _ in range(8):
            t = text[:rng.randrange(len(text) - len(label) - 20)]
            name, fn = rng.choice(file_doors(scratch, None, t))
            ctx.case("cut text", label, name, t)
            out = ctx.call("cut " + name, fn)
            ctx.event("truncated")
            ctx.check(not out.ok, "a truncated key file is accepted",
                      mechanism="truncated text " + label, text=t)
        # octets that do not belong into the text
        for _ in range(4):
            k = rng.randrange(len(label) + 16, len(text) - len(label) - 16)
            x = rng.choice([b"\xff", b"\x80", b"\xc3", b"*", b"!", b"\xe5\xa5", b"\xfe\xff",
                            b"-", b"_", b"#", b"\0", b"~~"])
            raw = text.encode()
            raw = raw[:k] + x + raw[k + rng.choice([0, 0, 1]):]
            for name, fn in file_doors(scratch, None, raw):
                ctx.case("stray", label, name, raw)
                ctx.event("corrupted private" if private else "corrupted")
                out = ctx.call("stray " + name, fn)
                judge_damaged(ctx, name, out, key, raw, True)
                ctx.event("stray octet refused" if not out.ok else "stray octet skipped")
        for _ in range(14):
            bad = damage(rng, data)
            if bad == data:
                continue
            name, fn = rng.choice(file_doors(scratch, bad, der.pem(label, bad)))
            ctx.case("damaged", label, name, bad)
            ctx.event("corrupted private" if private else "corrupted")
            out = ctx.call("damaged " + name, fn)
            judge_damaged(ctx, name, out, key, bad, private)


PHRASES = ["secret", "", " ", "p\u00e4ss", "x" * 80, "Secret", "secret ", "0"]


def g_pass(ctx, i):
    rng = ctx.rng
    key = rng.choice(gen.R1024)
    k = RSA.construct((key["n"], key["e"], key["d"], key["p"], key["q"]))
    phrase = rng.choice([p for p in PHRASES if p])
    kw = rng.choice([{"pkcs": 1}, {"pkcs": 8, "protection": "PBKDF2WithHMAC-SHA1AndAES128-CBC"},
                     {"pkcs": 8, "protection": "scryptAndAES128-CBC",
                      "prot_params": {"iteration_count": 1024}},
                     {"pkcs": 8, "protection": "PBKDF2WithHMAC-SHA1AndDES-EDE3-CBC",
                      "prot_params": {"iteration_count": 100}}])
    if kw["pkcs"] == 8 and "prot_params" not in kw:
        kw["prot_params"] = {"iteration_count": 100}
    text = k.export_key("PEM", passphrase=phrase, randfunc=rng.randbytes, **kw).decode()
    with Scratch() as scratch:
        doors = [("import_rsa_key", lambda p: import_rsa_key(text, p)),
                 ("import_rsa_key_from_file",
                  lambda p: import_rsa_key_from_file(scratch.put(text), p)),
                 ("import_rsa_key passphrase=", lambda p: import_rsa_key(text, passphrase=p))]
        for name, fn in doors:
            ctx.case("passphrase", name, text)
            v = ctx.must(name, fn, phrase)
            ctx.event("passphrase right")
            ctx.check(key_of(v) == (key["n"], key["e"], key["d"]),
                      "an encrypted key file yields another key", mechanism="encrypted " + name)
            for w in [p for p in PHRASES if p != phrase] + [None]:
                out = ctx.call("wrong passphrase", fn, w)
                ctx.event("passphrase wrong")
                ctx.event("refused" if not out.ok else "taken")
                ctx.check(not out.ok, "a wrong passphrase opens a key file",
                          mechanism="wrong passphrase", right=phrase, wrong=w, kind=kw)
        for name, fn in (("rsa_load", lambda: rsa_load(scratch.put(text))),
                         ("RSAKey.load", lambda: RSAKey().load(scratch.put(text)))):
            out = ctx.call("no passphrase", fn)
            ctx.check(not out.ok, "an encrypted key file opens without its passphrase",
                      mechanism="no passphrase " + name)
        # damaged
        lines = text.strip().split("\n")
        body = base64.b64decode("".join(x for x in lines[1:-1] if ":" not in x))
        head = [x for x in lines[1:-1] if ":" in x]
        for _ in range(10):
            bad = damage(rng, body)
            if bad == body:
                continue
            t = "\n".join([lines[0]] + head + ([""] if head else []) + textwrap.wrap(
                base64.b64encode(bad).decode(), 64) + [lines[-1]]) + "\n"
            ctx.case("damaged encrypted", bad)
            ctx.event("corrupted private")
            out = ctx.call("damaged encrypted", import_rsa_key, t, phrase)
            judge_damaged(ctx, "encrypted", out, key, bad, True)


def g_other(ctx, i):
    """things that are no RSA key or certificate at all"""
    rng = ctx.rng
    key = rng.choice(gen.R1024)
    c = der.cert(key, key, rng)
    ec = der.seq(der.seq(der.oid("1.2.840.10045.2.1"), der.oid("1.2.840.10045.3.1.7")),
                 der.bits(b"\4" + rng.randbytes(64)))
    # an EC certificate: the same, with another kind of key inside
    eccert = c.replace(der.spki(key), ec)
    tbs = eccert[4:]
    eccert = der.seq(tbs)
    with Scratch() as scratch:
        for data in (ec, eccert, b"", b"junk", der.seq(), der.seq(der.seq()),
                     der.seq(der.integer(1), der.integer(2)), der.seq(der.integer(1)),
                     der.octets(c), der.tlv(0x31, c[4:]), der.pkcs1_public(key)[:-3],
                     der.seq(der.integer(0), der.integer(0))):
            for name, fn in cert_doors(rng, scratch, data, False):
                ctx.case("other", name, data)
                out = ctx.call("other " + name, fn)
                ctx.event("not an RSA key")
                judge_damaged(ctx, name, out, key, data, False)
        for x5c in ([""], ["AAAA"], [None], [5], "", [], ["!"], ["=="], [[]], [{}], {"a": "b"},
                    [base64.b64encode(ec).decode()]):
            out = ctx.call("x5c junk", lambda: keyrep({"kty": "RSA", "x5c": x5c}))
            ctx.event("not an RSA key")
            k = key_of(out.value) if out.ok else None
            ctx.check(k is None, "junk for a certificate yields a key", mechanism="x5c junk",
                      x5c=x5c, got=k)
        # the label does not decide what it is
        for label in ("CERTIFICATE", "RSA PRIVATE KEY", "EC PRIVATE KEY", "PUBLIC KEY", "X"):
            t = der.pem(label, ec)
            for name, fn in file_doors(scratch, ec, t):
                out = ctx.call("other " + name, fn)
                ctx.event("not an RSA key")
                ctx.check(not out.ok, "something that is no RSA key yields one",
                          mechanism="not RSA " + name, label=label)


GROUPS = [Group("cert", g_cert, 90, 2500), Group("damaged", g_damaged, 45, 1500),
          Group("file", g_file, 80, 2400), Group("pass", g_pass, 30, 700),
          Group("other", g_other, 6, 60)]
GROUPS = boost(GROUPS, 3)
