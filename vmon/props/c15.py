"""C15: private key material does not leave through public outputs."""
import json
import pickle
import re

from Cryptodome.PublicKey import RSA

from vmon import gen, ref
from vmon.core import Group, boost
from vmon.props import c24
from vmon.taint import Capture, Secrets, exception_text
from jwkest.jwe import JWE, JWE_RSA
from jwkest.jwe import factory as jwe_factory
from jwkest.jwk import KEYS, keyrep, make_public_copy, jwk_wrap
from jwkest.jws import JWS
from jwkest.jws import factory as jws_factory

RULE = ("A case is one operation, succeeding or failing, with private keys at hand; everything "
        "it lets out (results, key dumps, token texts and headers, log records of every level, "
        "warnings, standard output, exception texts with their chain) is scanned for every "
        "encoding of the secrets in play: private exponents, primes and CRT values, private "
        "scalars, the content-encryption and key-encryption keys (recovered by the reference) "
        "and, in logs, errors and token headers, shared symmetric keys. Non-trivial: distinct "
        "(operation, key, input). The tools are run on private keys with a log file asked "
        "for, and what they print, log and write as public files is scanned too.")
MINIMUM = {"scanned": 4000, "log records": 40, "exceptions": 800, "exports": 600,
           "cek known": 120, "public export used": 50, "ephemeral key known": 40,
           "copy walked": 150, "log scanned": 60}
ASSUME = ["a shared symmetric key is its own public form in key dumps",
          "str(), to_dict() and serialize(private=True) are not public outputs (documented)",
          "secrets shorter than 100 bits (weak test keys) are not searched for",
          "encodings other than raw, reversed, decimal, hexadecimal, base64, base64url, octet "
          "lists and Python escapes would be missed"]


def scan(ctx, secrets, channel, text, what):
    ctx.event("scanned")
    hit = secrets.scan(text)
    ctx.check(hit is None, "a secret left through a public output",
              mechanism="leak:%s" % channel.split(" ")[0], secret=hit, channel=channel,
              what=what, text=text)


def scan_capture(ctx, secrets, cap, what):
    for channel, text in cap.out:
        if channel.startswith("log"):
            ctx.event("log records")
        scan(ctx, secrets, channel, text, what)


def scan_outcome(ctx, secrets, out, what):
    if not out.ok:
        ctx.event("exceptions")
        scan(ctx, secrets, "exception %s" % type(out.exc).__name__, exception_text(out.exc),
             what)


def watched(ctx, secrets, label, fn, *a, **kw):
    """call with everything it lets out scanned; the result itself is left to the caller"""
    with Capture() as cap:
        out = ctx.call(label, fn, *a, **kw)
    scan_capture(ctx, secrets, cap, label)
    scan_outcome(ctx, secrets, out, label)
    return out, cap


# -- exports ---------------------------------------------------------------------

def usable(ctx, key, lk, pub, what):
    """the public form verifies and encrypts for the private key"""
    rng = ctx.rng
    if key["kty"] == "RSA" and ref.rsa_k(key["n"]) < 96:
        return
    alg = {"RSA": "RS256", "EC": "ES" + {"P-256": "256", "P-384": "384",
                                         "P-521": "512"}.get(key.get("crv"), "")}[key["kty"]]
    msg = {"n": rng.randrange(10**9)}
    tok = ctx.must("sign", JWS(msg, alg=alg).sign_compact, [lk])
    r = ctx.must("verify", JWS().verify_compact_verbose, tok, [pub])
    ctx.check(r.get("msg") == msg, "nothing verified", mechanism="verify with public")
    ealg = "RSA-OAEP" if key["kty"] == "RSA" else rng.choice(["ECDH-ES", "ECDH-ES+A128KW"])
    pt = gen.octets(rng)
    jt = ctx.must("encrypt", JWE(pt, alg=ealg, enc="A128CBC-HS256").encrypt, [pub])
    got = ctx.must("decrypt", JWE().decrypt, jt, [lk])
    ctx.check(got == pt, "what was encrypted to the public form does not come back",
              mechanism="encrypt to public", what=what)
    ctx.event("public export used")


PRIVATE = set(["d", "p", "q", "dp", "dq", "qi", "di", "oth", "k"])


def g_export(ctx, i):
    rng = ctx.rng
    pool = [k for k in gen.RSAK[:9]] + sum(gen.ECK.values(), [])
    key = pool[i % len(pool)]
    secrets = Secrets()
    secrets.add_key(key)
    meta = {"kid": rng.choice(["", "kid"])}
    k = rng.random()
    if key["kty"] == "RSA" and k < .25:
        jwk = ref.jwk(key, True)
        jwk.update(dp=ref.b64e(ref.i2o(key["d"] % (key["p"] - 1))),
                   dq=ref.b64e(ref.i2o(key["d"] % (key["q"] - 1))),
                   qi=ref.b64e(ref.i2o(pow(key["q"], -1, key["p"]))))
        if rng.random() < .5:       # RFC 7518, section 6.3.2.7: private, and not known here
            r = rng.getrandbits(512) | 1 << 511
            secrets.add("RSA oth", r)
            jwk["oth"] = [{"r": ref.b64e(ref.i2o(r)), "d": jwk["dp"], "t": jwk["qi"]}]
        lk, how = keyrep(jwk), "with CRT members"
    elif k < .12:
        jwk = ref.jwk(key, True)
        jwk[rng.choice(["priv", "D", "x-d", "comment"])] = rng.choice([
            jwk["d"], "%x" % key["d"], {"d": jwk["d"]}, [str(key["d"])]])
        lk, how = keyrep(jwk), "with unknown members"
    elif k < .4 and key["kty"] == "RSA":
        lk = jwk_wrap(gen.lib_key(rng, key, True, "key").key)
        how = "wrapped"
    else:
        lk, how = gen.lib_key(rng, key, True, **meta), "made"
    ctx.case("export", gen.ident(key), how, meta)
    ks = KEYS()
    ks.append(lk)
    other = rng.choice(pool)
    ks.append(gen.lib_key(rng, other, True))
    secrets.add_key(other)
    outs = [("serialize", lambda: lk.serialize()),
            ("serialize private=False", lambda: lk.serialize(private=False)),
            ("serialize False", lambda: lk.serialize(False)),
            ("dump_jwks", ks.dump_jwks), ("repr KEYS", lambda: repr(ks)),
            ("str KEYS", lambda: str(ks)), ("key_types", ks.key_types), ("kids", ks.kids),
            ("repr key", lambda: repr(lk)), ("common", lk.common),
            ("thumbprint", lambda: lk.thumbprint("SHA-256")), ("hash", lambda: hash(lk)),
            ("hex hash", lambda: "%x" % lk.get_hash())]
    rng.shuffle(outs)
    for name, fn in outs:
        out, cap = watched(ctx, secrets, name, fn)
        ctx.need(out.ok, "a public output could not be made", mechanism="raise:" + name,
                 out=out, how=how)
        ctx.event("exports")
        v = out.value
        scan(ctx, secrets, "export " + name, v if isinstance(v, (str, bytes)) else repr(v),
             how)
        if isinstance(v, dict):
            ctx.check(not PRIVATE & set(v), "a private member in a public export",
                      mechanism="leak:member", members=sorted(v), name=name)
            hit = secrets.scan_object(v)
            ctx.check(hit is None, "a secret left through a public output",
                      mechanism="leak:export", hit=hit, name=name)
    doc = json.loads(ks.dump_jwks())
    for d in doc["keys"]:
        ctx.check(not PRIVATE & set(d), "a private member in a key set dump",
                  mechanism="leak:member", members=sorted(d))
    # the public copy, all of it
    pub = ctx.must("make_public_copy", make_public_copy, lk)
    hit = secrets.scan_object(pub)
    ctx.check(hit is None, "a public copy holds a secret", mechanism="leak:copy", hit=hit,
              how=how)
    ctx.event("copy walked")
    try:
        blob = pickle.dumps(pub)
    except Exception:
        blob = b""
    scan(ctx, secrets, "copy pickled", blob, how)
    for name, fn in [("serialize private", lambda: pub.serialize(private=True)),
                     ("str copy", lambda: str(pub)), ("to_dict", pub.to_dict)]:
        out, cap = watched(ctx, secrets, name, fn)
        if out.ok:
            hit = secrets.scan_object(out.value)
            ctx.check(hit is None, "a public copy gives a secret away",
                      mechanism="leak:copy", hit=hit, name=name)
    if key["kty"] == "RSA":
        ctx.check(not pub.get_key().has_private(), "a public copy can sign",
                  mechanism="leak:copy")
    else:
        out = ctx.call("private of copy", pub.get_key, private=True)
        ctx.check(not out.ok, "a public copy has a private key", mechanism="leak:copy")
    if rng.random() < .5:
        which = rng.randrange(3)
        form = [pub, keyrep(json.loads(json.dumps(
            dict((a, b.decode() if isinstance(b, bytes) else b)
                 for a, b in lk.serialize().items())))), None][which]
        if form is None:
            k2 = KEYS()
            k2.load_jwks(ks.dump_jwks())
            form = k2.keys()[0]
        usable(ctx, key, lk, form, ["copy", "serialize", "dump"][which])


# -- tokens ------------------------------------------------------------------------

_DEC = re.compile(r"[0-9]{60,170}")
_HEX = re.compile(r"[0-9a-fA-F]{56,140}")
_B64 = re.compile(r"[A-Za-z0-9_\-+/]{40,90}")


def scalar_in(texts, crv, x):
    """Whether any number in the texts is the private scalar of the point with that x"""
    c = ref.CURVES[crv]
    seen = set()
    for t in texts:
        for m in _DEC.findall(t):
            seen.add(int(m))
        for m in _HEX.findall(t):
            seen.add(int(m, 16))
        for m in _B64.findall(t.replace("+", "-").replace("/", "_")):
            try:
                seen.add(ref.o2i(ref.b64d(m)))
            except ref.Bad:
                pass
    for v in list(seen)[:40]:
        if 1 < v < c.n:
            q = c.mul(v)
            if q and q[0] == x:
                return v
    return None


def g_sign(ctx, i):
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % len(ref.SIG_ALGS)]
    key = gen.sig_key(rng, alg)
    secrets = Secrets()
    secrets.add_key(key)
    other = rng.choice(gen.R1024 + gen.ECK["P-256"])
    secrets.add_key(other)
    if key["kty"] == "oct" and len(key["k"]) >= 16:
        secrets.add("shared secret", key["k"])
    lk = gen.lib_key(rng, key, True, kid=rng.choice(["", "k"]))
    lo = gen.lib_key(rng, other, True, kid="o")
    msg = rng.choice([gen.claims(rng), gen.text(rng), b"octets \xff"])
    keys = [lk, lo]
    rng.shuffle(keys)
    fit = [k for k in keys if k is lk]
    ctx.case("sign", alg, gen.ident(key), msg)
    extra = rng.choice([{}, {"typ": "JWT"}, {"cty": "text"}])
    out, cap = watched(ctx, secrets, "sign_compact", JWS(msg, alg=alg, **extra).sign_compact,
                       keys if key["kty"] != other["kty"] else fit)
    ctx.need(out.ok, "signing failed", mechanism="raise:sign_compact", out=out)
    tok = out.value
    scan(ctx, secrets, "token", tok, "compact")
    if key["kty"] != "oct" or rng.random() < .5:
        hdrs = rng.choice([[({"alg": alg}, {"typ": "a"})], [({"alg": alg}, None)]])
        jkeys = fit
        out, cap = watched(ctx, secrets, "sign_json", JWS(msg, alg=alg).sign_json, jkeys, hdrs)
        if out.ok:
            scan(ctx, secrets, "token json", out.value, "json")
            watched(ctx, secrets, "verify_json", JWS().verify_json, out.value, fit)
            watched(ctx, secrets, "verify_json bad", JWS().verify_json,
                    out.value.replace("payload\": \"", "payload\": \"AA"), keys)
    # verification that works and that does not
    for name, t, ks in [("verify", tok, keys), ("verify other key", tok, [lo]),
                        ("verify altered", gen.mut_text(rng, tok)[1], keys),
                        ("verify altered", gen.mut_text(rng, tok)[1], fit),
                        ("verify expected alg", tok, (keys, {"sigalg": "HS512"}))]:
        kw = {}
        if isinstance(ks, tuple):
            ks, kw = ks
        ctx.case(name, t, gen.ident(key))
        watched(ctx, secrets, name, JWS().verify_compact, t, ks, **kw)
    f = ctx.call("factory", jws_factory, tok)
    if f.ok and f.value:
        out, cap = watched(ctx, secrets, "factory verify", f.value.verify_compact, tok, [lo])
        scan(ctx, secrets, "repr jws", repr(f.value), "repr")
    # headers a caller asks for, with a private key to take the public form of
    third = rng.choice(gen.R1024 + gen.ECK["P-256"] + gen.ECK["P-521"])
    kk = gen.lib_key(rng, third, True)
    secrets.add_key(third)
    for name, obj, kw in [("headers extra", JWS(msg, alg=alg), {"extra": {"jwk": kk}}),
                          ("headers own", JWS(msg, alg=alg, jwk=kk), {}),
                          ("headers serialized", JWS(msg, alg=alg, jwk=kk.serialize()), {}),
                          ("headers both", JWS(msg, alg=alg, jwk=kk), {
                              "extra": {"kid": "x", "alg": alg}}),
                          ("headers jwe", JWE(b"x", alg="RSA-OAEP", enc="A128GCM"),
                           {"extra": {"jwk": kk}})]:
        ctx.case(name, alg, gen.ident(key))
        out, cap = watched(ctx, secrets, name, obj.headers, **kw)
        if out.ok:
            ctx.event("headers")
            scan(ctx, secrets, "header", json.dumps(out.value, default=repr), name)
            hit = isinstance(out.value.get("jwk"), dict) and \
                sorted(PRIVATE & set(out.value["jwk"]))
            ctx.check(not hit, "a header holds private members", mechanism="header members",
                      members=hit, what=name)
    out, cap = watched(ctx, secrets, "sign jwk", JWS(msg, alg=alg, jwk=kk).sign_compact, fit)
    if out.ok:
        scan(ctx, secrets, "token", out.value, "sign jwk")
    # signing that does not work
    pubk = make_public_copy(lk) if key["kty"] != "oct" else lo
    for name, fn in [("sign public", lambda: JWS(msg, alg=alg).sign_compact([pubk])),
                     ("sign wrong type", lambda: JWS(msg, alg=alg).sign_compact([lo])),
                     ("sign unknown alg", lambda: JWS(msg, alg="XX256").sign_compact(keys)),
                     ("sign json wrong", lambda: JWS(msg, alg=alg).sign_json([lo], [(
                         {"alg": alg}, None)])),
                     ("sign odd", lambda: JWS(object(), alg=alg).sign_compact(fit)),
                     ("sign raw", lambda: JWS(msg, alg=alg).sign_compact([lk.key, 5])),
                     ("sign text keys", lambda: JWS(msg, alg=alg).sign_compact(str(lk))),
                     ]:
        ctx.case(name, alg, gen.ident(key))
        out, cap = watched(ctx, secrets, name, fn)
        if out.ok and isinstance(out.value, str):
            scan(ctx, secrets, "token", out.value, name)


def g_encrypt(ctx, i):
    rng = ctx.rng
    alg = ref.ENC_ALGS[i % len(ref.ENC_ALGS)]
    enc = ref.ENCS[(i // len(ref.ENC_ALGS)) % 3] if rng.random() < .75 else \
        rng.choice(ref.ENCS)
    key = gen.enc_key(rng, alg, enc)
    secrets = Secrets()
    secrets.add_key(key)
    if key["kty"] == "oct" and len(key["k"]) >= 16:
        secrets.add("shared secret", key["k"])
        secrets.add("key encryption key", ref.sym_kek(key["k"], alg))
    lk = gen.lib_key(rng, key, True, kid=rng.choice(["", "k"]))
    wrong = gen.lib_key(rng, gen.enc_key(rng, alg, enc), True)
    plain = b"plain text \x00\x01" + gen.octets(rng)
    args = {"alg": alg, "enc": enc}
    if alg.startswith("RSA") and rng.random() < .4:
        sign = rng.choice(gen.R1024)
        secrets.add_key(sign)
        args["jwk"] = gen.lib_key(rng, sign, True)
    if rng.random() < .2:
        args["zip"] = "DEF"
    mode = "api"
    fn = lambda: JWE(plain, **args).encrypt([lk])
    if alg.startswith("RSA") and rng.random() < .2:
        mode = "class"
        fn = lambda: JWE_RSA(plain, **args).encrypt(lk.key)
    with Capture() as cap:
        out = ctx.call("encrypt", fn)
    ctx.case("encrypt", alg, enc, gen.ident(key), mode, plain)
    ctx.need(out.ok, "encrypting failed", mechanism="raise:encrypt", out=out, args=args)
    tok = out.value
    info = {}
    try:
        ref.jwe_open(tok, key, info=info)
    except (ref.Bad, KeyError, TypeError, ValueError) as err:
        info.clear()
    if info:
        secrets.add("content encryption key", info["cek"])
        ctx.event("cek known")
        epk = info["header"].get("epk")
        if epk:
            c = ref.CURVES[epk["crv"]]
            z_alg = info["header"]
            # the agreed key, and no number anywhere may be the ephemeral scalar
            dk = ref.ecdh_key(c.name, key["d"], (ref.o2i(ref.b64d(epk["x"])),
                                                 ref.o2i(ref.b64d(epk["y"]))), alg, enc,
                              ref.b64d(z_alg.get("apu", "")), ref.b64d(z_alg.get("apv", "")))
            secrets.add("agreed key", dk)
            texts = [t for _, t in cap.out] + [json.dumps(info["header"])]
            ctx.check(scalar_in(texts, c.name, ref.o2i(ref.b64d(epk["x"]))) is None,
                      "the ephemeral private scalar left through a public output",
                      mechanism="leak:ephemeral", texts=texts)
            ctx.event("ephemeral key known")
    scan_capture(ctx, secrets, cap, "encrypt")
    scan(ctx, secrets, "token", tok, "%s %s" % (alg, enc))
    if info:
        ctx.check(not PRIVATE & set(info["header"]) and "cek" not in info["header"] and
                  not PRIVATE & set(info["header"].get("epk", {})) and
                  not PRIVATE & set(info["header"].get("jwk", {})),
                  "a private member in a token header", mechanism="leak:header",
                  header=info["header"])
    # decryption that works and that does not
    parts = tok.split(".")
    jobs = [("decrypt", lambda: JWE().decrypt(tok, [lk])),
            ("decrypt wrong key", lambda: JWE().decrypt(tok, [wrong])),
            ("decrypt wrong alg", lambda: JWE().decrypt(tok, [lk], alg="dir")),
            ("decrypt mixed", lambda: JWE().decrypt(tok, [wrong, lk]))]
    if info:
        # the content key handed over by the caller, right and wrong
        cek = info["cek"]
        jobs += [("decrypt cek", lambda: JWE().decrypt(tok, [lk], cek=cek)),
                 ("decrypt cek", lambda: JWE().decrypt(tok, [lk], cek=cek)),
                 ("decrypt cek only", lambda: JWE().decrypt(tok, [], cek=cek)),
                 ("decrypt cek altered", lambda: JWE().decrypt(
                     ".".join(parts[:4] + ["AAAA"]), [wrong], cek=cek)),
                 ("decrypt cek short", lambda: JWE().decrypt(tok, [wrong], cek=cek[:-1])),
                 ("encrypt cek", lambda: JWE(plain, **args).encrypt([lk], cek=cek)),
                 ("encrypt cek short", lambda: JWE(plain, **args).encrypt([lk], cek=cek[:-1]))]
    for _ in range(3):
        p = list(parts)
        j = rng.randrange(1, 5)
        p[j] = ref.b64e(gen.mut_octets(rng, ref.b64d(p[j]))[1])
        jobs.append(("decrypt altered", lambda t=".".join(p): JWE().decrypt(t, [lk])))
    jobs.append(("decrypt mangled",
                 lambda t=gen.mut_text(rng, tok)[1]: JWE().decrypt(t, [lk])))
    if key["kty"] != "oct":
        pubk = make_public_copy(lk)
        jobs.append(("decrypt public", lambda: JWE().decrypt(tok, [pubk])))
    if alg.startswith("RSA"):
        jobs.append(("decrypt class", lambda: JWE_RSA().decrypt(
            ".".join(parts[:4] + ["AAAA"]), lk.key)))
    jobs += [("encrypt wrong type", lambda: JWE(plain, **args).encrypt(
                 [gen.lib_key(rng, rng.choice(gen.OCT if key["kty"] != "oct" else
                                              gen.R1024), True)])),
             ("encrypt unknown enc", lambda: JWE(plain, alg=alg, enc="A1").encrypt([lk])),
             ("encrypt unknown alg", lambda: JWE(plain, alg="RSA-X", enc=enc).encrypt([lk])),
             ("encrypt unknown zip", lambda: JWE(plain, alg=alg, enc=enc, zip="X").encrypt(
                 [lk])),
             ("encrypt odd", lambda: JWE(object(), alg=alg, enc=enc).encrypt([lk]))]
    for name, fn in jobs:
        if rng.random() < (.3 if enc.endswith("GCM") else .85):
            ctx.case(name, alg, enc, tok)
            out, cap = watched(ctx, secrets, name, fn)
            if out.ok and name.startswith("encrypt") and isinstance(out.value, str):
                scan(ctx, secrets, "token", out.value, name)


# -- malformed private keys ------------------------------------------------------------

def spoil(rng, t):
    i = rng.randrange(len(t))
    return rng.choice([t + "=", t + "==", t + "\n", "!" + t, t[:i] + "!" + t[i:], t + " ",
                       t[:-1] + "*", [t], {"v": t}, t + "\u00e5", t[:-1], t + "A", t + "AA",
                       t.encode() + b"!", "0x" + t, t + ",", t.replace("-", "+") + "+"])


def g_import(ctx, i):
    rng = ctx.rng
    key = rng.choice(gen.R1024 + sum(gen.ECK.values(), []) + [k for k in gen.OCT
                                                              if len(k["k"]) >= 24])
    secrets = Secrets()
    secrets.add_key(key)
    if key["kty"] == "oct":
        secrets.add("shared secret", key["k"])
    for _ in range(6):
        jwk = ref.jwk(key, True, kid="k")
        names = {"RSA": "dpq", "EC": "d", "oct": "k"}[key["kty"]]
        m = rng.choice(names)
        if rng.random() < .8:
            jwk[m] = spoil(rng, jwk[m])
            sp = m
        else:
            sp = rng.choice([x for x in jwk if x not in names])
            jwk[sp] = rng.choice(["!", "", None, 5, [], {}, "AA", "P-999", "A" * 43])
        ways = [("keyrep", lambda: keyrep(dict(jwk))),
                ("load_dict", lambda: KEYS().load_dict({"keys": [jwk]})),
                ("add", lambda: KEYS().add(dict(jwk))),
                ("key_from_jwk_dict", lambda: __import__("jwkest.jwk").jwk.key_from_jwk_dict(
                    jwk))]
        try:
            txt = json.dumps({"keys": [jwk]})
            ways.append(("load_jwks", lambda: KEYS().load_jwks(txt)))
            ways.append(("load_jwks cut", lambda: KEYS().load_jwks(
                txt[:rng.randrange(len(txt))])))
        except TypeError:
            pass
        name, fn = rng.choice(ways)
        ctx.case("import", name, jwk)
        out, cap = watched(ctx, secrets, "import " + name, fn)
        if out.ok and key["kty"] != "oct" and name != "load_jwks cut":
            k = out.value
            if hasattr(k, "serialize") and rng.random() < .5:
                o2, cap = watched(ctx, secrets, "serialize", k.serialize)
                scan(ctx, secrets, "export serialize", repr(o2.value), "spoiled import")
    # misuse of private keys
    lk = gen.lib_key(rng, key, True)
    pub = make_public_copy(lk)
    raw = lk.key if key["kty"] == "RSA" else lk
    jobs = [("wrap number", lambda: KEYS().wrap_add(key.get("d", 5))),
            ("wrap octets", lambda: KEYS().wrap_add(key.get("k", b"\x01"))),
            ("wrap key", lambda: KEYS().wrap_add(lk)), ("wrap list", lambda: KEYS().wrap_add(
                [raw])), ("public of raw", lambda: make_public_copy(raw)),
            ("thumbprint odd", lambda: lk.thumbprint("MD5")),
            ("encryption_key", lambda: lk.encryption_key(alg="nope")),
            ("getitem", lambda: KEYS()[raw]), ("private of public", lambda: pub.get_key(private=True)),
            ("public serialize", lambda: pub.serialize(private=True)),
            ("compare", lambda: lk == pub), ("compare raw", lambda: lk == raw),
            ("deserialize again", lk.deserialize), ("verify", lk.verify)]
    for name, fn in rng.sample(jobs, 6):
        ctx.case("misuse", name, gen.ident(key))
        out, cap = watched(ctx, secrets, "misuse " + name, fn)
        if out.ok and name == "public serialize" and key["kty"] != "oct":
            scan(ctx, secrets, "export", repr(out.value), name)
    if key["kty"] == "RSA":
        # damaged PEM
        from jwkest.jwk import import_rsa_key
        pem = RSA.construct((key["n"], key["e"], key["d"])).export_key(
            rng.choice(["PEM", "DER"]))
        if rng.random() < .8:
            j = rng.randrange(40, len(pem) - 40)
            pem = pem[:j] + bytes([pem[j] ^ (1 << rng.randrange(7))]) + pem[j + 1:]
        ctx.case("import pem", pem)
        watched(ctx, secrets, "import pem", import_rsa_key, pem)


# -- the tools, with a log file -----------------------------------------------------------

def drop(t, rng):
    """a token that is not what it was"""
    k = rng.randrange(5)
    p = t.split(".")
    if k == 0:
        return t[:rng.randrange(len(t))]
    if k == 1:
        return ".".join(p[:-1] + [""])
    if k == 2:
        return ".".join([ref.b64e(b'{"alg":"RSA1_5","enc":"A128GCM"}')] + p[1:])
    if k == 3:
        return ref.b64e(b'{"alg":"none"}') + "." + p[1] + "."
    return c24.altered(rng, t)


def g_tools(ctx, i):
    """command line tools at work on private keys: what they print and log is not judged, only
    that no secret is in it"""
    rng = ctx.rng
    with c24.Bed(ctx) as bed:
        bed.log = lambda: _always(bed)
        kind = i % 6
        alg = rng.choice(ref.SIG_ALGS)
        ealg, enc = rng.choice(ref.ENC_ALGS), rng.choice(ref.ENCS[:3])
        key = c24.sign_key(rng, alg) if kind < 3 else gen.enc_key(rng, ealg, enc)
        bed.use(key)
        msg = c24.message(rng)
        kid = rng.choice(["", "k1"])
        src = c24.util_source(bed, key, True, kid)
        src += c24.more_source(bed, key, src, rng.random() < .5)
        if kind == 0:       # sign
            args, inp = c24.feed(bed, msg, True)
            bed.run("jwkutil", "-s", "-a", rng.choice([alg, alg, "HS256", "RS257", ""]),
                    *(src + bed.log() + args), stdin=inp)
            bed.scan_log()
        elif kind in (1, 2):       # verify
            t = ref.jws({"alg": alg}, msg.encode("utf-8"), key, rng)
            if kind == 2:
                t = drop(t, rng)
            bed.run("jwkutil", "-v", *(src + bed.log() + c24.feed_token(bed, t, False)[0]))
            bed.scan_log()
        elif kind == 3:     # encrypt
            args, inp = c24.feed(bed, msg, True)
            if rng.random() < .5:
                bed.run("jwkutil", "-e", "-A", ealg, "-E", rng.choice([enc, enc, "A1"]),
                        *(src + bed.log() + args), stdin=inp)
                bed.scan_log()
            else:
                bed.run("jwenc", *((["-d"] if rng.random() < .6 else []) +
                                   ["-a", ealg, "-e", rng.choice([enc, enc, "A1"])] +
                                   c24.enc_source(bed, key, True) + args), stdin=inp)
        else:               # decrypt
            info = {}
            t = ref.jwe({"alg": ealg, "enc": enc}, msg.encode("utf-8"), key, rng)
            ref.jwe_open(t, key, info=info)
            bed.secrets.add("content encryption key", info["cek"])
            if kind == 5:
                t = drop(t, rng)
            if rng.random() < .6:
                args, inp = c24.feed_token(bed, t)
                bed.run("jwkutil", "-d", *((["-v"] if rng.random() < .3 else []) + src +
                                           bed.log() + args), stdin=inp)
                bed.scan_log()
            else:
                bed.run("jwdecrypt", *((["-d"] if rng.random() < .6 else []) + c24.enc_source(
                    bed, key, True) + c24.feed_token(bed, t, False)[0]))
        # a key that cannot be read as it is
        jwk = ref.jwk(key, True)
        m = rng.choice([x for x in "kdpq" if x in jwk])
        jwk[m] = rng.choice(["%s=", "!%s", " %s", "%s*", "%s,"]) % jwk[m]
        txt = json.dumps(rng.choice([jwk, {"keys": [jwk]}, [jwk]]))
        if rng.random() < .3:
            txt = txt[:rng.randrange(20, len(txt))]
        fn = bed.b.put(txt, ".jwk")
        bed.run("jwkutil", rng.choice("sved").join(["-", ""]), rng.choice(["-j", "-J"]), fn,
                "-a", alg, "-A", ealg, "-E", enc, *(bed.log() + ["message"]))
        bed.scan_log()
        bed.run(rng.choice(["jwenc", "jwdecrypt"]), "-j", fn, "a.b.c.d.e")
        if key["kty"] == "RSA":
            pem = c24.pem_of(rng, key, True)
            if rng.random() < .5:
                j = rng.randrange(len(pem))
                pem = pem[:j] + "#" + pem[j:]
            fn = bed.b.put(pem, ".pem")
            for tool in (["jwk_export", "-n", "out", "-k"], ["jwenc", "-a", ealg, "-e", enc, "-x"],
                         ["jwdecrypt", "-r"], ["jwkutil", "-s", "-a", "RS256"] + bed.log() +
                         ["-r"]):
                bed.run(*(tool + [fn] + ([] if tool[0] == "jwk_export" else ["a.b.c"])))
            bed.scan_log()
            try:
                bed.scan("file out.jwk", bed.b.get("out.jwk"))
            except OSError:
                pass


def _always(bed):
    bed.b.n += 1
    bed.logfile = "log%d" % bed.b.n
    return ["-l", bed.logfile]


GROUPS = [Group("export", g_export, 200, 5000), Group("sign", g_sign, 120, 3000),
          Group("encrypt", g_encrypt, 200, 5000), Group("import", g_import, 160, 4000)]
GROUPS = boost(GROUPS, 5)
GROUPS.append(Group("tools", g_tools, 150, 3000))
