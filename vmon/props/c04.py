"""C04: the verifier, not the token, chooses keys and algorithms."""
import json

from vmon import audit, gen, jose, ref
from vmon.core import Group, boost
from jwkest.jwe import JWE
from jwkest.jwe import factory as jwe_factory
from jwkest.jwk import KEYS
from jwkest.jws import JWS
from jwkest.jws import factory as jws_factory

RULE = ("A case is one (token header, signature or encryption, caller options, key set) "
        "given to the real code; a decision table written from the documentation predicts "
        "whether it is accepted and which keys may be used, an audit hook records network "
        "and file access. Non-trivial: distinct (header, options, key set, what signed it).")
MINIMUM = {"predicted accept": 400, "predicted reject": 2500, "none predicted accept": 40,
           "embedded key": 400, "key confusion": 200, "signing key chosen": 400,
           "critical": 200, "jwe predicted accept": 60, "jwe predicted reject": 200,
           "watched calls": 3000, "key asked": 2000, "no key asked": 1500}
ASSUME = ["'none' is recognised in any case; other algorithm names are case-sensitive",
          "when verifying, a key's 'use' is not looked at (documented pick_keys call)"]

SMALL = {"RSA": gen.R1024[:4], "P-256": gen.ECK["P-256"], "P-384": gen.ECK["P-384"][:4],
         "P-521": gen.ECK["P-521"][:2]}
KIDS = ["", "", "k1", "k2", "kid\u00e5", "Key-A_1 "]
ODD_ALGS = ["none", "None", "NONE", "nOnE", "", None, "HS255", "hs256", "RS", "ES", "HS",
            "PS1", "ES256K", "A128KW", "RSA-OAEP", "RSA1_5", "ECDH-ES", "dir", "none ",
            " none", "nonE\x00", 17, True, 0, [], ["RS256"], {}, "RS256 ", "EdDSA", "HS2"]
URLS = ["http://127.0.0.1:9/keys", "https://127.0.0.1:9/k.pem", "http://localhost:9/",
        "file:///etc/passwd", "/etc/passwd", "ftp://127.0.0.1:9/x"]


def a_key(rng, alg=None):
    if alg is None:
        alg = rng.choice(ref.SIG_ALGS)
    if alg.startswith("HS"):
        return rng.choice(gen.OCT)
    if alg[:2] in ("RS", "PS"):
        if alg == "PS512":
            return gen.RSAK[4] if rng.random() < .5 else gen.R2048[0]
        return rng.choice(SMALL["RSA"])
    c = ref.ES_CURVE[alg]
    if rng.random() < .25:
        c = rng.choice(gen.CRVS)
    return rng.choice(SMALL[c])


def meta_of(rng, alg):
    m = {"kid": rng.choice(KIDS)}
    k = rng.random()
    if k < .2:
        m["alg"] = alg
    elif k < .35:
        m["alg"] = rng.choice(ref.SIG_ALGS + ["none", "RSA-OAEP"])
    if rng.random() < .2:
        m["use"] = rng.choice(["sig", "enc"])
    return dict((a, b) for a, b in m.items() if b)


def embed(rng, h, key, kid):
    """attacker-chosen key references in a header"""
    k = rng.randrange(6)
    if k in (0, 1):
        h["jwk"] = ref.jwk(key, False, **({"kid": kid} if kid else {}))
    elif k == 2:
        h["jku"] = rng.choice(URLS)
    elif k == 3:
        h["x5u"] = rng.choice(URLS)
    elif k == 4:
        h["x5c"] = ["MIIB"]
    else:
        h["jwk"] = ref.jwk(key, False)
        h["jku"] = rng.choice(URLS)
        h["x5u"] = rng.choice(URLS)


def as_set(rng, keys):
    if rng.random() < .3:
        ks = KEYS()
        for k in keys:
            ks.append(k)
        return ks
    return tuple(keys) if rng.random() < .1 else list(keys)


def unasked(ctx, asked, algs, **detail):
    """no key of another type has been asked for its key material"""
    ctx.event("key asked", len(asked.asked))
    ctx.event("no key asked", not asked.asked)
    ctx.check(not asked.unfit(algs), "a key whose type is not the algorithm's was asked for its "
              "key material", mechanism="asked", algs=algs, keys=asked.unfit(algs), **detail)


def decide(ctx, t, ring, allow_none, sigalg, ctor, what):
    rng = ctx.rng
    h, octs, inp = jose.signed_parts(t)
    want, good = jose.predict(h, inp, octs[2], ring, allow_none, sigalg, ctor)
    kw = {}
    if allow_none or rng.random() < .3:
        kw["allow_none"] = allow_none
    if sigalg or rng.random() < .2:
        kw["sigalg"] = sigalg
    keys = as_set(rng, ring.lib)
    j = JWS(**({"alg": ctor} if ctor else {}))
    if not ctor and rng.random() < .2:
        j = jws_factory(t) or j
    with audit.Watch() as w, jose.Asked(ring.lib) as asked:
        out = ctx.call("verify", j.verify_compact_verbose, t, keys, **kw)
    ctx.event("watched calls")
    unasked(ctx, asked, [h.get("alg"), sigalg, ctor], what=what, header=h, outcome=out)
    net = [e for e in w.seen]
    ctx.check(not net, "verification with supplied keys reached out",
              mechanism="reached out", what=what, header=h, seen=net)
    ctx.case(what, h, allow_none, sigalg, ctor,
             [(gen.ident(k), m) for _, k, m in ring.items], want)
    d = dict(what=what, header=h, allow_none=allow_none, sigalg=sigalg, ctor=ctor,
             keys=[(gen.ident(k), m) for _, k, m in ring.items], token=t, outcome=out)
    if want == "reject":
        ctx.event("predicted reject")
        ctx.check(not out.ok, "accepted against the caller's policy: %s" % what,
                  mechanism="policy " + what, **d)
        return
    # unusual spellings of none need not be understood
    if want == "none" and h["alg"] != "none" and not out.ok:
        return
    ctx.event("none predicted accept" if want == "none" else "predicted accept")
    if not ctx.check(out.ok, "refused although the caller's policy allows it: %s" % what,
                     mechanism="refused " + what, **d):
        return
    v = out.value
    ctx.check(gen.same(v.get("msg"), gen.model_payload(octs[1], h)), "another payload",
              mechanism="payload", **d)
    if want == "none":
        ctx.check(v.get("key") is None, "a key is reported for an unsecured token",
                  mechanism="none key", **d)
    else:
        ctx.check(any(v.get("key") is lk for lk in good), "a key was used that the policy "
                  "does not allow", mechanism="key", **d)


def options(rng, alg):
    sigalg = ctor = None
    a = alg if isinstance(alg, str) else "HS256"
    if rng.random() < .35:
        sigalg = a if rng.random() < .6 else rng.choice(ref.SIG_ALGS + ["none", "HS25", "RS"])
    if rng.random() < .25:
        ctor = a if rng.random() < .6 else rng.choice(ref.SIG_ALGS + ["none"])
    return rng.random() < .35, sigalg or None, ctor or None


def g_matrix(ctx, i):
    """all dimensions at once"""
    rng = ctx.rng
    for _ in range(12):
        alg = rng.choice(ref.SIG_ALGS)
        key = a_key(rng, alg)
        if key["kty"] == "EC":
            alg = [a for a, c in ref.ES_CURVE.items() if c == key["crv"]][0]
        ring = jose.Ring()
        m = meta_of(rng, alg)
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            ring.add(rng, gen.public(a_key(rng, alg if rng.random() < .6 else None)),
                     **meta_of(rng, alg))
        if rng.random() < .75:
            ring.add(rng, gen.public(key), **m)
        if rng.random() < .1:
            # the same key once more under other metadata
            ring.add(rng, gen.public(key), **meta_of(rng, alg))
        rng.shuffle(ring.items)
        h = {"alg": alg}
        k = rng.random()
        if k < .45 and m.get("kid"):
            h["kid"] = m["kid"]
        elif k < .7:
            h["kid"] = rng.choice(KIDS + ["k3", 17, None, ["k1"]])
        elif k < .8 and m.get("kid"):
            h["kid"] = gen.kin_text(rng, m["kid"])
        if rng.random() < .15:
            h["typ"] = "JWT"
        if rng.random() < .3:
            embed(rng, h, rng.choice([key, a_key(rng, alg)]), h.get("kid"))
        if rng.random() < .08:
            ctx.event("critical")
            h["crit"] = rng.choice([["exp"], [], ["b64"], None, "", {}, ["alg"], "kid"])
        t = ref.jws(h, gen.octets(rng), key, rng)
        decide(ctx, t, ring, *options(rng, alg), what="matrix")


def g_none(ctx, i):
    """unsecured and odd algorithms, with and without a signature"""
    rng = ctx.rng
    for a in rng.sample(ODD_ALGS, 12) + ["none", "none", "absent"]:
        h = {"alg": a}
        if a == "absent":
            h = {rng.choice(["typ", "ALG", "Alg", "alg "]): rng.choice(["none", "HS256"])}
        if rng.random() < .3:
            h["kid"] = "k1"
        ring = jose.Ring()
        alg = rng.choice(["HS256", "RS256", "ES256"])
        key = a_key(rng, alg)
        for _ in range(rng.choice([0, 1, 1, 2])):
            ring.add(rng, gen.public(key), **meta_of(rng, alg))
        if rng.random() < .2 and isinstance(a, str) and a:
            # a key that declares the odd algorithm
            ring.add(rng, gen.public(key), alg=a)
        inp = ref.b64e(ref.jdump(h)) + "." + ref.b64e(gen.octets(rng))
        sig = b""
        if rng.random() < .4:
            try:
                sig = ref.sign(alg, inp.encode(), key, rng)
            except ref.Bad:
                pass
        allow, sigalg, ctor = options(rng, a)
        if rng.random() < .4:
            allow = True
        if sigalg == "" or a == "absent":
            sigalg = rng.choice([None, "HS256"])
        if sig and allow and isinstance(a, str) and a.lower() == "none":
            sig = b""          # a signature on an unsecured token: not decided here
        decide(ctx, inp + "." + ref.b64e(sig), ring, allow, sigalg, ctor, "odd algorithm")


def g_embedded(ctx, i):
    """tokens that bring their own key along, verified with other keys or none"""
    rng = ctx.rng
    alg = rng.choice(["HS256", "RS256", "ES256", "PS256", "HS512", "ES384"])
    mine = a_key(rng, alg)
    while mine["kty"] == "EC" and mine["crv"] != ref.ES_CURVE[alg]:
        mine = a_key(rng, alg)
    for n in range(6):
        ring = jose.Ring()
        if n % 2:
            while True:
                other = a_key(rng, rng.choice([alg, None]))
                if gen.public(other) != gen.public(mine):
                    break
            ring.add(rng, gen.public(other), kid=rng.choice(["k1", None]))
        h = {"alg": alg}
        if rng.random() < .5:
            h["kid"] = "k1"
        embed(rng, h, mine, h.get("kid"))
        ctx.event("embedded key")
        t = ref.jws(h, gen.octets(rng), mine, rng)
        decide(ctx, t, ring, rng.random() < .2, rng.choice([None, alg]), None, "embedded key")
        # and in the JSON serialization, where headers may also be unprotected
        p, b, s = t.split(".")
        hs = dict(h)
        up = {}
        for m in list(hs):
            if m != "alg" and rng.random() < .5:
                up[m] = hs.pop(m)
        inp = ref.b64e(ref.jdump(hs)) + "." + b
        s = ref.b64e(ref.sign(alg, inp.encode(), mine, rng))
        e = {"protected": inp.split(".")[0], "signature": s}
        if up:
            e["header"] = up
        doc = dict(e, payload=b) if rng.random() < .5 else {"payload": b, "signatures": [e]}
        keys = as_set(rng, ring.lib)
        with audit.Watch() as w, jose.Asked(ring.lib) as asked:
            out = ctx.call("verify_json", JWS().verify_json, json.dumps(doc), keys)
        ctx.event("watched calls")
        ctx.case("embedded json", doc)
        ctx.check(not w.seen, "verification with supplied keys reached out",
                  mechanism="reached out json", doc=doc, seen=w.seen)
        ctx.check(not out.ok, "a key embedded in a JSON token was trusted",
                  mechanism="embedded json", doc=doc, outcome=out,
                  keys=[gen.ident(k) for _, k, _ in ring.items])


def rsa_texts(rng, key):
    """octets an HMAC forger derives from a public key"""
    from Cryptodome.PublicKey import RSA
    if key["kty"] == "RSA":
        k = RSA.construct((key["n"], key["e"]))
        pem = k.export_key()
        return [pem, pem + b"\n", k.export_key("DER"), ref.i2o(key["n"]),
                ref.b64e(ref.i2o(key["n"])).encode(), ref.jdump(ref.jwk(key)),
                str(key["n"]).encode(), b""]
    c = ref.CURVES[key["crv"]]
    x, y = ref.i2o(key["x"], c.size), ref.i2o(key["y"], c.size)
    return [x + y, b"\x04" + x + y, x, ref.b64e(x).encode(), ref.jdump(ref.jwk(key)), b"",
            repr((key["x"], key["y"])).encode(), str(key["x"]).encode()]


def g_confusion(ctx, i):
    """key material of one family tried as another"""
    rng = ctx.rng
    key = a_key(rng, rng.choice(["RS256", "ES256", "ES384"]))
    for k in rng.sample(rsa_texts(rng, key), 4):
        alg = rng.choice(["HS256", "HS384", "HS512"])
        ring = jose.Ring()
        meta = {"kid": "k1"} if rng.random() < .5 else {}
        ring.add(rng, gen.public(key), **meta)
        if rng.random() < .3:
            ring.add(rng, gen.public(a_key(rng)), **meta)
        h = dict({"alg": alg}, **meta)
        inp = ref.b64e(ref.jdump(h)) + "." + ref.b64e(b'{"admin":true}')
        t = inp + "." + ref.b64e(ref.sign(alg, inp.encode(), {"kty": "oct", "k": k}, rng))
        ctx.event("key confusion")
        decide(ctx, t, ring, False, None, None, "key confusion")
    # one family's signature under another algorithm name
    for _ in range(4):
        a, b = rng.sample(ref.SIG_ALGS, 2)
        key = gen.sig_key(rng, a) if a != "PS512" else gen.R2048[0]
        h = {"alg": b}
        inp = ref.b64e(ref.jdump(h)) + "." + ref.b64e(b"x")
        t = inp + "." + ref.b64e(ref.sign(a, inp.encode(), key, rng))
        ring = jose.Ring()
        ring.add(rng, gen.public(key))
        if rng.random() < .5:
            ring.add(rng, gen.public(key), alg=b)
        ctx.event("key confusion")
        decide(ctx, t, ring, False, None, None, "algorithm confusion")


def g_signing(ctx, i):
    """which key is used for making a token"""
    rng = ctx.rng
    for _ in range(8):
        alg = rng.choice(ref.SIG_ALGS)
        ring = jose.Ring()
        for _ in range(rng.choice([1, 2, 2, 3])):
            ring.add(rng, a_key(rng, alg if rng.random() < .6 else None), True,
                     **meta_of(rng, alg))
        kw = {"alg": alg}
        if rng.random() < .3:
            kw["kid"] = rng.choice(["k1", "k2"])
        elif rng.random() < .2:
            kw["kid"] = gen.kin_text(rng, rng.choice(KIDS)) or "k1"
        good = []
        for lk, key, meta in ring.items:
            if jose.fits(kw, key, meta) and meta.get("use", "sig") == "sig" and \
                    not (alg == "PS512" and key["n"].bit_length() < 1041):
                good.append((lk, key, meta))
        short = alg == "PS512" and any(
            k["kty"] == "RSA" and k["n"].bit_length() < 1041 for _, k, _ in ring.items)
        with audit.Watch() as w, jose.Asked(ring.lib) as asked:
            out = ctx.call("sign", JWS("m", **kw).sign_compact, as_set(rng, ring.lib))
        unasked(ctx, asked, [alg], kw=kw, outcome=out)
        ctx.check(not w.seen, "signing with supplied keys reached out",
                  mechanism="sign reached out", seen=w.seen)
        ctx.event("watched calls")
        ctx.case("sign", kw, [(gen.ident(k), m) for _, k, m in ring.items])
        d = dict(kw=kw, keys=[(gen.ident(k), m) for _, k, m in ring.items], outcome=out)
        if not good:
            ctx.check(not out.ok, "signed with a key that does not fit",
                      mechanism="sign unfit", **d)
            continue
        if short:
            continue
        if not ctx.check(out.ok, "not signed although a key fits", mechanism="sign refused",
                         **d):
            continue
        ctx.event("signing key chosen")
        h, octs, inp = jose.signed_parts(out.value)
        ctx.check(h.get("alg") == alg, "signed with another algorithm",
                  mechanism="sign alg", header=h, **d)
        by = [m for _, k, m in good if ref.verify(alg, inp, octs[2], k)]
        ctx.check(by, "signed with a key that does not fit", mechanism="sign unfit",
                  header=h, **d)
        ctx.check(any(m.get("kid") == h.get("kid") for m in by) or not by,
                  "the key id announced is not the one of the key used",
                  mechanism="sign kid", header=h, **d)


def g_json(ctx, i):
    """options in the JSON serialization"""
    rng = ctx.rng
    for _ in range(6):
        alg = rng.choice(ref.SIG_ALGS[:-1])
        key = a_key(rng, alg)
        if key["kty"] == "EC":
            alg = [a for a, c in ref.ES_CURVE.items() if c == key["crv"]][0]
        m = meta_of(rng, alg)
        ring = jose.Ring()
        if rng.random() < .4:
            ring.add(rng, gen.public(a_key(rng)), **meta_of(rng, alg))
        ring.add(rng, gen.public(key), **m)
        h = {"alg": alg}
        if rng.random() < .5 and m.get("kid"):
            h["kid"] = m["kid"]
        none = rng.random() < .3
        if none:
            h["alg"] = rng.choice(["none", "none", "None"])
        crit = rng.random() < .15
        up = {}
        if crit:
            ctx.event("critical")
            (h if rng.random() < .5 else up)["crit"] = rng.choice([["exp"], [], ["b64"]])
        b = ref.b64e(gen.octets(rng))
        inp = ref.b64e(ref.jdump(h)) + "." + b
        sig = b"" if none else ref.sign(alg, inp.encode(), key, rng)
        e = {"protected": inp.split(".")[0], "signature": ref.b64e(sig)}
        if up:
            e["header"] = up
        doc = dict(e, payload=b) if rng.random() < .5 else {"payload": b, "signatures": [e]}
        allow, sigalg, ctor = options(rng, h["alg"])
        want, good = jose.predict(dict(h, **up), inp.encode(), sig, ring, allow, sigalg, ctor)
        if ctor and want == "none" and ctor != h["alg"]:
            want = "reject"
        j = JWS(**({"alg": ctor} if ctor else {}))
        with audit.Watch() as w, jose.Asked(ring.lib) as asked:
            out = ctx.call("verify_json", j.verify_json, json.dumps(doc),
                           as_set(rng, ring.lib), allow_none=allow, sigalg=sigalg)
        unasked(ctx, asked, [h["alg"], sigalg, ctor], doc=doc, outcome=out)
        ctx.event("watched calls")
        ctx.case("json", doc, allow, sigalg, ctor)
        d = dict(doc=doc, allow_none=allow, sigalg=sigalg, ctor=ctor, header=h, outcome=out,
                 keys=[(gen.ident(k), mm) for _, k, mm in ring.items])
        ctx.check(not w.seen, "verification with supplied keys reached out",
                  mechanism="reached out json", **d)
        if want == "reject":
            ctx.event("predicted reject")
            ctx.check(not out.ok, "a JSON token is accepted against the policy",
                      mechanism="json policy", **d)
        elif want == "key":
            ctx.event("predicted accept")
            ctx.check(out.ok, "a JSON token is refused although the policy allows it",
                      mechanism="json refused", **d)


def g_crit(ctx, i):
    rng = ctx.rng
    alg = rng.choice(["HS256", "RS256", "ES256"])
    key = a_key(rng, alg)
    while key["kty"] == "EC" and key["crv"] != "P-256":
        key = a_key(rng, alg)
    for crit in (["exp"], ["b64"], ["http://example.invalid/UNDEFINED"], ["alg"], ["kid"],
                 [], "exp", None, {}, 0, False, "", ["exp", "nbf"], [""], [None]):
        h = {"alg": alg, "crit": crit}
        if isinstance(crit, list) and crit and isinstance(crit[0], str):
            h.setdefault(crit[0], 1 if crit[0] == "exp" else False)
        if rng.random() < .3:
            h["kid"] = "k1"
        ring = jose.Ring()
        ring.add(rng, gen.public(key), kid=h.get("kid") if isinstance(h.get("kid"), str)
                 else None)
        ctx.event("critical")
        t = ref.jws(h, b"{}", key, rng, alg=alg)
        decide(ctx, t, ring, rng.random() < .3, None, None, "critical extension")
        if rng.random() < .3:
            h["alg"] = "none"
            t = ref.b64e(ref.jdump(h)) + "." + ref.b64e(b"{}") + "."
            decide(ctx, t, jose.Ring(), True, None, None, "critical unsecured")
    # a header that a maker asks for is the one that the token carries
    names = rng.choice([["exp"], ["b64", "exp"]])
    certs = rng.choice([None, ["AAAA"]])
    kw = {"crit": names}
    if certs:
        kw["x5c"] = certs
    for cls, a in ((JWS, alg), (JWE, "RSA-OAEP"), (JWE, "RSA1_5")):
        j = ctx.must("make", cls, "x", alg=a, **kw)
        hd = ctx.must("headers", j.headers)
        ctx.case("critical made", a, kw)
        ctx.event("critical")
        ctx.check(hd.get("crit") == names and hd.get("x5c") == certs,
                  "critical extensions are announced as something else",
                  mechanism="critical made", got=hd, asked=kw)
        if cls is JWE:
            rk = rng.choice(gen.R1024)
            j = JWE("x", alg=a, enc="A128CBC-HS256", **kw)
            t = ctx.must("encrypt", j.encrypt, [gen.lib_key(rng, rk, False)])
            hd, _ = gen.parse(t)
            ctx.check(hd.get("crit") == names and hd.get("x5c") == certs,
                      "critical extensions are announced as something else",
                      mechanism="critical made", got=hd, asked=kw)
            out = ctx.call("decrypt", JWE().decrypt, t, [gen.lib_key(rng, rk, True)])
            ctx.check(not out.ok, "a token with critical extensions is decrypted",
                      mechanism="critical decrypted", header=hd)


def g_jwe(ctx, i):
    rng = ctx.rng
    alg = ref.ENC_ALGS[i % len(ref.ENC_ALGS)]
    for _ in range(4):
        enc = rng.choice(ref.ENCS[:3] if rng.random() < .8 else ref.ENCS)
        key = gen.enc_key(rng, alg, enc, "P-256" if rng.random() < .7 else None)
        ring = jose.Ring()
        m = {"kid": rng.choice(KIDS), "use": rng.choice(["", "", "enc", "sig"]),
             "alg": rng.choice(["", "", alg, rng.choice(ref.ENC_ALGS)])}
        m = dict((a, b) for a, b in m.items() if b)
        for _ in range(rng.choice([0, 0, 1, 2])):
            ring.add(rng, gen.enc_key(rng, rng.choice([alg] + ref.ENC_ALGS), enc, "P-256"),
                     True, kid=rng.choice(KIDS))
        if rng.random() < .85:
            ring.add(rng, key, True, **m)
        rng.shuffle(ring.items)
        h = {"alg": alg, "enc": enc}
        k = rng.random()
        if k < .4 and m.get("kid"):
            h["kid"] = m["kid"]
        elif k < .55:
            h["kid"] = rng.choice(["k1", "k2", "k9"])
        elif k < .75 and m.get("kid"):
            h["kid"] = gen.kin_text(rng, m["kid"])
        if rng.random() < .15:
            ctx.event("critical")
            h["crit"] = rng.choice([["exp"], [], ["b64"], None])
        if rng.random() < .3:
            e = gen.enc_key(rng, alg, enc, "P-256")
            h["jwk"] = ref.jwk(e, True)
        if rng.random() < .2:
            h[rng.choice(["jku", "x5u"])] = rng.choice(URLS)
        pt = gen.octets(rng, (0, 1, 16, 33))
        t = ref.jwe(h, pt, key, rng)
        want = rng.choice([None, None, alg, rng.choice(ref.ENC_ALGS)])
        made = rng.random() < .5
        kty = {"R": "RSA", "A": "oct", "E": "EC"}[alg[0]]

        def usable(k, mm, kid):
            return k["kty"] == kty and mm.get("alg", alg) == alg and \
                mm.get("use", "enc") == "enc" and \
                not (kid and h.get("kid") and h["kid"] != mm.get("kid", ""))

        def opens(k):
            try:        # (P and -P agree on the same key)
                return k["kty"] == kty and ref.jwe_open(t, k) == pt
            except ref.Bad:
                return False
        strict = any(usable(k, mm, True) and opens(k) for _, k, mm in ring.items)
        loose = any(usable(k, mm, False) and opens(k) for _, k, mm in ring.items)
        blocked = "crit" in h or want not in (None, alg)
        j = jwe_factory(t) if made else JWE()
        kw = {"alg": want} if want else {}
        with audit.Watch() as w, jose.Asked(ring.lib) as asked:
            out = ctx.call("decrypt", j.decrypt, t, as_set(rng, ring.lib), **kw)
        unasked(ctx, asked, [alg, want], header=h, outcome=out)
        ctx.event("watched calls")
        ctx.case("jwe", h, want, made, [(gen.ident(k), mm) for _, k, mm in ring.items])
        d = dict(header=h, want=want, factory=made, outcome=out,
                 keys=[(gen.ident(k), mm) for _, k, mm in ring.items])
        ctx.check(not w.seen, "decryption reached out", mechanism="decrypt reached out",
                  seen=w.seen, **d)
        if blocked or not (strict if made else loose):
            ctx.event("jwe predicted reject")
            ctx.check(not out.ok, "decrypted against the caller's policy",
                      mechanism="decrypt policy", **d)
        elif strict:
            ctx.event("jwe predicted accept")
            ctx.check(out.ok and out.value == pt, "not decrypted although the policy allows "
                      "it", mechanism="decrypt refused", **d)


def g_encrypting(ctx, i):
    """which key is used for making an encrypted token"""
    rng = ctx.rng
    for _ in range(4):
        alg = rng.choice(ref.ENC_ALGS)
        enc = rng.choice(ref.ENCS[:3])
        kty = {"R": "RSA", "A": "oct", "E": "EC"}[alg[0]]
        ring = jose.Ring()
        for _ in range(rng.choice([1, 2, 3])):
            m = {"kid": rng.choice(KIDS), "use": rng.choice(["", "", "enc", "sig"]),
                 "alg": rng.choice(["", "", "", alg, rng.choice(ref.ENC_ALGS)])}
            k = gen.enc_key(rng, alg if rng.random() < .6 else rng.choice(ref.ENC_ALGS), enc,
                            "P-256")
            if k["kty"] == "RSA" and k["n"].bit_length() < 1040:
                k = gen.RSAK[5]
            ring.add(rng, k, True, **dict((a, b) for a, b in m.items() if b))
        kw = {"alg": alg, "enc": enc}
        if rng.random() < .3:
            kw["kid"] = rng.choice(["k1", "k2"])
        elif rng.random() < .2:
            kw["kid"] = gen.kin_text(rng, rng.choice(KIDS)) or "k1"
        good = [(lk, k, m) for lk, k, m in ring.items
                if k["kty"] == kty and m.get("alg", alg) == alg
                and m.get("use", "enc") == "enc"
                and not ("kid" in kw and kw["kid"] != m.get("kid", ""))]
        with jose.Asked(ring.lib) as asked:
            out = ctx.call("encrypt", JWE(b"text", **kw).encrypt, as_set(rng, ring.lib))
        unasked(ctx, asked, [alg], kw=kw, outcome=out)
        ctx.case("encrypt", kw, [(gen.ident(k), m) for _, k, m in ring.items])
        d = dict(kw=kw, keys=[(gen.ident(k), m) for _, k, m in ring.items], outcome=out)
        if not good:
            ctx.check(not out.ok, "encrypted to a key that does not fit",
                      mechanism="encrypt unfit", **d)
            continue
        if not ctx.check(out.ok, "not encrypted although a key fits",
                         mechanism="encrypt refused", **d):
            continue
        ctx.event("encryption key chosen")
        h, octs = gen.parse(out.value)
        ctx.check(h.get("alg") == alg and h.get("enc") == enc, "encrypted in another way",
                  mechanism="encrypt alg", header=h, **d)
        by = []
        for lk, k, m in good:
            try:
                if ref.jwe_open(out.value, k) == b"text":
                    by.append(m)
            except (ref.Bad, ValueError, KeyError):
                pass
        ctx.check(by, "encrypted to a key that does not fit", mechanism="encrypt unfit",
                  header=h, **d)
        ctx.check(not by or any(m.get("kid") == h.get("kid") for m in by),
                  "the key id announced is not the one of the key used",
                  mechanism="encrypt kid", header=h, **d)


GROUPS = [Group("matrix", g_matrix, 240, 9000), Group("none", g_none, 80, 2500),
          Group("embedded", g_embedded, 80, 1500), Group("confusion", g_confusion, 50, 1500),
          Group("signing", g_signing, 90, 2500), Group("json", g_json, 80, 2500),
          Group("crit", g_crit, 12, 300), Group("jwe", g_jwe, 100, 2500),
          Group("encrypting", g_encrypting, 40, 1200)]
GROUPS = boost(GROUPS, 3)
