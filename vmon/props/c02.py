"""C02: signing is complete and interoperable in both directions."""
import json

from vmon import gen, jose, ref
from vmon.core import Abort, Group, boost
from jwkest.jwk import KEYS
from jwkest.jws import JWS, factory

RULE = ("A case is one payload signed here and verified here and by the reference, or one "
        "token made by the reference and verified here; key, key construction, payload "
        "kind and header vary. Non-trivial: distinct (algorithm, key, header, payload).")
MINIMUM = {"signed here": 400, "made by reference": 300, "short coordinate": 20,
           "leading zero octet": 20}
ASSUME = ["the reference signer/verifier is right"]


def sig_len(alg, key):
    if alg.startswith("HS"):
        return int(alg[2:]) // 8
    if alg.startswith("ES"):
        return 2 * ref.CURVES[key["crv"]].size
    return ref.rsa_k(key["n"])


def verify_here(ctx, token, key, header, octs, what, meta):
    """the library must accept with the public part, and give the payload back"""
    rng = ctx.rng
    ring = jose.Ring()
    if rng.random() < .4:
        ring.add(rng, gen.public(gen.sig_key(rng, rng.choice(ref.SIG_ALGS))),
                 kid=rng.choice([None, "zz"]))
    if rng.random() < .3:
        m = dict((k, v) for k, v in meta.items() if k == "kid")
        ring.add(rng, gen.public(gen.sig_key(rng, header["alg"])), **m)
    if rng.random() < .1:
        # keys with almost the same id
        for _ in range(rng.choice([1, 3, 12, 40])):
            k = gen.sig_key(rng, header["alg"])
            kid = gen.kin_text(rng, meta.get("kid", "k1"))
            if k["kty"] == "oct":
                k = {"kty": "oct", "k": rng.randbytes(32)}
            ring.add(rng, gen.public(k), kid=kid)
    lk = ring.add(rng, gen.public(key), **meta)
    if rng.random() < .3:
        ring.items.reverse()
    keys = ring.lib
    if rng.random() < .3:
        ks = KEYS()
        for k in keys:
            ks.append(k)
        keys = ks
    kw = {}
    ctor = {}
    if rng.random() < .3:
        kw["sigalg"] = header["alg"]
    if rng.random() < .2:
        kw["allow_none"] = True
    if rng.random() < .2:
        ctor["alg"] = header["alg"]
    tok = token.encode() if rng.random() < .3 else token
    expected = gen.model_payload(octs, header)
    if rng.random() < .2 and not ctor:
        j = ctx.must("factory", factory, tok)
        ctx.need(j is not None, "factory does not recognise a good token",
                 mechanism="factory", token=token)
    else:
        j = JWS(**ctor)
    if rng.random() < .3:
        v = ctx.must("verify", j.verify_compact, tok, keys, **kw)
        ctx.check(gen.same(v, expected), "verified payload differs",
                  mechanism="payload", what=what, got=v, expected=expected,
                  token=token)
        return
    out = ctx.call("verify", j.verify_compact_verbose, tok, keys, **kw)
    if not ctx.check(out.ok, "a good token is not accepted",
                     mechanism="not accepted", what=what, token=token,
                     key=gen.ident(key), meta=meta, outcome=out, opts=(kw, ctor)):
        return
    jose.judge_accept(ctx, out, token, ring, what)
    ctx.check(gen.same(out.value["msg"], expected), "verified payload differs",
              mechanism="payload", what=what, got=out.value["msg"],
              expected=expected, token=token)


def check_made(ctx, token, alg, key, header, msg, octs, what):
    """a token made by the library, looked at by the reference"""
    ctx.need(isinstance(token, str) and token.count(".") == 2,
             "the token does not have three parts", mechanism="parts", what=what,
             token=token)
    try:
        h, o, inp = jose.signed_parts(token)
        for p in token.split("."):
            ref.b64d(p, strict=True)
            if "=" in p:
                raise ref.Bad("padding")
    except ref.Bad as err:
        ctx.violation("the token is not well-formed", mechanism="form", what=what,
                      token=token, why=err)
        raise Abort()
    for m, v in header.items():
        ctx.check(gen.same(h.get(m), v), "the header does not carry %s" % m,
                  mechanism="header " + m, what=what, header=h, expected=header)
    if octs is None:
        try:
            got = json.loads(o[1].decode("utf-8"))
        except ValueError:
            got = o[1]
        ctx.check(gen.same(got, msg), "the payload transmitted is not the one given",
                  mechanism="transmitted payload", what=what, got=o[1], expected=msg)
    else:
        ctx.check(o[1] == octs, "the payload transmitted is not the one given",
                  mechanism="transmitted payload", what=what, got=o[1],
                  expected=octs)
    ctx.check(len(o[2]) == sig_len(alg, key), "the signature does not have the width of "
              "its algorithm", mechanism="signature width", what=what, got=len(o[2]),
              expected=sig_len(alg, key), token=token)
    ctx.check(ref.verify(h.get("alg"), inp, o[2], gen.public(key)),
              "the reference does not verify the token", mechanism="reference rejects",
              what=what, token=token, key=gen.ident(key))
    return h, o


def sign_here(ctx, alg, key, msg, octs, what, meta, protected=None, typ=None,
              decoys=True, how=None):
    rng = ctx.rng
    lk = gen.lib_key(rng, key, True, how, **meta)
    keys = [lk]
    header = dict(protected or {}, alg=alg)
    if meta.get("kid"):
        header["kid"] = meta["kid"]
    if typ:
        header["typ"] = typ
    ctor = {"alg": alg}
    if typ:
        ctor["typ"] = typ
    if decoys and rng.random() < .4:
        # keys that do not qualify, wherever they stand
        o = rng.choice([a for a in ref.SIG_ALGS if a[0] != alg[0] and
                        {a[0], alg[0]} != {"R", "P"}])
        keys.insert(rng.randrange(2), gen.lib_key(rng, gen.sig_key(rng, o)))
    if decoys and rng.random() < .2:
        keys.insert(0, gen.lib_key(rng, gen.sig_key(rng, alg), True, use="enc"))
    if decoys and rng.random() < .2:
        other = rng.choice([a for a in ref.SIG_ALGS if a != alg])
        keys.insert(0, gen.lib_key(rng, gen.sig_key(rng, alg), True, alg=other))
    if decoys and alg.startswith("ES") and rng.random() < .3:
        c = rng.choice([c for c in gen.CRVS if c != key["crv"]])
        keys.insert(0, gen.lib_key(rng, rng.choice(gen.ECK[c]), True))
    if decoys and meta.get("kid") and rng.random() < .3:
        ctor["kid"] = meta["kid"]
        keys.insert(0, gen.lib_key(rng, gen.sig_key(rng, alg), True, kid="other"))
        for _ in range(rng.choice([0, 1, 3, 20])):
            kin = gen.kin_text(rng, meta["kid"])
            if kin != meta["kid"]:
                keys.insert(0, gen.lib_key(rng, gen.sig_key(rng, alg), True, kid=kin))
    if meta.get("alg") and len(keys) == 1 and rng.random() < .5:
        ctor.pop("alg")
        if ctor:
            ctor["alg"] = alg
    if rng.random() < .3:
        ks = KEYS()
        for k in keys:
            ks.append(k)
        keys = ks
    ctx.case(what, alg, gen.ident(key), header, msg)
    ctx.event("signed here")
    j = JWS(msg, **ctor)
    if protected is None:
        t = ctx.must("sign", j.sign_compact, keys)
    else:
        t = ctx.must("sign", j.sign_compact, keys, protected=dict(protected))
    h, o = check_made(ctx, t, alg, key, header, msg, octs, what)
    verify_here(ctx, t, key, h, o[1], what, meta)
    return t


def random_meta(rng, alg):
    meta = {}
    if rng.random() < .5:
        meta["kid"] = rng.choice(["k1", "\u00e5ngstr\u00f6m", "0", "a" * 80, "-_.", " "])
    if rng.random() < .3:
        meta["use"] = "sig"
    if rng.random() < .3:
        meta["alg"] = alg
    return meta


def g_out(ctx, i):
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    key = gen.sig_key(rng, alg)
    if alg[0] in "RP" and rng.random() < .04:
        key = gen.RSAK[rng.choice([9, 10, 11])]
    msg, octs, kind = gen.payload(rng)
    protected = None
    meta = random_meta(rng, alg)
    if rng.random() < .5:
        protected = rng.choice([
            {}, {"cty": "JWT"}, {"cty": "text/plain"}, {"x": [1, {"y": None}]},
            {"cty": "json", "foo": "b\u00e4r"}, {"typ": "JOSE"}, {"nonce": 2**60},
            {"jku": "https://example.com/jwks"}, {"x5t": "abc"},
            {"alg": rng.choice(ref.SIG_ALGS)}])
        if meta.get("kid") and rng.random() < .3:
            # what is announced is the key that was used
            protected = dict(protected, kid=rng.choice(["stale", "k2", meta["kid"], ""]))
    typ = rng.choice([None, None, "JWT", "JWS"])
    if protected and "typ" in protected:
        typ = None
    sign_here(ctx, alg, key, msg, octs, "out %s %s" % (alg, kind),
              meta, protected, typ)


def g_in(ctx, i):
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    key = gen.sig_key(rng, alg)
    meta = random_meta(rng, alg)
    h = {"alg": alg}
    if meta.get("kid") and rng.random() < .8:
        h["kid"] = meta["kid"]
    if rng.random() < .6:
        extra = rng.choice([
            {"typ": "JWT"}, {"typ": "JWT", "cty": "JWT"}, {"cty": "text/plain"},
            {"cty": "jwt"}, {"x5t": "bm90IGEgdGh1bWJwcmludA"}, {"foo": None},
            {"jku": "https://localhost:1/jwks"}, {"x5u": "https://localhost:1/c"},
            {"jwk": ref.jwk(gen.public(gen.RSAK[1]))}, {"x5c": ["AAAA"]},
            {"\u00e5": "\U0001F600"}, {"exp": 1}, {"b64": True}])
        h.update(extra)
    items = list(h.items())
    rng.shuffle(items)
    h = dict(items)
    hb = rng.choice([ref.jdump(h), json.dumps(h).encode(),
                     json.dumps(h, indent=2).encode(),
                     json.dumps(h, ensure_ascii=False).encode("utf-8"),
                     b"\r\n " + json.dumps(h).encode() + b"\n"])
    p = rng.choice([gen.octets(rng), gen.text(rng).encode(),
                    json.dumps(gen.jsonval(rng)).encode(),
                    json.dumps(gen.claims(rng), indent=1).encode()])
    inp = ref.b64e(hb) + "." + ref.b64e(p)
    t = inp + "." + ref.b64e(ref.sign(alg, inp.encode(), key, rng))
    ctx.event("made by reference")
    ctx.case("in", alg, gen.ident(key), hb, p)
    verify_here(ctx, t, key, h, p, "in " + alg, meta)


def g_short(ctx, i):
    """ECDSA signatures with short r or s, from the reference"""
    rng = ctx.rng
    alg = ("ES256", "ES384", "ES512")[i % 3]
    key = gen.sig_key(rng, alg)
    c = ref.CURVES[key["crv"]]
    lim = 8 * (c.size - 1) - (6 if alg == "ES512" else 0)
    h = {"alg": alg}
    hb = ref.b64e(ref.jdump(h))
    k = rng.randrange(1, c.n)
    r = c.mul(k)[0] % c.n
    kinv = pow(k, -1, c.n)
    done = {}
    for j in range(20000):
        p = b"%d:%d" % (i, j)
        inp = hb + "." + ref.b64e(p)
        e = c.digest_int(ref.HASH[alg[2:]](inp.encode()).digest())
        s = kinv * (e + r * key["d"]) % c.n
        if s and s.bit_length() <= lim:
            done["short s"] = (inp, p, r, s)
            break
    for j in range(1500):
        k += 1
        r = c.mul(k)[0] % c.n
        if r.bit_length() <= lim:
            p = b"short r %d" % i
            inp = hb + "." + ref.b64e(p)
            e = c.digest_int(ref.HASH[alg[2:]](inp.encode()).digest())
            done["short r"] = (inp, p, r, pow(k, -1, c.n) * (e + r * key["d"]) % c.n)
            break
    for name, (inp, p, r, s) in done.items():
        ctx.event("short coordinate")
        ctx.case(name, alg, r, s)
        t = inp + "." + ref.b64e(ref.i2o(r, c.size) + ref.i2o(s, c.size))
        verify_here(ctx, t, key, h, p, "%s %s" % (alg, name), {})


def g_zero(ctx, i):
    """payloads whose (deterministic) signature starts or ends with a zero octet"""
    rng = ctx.rng
    alg = ("HS256", "HS384", "HS512", "RS256", "RS384", "RS512")[i % 6]
    key = gen.sig_key(rng, alg)
    lk = gen.lib_key(rng, key)
    t = ctx.must("sign", JWS("probe", alg=alg).sign_compact, [lk])
    hb = t.split(".")[0]
    for where in (0, -1):
        for j in range(1500):
            p = b"%d/%d" % (i, j)
            s = ref.sign(alg, (hb + "." + ref.b64e(p)).encode(), key, rng)
            if s[where] == 0:
                ctx.event("leading zero octet")
                sign_here(ctx, alg, key, p, p, "%s zero octet at %d" % (alg, where), {},
                          decoys=False)
                h = {"alg": alg}
                break


def g_many(ctx, i):
    """many ECDSA signatures: short coordinates come by chance"""
    rng = ctx.rng
    key = rng.choice(gen.ECK["P-256"])
    for j in range(10):
        msg = "%d-%d" % (i, j)
        sign_here(ctx, "ES256", key, msg, msg.encode(), "many", {}, decoys=False)


def g_keys(ctx, i):
    """every fixture key, every way to make it"""
    rng = ctx.rng
    every = gen.RSAK + sum(gen.ECK.values(), []) + gen.OCT
    key = every[i % len(every)]
    algs = {"oct": ["HS256", "HS384", "HS512"],
            "RSA": ["RS256", "RS384", "RS512", "PS256", "PS384", "PS512"]}.get(
                key["kty"])
    if algs is None:
        algs = [a for a, c in ref.ES_CURVE.items() if c == key["crv"]]
    hows = {"RSA": ["keyrep", "members", "key", "set", "load_key"],
            "EC": ["keyrep", "members", "ints", "set"],
            "oct": ["keyrep", "key", "members", "set"]}[key["kty"]]
    if key["kty"] == "RSA" and key["n"].bit_length() > 2048:
        hows = hows[:1]
        algs = [algs[0], algs[3]]
    for how in hows:
        alg = rng.choice([a for a in algs if a != "PS512" or
                          ref.rsa_k(key["n"]) > 130])
        sign_here(ctx, alg, key, "x", b"x", "key made by " + how, {}, decoys=False,
                  how=how)


def jwk_form(rng, key, private, meta):
    """the ways in which a signing object is told its key"""
    return rng.choice([
        lambda: gen.lib_key(rng, key, private, **meta),
        lambda: ref.jwk(key, private, **meta),
        lambda: json.dumps(ref.jwk(key, private, **meta))])()


def g_own(ctx, i):
    """the key belongs to the signing object; no key set is handed over"""
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    key, other = gen.sig_key(rng, alg), gen.sig_key(rng, alg)
    msg, octs, kind = gen.payload(rng)
    meta = random_meta(rng, alg)
    what = "own key " + kind
    header = {"alg": alg}
    if meta.get("kid"):
        header["kid"] = meta["kid"]
    ctx.case(what, alg, gen.ident(key), meta, msg)
    ctx.event("signed here")
    form = jwk_form(rng, key, True, meta)
    j = ctx.must("make", JWS, msg, alg=alg, jwk=form)
    h = ctx.must("headers", j.headers)
    ctx.check(set(h) <= {"alg", "jwk", "kid"} and isinstance(h.get("jwk"), dict) and
              gen.same(h["jwk"], ref.jwk(key, key["kty"] == "oct", **meta)),
              "the header does not name the key of the object", mechanism="header jwk",
              got=h, key=gen.ident(key), meta=meta) if key["kty"] != "oct" else None
    t = ctx.must("sign", j.sign_compact)
    h, o = check_made(ctx, t, alg, key, header, msg, octs, what)
    verify_here(ctx, t, key, h, o[1], what, meta)
    v = ctx.must("make", JWS, alg=alg, jwk=jwk_form(rng, gen.public(key), key["kty"] == "oct",
                                                    meta))
    r = ctx.call("verify", v.verify_compact, t)
    ctx.check(r.ok and gen.same(r.value, gen.model_payload(o[1], h)),
              "the object does not verify with its own key", mechanism="own key", token=t,
              outcome=r)
    if gen.public(other) != gen.public(key):
        r = ctx.call("verify", v.verify_compact, t, [gen.lib_key(
            rng, gen.public(other), other["kty"] == "oct", **meta)])
        ctx.check(not r.ok, "accepted although no key that was handed over fits",
                  mechanism="own key used", token=t, outcome=r)
        v = ctx.must("make", JWS, alg=alg, jwk=jwk_form(
            rng, gen.public(other), key["kty"] == "oct", meta))
        r = ctx.call("verify", v.verify_compact, t)
        ctx.check(not r.ok, "accepted with another key", mechanism="other key", token=t,
                  outcome=r)


def g_large(ctx, i):
    """long payloads and headers, both ways"""
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    key = gen.sig_key(rng, alg)
    long = {"x": gen.big_text(rng)} if rng.random() < .4 else {}
    if rng.random() < .5:
        msg = gen.big_octets(rng, 300000)
        p = msg
    else:
        msg = gen.big_text(rng, 300000)
        p = msg.encode("utf-8")
    sign_here(ctx, alg, key, msg, p, "long", {}, long or None)
    h = dict({"alg": alg}, **long)
    inp = ref.b64e(ref.jdump(h)) + "." + ref.b64e(p)
    t = inp + "." + ref.b64e(ref.sign(alg, inp.encode(), key, rng))
    ctx.event("made by reference")
    ctx.case("long in", alg, gen.ident(key), t)
    verify_here(ctx, t, key, h, p, "long in " + alg, {})
    if alg[0] == "H":       # as long as anybody likes
        key = {"kty": "oct", "k": gen.big_octets(rng)}
        sign_here(ctx, alg, key, msg, p, "long key", {})


def g_again(ctx, i):
    """one object verifies several good tokens; what it saw before does not matter"""
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    j = rng.choice([JWS, lambda: JWS(alg=alg)])()
    ring, made = jose.Ring(), []
    for n in range(4):
        key = gen.sig_key(rng, alg)
        if key["kty"] == "oct":
            key = {"kty": "oct", "k": rng.randbytes(48)}
        kid = rng.choice(["", "k%d" % n])
        h = dict({"alg": alg}, **({"kid": kid} if kid else {}))
        h.update(rng.choice([{}, {"typ": "JWT"}, {"cty": "text/plain"}, {"x": n}]))
        ring.add(rng, gen.public(key), **({"kid": kid} if kid else {}))
        octs = rng.choice([b"%d" % n, gen.octets(rng), json.dumps(gen.claims(rng)).encode()])
        made.append((ref.jws(h, octs, key, rng), h, octs))
    order = [rng.choice(made) for _ in range(7)]
    for n, (t, h, octs) in enumerate(order):
        ctx.event("made by reference")
        ctx.case("again", alg, t, [x[1] for x in order[:n]])
        if rng.random() < .2:       # something else, in vain, in between
            ctx.call("in vain", j.verify_compact, t[:-2], ring.lib)
        out = ctx.call("verify", j.verify_compact_verbose, t, ring.lib)
        if ctx.check(out.ok, "a good token is not accepted by an object that was used before",
                     mechanism="again", token=t, outcome=out, before=order[:n]):
            jose.judge_accept(ctx, out, t, ring, "again")
    # one object signs with one key after another
    msg = gen.octets(rng)
    j = JWS(msg, alg=alg)
    for n in range(4):
        key = gen.sig_key(rng, alg)
        kid = rng.choice(["", "s%d" % n, "s0"])
        meta = {"kid": kid} if kid else {}
        pro = rng.choice([None, {}, {"cty": "text/plain"}, {"x": n}])
        lk = gen.lib_key(rng, key, True, **meta)
        ctx.case("sign again", alg, gen.ident(key), meta, pro)
        ctx.event("signed here")
        t = ctx.must("sign again", j.sign_compact, [lk], *([pro] if pro is not None else []))
        h = dict(pro or {}, alg=alg, **meta)
        got, o = check_made(ctx, t, alg, key, h, msg, msg, "again")
        ctx.check(gen.same(got, h), "the header holds what was not asked for",
                  mechanism="header again", header=got, expected=h)
        verify_here(ctx, t, key, got, o[1], "again", meta)


GROUPS = [
    Group("again", g_again, 12 * 4, 12 * 150),
    Group("large", g_large, 12 * 2, 12 * 50),
    Group("own", g_own, 12 * 8, 12 * 150),
    Group("out", g_out, 12 * 30, 12 * 700),
    Group("in", g_in, 12 * 26, 12 * 600),
    Group("short", g_short, 24, 300),
    Group("zero", g_zero, 24, 300),
    Group("many", g_many, 30, 900),
    Group("keys", g_keys, 87, 87 * 12),
]
GROUPS = boost(GROUPS, 2)
