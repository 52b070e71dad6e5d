"""C10: key agreement is correct and rejects hostile public keys."""
import hashlib
import json

from vmon import gen, ref
from vmon.core import Group, boost
from jwkest.ecc import NISTEllipticCurve, P256, P384, P521
from jwkest.extra import concat_sha256, ecdh_derive_key
from jwkest.jwe import JWE, JWE_EC, JWEnc
from jwkest.jwk import ECKey, keyrep

RULE = ("A case is one key agreement (curve, scalars, party info, algorithm, length) done by "
        "both sides and by the reference, one token whose ephemeral key is hostile, or one "
        "derivation. Hostile tokens are built so that an implementation that used the hostile "
        "key would decrypt them: the reference computes the agreed key on the wrong curve with "
        "the recipient's scalar. Non-trivial: distinct inputs.")
MINIMUM = {"agreements": 600, "derivations": 400, "hostile tokens": 700, "hostile points": 500,
           "leading zero secret": 8, "control tokens": 100, "off the curve": 180,
           "other curve": 60, "party info varied": 450,
           "other derivation": 400}
ASSUME = ["an ephemeral key written with superfluous or missing leading zero octets may be "
          "refused or taken as the same point",
          "P and -P lead to the same secret: only the x coordinate is used by the standard"]
CURVES = {"P-256": P256, "P-384": P384, "P-521": P521}
ALGS = ["ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]
INFO = [b"", b"\0", b"Alice", b"Bob", b"\xff" * 5, b"A" * 16, b"x" * 255, b"y" * 300]


def info(rng):
    return rng.choice(INFO) if rng.random() < .7 else rng.randbytes(rng.randrange(1, 70))


def scalar(rng, c):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([1, 2, 3, c.n - 1, c.n - 2])
    if k == 1:
        return 1 << rng.randrange(c.n.bit_length() - 1)
    if k == 2:
        return (1 << rng.randrange(2, c.n.bit_length() - 1)) - 1
    return rng.randrange(1, c.n)


def kdf(z, alg, apu, apv, bits):
    return ref.concat_kdf(z, alg, apu, apv, bits)


def kdf_as(z, alg, apu, apv, bits, said):
    """with another length in what is hashed"""
    tail = b"".join(ref.i2o(len(x), 4) + x for x in (alg.encode(), apu, apv)) + ref.i2o(said, 4)
    return b"".join(hashlib.sha256(ref.i2o(n, 4) + z + tail).digest()
                    for n in (1, 2))[:bits // 8]


def g_derive(ctx, i):
    rng = ctx.rng
    crv = gen.CRVS[i % 3] if rng.random() < .5 else "P-256"
    c, lc = ref.CURVES[crv], CURVES[crv]
    if rng.random() < .3:
        lc = NISTEllipticCurve.by_name(crv)
    a = scalar(rng, c)
    if rng.random() < .25:
        # look for a shared secret with leading zeros
        pa = c.mul(a)
        for _ in range(400):
            b = rng.randrange(1, c.n)
            if c.mul(b, pa)[0] >> (8 * (c.size - 1)) == 0:
                break
    else:
        b = scalar(rng, c)
    pa, pb = c.mul(a), c.mul(b)
    z = ref.i2o(c.mul(a, pb)[0], c.size)
    if not z[0] and crv != "P-521" or not z[0] and not z[1]:
        ctx.event("leading zero secret")
    for d, p in ((a, pb), (b, pa)):
        got = ctx.must("dh_z", lc.dh_z, d, p)
        ctx.check(got == z, "the shared secret is not the standard's", mechanism="dh_z",
                  crv=crv, d=d, p=p, got=got, expected=z.hex())
    for _ in range(4):
        apu, apv = info(rng), info(rng)
        alg = rng.choice(ALGS[1:] + ref.ENCS)
        bits = rng.choice([128, 192, 256, 384, 512])
        ctx.case(crv, a, b, apu, apv, alg, bits)
        want = kdf(z, alg, apu, apv, bits)
        r1 = ctx.must("ecdh_derive_key", ecdh_derive_key, lc, a, pb, apu, apv, alg.encode(),
                      bits)
        r2 = ctx.must("ecdh_derive_key", ecdh_derive_key, lc, b, pa, apu, apv, alg.encode(),
                      bits)
        ctx.event("agreements")
        ctx.check(r1 == r2, "the two sides derive different keys", mechanism="sides", crv=crv,
                  a=a, b=b)
        ctx.check(r1 == want, "the derived key is not the one RFC 7518 prescribes",
                  mechanism="derived", crv=crv, apu=apu, apv=apv, alg=alg, bits=bits, got=r1,
                  expected=want.hex())


def g_concat(ctx, i):
    """the derivation function alone, and its dependence on every input"""
    rng = ctx.rng
    crv = "P-256"
    c = ref.CURVES[crv]
    d, p = rng.randrange(1, c.n), c.mul(rng.randrange(1, c.n))
    for _ in range(6):
        z = rng.randbytes(rng.choice([1, 32, 48, 66]))
        other = rng.randbytes(rng.randrange(60))
        bits = rng.choice([8, 16, 120, 128, 192, 248, 256, 264, 384, 512, 520, 768, 1024])
        out = b"".join(ref.HASH["256"](ref.i2o(n, 4) + z + other).digest()
                       for n in range(1, bits // 256 + 2))[:bits // 8]
        ctx.case("concat", z, other, bits)
        got = ctx.must("concat_sha256", concat_sha256, z, bits, other)
        ctx.event("derivations")
        ctx.check(got == out, "Concat KDF", mechanism="concat", bits=bits, got=got,
                  expected=out.hex())
    base = dict(apu=info(rng), apv=info(rng), alg=rng.choice(ref.ENCS).encode(), bits=256)
    first = ctx.must("ecdh_derive_key", ecdh_derive_key, P256, d, p, base["apu"], base["apv"],
                     base["alg"], base["bits"])
    seen = {first: base}
    for m in ("apu", "apv", "alg", "bits", "shift"):
        v = dict(base)
        if m == "bits":
            v[m] = 512
        elif m == "alg":
            v[m] = rng.choice([e.encode() for e in ref.ENCS + ALGS if e.encode() != v[m]])
        elif m == "shift":      # an octet moved from one party to the other
            if not v["apu"]:
                continue
            v["apu"], v["apv"] = v["apu"][:-1], v["apu"][-1:] + v["apv"]
        else:
            v[m] = rng.choice([v[m] + b"\0", v[m] + b"a", b"\0" + v[m]])
        got = ctx.must("ecdh_derive_key", ecdh_derive_key, P256, d, p, v["apu"], v["apv"],
                       v["alg"], v["bits"])[:32]
        ctx.event("party info varied")
        ctx.check(got not in seen, "two different agreements derive the same key",
                  mechanism="separation", one=seen.get(got), other=v)
        seen[got] = v


# -- hostile ephemeral keys ------------------------------------------------------------

def wmul(p, a, k, pt):
    """k * pt on y^2 = x^3 + a x + (whatever b pt is on), affine; None for infinity"""
    def add(P, Q):
        if P is None:
            return Q
        if Q is None:
            return P
        if P[0] == Q[0]:
            if (P[1] + Q[1]) % p == 0:
                return None
            m = (3 * P[0] * P[0] + a) * pow(2 * P[1], -1, p) % p
        else:
            m = (Q[1] - P[1]) * pow(Q[0] - P[0], -1, p) % p
        x = (m * m - P[0] - Q[0]) % p
        return x, (m * (P[0] - x) - P[1]) % p
    r = None
    for bit in bin(k)[2:]:
        r = add(r, r)
        if bit == "1":
            r = add(r, pt)
    return r


def point_jwk(crv, x, y, size=None):
    c = ref.CURVES[crv]

    def enc(v):
        return ref.b64e(ref.i2o(v, max(c.size, (v.bit_length() + 7) // 8)))
    return {"kty": "EC", "crv": crv, "x": enc(x), "y": enc(y)}


def hostile(ctx, rng, key):
    """-> name, epk, list of shared secrets that a careless implementation would get"""
    crv = key["crv"]
    c = ref.CURVES[crv]
    d = key["d"]
    q = c.mul(rng.randrange(2, c.n))
    good = point_jwk(crv, *q)
    z = lambda pt: [] if pt is None else [ref.i2o(pt[0], c.size)]
    k = rng.randrange(14)
    if k < 3:
        # a point of another curve with the same field and a
        for _ in range(50):
            x, y = rng.randrange(c.p), rng.randrange(c.p)
            if k == 1:
                x, y = q[0], (q[1] + rng.choice([1, 2, -1])) % c.p
            if k == 2:
                x, y = (q[0] + 1) % c.p, q[1]
            if not c.on((x, y)):
                break
        ctx.event("off the curve")
        return "off the curve", point_jwk(crv, x, y), z(wmul(c.p, c.a, d, (x, y)))
    if k == 3:
        # a point of order two
        x = rng.randrange(1, c.p)
        ctx.event("off the curve")
        return "order two", point_jwk(crv, x, 0), z(wmul(c.p, c.a, d, (x, 0))) + [bytes(c.size)]
    if k == 4:
        # a point of small order three on some curve with this a: 3x^4+6ax^2+12bx-a^2=0
        x = rng.randrange(1, c.p)
        b = (c.a * c.a - 3 * x**4 - 6 * c.a * x * x) * pow(12 * x, -1, c.p) % c.p
        y = c.sqrt(x**3 + c.a * x + b)
        if y is None or not y:
            return hostile(ctx, rng, key)
        ctx.event("off the curve")
        return "order three", point_jwk(crv, x, y), \
            [ref.i2o(x, c.size), bytes(c.size)] + z(wmul(c.p, c.a, d, (x, y)))
    if k == 5:
        ctx.event("off the curve")
        return "zero point", point_jwk(crv, 0, 0), [bytes(c.size)]
    if k == 6:
        # coordinates beyond the field
        m = rng.choice(["x", "y", "both"])
        if rng.random() < .5:
            q = gen.small_x(rng, c)
            ctx.event("fits the width")
            return "out of range", point_jwk(crv, q[0] + c.p, q[1]), z(c.mul(d, q))
        x = q[0] + c.p * rng.choice([1, 2]) if m != "y" else q[0]
        y = q[1] + c.p * rng.choice([1, 2]) if m != "x" else q[1]
        return "out of range", point_jwk(crv, x, y), z(c.mul(d, q))
    if k in (7, 8):
        # another curve: with its own arithmetic, or as if on the recipient's
        o = rng.choice([x for x in gen.CRVS if x != crv])
        oc = ref.CURVES[o]
        pt = oc.mul(rng.randrange(2, oc.n))
        ctx.event("other curve")
        zs = []
        r = oc.mul(d, pt)
        if r:
            zs += [ref.i2o(r[0], oc.size), ref.i2o(r[0])]
            if r[0].bit_length() <= 8 * c.size:
                zs.append(ref.i2o(r[0], c.size))
        if k == 8 and pt[0] < c.p and pt[1] < c.p:
            r = wmul(c.p, c.a, d, (pt[0] % c.p, pt[1] % c.p))
            if r:
                zs.append(ref.i2o(r[0], c.size))
        return "other curve", point_jwk(o, *pt), zs
    zs = z(c.mul(d, q))
    if k == 9:
        e = dict(good)
        e.pop(rng.choice(["crv", "x", "y", "kty"]))
        return "missing member", e, zs + [bytes(c.size)]
    if k == 10:
        e = dict(good)
        m = rng.choice(["x", "y", "crv"])
        e[m] = rng.choice([None, "", [], {}, True, 1.5, "!", e[m] + "!", [e[m]], e[m] + "\n",
                           "AA", 0])
        return "malformed member", e, zs + [bytes(c.size)]
    if k == 11:
        e = dict(good)
        e["kty"] = rng.choice(["RSA", "oct", "OKP", "", None, 5])
        return "type", e, zs
    if k == 12:
        e = dict(good)
        e["crv"] = rng.choice(["P-192", "secp256k1", "p-256", "P256", "Ed25519", "X25519",
                               " " + crv, crv + " "])
        return "unknown curve", e, zs
    return "no key", rng.choice([None, [], {}, "", "x", 5, True, [good], json.dumps(good),
                                 "absent"]), zs + [bytes(c.size), b""]


def build(rng, alg, enc, epk, z, plain):
    """a token whose agreed key comes from z"""
    h = {"alg": alg, "enc": enc}
    if epk != "absent":
        h["epk"] = epk
    apu, apv = info(rng), info(rng)
    if rng.random() < .8:
        h["apu"], h["apv"] = ref.b64e(apu), ref.b64e(apv)
    else:
        apu = apv = b""
    if alg == "ECDH-ES":
        cek, ek = kdf(z, enc, apu, apv, 8 * ref.CEK_LEN[enc]), b""
    else:
        cek = rng.randbytes(ref.CEK_LEN[enc])
        ek = ref.kw_wrap(kdf(z, alg, apu, apv, int(alg[-5:-2])), cek)
    iv = rng.randbytes(ref.IV_LEN[enc])
    hb = ref.b64e(ref.jdump(h))
    ct, tag = ref.content_encrypt(enc, cek, iv, hb.encode(), plain)
    return ".".join([hb, ref.b64e(ek), ref.b64e(iv), ref.b64e(ct), ref.b64e(tag)])


def g_hostile(ctx, i):
    rng = ctx.rng
    key = rng.choice(gen.ECK[rng.choice(["P-256", "P-256", "P-384", "P-521"])])
    crv = key["crv"]
    c = ref.CURVES[crv]
    lk = gen.lib_key(rng, key, True)
    plain = b"attack " + rng.randbytes(8)

    def control(e):
        """the same with a proper ephemeral key"""
        q = c.mul(e)
        alg, enc = rng.choice(ALGS), rng.choice(ref.ENCS[:3])
        tok = build(rng, alg, enc, point_jwk(crv, *q),
                    ref.i2o(c.mul(e, (key["x"], key["y"]))[0], c.size), plain)
        got = ctx.must("decrypt control", JWE().decrypt, tok, [lk])
        ctx.check(got == plain, "a proper token does not decrypt", mechanism="control", got=got)
        ctx.event("control tokens")
        return q
    q = control(rng.randrange(1, c.n)) if rng.random() < .4 else None
    for _ in range(4):
        name, epk, zs = hostile(ctx, rng, key)
        if q and rng.random() < .5:
            # half of a point that was all right just before
            off = rng.choice([(q[0], q[1] ^ 1), (q[0] ^ 1, q[1]), (q[0], rng.randrange(c.p))])
            if not c.on(off):
                name, epk = "half of the last", point_jwk(crv, *off)
                r = wmul(c.p, c.a, key["d"], off)
                zs = [ref.i2o(c.mul(key["d"], q)[0], c.size),
                      ref.i2o(r[0], c.size) if r else bytes(c.size)]
        for z in (zs or [bytes(c.size)])[:3]:
            alg = rng.choice(ALGS)
            enc = rng.choice(ref.ENCS[:3]) if rng.random() < .9 else rng.choice(ref.ENCS[3:])
            tok = build(rng, alg, enc, epk, z, plain)
            ctx.case(name, tok)
            ctx.event("hostile tokens")
            out = ctx.call("decrypt hostile", JWE().decrypt, tok, [lk])
            ctx.check(not out.ok, "a token with a hostile ephemeral key was decrypted",
                      mechanism="hostile " + name, what=name, epk=epk, token=tok,
                      key=gen.ident(key), got=out.value)
            if rng.random() < .5:
                dec = JWE_EC()
                out = ctx.call("dec_setup hostile", dec.dec_setup, JWEnc().unpack(tok), lk)
                ctx.check(not out.ok, "a hostile ephemeral key led to a content key",
                          mechanism="hostile setup " + name, what=name, epk=epk,
                          key=gen.ident(key), got=out.value)
                ctx.check(not out.ok and not (isinstance(getattr(dec, "cek", None), bytes) and
                                              getattr(dec, "cek", None)),
                          "a hostile ephemeral key influenced the content key",
                          mechanism="hostile influence", what=name)
    control(rng.randrange(1, c.n))


def g_point(ctx, i):
    """the arithmetic's own doors"""
    rng = ctx.rng
    crv = rng.choice(gen.CRVS)
    c, lc = ref.CURVES[crv], CURVES[crv]
    d = scalar(rng, c)
    q = c.mul(rng.randrange(2, c.n))
    s = gen.small_x(rng, c)
    if rng.random() < .5:       # a proper one first, of which the hostile ones are variants
        got = ctx.must("dh_z", lc.dh_z, d, q)
        ctx.check(got == ref.i2o(c.mul(d, q)[0], c.size), "the shared secret is not the "
                  "standard's", mechanism="dh_z", crv=crv, d=d, p=q, got=got)
    for _ in range(6):
        k = rng.randrange(10)
        pt = [(q[0], (q[1] + 1) % c.p), (0, 0), (q[0] + c.p, q[1]), (q[0], q[1] + c.p),
              (q[0], q[1] - c.p), (rng.randrange(c.p), rng.randrange(c.p)),
              (c.p, q[1]), (s[0] + c.p, s[1]), (s[0] - c.p, s[1]), (s[0], s[1] - c.p)][k]
        if c.on(pt):
            continue
        ctx.case("point", crv, d, pt)
        ctx.event("hostile points")
        out = ctx.call("dh_z hostile", lc.dh_z, d, pt)
        ctx.check(not out.ok, "a shared secret was computed with a hostile point",
                  mechanism="dh_z hostile", crv=crv, pt=pt, got=out.value)
        out = ctx.call("derive hostile", ecdh_derive_key, lc, d, pt, b"", b"", b"A128GCM", 128)
        ctx.check(not out.ok, "a key was derived from a hostile point",
                  mechanism="derive hostile", crv=crv, pt=pt)
        # as a recipient's public key
        if k in (0, 2, 5, 7):
            jwk = point_jwk(crv, *pt)
            out = ctx.call("recipient hostile", lambda: JWE(
                b"x", alg=rng.choice(ALGS), enc="A128CBC-HS256").encrypt([keyrep(jwk)]))
            ctx.check(not out.ok, "something was encrypted to a hostile public key",
                      mechanism="recipient hostile", jwk=jwk)


def g_token(ctx, i):
    """agreement through whole tokens, both directions, with a known ephemeral key"""
    rng = ctx.rng
    alg = ALGS[i % 4]
    enc = ref.ENCS[(i // 4) % 3] if rng.random() < .85 else rng.choice(ref.ENCS[3:])
    crv = rng.choice(gen.CRVS)
    c = ref.CURVES[crv]
    key = rng.choice(gen.ECK[crv])
    eph = rng.choice(gen.ECK[crv])
    lk = gen.lib_key(rng, key, rng.random() < .5)
    le = gen.lib_key(rng, eph, True)
    apu, apv = info(rng), info(rng)
    # what one side sets up
    setup = ctx.must("enc_setup", lambda: JWE_EC(b"m", alg=alg, enc=enc).enc_setup(
        b"m", b"", key=lk, epk=le, apu=ref.b64e(apu), apv=ref.b64e(apv)))
    cek, ek, iv, params = setup[:4]
    ctx.case(alg, enc, crv, gen.ident(key), gen.ident(eph), apu, apv)
    want = ref.ecdh_key(crv, eph["d"], (key["x"], key["y"]), alg, enc, apu, apv)
    back = ref.ecdh_key(crv, key["d"], (eph["x"], eph["y"]), alg, enc, apu, apv)
    ctx.check(want == back, "reference disagrees with itself")
    ctx.event("agreements")
    if alg == "ECDH-ES":
        ctx.check(cek == want and not ek, "the agreed content key is not the standard's",
                  mechanism="agreed", got=cek, expected=want.hex(), alg=alg, enc=enc)
    else:
        try:
            ok = ref.kw_unwrap(want, ek) == cek
        except ref.Bad:
            ok = False
        ctx.check(ok, "the content key is not wrapped with the agreed key",
                  mechanism="agreed", alg=alg, enc=enc)
    ctx.check(params.get("epk") is not None and
              gen.same(dict((k, v.decode() if isinstance(v, bytes) else v)
                            for k, v in params["epk"].items()
                            if k in ("kty", "crv", "x", "y")),
                       point_jwk(crv, eph["x"], eph["y"])),
              "the ephemeral key announced is not the one used", mechanism="announced",
              params=params)
    # and the other side
    plain = gen.octets(rng)
    h = {"alg": alg, "enc": enc, "apu": ref.b64e(apu), "apv": ref.b64e(apv)}
    for m in ("apu", "apv"):
        if rng.random() < .3:
            h.pop(m)
    tok = ref.jwe(h, plain, key, rng, eph=scalar(rng, c))
    lr = gen.lib_key(rng, key, True)
    got = ctx.must("decrypt", JWE().decrypt, tok, [lr])
    ctx.check(got == plain, "a token of the reference does not decrypt", mechanism="decrypt",
              header=h, got=got)
    # keys made of the same secret, but in another way than the standard's
    z = ref.i2o(c.mul(key["d"], (eph["x"], eph["y"]))[0], c.size)
    bits = 8 * ref.CEK_LEN[enc] if alg == "ECDH-ES" else int(alg[-5:-2])
    name = enc if alg == "ECDH-ES" else alg
    size = bits // 8
    h = {"alg": alg, "enc": enc, "apu": ref.b64e(apu), "apv": ref.b64e(apv),
         "epk": point_jwk(crv, eph["x"], eph["y"])}
    right = kdf(z, name, apu, apv, bits)
    x = eph["x"], eph["y"]
    y = ref.i2o(c.mul(key["d"], x)[1], c.size)
    ways = [("other name", kdf(z, n, apu, apv, bits)) for n in
            (enc, alg, alg.split("+")[-1], "ECDH-ES", "", "A128KW", "dir") if n != name]
    ways += [("party info swapped", kdf(z, name, apv, apu, bits)),
             ("party info encoded", kdf(z, name, ref.b64e(apu).encode(),
                                        ref.b64e(apv).encode(), bits)),
             ("no party info", kdf(z, name, b"", b"", bits)),
             ("length in octets", kdf_as(z, name, apu, apv, bits, size)),
             ("other length", kdf(z, name, apu, apv, 512)[:size]),
             ("the secret itself", z[:size].ljust(size, b"\0")),
             ("the end of the secret", z[-size:].rjust(size, b"\0")),
             ("digest of the secret", hashlib.sha512(z).digest()[:size]),
             ("y coordinate", kdf(y, name, apu, apv, bits)),
             ("both coordinates", kdf(z + y, name, apu, apv, bits)),
             ("without leading zeros", kdf(z.lstrip(b"\0"), name, apu, apv, bits)),
             ("a zero octet more", kdf(b"\0" + z, name, apu, apv, bits))]
    for what, k in rng.sample(ways, 4):
        if k == right or len(k) != size:
            continue
        cek, ek = (k, b"") if alg == "ECDH-ES" else (rng.randbytes(ref.CEK_LEN[enc]), None)
        if ek is None:
            ek = ref.kw_wrap(k, cek)
        hb = ref.b64e(ref.jdump(h))
        iv = rng.randbytes(ref.IV_LEN[enc])
        ct, tag = ref.content_encrypt(enc, cek, iv, hb.encode(), plain)
        t2 = ".".join([hb, ref.b64e(ek), ref.b64e(iv), ref.b64e(ct), ref.b64e(tag)])
        ctx.case("other derivation", what, t2)
        ctx.event("other derivation")
        out = ctx.call("decrypt other derivation", JWE().decrypt, t2, [lr])
        ctx.check(not out.ok, "a key derived in another way is accepted",
                  mechanism="other derivation", what=what, header=h)
    # party info that is not what was agreed on
    p = tok.split(".")
    head = json.loads(ref.b64d(p[0]))
    for m in ("apu", "apv"):
        h2 = dict(head)
        h2[m] = ref.b64e(ref.b64d(h2.get(m, "")) + b"x")
        # keep the tag right for the old content key: only the agreement may notice
        inf = {}
        ref.jwe_open(tok, key, info=inf)
        hb = ref.b64e(ref.jdump(h2))
        ct, tag = ref.content_encrypt(enc, inf["cek"], inf["iv"], hb.encode(), plain)
        t2 = ".".join([hb, p[1], p[2], ref.b64e(ct), ref.b64e(tag)])
        out = ctx.call("decrypt other party", JWE().decrypt, t2, [lr])
        ctx.event("party info varied")
        ctx.check(not out.ok, "party info does not take part in the agreement",
                  mechanism="party info ignored", member=m, header=h2)


def g_vector(ctx, i):
    """RFC 7518, appendix C"""
    alice = {"kty": "EC", "crv": "P-256",
             "x": "gI0GAILBdu7T53akrFmMyGcsF3n5dO7MmwNBHKW5SV0",
             "y": "SLW_xSffzlPWrHEVI30DHM_4egVwt3NQqeUD7nMFpps",
             "d": "0_NxaRPUMQoAJt50Gz8YiTr8gRTwyEaCumd-MToTmIo"}
    bob = {"kty": "EC", "crv": "P-256",
           "x": "weNJy2HscCSM6AEDTDg04biOvhFhyyWvOHQfeF_PxMQ",
           "y": "e8lnCO-AlStT-NJVX-crhB7QRYhiix03illJOVAOyck",
           "d": "VEmDZpDXXK8p8N0Cndsxs924q6nS1RXFASRl6BfUqdw"}
    a, b = keyrep(alice), keyrep(bob)
    ctx.case("rfc7518 C")
    for x, y in ((a, b), (b, a)):
        got = ctx.must("ecdh_derive_key", ecdh_derive_key, x.curve, x.d, (y.x, y.y), b"Alice",
                       b"Bob", b"A128GCM", 128)
        ctx.check(ref.b64e(got) == "VqqN6vgjbSBcIijNcacQGg", "the RFC's example",
                  mechanism="vector", got=got)


GROUPS = [Group("derive", g_derive, 250, 4000), Group("concat", g_concat, 100, 3000),
          Group("hostile", g_hostile, 220, 4000), Group("point", g_point, 130, 3000),
          Group("token", g_token, 120, 3000), Group("vector", g_vector, 1, 1)]
GROUPS = boost(GROUPS, 4)
