"""C08: key-set decryption finds the right key and fails uniformly."""
import itertools
import json

from vmon import gen, jose, ref
from vmon.core import Group, boost
from jwkest.jwe import JWE, factory
from jwkest.jwk import KEYS

RULE = ("A case is one token decrypted with one ordered key set, or one corruption of a token "
        "whose error is compared with those of the other corruptions. Non-trivial: distinct "
        "(token, ordered keys) or distinct corrupted text.")
MINIMUM = {"right key in the set": 400, "right key not first": 250, "no right key": 100,
           "errors compared": 2000, "rsa blocks": 200, "permutations": 150}
ASSUME = ["a key that declares another use or algorithm is not a key of the set for this "
          "token, nor one with another kid than the token's when the token was given to "
          "factory() first", "timing is not observed"]


def some_key(rng, alg, enc, private=True):
    """a decoy: same type mostly"""
    k = rng.random()
    if k < .75:
        a = alg
    else:
        a = rng.choice(ref.ENC_ALGS)
    key = gen.enc_key(rng, a, "A128GCM" if rng.random() < .3 else enc)
    if key["kty"] == "RSA" and rng.random() < .3:
        key = rng.choice(gen.RSAK[:8])
    return key


def keyset(rng, lib):
    k = rng.random()
    if k < .3:
        ks = KEYS()
        for x in lib:
            ks.append(x)
        return ks
    return tuple(lib) if k < .4 else list(lib)


def opens(t, h, key, meta, private, by_kid):
    kty = {"R": "RSA", "A": "oct", "E": "EC"}[h["alg"][0]]
    if key["kty"] != kty or not private:
        return False
    if meta.get("alg", h["alg"]) != h["alg"] or meta.get("use", "enc") != "enc":
        return False
    if by_kid and h.get("kid") and meta.get("kid", "") != h["kid"]:
        return False
    try:
        ref.jwe_open(t, key)
        return True
    except (ref.Bad, KeyError, ValueError):
        return False


def run(ctx, t, h, entries, pt):
    """entries: (library key, reference key, meta, private)"""
    rng = ctx.rng
    by_kid = rng.random() < .4
    keys = keyset(rng, [e[0] for e in entries])
    if by_kid:
        out = ctx.call("decrypt", lambda: factory(t).decrypt(keys=keys))
    else:
        out = ctx.call("decrypt", JWE().decrypt, t, keys)
    ctx.case("set", t, [(gen.ident(e[1]), e[2], e[3]) for e in entries], by_kid)
    # without factory() the kid may or may not be heeded
    strict = [opens(t, h, k, m, p, True) for _, k, m, p in entries]
    loose = [opens(t, h, k, m, p, False) for _, k, m, p in entries]
    d = dict(header=h, outcome=out, by_kid=by_kid,
             keys=[(gen.ident(k), m, "private" if p else "public") for _, k, m, p in entries])
    if any(strict):
        ctx.event("right key in the set")
        if not strict[0]:
            ctx.event("right key not first")
        ctx.check(out.ok and out.value == pt, "not decrypted although a key of the set fits",
                  mechanism="not found", position=strict.index(True), expected=pt, **d)
    elif not any(loose):
        ctx.event("no right key")
        ctx.check(not out.ok, "decrypted although no key of the set fits",
                  mechanism="found", **d)
    elif out.ok:
        ctx.check(not by_kid and out.value == pt, "decrypted although no key of the set fits",
                  mechanism="found", **d)


def entry(rng, key, private, **meta):
    meta = dict((k, v) for k, v in meta.items() if v)
    private = private or key["kty"] == "oct"
    return gen.lib_key(rng, key if private else gen.public(key), private, **meta), key, \
        meta, private


def g_sets(ctx, i):
    rng = ctx.rng
    alg = ref.ENC_ALGS[i % 10]
    enc = rng.choice(ref.ENCS[:3]) if rng.random() < .9 else rng.choice(ref.ENCS[3:])
    key = gen.enc_key(rng, alg, enc)
    h = {"alg": alg, "enc": enc}
    kid = rng.choice([None, None, "k1"])
    if kid and rng.random() < .6:
        h["kid"] = kid
    pt = rng.randbytes(20)
    t = ref.jwe(h, pt, key, rng)
    for _ in range(6 if not enc.endswith("GCM") else 2):
        entries = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            entries.append(entry(rng, some_key(rng, alg, enc), rng.random() < .8,
                                 kid=rng.choice([None, None, "k1", "k2"]),
                                 alg=rng.choice([None, None, None, alg, "RS256"]),
                                 use=rng.choice([None, None, None, "enc", "sig"])))
        k = rng.random()
        if k < .7:
            entries.append(entry(rng, key, True, kid=kid, alg=rng.choice([None, None, alg]),
                                 use=rng.choice([None, "enc"])))
        elif k < .8:
            entries.append(entry(rng, key, False, kid=kid))
        elif k < .9:
            entries.append(entry(rng, key, True, kid=kid, use="sig"))
        rng.shuffle(entries)
        run(ctx, t, h, entries, pt)


def g_large(ctx, i):
    """the right key far behind in a large set"""
    rng = ctx.rng
    alg = ref.ENC_ALGS[i % 10]
    enc = rng.choice(ref.ENCS[:3])
    key = gen.enc_key(rng, alg, enc, "P-256")
    h = {"alg": alg, "enc": enc}
    kid = rng.choice([None, "k1"])
    if kid and rng.random() < .6:
        h["kid"] = kid
    pt = rng.randbytes(20)
    t = ref.jwe(h, pt, key, rng)
    n = rng.choice([8, 9, 11, 16, 17, 33, 40, 65, 101] if alg[0] == "A" else [8, 9, 12, 17])
    if rng.random() < .1 and alg[0] == "A":
        n = rng.choice([129, 257, 300])
    pool = {"R": gen.RSAK[:8] + gen.R1024, "E": gen.ECK["P-256"]}.get(alg[0])
    entries = []
    for j in range(n):
        k = {"kty": "oct", "k": rng.randbytes(16)} if alg[0] == "A" else rng.choice(
            [k for k in pool if gen.public(k) != gen.public(key)])
        entries.append(entry(rng, k, rng.random() < .9, kid=rng.choice(
            [None, kid, "k%d" % j, gen.kin_text(rng, kid or "k1")])))
    entries.insert(rng.choice([n, n, n - 1, n // 2, 0]), entry(rng, key, True, kid=kid))
    ctx.event("large sets")
    run(ctx, t, h, entries, pt)


def g_orders(ctx, i):
    """all orders of a set with exactly one right key"""
    rng = ctx.rng
    alg = ref.ENC_ALGS[i % 10]
    enc = rng.choice(ref.ENCS[:3])
    key = gen.enc_key(rng, alg, enc)
    h = {"alg": alg, "enc": enc}
    pt = rng.randbytes(12)
    t = ref.jwe(h, pt, key, rng)
    kty = {"R": "RSA", "A": "oct", "E": "EC"}[alg[0]]
    pool = [k for k in {"RSA": gen.RSAK[:8], "oct": gen.OCT,
                        "EC": sum(gen.ECK.values(), [])}[kty]
            if gen.public(k) != gen.public(key)]
    entries = [entry(rng, key, True)] + [entry(rng, k, rng.random() < .8)
                                         for k in rng.sample(pool, 2)]
    if rng.random() < .5:
        entries.append(entry(rng, some_key(rng, alg, enc), True))
    perms = list(itertools.permutations(entries))
    for p in rng.sample(perms, min(6, len(perms))):
        ctx.event("permutations")
        run(ctx, t, h, list(p), pt)


def cbc_variants(rng, enc, cek, hb, pt):
    """(name, iv, ct, tag) wrong in the content, some with an authentic tag"""
    import hashlib
    import hmac
    iv = rng.randbytes(16)
    n = ref.CEK_LEN[enc]
    half = n // 2
    ct, tag = ref.cbc_encrypt(cek, iv, hb.encode(), pt)
    hf = {32: hashlib.sha256, 48: hashlib.sha384, 64: hashlib.sha512}[n]

    def mac(c, v=iv):
        return hmac.new(cek[:half], hb.encode() + v + c + ref.i2o(8 * len(hb), 8),
                        hf).digest()[:half]
    res = [("tag", iv, ct, gen.mut_octets(rng, tag)[1]), ("tag length", iv, ct, tag[:-1]),
           ("ciphertext", iv, gen.mut_octets(rng, ct)[1], tag),
           ("iv", gen.mut_octets(rng, iv)[1], ct, tag), ("empty tag", iv, ct, b""),
           ("empty iv", b"", ct, tag), ("empty ciphertext", iv, b"", tag),
           ("authentic empty ciphertext", iv, b"", mac(b"")),
           ("authentic ill-sized ciphertext", iv, ct[:-3], mac(ct[:-3])),
           ("authentic ill-sized ciphertext", iv, ct + b"x", mac(ct + b"x"))]
    for padding in (b"\0" * 16, b"\x11" * 16, b"\1\2" * 8, b"\x10" * 15 + b"\x0f",
                    b"\xff" * 16, b"\2\3\3" + b"\0" * 13):
        c, t = ref.cbc_encrypt(cek, iv, hb.encode(), b"", padding)
        res.append(("authentic content padding", iv, c, t))
    return res


def gcm_variants(rng, enc, cek, hb, pt):
    iv = rng.randbytes(12)
    ct, tag = ref.gcm_encrypt(cek, iv, hb.encode(), pt)
    return [("tag", iv, ct, gen.mut_octets(rng, tag)[1]), ("tag length", iv, ct, tag[:-1]),
            ("ciphertext", iv, gen.mut_octets(rng, ct)[1], tag), ("iv", iv[:-1], ct, tag),
            ("empty tag", iv, ct, b"")]


def g_uniform(ctx, i):
    """the error does not tell what was wrong"""
    rng = ctx.rng
    alg = ref.ENC_ALGS[i % 10]
    enc = rng.choice(ref.ENCS[:3]) if i % 5 else rng.choice(ref.ENCS[3:])
    key = gen.RSAK[5] if alg[0] == "R" and rng.random() < .3 else gen.enc_key(rng, alg, enc)
    h = {"alg": alg, "enc": enc}
    zipped = rng.random() < .2
    pt = b"secret " + rng.randbytes(9)
    parts = {}
    t = ref.jwe(dict(h, zip="DEF") if zipped else h, pt, key, rng, parts=parts)
    hb = t.split(".")[0]
    n = ref.CEK_LEN[enc]
    cek, ek, iv, ct, tag = [parts[m] for m in ("cek", "ek", "iv", "ct", "tag")]
    bad = []
    variants = (gcm_variants if enc.endswith("GCM") else cbc_variants)(rng, enc, cek, hb, pt)
    for name, v, c, g in variants:
        bad.append((name, ek, v, c, g))
    for _ in range(3):
        m, o = gen.mut_octets(rng, ek)
        if alg != "ECDH-ES" or o:
            bad.append(("wrapped key: " + m, o, iv, ct, tag))
    if zipped:
        for p in (b"\xff" * 9, b"", b"no deflate", ref.deflate(pt)[:-2]):
            c, g = ref.content_encrypt(enc, cek, iv, hb.encode(), p)
            bad.append(("compressed content", ek, iv, c, g))
    other = rng.randbytes(n)
    sizes = [s for s in (0, 8, 15, 16, 24, 31, 32, 33, 40, 48, 64) if s != n]
    if alg[0] == "R":
        k = ref.rsa_k(key["n"])
        for s in sizes:
            if s <= k - 66:
                bad.append(("key length", ref.rsa_encrypt(alg, rng.randbytes(s), key, rng), iv,
                            ct, tag))
        bad.append(("another key", ref.rsa_encrypt(alg, other, key, rng), iv, ct, tag))
        if alg == "RSA1_5":
            for em in (b"\0\1" + b"\xff" * (k - n - 3) + b"\0" + cek,
                       b"\0\2" + b"\1" * 5 + b"\0" + cek.rjust(k - 8, b"\1"),
                       b"\0\2" + b"\1" * (k - 2), b"\0\0" + b"\1" * (k - 2), bytes(k),
                       b"\0\2" + b"\1" * (k - 3) + b"\0",
                       b"\0\2" + b"\1" * (k - n - 2) + b"\0" + cek[1:],
                       b"\0\2" + b"\1" * (k - n - 4) + b"\0\0" + cek,
                       b"\1\2" + b"\1" * (k - n - 3) + b"\0" + cek):
                ctx.event("rsa blocks")
                bad.append(("rsa block", ref.i2o(pow(ref.o2i(em) % key["n"], key["e"],
                                                     key["n"]), k), iv, ct, tag))
        else:
            hl = 20 if alg == "RSA-OAEP" else 32
            for em in (bytes(k), b"\1" + rng.randbytes(k - 1), b"\0" + rng.randbytes(k - 1),
                       b"\0" + bytes(hl) + rng.randbytes(k - hl - 1)):
                ctx.event("rsa blocks")
                bad.append(("rsa block", ref.i2o(pow(ref.o2i(em) % key["n"], key["e"],
                                                     key["n"]), k), iv, ct, tag))
        bad.append(("rsa range", ref.i2o(key["n"], k), iv, ct, tag))
        bad.append(("rsa range", b"\xff" * k, iv, ct, tag))
    elif alg != "ECDH-ES":
        kek = ref.sym_kek(key["k"], alg) if alg[0] == "A" else ref.ecdh_key(
            key["crv"], key["d"], tuple(ref.o2i(ref.b64d(parts["header"]["epk"][m]))
                                        for m in "xy"), alg, enc, b"", b"")
        for s in sizes:
            if s % 8 == 0 and s >= 16:
                bad.append(("key length", ref.kw_wrap(kek, rng.randbytes(s)), iv, ct, tag))
        bad.append(("another key", ref.kw_wrap(kek, other), iv, ct, tag))
        w = bytearray(ref.kw_wrap(kek, cek))
        w[rng.randrange(len(w))] ^= 1
        bad.append(("wrapped key integrity", bytes(w), iv, ct, tag))
    else:
        bad.append(("wrapped key not empty", rng.randbytes(24), iv, ct, tag))
    ring = jose.Ring()
    ring.add(rng, key, True)
    if rng.random() < .3 and not enc.endswith("GCM"):
        ring.add(rng, some_key(rng, alg, enc), True)
        rng.shuffle(ring.items)
    if enc.endswith("GCM"):
        bad = rng.sample(bad, min(9, len(bad)))
    seen = {}
    mode = rng.random() < .3
    for name, a, b, c, d in bad:
        text = ".".join([hb] + [ref.b64e(x) for x in (a, b, c, d)])
        if text == t:
            continue
        if mode:
            out = ctx.call("decrypt corrupted", lambda: factory(text).decrypt(
                keys=list(ring.lib)))
        else:
            out = ctx.call("decrypt corrupted", JWE().decrypt, text, list(ring.lib))
        ctx.case("corrupted", text)
        if out.ok:
            # not decided here unless the reference says that it is wrong
            ctx.check(any(opens(text, h, k, m, True, False) for _, k, m in ring.items),
                      "a corrupted token is decrypted", mechanism="corrupted", name=name,
                      token=text, outcome=out)
            continue
        ctx.event("errors compared")
        seen.setdefault((type(out.exc).__name__, str(out.exc)), []).append(name)
    ctx.check(len(seen) == 1, "the error tells which part of the token was wrong",
              mechanism="error kinds", header=h, errors=json.dumps(
                  sorted([list(k) + sorted(set(v)) for k, v in seen.items()])),
              key=gen.ident(key))


GROUPS = [Group("sets", g_sets, 120, 2400), Group("orders", g_orders, 50, 1200),
          Group("large", g_large, 20, 600),
          Group("uniform", g_uniform, 120, 2400)]
CHUNK = 6
GROUPS = boost(GROUPS, 2)
