"""C06: decryption never returns unauthenticated plaintext."""
import json
import zlib

from vmon import gen, jose, ref
from vmon.core import Group
from jwkest.jwe import JWE, JWE_EC, JWE_RSA, JWE_SYM, JWEnc
from jwkest.jwe import factory

RULE = ("A case is one token text given to decryption with keys: genuine tokens (made here and "
        "by the reference), alterations of each of the five parts, splices of two tokens, "
        "other keys, forged wrapped keys. Non-trivial: distinct text and keys. Whatever is "
        "returned has to be what an independent implementation gets from the same text.")
MINIMUM = {"genuine opened": 120, "long genuine opened": 8, "refused": 4000, "decrypt.call": 4500, "foreign key": 300,
           "part boundary moved": 200, "tag or IV with leading zero": 6, "spliced": 300,
           "wrapped key forged": 300}
ASSUME = ["other base64url spellings of the same octets outside the header are the same token",
          "the plaintext of a token with 'zip' may also be in zlib format"]


def openings(token, ring, direct=False):
    """-> list of plaintexts that the reference gets with any of the keys"""
    res = []
    try:
        h = json.loads(ref.b64d(token.split(".")[0]).decode("utf-8"))
    except (ValueError, ref.Bad, RecursionError):
        return res
    if not isinstance(h, dict) or h.get("alg") not in ref.ENC_ALGS or \
            h.get("enc") not in ref.ENCS or "crit" in h:
        return res
    kty = {"R": "RSA", "A": "oct", "E": "EC"}[h["alg"][0]]
    for lk, key, meta in ring.items:
        if key["kty"] != kty:
            continue
        kek = key["k"] if direct and kty == "oct" else None
        info = {}
        try:
            res.append(ref.jwe_open(token, key, kek=kek, info=info))
        except zlib.error:
            try:
                res.append(zlib.decompress(ref.content_decrypt(
                    h["enc"], info["cek"], info["iv"], token.split(".")[0].encode(),
                    info["ct"], info["tag"])))
            except zlib.error:
                pass
        except (ref.Bad, KeyError, ValueError, TypeError, AttributeError):
            pass
    return res


def attempt(ctx, token, ring, what, secret=None, direct=False):
    """decrypt a text and judge what comes back"""
    rng = ctx.rng
    keys = list(ring.lib)
    k = rng.randrange(5)
    arg = token.encode("utf-8", "surrogatepass") if rng.random() < .3 else token
    if direct:
        lk, key, meta = ring.items[0]
        if key["kty"] == "oct":
            out = ctx.call("decrypt", JWE_SYM().decrypt, arg,
                           key["k"] if rng.random() < .5 else lk)
        elif key["kty"] == "RSA":
            out = ctx.call("decrypt", JWE_RSA().decrypt, arg, lk.get_key())
        else:
            def ec():
                jwt = JWEnc().unpack(arg)
                d = JWE_EC(**jwt.headers)
                d.dec_setup(jwt, key=lk)
                return d.decrypt(arg)
            out = ctx.call("decrypt", ec)
    elif k == 0:
        out = ctx.call("decrypt", lambda: factory(arg).decrypt(keys=keys))
    elif k == 1:
        out = ctx.call("decrypt", lambda: factory(arg).decrypt(arg, keys))
    else:
        # one object may be asked about several tokens
        old = ctx.__dict__.setdefault("decrypters", {})
        jwe = old.setdefault(rng.randrange(3), JWE()) if rng.random() < .5 else JWE()
        out = ctx.call("decrypt", jwe.decrypt, arg, keys)
    ctx.case(what, token, direct, [gen.ident(x) for _, x, _ in ring.items])
    d = dict(what=what, token=token, outcome=out, direct=direct,
             keys=[gen.ident(x) for _, x, _ in ring.items])
    if out.ok:
        ctx.event("opened")
        good = openings(token, ring, direct)
        ctx.check(isinstance(out.value, bytes) and out.value in good,
                  "decryption returned what was not authenticated: " + what.split(":")[0],
                  mechanism="returned " + what.split(":")[0], expected=good, **d)
        return True
    ctx.event("refused")
    if secret and len(secret) >= 12:
        said = "%s %r" % (out.exc, getattr(out.exc, "args", ()))
        for s in (secret, secret[:12], secret[-12:]):
            forms = [repr(s)[2:-1], s.hex(), ref.b64e(s)[:-2]]
            ctx.check(not any(f in said for f in forms),
                      "the error message tells about the plaintext", mechanism="told", **d)
    return False


def make(rng, alg, enc, key, pt, **more):
    """a genuine token and its parts"""
    h = dict({"alg": alg, "enc": enc}, **more)
    parts = {}
    t = ref.jwe(h, pt, key, rng, parts=parts)
    return t, parts


def here(ctx, alg, enc, key, pt, **kw):
    """the same by the library"""
    lk = gen.lib_key(ctx.rng, key, True)
    return ctx.must("encrypt", JWE(pt, alg=alg, enc=enc, **kw).encrypt, [lk])


def join(h, ek, iv, ct, tag):
    hb = h if isinstance(h, str) else ref.b64e(ref.jdump(h))
    return ".".join([hb] + [ref.b64e(x) for x in (ek, iv, ct, tag)])


def pair(i):
    """all alg x enc pairs in turn, the slow GCM ones as often as the others"""
    return ref.ENC_ALGS[i % 10], ref.ENCS[(i // 10) % 6]


def a_key(rng, alg, enc):
    return gen.enc_key(rng, alg, enc, "P-256" if rng.random() < .75 else None)


def boundary(rng, octs):
    """octets moved over the boundary of two parts"""
    o = list(octs)
    j = rng.randrange(1, 4)
    n = rng.choice([1, 8, 16, 16, 24])
    if rng.random() < .5:
        o[j], o[j + 1] = o[j] + o[j + 1][:n], o[j + 1][n:]
    else:
        o[j], o[j + 1] = o[j][:-n], o[j][-n:] + o[j + 1]
    return o


def mut_jwe_header(rng, h):
    h = dict(h)
    k = rng.randrange(12)
    if k == 0:
        h["alg"] = rng.choice([a for a in ref.ENC_ALGS + ["dir", "A128GCMKW", "none", "RSA",
                                                          "PBES2-HS256+A128KW", "A512KW"]
                               if a != h["alg"]])
    elif k == 1:
        h["enc"] = rng.choice([e for e in ref.ENCS + ["A128CBC", "none", "A256CBC-HS256"]
                               if e != h["enc"]])
    elif k == 2:
        h.pop(rng.choice(sorted(h)))
    elif k == 3:
        if "zip" in h:
            h.pop("zip")
        else:
            h["zip"] = "DEF"
    elif k == 4:
        h["apu"] = ref.b64e(rng.randbytes(rng.randrange(1, 20)))
    elif k == 5:
        h["apv"] = ref.b64e(rng.randbytes(rng.randrange(1, 20)))
    elif k == 6:
        h["crit"] = ["x"]
    elif k == 7 and isinstance(h.get("epk"), dict):
        e = h["epk"] = dict(h["epk"])
        m = rng.choice(["x", "y"])
        e[m] = ref.b64e(gen.mut_octets(rng, ref.b64d(e[m]))[1])
    elif k == 8:
        h["kid"] = "other"
    elif k == 9:
        h = dict(sorted(h.items(), reverse=True))
        h["typ"] = "JWE" if h.get("typ") != "JWE" else "JOSE"
    elif k == 10:
        h["cty"] = "x" + str(rng.randrange(1000))
    else:
        h["x" + str(rng.randrange(1000))] = None
    return h


def g_parts(ctx, i):
    """every part altered"""
    rng = ctx.rng
    alg, enc = pair(i)
    slow = enc.endswith("GCM")
    key = a_key(rng, alg, enc)
    secret = b"the secret " + rng.randbytes(rng.choice([1, 5, 6, 20, 21, 22, 53, 100]))
    ring = jose.Ring()
    ring.add(rng, key, True)
    if rng.random() < .3:
        t = here(ctx, alg, enc, key, secret)
    else:
        more = {"zip": "DEF"} if rng.random() < .2 else {}
        if alg.startswith("EC") and rng.random() < .5:
            more["apu"] = ref.b64e(rng.randbytes(5))
        t, _ = make(rng, alg, enc, key, secret, **more)
    if attempt(ctx, t, ring, "genuine", secret):
        ctx.event("genuine opened")
    h, octs = gen.parse(t)
    hb = t.split(".")[0]
    hard = rng.random() < .2
    direct = hard and not alg.startswith("A")
    n = 1 if slow else 6
    for part, name in ((1, "key"), (2, "iv"), (3, "ciphertext"), (4, "tag")):
        for _ in range(n):
            m, o = gen.mut_octets(rng, octs[part])
            p = list(octs)
            p[part] = o
            attempt(ctx, join(hb, *p[1:]), ring, "%s: %s" % (name, m), secret, direct)
    for _ in range(n):
        p = boundary(rng, octs)
        if p == octs:
            continue
        ctx.event("part boundary moved")
        attempt(ctx, join(hb, *p[1:]), ring, "boundary", secret)
    for _ in range(n):
        attempt(ctx, join(mut_jwe_header(rng, h), *octs[1:]), ring, "header", secret)
    for hb2 in (json.dumps(h).encode(), ref.jdump(h) + b" "):
        if slow and rng.random() < .5:
            continue
        if ref.b64e(hb2) != hb:
            attempt(ctx, join(ref.b64e(hb2), *octs[1:]), ring, "header re-encoded", secret)
    for _ in range(2 * n):
        m, t2 = gen.mut_text(rng, t)
        attempt(ctx, t2, ring, "text: " + m, secret)
    # the header in another spelling of the same octets
    hp = ref.b64e(ref.b64d(hb))
    for h2 in [hp + "=" * (-len(hp) % 4)] + gen.spellings(hp):
        if h2 != hb:
            ctx.event("header spelt otherwise")
            attempt(ctx, ".".join([h2] + t.split(".")[1:]), ring, "header spelt otherwise",
                    secret)
    # four and six parts
    p = t.split(".")
    for q in (p[:4], p[1:], p + [""], p + ["AA"], p[:1] + p[2:], p[:3] + [""] + p[3:],
              p[:2] + p[3:], p[:1] + [""] + p[1:]):
        if not slow or rng.random() < .2:
            attempt(ctx, ".".join(q), ring, "number of parts", secret)


def g_zero(ctx, i):
    """tags, IVs and wrapped keys that begin or end with zero octets"""
    rng = ctx.rng
    alg = ("A128KW", "RSA-OAEP", "ECDH-ES", "A256KW", "ECDH-ES+A128KW", "RSA1_5")[i % 6]
    enc = ref.ENCS[i % 6] if rng.random() < .5 else rng.choice(ref.ENCS[3:])
    key = gen.enc_key(rng, alg, enc, "P-256")
    ring = jose.Ring()
    ring.add(rng, key, True)
    h = {"alg": alg, "enc": enc}
    cek, eph = rng.randbytes(ref.CEK_LEN[enc]), rng.randrange(1, 1 << 200)
    iv = rng.choice([b"\0", b"\0\0", b""]) + rng.randbytes(ref.IV_LEN[enc])
    iv = iv[:ref.IV_LEN[enc]]
    parts = {}
    t = ref.jwe(h, b"0", key, rng, cek=cek, iv=iv, eph=eph, parts=parts)
    hb = t.split(".")[0]
    cek = parts["cek"]
    for n in range(4000):
        pt = b"secret%d" % n
        ct, tag = ref.content_encrypt(enc, cek, iv, hb.encode(), pt)
        if tag[0] == 0 or (n > 2000 and tag[-1] == 0):
            break
    ctx.event("tag or IV with leading zero")
    t = join(hb, parts["ek"], iv, ct, tag)
    if attempt(ctx, t, ring, "genuine", pt):
        ctx.event("genuine opened")
    for a, b in ((iv, tag.lstrip(b"\0")), (iv.lstrip(b"\0"), tag), (b"\0" + iv, tag),
                 (iv, b"\0" + tag), (iv, tag[:-1]), (iv, tag + b"\0"), (iv + b"\0", tag),
                 (iv, b""), (b"", tag)):
        if (a, b) != (iv, tag):
            attempt(ctx, join(hb, parts["ek"], a, ct, b), ring, "zero octets", pt)
    for ek in (b"\0" + parts["ek"], parts["ek"] + b"\0", parts["ek"].lstrip(b"\0")):
        if ek != parts["ek"]:
            attempt(ctx, join(hb, ek, iv, ct, tag), ring, "zero octets in key", pt)


def g_keys(ctx, i):
    """other keys"""
    rng = ctx.rng
    alg, enc = ref.ENC_ALGS[i % 10], rng.choice(ref.ENCS[:3])
    key = a_key(rng, alg, enc)
    pt = rng.randbytes(40)
    t, _ = make(rng, alg, enc, key, pt)
    for _ in range(6):
        ring = jose.Ring()
        for _ in range(rng.choice([1, 1, 2, 3])):
            k = a_key(rng, alg if rng.random() < .8 else rng.choice(ref.ENC_ALGS), enc)
            ring.add(rng, k, True)
        ctx.event("foreign key")
        attempt(ctx, t, ring, "keys", pt)
    # almost the right key
    ring = jose.Ring()
    k2 = dict(key)
    if key["kty"] == "oct":
        k2["k"] = gen.mut_octets(rng, key["k"])[1] or b"x"
    elif key["kty"] == "EC":
        c = ref.CURVES[key["crv"]]
        k2["d"] = rng.randrange(1, c.n)
        k2["x"], k2["y"] = c.mul(k2["d"])
    else:
        k2 = rng.choice([k for k in gen.RSAK[:9] if k["n"] != key["n"]])
    ring.add(rng, k2, True)
    ctx.event("foreign key")
    attempt(ctx, t, ring, "near key", pt)
    if key["kty"] != "oct":
        ring = jose.Ring()
        ring.add(rng, gen.public(key), False)
        attempt(ctx, t, ring, "public key only", pt)
        attempt(ctx, t, ring, "public key only", pt, direct=True)


def g_splice(ctx, i):
    """parts of two tokens for the same recipient"""
    rng = ctx.rng
    alg, enc = pair(i)
    slow = enc.endswith("GCM")
    key = a_key(rng, alg, enc)
    ring = jose.Ring()
    ring.add(rng, key, True)
    a = make(rng, alg, enc, key, b"first plaintext!" + rng.randbytes(3))[0].split(".")
    same = {"cek": rng.randbytes(ref.CEK_LEN[enc])} if rng.random() < .5 else {}
    b = ref.jwe({"alg": alg, "enc": enc, "kid": "k"} if rng.random() < .3 else
                {"alg": alg, "enc": enc}, b"other plaintext!" + rng.randbytes(3), key, rng,
                **same).split(".")
    masks = list(range(1, 31))
    rng.shuffle(masks)
    for m in masks[:3 if slow else 16]:
        ctx.event("spliced")
        attempt(ctx, ".".join(a[j] if m >> j & 1 else b[j] for j in range(5)), ring,
                "spliced", b"first plaintext!")


def g_wrapped(ctx, i):
    """wrapped keys and contents made by hand"""
    rng = ctx.rng
    alg, enc = ref.ENC_ALGS[i % 10], ref.ENCS[(i // 10) % 3 if i % 4 else 3 + i % 3]
    slow = enc.endswith("GCM")
    key = gen.RSAK[5] if alg[0] == "R" else gen.enc_key(rng, alg, enc, "P-256")
    ring = jose.Ring()
    ring.add(rng, key, True)
    pt = b"by hand " + rng.randbytes(9)
    t, parts = make(rng, alg, enc, key, pt)
    hb = t.split(".")[0]
    n = ref.CEK_LEN[enc]
    iv = parts["iv"]
    todo = []
    if alg.startswith("RSA"):
        k = ref.rsa_k(key["n"])
        for ek in (b"", b"\0" * k, ref.i2o(1, k), ref.i2o(key["n"] - 1, k), ref.i2o(key["n"], k),
                   ref.i2o(key["n"] + 1, k), b"\xff" * k, parts["ek"][1:], rng.randbytes(k),
                   ref.i2o(ref.o2i(parts["ek"]) + key["n"])):
            todo.append((ek, None))
        for size in (0, 1, 16, 24, 31, 32, 33, 48, 64):
            if size != n and size <= k - 66:
                cek = rng.randbytes(size)
                todo.append((ref.rsa_encrypt(alg, cek, key, rng), cek))
        # other blocks: no padding, wrong type, short padding, no separator
        cek = rng.randbytes(n)
        for em in (b"\0" * (k - n) + cek,
                   b"\0\1" + b"\xff" * (k - n - 3) + b"\0" + cek,
                   b"\0\2" + b"\1" * 3 + b"\0" + cek.rjust(k - 6, b"\1"),
                   b"\0\2" + b"\1" * (k - 2), b"\0\2" + b"\1" * (k - n - 2) + cek,
                   b"\0\2" + b"\1" * 7 + b"\0" * (k - n - 9) + cek):
            todo.append((ref.i2o(pow(ref.o2i(em) % key["n"], key["e"], key["n"]), k), cek))
        # wrapped in the other ways
        for a2 in ("RSA1_5", "RSA-OAEP", "RSA-OAEP-256"):
            if a2 != alg:
                todo.append((ref.rsa_encrypt(a2, cek, key, rng), cek))
    elif alg == "ECDH-ES":
        for ek in (b"\0", rng.randbytes(24), parts["cek"], rng.randbytes(n + 8),
                   ref.kw_wrap(parts["cek"][:16], parts["cek"])):
            todo.append((ek, parts["cek"]))
            todo.append((ek, ek))
    else:
        if alg.startswith("A"):
            kek = ref.sym_kek(key["k"], alg)
        else:
            h = parts["header"]
            kek = ref.ecdh_key("P-256", key["d"], (
                ref.o2i(ref.b64d(h["epk"]["x"])), ref.o2i(ref.b64d(h["epk"]["y"]))),
                alg, enc, b"", b"")
        for size in (16, 24, 32, 40, 48, 64, 72):
            if size != n:
                cek = rng.randbytes(size)
                todo.append((ref.kw_wrap(kek, cek), cek))
        cek = rng.randbytes(n)
        # other initial values: 0, the one of the padded mode, a bit off
        for a in (b"\0" * 8, b"\xa6" * 7 + b"\xa7", b"\xa6\x59\x59\xa6" + ref.i2o(n, 4),
                  b"\xa6" * 8 + cek):
            todo.append((wrap_iv(kek, a[:8], cek), cek))
        # only part of the initial value is the right one
        at = rng.randrange(8)
        for a in (b"\xa6" * 4 + rng.randbytes(4), rng.randbytes(4) + b"\xa6" * 4,
                  b"\xa6" * at + bytes([0xa6 ^ (1 << rng.randrange(8))]) + b"\xa6" * (7 - at),
                  bytes(rng.choice([0xa6, rng.randrange(256)]) for _ in range(7)) + b"\xa5",
                  b"\xa6" + rng.randbytes(7), rng.randbytes(7) + b"\xa6"):
            if a != b"\xa6" * 8:
                todo.append((wrap_iv(kek, a, cek), cek))
        for size in (0, 1, 8, 15, 16):
            todo.append((rng.randbytes(size), b""))
        w = ref.kw_wrap(kek, cek)
        todo += [(w[:-8], cek), (w + b"\0" * 8, cek), (w[8:], cek), (w[:16], cek[:8]),
                 (w + w, cek + cek)]
        if alg.startswith("A"):
            todo.append((ref.kw_wrap(key["k"][:16].ljust(16, b"\0"), cek), cek))
            todo.append((ref.kw_wrap(b"\0" * len(kek), cek), cek))
    # the wrapped key is rubbish and the content is under a key that anybody knows
    bads = [b"", rng.randbytes(len(parts["ek"]) or 8), b"\0" * len(parts["ek"])]
    if alg.startswith("RSA"):
        bads.append(ref.i2o(rng.randrange(key["n"]), ref.rsa_k(key["n"])))
    elif parts["ek"]:
        bads.append(ref.kw_wrap(rng.randbytes(16), rng.randbytes(n)))
    known = [b"\0" * n, b"\xff" * n, b"\1" * n, b"\0" * 32, bytes(range(n)), b" " * n]
    for ek in bads:
        for cek in rng.sample(known, 1) + known[:1]:
            todo.append((ek, cek))
    if slow:
        todo = rng.sample(todo, min(4, len(todo)))
    for ek, cek in todo:
        ctx.event("wrapped key forged")
        ceks = [parts["cek"]]
        if cek is not None:
            ceks.append(cek)
            # what a lax implementation would make of it
            ceks.append(cek[:n].ljust(n, b"\0"))
        c = rng.choice(ceks)
        try:
            ct, tag = content(enc, c, iv, hb.encode(), pt)
        except (ValueError, KeyError):
            ct, tag = parts["ct"], parts["tag"]
        attempt(ctx, join(hb, ek, iv, ct, tag), ring, "wrapped key", pt)
    # right key, content in ways that are not the prescribed one
    cek = parts["cek"]
    half = len(cek) // 2
    odd = []
    if slow:
        for size in (1, 8, 11, 13, 16):
            v = rng.randbytes(size)
            try:
                from Cryptodome.Cipher import AES
                g = AES.new(cek, AES.MODE_GCM, nonce=v, mac_len=16)
                g.update(hb.encode())
                odd.append((v,) + g.encrypt_and_digest(pt))
            except ValueError:
                pass
        odd = rng.sample(odd, min(2, len(odd)))
        for size in (4, 8, 12, 15):
            if rng.random() < .3:
                odd.append((iv, parts["ct"], parts["tag"][:size]))
        odd.append((iv, parts["ct"], bytes(16)))
        odd.append((iv,) + ref.gcm_encrypt(cek, iv, b"", pt))
    else:
        for padding in (b"", b"\0" * 16, b"\x11" * 17, b"\1\2", b"\x02", b"\x10" * 15,
                        b"\xff" * 16, b"\x00", b"\x03\x03\x02"):
            body = pt[:(16 - len(padding)) % 16].rjust((16 - len(padding)) % 16, b"p")
            odd.append((iv,) + ref.cbc_encrypt(cek, iv, hb.encode(), body, padding)
                       if (len(body) + len(padding)) % 16 == 0 else
                       (iv, parts["ct"], parts["tag"][:-1]))
        c2 = cek[half:] + cek[:half]
        odd.append((iv,) + ref.cbc_encrypt(c2, iv, hb.encode(), pt))
        odd.append((iv,) + ref.cbc_encrypt(cek, iv, b"", pt))
        odd.append((iv,) + ref.cbc_encrypt(cek, iv, ref.b64d(hb), pt))
        import hashlib
        import hmac
        ct = parts["ct"]
        hf = {32: hashlib.sha256, 48: hashlib.sha384, 64: hashlib.sha512}[n]
        full = hmac.new(cek[:half], hb.encode() + iv + ct + ref.i2o(8 * len(hb), 8), hf).digest()
        odd.append((iv, ct, full))
        odd.append((iv, ct, full[half:]))
        odd.append((iv, ct, full[:half - 1]))
        for al in (b"", ref.i2o(len(hb), 8), ref.i2o(8 * len(hb), 4), bytes(8)):
            odd.append((iv, ct, hmac.new(cek[:half], hb.encode() + iv + ct + al, hf
                                         ).digest()[:half]))
        # an empty ciphertext that is authentic
        odd.append((iv, b"", hmac.new(cek[:half], hb.encode() + iv + ref.i2o(8 * len(hb), 8),
                                      hf).digest()[:half]))
        # authentic, but the IV without its authenticity
        odd.append((iv[:8] + rng.randbytes(8), ct, parts["tag"]))
    for v, ct, tag in odd:
        attempt(ctx, join(hb, parts["ek"], v, ct, tag), ring, "content", None)


def wrap_iv(kek, a, key):
    from Cryptodome.Cipher import AES
    r = [key[i:i + 8] for i in range(0, len(key), 8)]
    e = AES.new(kek, AES.MODE_ECB)
    for j in range(6):
        for i in range(len(r)):
            b = e.encrypt(a + r[i])
            a = ref.i2o(ref.o2i(b[:8]) ^ (len(r) * j + i + 1), 8)
            r[i] = b[8:]
    return a + b"".join(r)


def content(enc, cek, iv, aad, pt):
    """content encryption with a CEK of any size that AES or the table allows"""
    if enc.endswith("GCM"):
        return ref.gcm_encrypt(cek, iv, aad, pt)
    return ref.cbc_encrypt(cek, iv, aad, pt)


def g_direct(ctx, i):
    """the classes below JWE, with the key encryption key itself"""
    rng = ctx.rng
    alg = ref.ENC_ALGS[i % 10]
    enc = rng.choice(ref.ENCS[:3])
    key = gen.enc_key(rng, alg, enc, "P-256")
    if key["kty"] == "oct":
        key = {"kty": "oct", "k": rng.randbytes(int(alg[1:4]) // 8)}
    ring = jose.Ring()
    ring.add(rng, key, True)
    pt = b"text and " + rng.randbytes(7)
    t = ref.jwe({"alg": alg, "enc": enc}, pt, key, rng, kek=key.get("k"))
    if attempt(ctx, t, ring, "genuine", pt, direct=True):
        ctx.event("genuine opened")
    h, octs = gen.parse(t)
    for _ in range(8):
        part = rng.randrange(1, 5)
        m, o = gen.mut_octets(rng, octs[part])
        p = list(octs)
        p[part] = o
        attempt(ctx, join(t.split(".")[0], *p[1:]), ring, "part %d: %s" % (part, m), pt, True)
        m, t2 = gen.mut_text(rng, t)
        attempt(ctx, t2, ring, "text: " + m, pt, True)
    for _ in range(3):
        attempt(ctx, join(mut_jwe_header(rng, h), *octs[1:]), ring, "header", pt, True)
        k2 = gen.enc_key(rng, alg, enc, "P-256")
        r2 = jose.Ring()
        if key["kty"] == "oct":
            k2 = {"kty": "oct", "k": rng.randbytes(len(key["k"]))}
        r2.add(rng, k2, True)
        ctx.event("foreign key")
        attempt(ctx, t, r2, "keys", pt, True)


def g_large(ctx, i):
    """long texts altered anywhere"""
    rng = ctx.rng
    alg = ref.ENC_ALGS[i % 10]
    gcm = rng.random() < .2
    enc = rng.choice(ref.ENCS[3:] if gcm else ref.ENCS[:3])
    key = gen.enc_key(rng, alg, enc, "P-256")
    ring = jose.Ring()
    ring.add(rng, key, True)
    pt = gen.big_octets(rng, 9000 if gcm else 140000)
    more = {"x": gen.big_text(rng, 9000 if gcm else 70000)} if rng.random() < .3 else {}
    if rng.random() < .2:
        more["zip"] = "DEF"
    if i % 2:
        t = here(ctx, alg, enc, key, pt, **more)
    else:
        t, parts = make(rng, alg, enc, key, pt, **more)
    if attempt(ctx, t, ring, "long genuine"):
        ctx.event("genuine opened")
        ctx.event("long genuine opened")
    h, octs = gen.parse(t)
    ct = octs[3]
    for _ in range(3 if gcm else 8):
        b = bytearray(ct)
        at = rng.choice([0, 15, 16, 4095, 4096, 8192, 16384, 32768, 65535, 65536, 65552, 98304,
                         131071, len(b) - 1, len(b) - 16, len(b) - 17, rng.randrange(len(b)),
                         rng.randrange(len(b) // 2, len(b))])
        b[min(at, len(b) - 1)] ^= 1 << rng.randrange(8)
        attempt(ctx, join(t.split(".")[0], octs[1], octs[2], bytes(b), octs[4]), ring,
                "long ciphertext: bit")
    swapped = ct[-16:] + ct[16:-16] + ct[:16]
    for c2 in (ct[:-16], ct[:-1], ct + bytes(16), ct + b"\0", ct[:len(ct) // 32 * 16], swapped,
               ct[16:]):
        if c2 != ct:
            attempt(ctx, join(t.split(".")[0], octs[1], octs[2], c2, octs[4]), ring,
                    "long ciphertext: length")
    if "x" in h:
        h2 = dict(h, x=h["x"][:-1] + "?")
        attempt(ctx, join(h2, *octs[1:]), ring, "long header")


GROUPS = [Group("large", g_large, 40, 400),
          Group("parts", g_parts, 120, 2400), Group("zero", g_zero, 24, 300),
          Group("keys", g_keys, 60, 1500), Group("splice", g_splice, 60, 900),
          Group("wrapped", g_wrapped, 60, 1200), Group("direct", g_direct, 60, 1500)]
CHUNK = 6
