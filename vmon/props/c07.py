"""C07: encryption is complete and interoperable in both directions."""
import hashlib
import json

from vmon import gen, ref
from vmon.core import Group, boost
from jwkest.jwe import JWE, JWE_EC, JWE_RSA, JWE_SYM, JWEnc, RSAEncrypter
from jwkest.jwe import factory
from jwkest.jwk import KEYS

RULE = ("A case is one plaintext encrypted here and opened by the reference and here, or "
        "encrypted by the reference and opened here; algorithm, encryption, key, key "
        "construction, header and plaintext vary. Non-trivial: distinct (algorithms, key, "
        "header, plaintext).")
MINIMUM = {"made here": 200, "made by reference": 150, "opened here": 350, "compressed": 30,
           "public key only": 100, "party info": 30, "pairs": 60}
ASSUME = ["the reference (Cryptodome AES/GCM, pow, own ECDH and Concat KDF) is right"]
PLAIN = (0, 1, 2, 15, 16, 17, 31, 32, 33, 47, 48, 100, 255, 256, 1000)


def plaintext(rng):
    """-> what to hand over, octets"""
    k = rng.randrange(6)
    if k == 0:
        t = gen.text(rng)
        return t, t.encode("utf-8")
    if k == 1:
        b = json.dumps(gen.claims(rng)).encode()
        return b, b
    if k == 2:
        # padding-like tails
        b = rng.randbytes(rng.choice([1, 14, 15, 16, 30])) + bytes(
            [rng.choice([0, 1, 2, 15, 16, 17])]) * rng.randrange(1, 18)
        return b, b
    if k == 3:
        b = b"abcd" * rng.choice([1, 10, 300])
        return b, b
    b = gen.octets(rng, PLAIN)
    return b, b


def keyset(rng, lk):
    if rng.random() < .3:
        ks = KEYS()
        ks.append(lk)
        return ks
    return [lk]


def open_here(ctx, token, key, octs, meta, what):
    """decrypt with the library, in one of the ways"""
    rng = ctx.rng
    lk = gen.lib_key(rng, key, True, **meta)
    arg = token.encode() if rng.random() < .3 else token
    k = rng.randrange(5)
    if k == 0:
        j = ctx.must("factory", factory, arg)
        ctx.need(j is not None, "factory does not know a good token", mechanism="factory",
                 token=token)
        v = ctx.must("decrypt", j.decrypt, keys=keyset(rng, lk))
    elif k == 1:
        alg = gen.parse(token)[0]["alg"]
        v = ctx.must("decrypt", JWE().decrypt, arg, keyset(rng, lk), alg=alg)
    else:
        v = ctx.must("decrypt", JWE().decrypt, arg, keyset(rng, lk))
    ctx.event("opened here")
    ctx.check(isinstance(v, bytes) and v == octs, "decrypted octets differ",
              mechanism="plaintext " + what, got=v, expected=octs, token=token)


def check_made(ctx, token, key, octs, want, what, kek=None):
    """a token made by the library: form, header, and what the reference gets"""
    ctx.event("made here")
    ctx.need(isinstance(token, str) and token.count(".") == 4, "not five parts",
             mechanism="five parts", token=token, what=what)
    try:
        h, (hb, ek, iv, ct, tag) = gen.parse(token)
    except ref.Bad as err:
        ctx.violation("not base64url parts with a JSON header", mechanism="form", err=err,
                      token=token)
        return None
    alg, enc = want["alg"], want["enc"]
    d = dict(token=token, header=h, what=what, key=gen.ident(key))
    for m, v in want.items():
        ctx.check(gen.same(h.get(m), v), "the header does not announce what was asked for: "
                  + m, mechanism="header " + m, expected=v, **d)
    extra = set(h) - set(want) - {"kid"}
    ctx.check(extra <= ({"epk", "apu", "apv"} if alg.startswith("EC") else set()),
              "unexpected header parameters", mechanism="header extra", extra=extra, **d)
    ctx.check(len(iv) == ref.IV_LEN[enc], "the IV has another size", mechanism="iv size", **d)
    ctx.check(len(tag) == ref.TAG_LEN[enc], "the tag has another size", mechanism="tag size",
              **d)
    size = ref.rsa_k(key["n"]) if alg[0] == "R" else 0 if alg == "ECDH-ES" else \
        ref.CEK_LEN[enc] + 8
    ctx.check(len(ek) == size, "the encrypted key has another size", mechanism="key size",
              **d)
    if "zip" not in h:
        n = len(octs) if enc.endswith("GCM") else len(octs) // 16 * 16 + 16
        ctx.check(len(ct) == n, "the ciphertext has another size", mechanism="ciphertext size",
                  **d)
    if alg.startswith("EC"):
        epk = h.get("epk")
        c = ref.CURVES[key["crv"]]
        ok = isinstance(epk, dict) and set(epk) <= {"kty", "crv", "x", "y"} and \
            epk.get("kty") == "EC" and epk.get("crv") == c.name
        ctx.need(ok, "the ephemeral key is not a public key on the curve",
                 mechanism="epk form", **d)
        x, y = ref.b64d(epk["x"]), ref.b64d(epk["y"])
        ctx.check(len(x) == len(y) == c.size and c.on((ref.o2i(x), ref.o2i(y))),
                  "the ephemeral key is not a point on the curve", mechanism="epk point", **d)
    try:
        info = {}
        pt = ref.jwe_open(token, key, kek=kek, info=info)
    except (ref.Bad, ValueError) as err:
        ctx.violation("another implementation can not decrypt the token",
                      mechanism="not interoperable", err=repr(err), **d)
        return None
    except Exception as err:
        if type(err).__name__ != "error":       # zlib.error
            raise
        ctx.violation("another implementation can not decompress the token",
                      mechanism="compression", err=repr(err), **d)
        return None
    ctx.check(pt == octs, "another implementation gets another plaintext",
              mechanism="other plaintext", got=pt, expected=octs, **d)
    if "zip" in h:
        ctx.event("compressed")
    return info


def options(rng, alg):
    kw = {}
    if rng.random() < .2:
        kw["typ"] = rng.choice(["JWT", "JWE"])
    if rng.random() < .2:
        kw["cty"] = rng.choice(["JWT", "text/plain"])
    if rng.random() < .25:
        kw["zip"] = "DEF"
    if rng.random() < .1:
        kw["x5t"] = "dGVzdA"
    if alg.startswith("EC") and rng.random() < .4:
        kw["apu"] = ref.b64e(gen.octets(rng, (1, 5, 16, 40)))
    return kw


def pair(i):
    return ref.ENC_ALGS[i % 10], ref.ENCS[(i // 10) % 6]


def g_here(ctx, i):
    """JWE().encrypt with the public key, all pairs in turn"""
    rng = ctx.rng
    alg, enc = pair(i)
    for _ in range(1 if enc.endswith("GCM") else 4):
        key = gen.enc_key(rng, alg, enc)
        msg, octs = plaintext(rng)
        kid = rng.choice([None, None, "k1", "\u00e5\u2603"])
        meta = {"kid": kid} if kid else {}
        if rng.random() < .2:
            meta["use"] = "enc"
        if rng.random() < .2:
            meta["alg"] = alg
        private = key["kty"] == "oct" or rng.random() < .3
        lk = gen.lib_key(rng, key if private else gen.public(key), private, **meta)
        if not private:
            ctx.event("public key only")
        kw = options(rng, alg)
        if kid and rng.random() < .4:
            kw["kid"] = kid
        ctx.case("here", alg, enc, gen.ident(key), kw, octs)
        want = dict(kw, alg=alg, enc=enc)
        own = alg[0] == "R" and rng.random() < .3
        if own:
            # the recipient's key belongs to the object; any of its forms
            kw["jwk"] = rng.choice([
                lambda: lk, lambda: ref.jwk(key, private, **meta),
                lambda: json.dumps(ref.jwk(key, private, **meta))])()
            want["jwk"] = ref.jwk(key, False, **meta)
        j = JWE(msg, alg=alg, enc=enc, **kw)
        if own and rng.random() < .7:
            ctx.event("no keys handed over")
            token = ctx.must("encrypt", j.encrypt)
        else:
            token = ctx.must("encrypt", j.encrypt, keyset(rng, lk))
        if kid:
            want["kid"] = kid
        if alg.startswith("EC"):
            ctx.event("party info")
        check_made(ctx, token, key, octs, want, "JWE")
        ctx.event("pairs")
        m2 = meta if rng.random() < .6 else {"kid": kid}
        open_here(ctx, token, key, octs, m2, "made here")
        if own:
            v = ctx.must("decrypt", JWE(jwk=gen.lib_key(rng, key, True, **m2)).decrypt, token)
            ctx.check(v == octs, "decrypted octets differ", mechanism="plaintext own key",
                      got=v, expected=octs, token=token)
        if rng.random() < .3 and not enc.endswith("GCM"):
            # the same object once more
            token = ctx.must("encrypt again", j.encrypt, keyset(rng, lk))
            check_made(ctx, token, key, octs, want, "JWE again")
            open_here(ctx, token, key, octs, m2, "made here again")


def g_there(ctx, i):
    """made by the reference"""
    rng = ctx.rng
    alg, enc = pair(i)
    for _ in range(1 if enc.endswith("GCM") else 4):
        key = gen.enc_key(rng, alg, enc)
        _, octs = plaintext(rng)
        h = {"alg": alg, "enc": enc}
        kid = rng.choice([None, None, "k1", "\u2603"])
        meta = {"kid": kid} if kid else {}
        if kid and rng.random() < .7:
            h["kid"] = kid
        if rng.random() < .3:
            h["typ"] = rng.choice(["JWT", "JOSE", "jwe"])
        if rng.random() < .3:
            h["cty"] = "JWT"
        if rng.random() < .3:
            h["x"] = [{"y": None}]
        if rng.random() < .25:
            h["zip"] = "DEF"
            ctx.event("compressed")
        eph = None
        if alg.startswith("EC"):
            if rng.random() < .5:
                h["apu"] = ref.b64e(gen.octets(rng, (0, 1, 5, 16, 64)))
                ctx.event("party info")
            if rng.random() < .5:
                h["apv"] = ref.b64e(gen.octets(rng, (0, 1, 5, 16, 64)))
                ctx.event("party info")
            c = ref.CURVES[key["crv"]]
            eph = rng.choice([None, None, 1, 2, c.n - 1, rng.randrange(1, 1 << 40)])
            if eph and rng.random() < .3:
                # a shared secret or ephemeral coordinate with leading zeros
                for _ in range(600):
                    eph = rng.randrange(1, c.n)
                    if c.mul(eph)[rng.randrange(2)] >> (c.p.bit_length() - 9) == 0:
                        break
        cek = rng.choice([None, b"\0" * 8 + rng.randbytes(ref.CEK_LEN[enc] - 8),
                          bytes(ref.CEK_LEN[enc])])
        iv = rng.choice([None, b"\0\0" + rng.randbytes(ref.IV_LEN[enc] - 2),
                         bytes(ref.IV_LEN[enc])])
        if rng.random() < .3:
            items = list(h.items())
            rng.shuffle(items)
            h = dict(items)
        token = ref.jwe(h, octs, key, rng, cek=cek, iv=iv, eph=eph)
        ctx.case("there", h, gen.ident(key), octs, token)
        ctx.event("made by reference")
        open_here(ctx, token, key, octs, meta, "made there")


def g_large(ctx, i):
    """large plaintexts and headers, in both directions"""
    rng = ctx.rng
    alg = ref.ENC_ALGS[i % 10]
    cbc, gcm = ref.ENCS[:3], ref.ENCS[3:]
    if "GCM" in cbc[0]:
        cbc, gcm = gcm, cbc
    slow = rng.random() < .2
    enc = rng.choice(gcm if slow else cbc)
    key = gen.enc_key(rng, alg, enc)
    lk = gen.lib_key(rng, key, True)
    octs = gen.big_octets(rng, 9000 if slow else 2200000)
    msg = octs
    if rng.random() < .2 and not slow:
        msg = gen.big_text(rng)
        octs = msg.encode("utf-8")
    kw = {}
    if rng.random() < .6:
        kw["zip"] = "DEF"
    meta = {}
    if rng.random() < .5:        # a header above 8 KiB
        meta["kid"] = kw["kid"] = gen.big_text(rng, 3000 if slow else 40000)
        lk.kid = meta["kid"]
    if alg.startswith("EC") and rng.random() < .5:
        kw["apu"] = ref.b64e(gen.big_octets(rng, 3000 if slow else 20000))
    want = dict(kw, alg=alg, enc=enc)
    ctx.case("large", alg, enc, gen.ident(key), kw, octs)
    ctx.event("large")
    token = ctx.must("encrypt", JWE(msg, alg=alg, enc=enc, **kw).encrypt, keyset(rng, lk))
    check_made(ctx, token, key, octs, want, "JWE large")
    open_here(ctx, token, key, octs, meta, "made here")
    h = dict(kw, alg=alg, enc=enc)
    if alg.startswith("EC") and rng.random() < .5:
        h["apv"] = ref.b64e(gen.big_octets(rng, 3000 if slow else 20000))
    if rng.random() < .3:
        h["x"] = ["y"] * rng.choice([300, 3000])
    token = ref.jwe(h, octs, key, rng)
    open_here(ctx, token, key, octs, meta, "made there")


def g_classes(ctx, i):
    """the classes for one kind of key, and given CEK and IV"""
    rng = ctx.rng
    alg, enc = ref.ENC_ALGS[i % 10], ref.ENCS[(i // 10) % 3]
    if rng.random() < .15:
        enc = rng.choice(ref.ENCS[3:])
    msg, octs = plaintext(rng)
    key = gen.enc_key(rng, alg, enc)
    kw = {"zip": "DEF"} if rng.random() < .2 and alg[0] == "R" else {}
    want = dict(kw, alg=alg, enc=enc)
    ctx.case("class", want, gen.ident(key), octs)
    cek = rng.randbytes(ref.CEK_LEN[enc])
    iv = rng.choice([b"\0", b""]) + rng.randbytes(ref.IV_LEN[enc])
    iv = iv[:ref.IV_LEN[enc]]
    k = rng.randrange(3)
    if alg[0] == "R":
        lk = gen.lib_key(rng, gen.public(key), False)
        prv = gen.lib_key(rng, key, True)
        j = JWE_RSA(msg, alg=alg, enc=enc, **kw)
        if k == 0:
            token = ctx.must("encrypt", j.encrypt, lk.get_key(), iv=iv)
            info = check_made(ctx, token, key, octs, want, "JWE_RSA iv")
            ctx.check(info and info["iv"] == iv, "the IV given is not used", mechanism="iv",
                      token=token)
        elif k == 1:
            # a key both sides have already: no encrypted key
            token = ctx.must("encrypt", JWE(msg, alg=alg, enc=enc, **kw).encrypt, [lk],
                             cek=cek, iv=iv)
            h, o = gen.parse(token)
            ctx.event("made here")
            ctx.check(o[1] == b"" and o[2] == iv and h["alg"] == alg and h["enc"] == enc,
                      "the CEK and IV given are not used", mechanism="given cek", header=h)
            try:
                pt = ref.content_decrypt(enc, cek, iv, token.split(".")[0].encode(), o[3], o[4])
                pt = ref.zlib.decompress(pt, -15) if "zip" in h else pt
            except (ref.Bad, ref.zlib.error) as err:
                pt = err
            ctx.check(pt == octs, "the CEK given does not decrypt", mechanism="given cek",
                      got=pt)
            v = ctx.must("decrypt", JWE().decrypt, token, [prv], cek=cek)
            ctx.check(v == octs, "decrypted octets differ", mechanism="given cek", got=v)
            v = ctx.must("decrypt", JWE_RSA().decrypt, token, prv.get_key(), cek=cek)
            ctx.check(v == octs, "decrypted octets differ", mechanism="given cek", got=v)
            ctx.event("opened here", 2)
            return
        else:
            token = ctx.must("encrypt", j.encrypt, lk.get_key())
            check_made(ctx, token, key, octs, want, "JWE_RSA")
        v = ctx.must("decrypt", JWE_RSA().decrypt, token, prv.get_key())
    elif alg[0] == "A":
        key = {"kty": "oct", "k": rng.choice([b"\0", b""]) + rng.randbytes(32)}
        key["k"] = key["k"][:int(alg[1:4]) // 8]
        lk = gen.lib_key(rng, key)
        j = JWE_SYM(msg, alg=alg, enc=enc)
        a = {}
        if k:
            a["iv"] = iv
        if k == 2:
            a["cek"] = cek
        if rng.random() < .3:
            a["kid"] = want["kid"] = "some"
        token = ctx.must("encrypt", j.encrypt, rng.choice([lk, key["k"]]), **a)
        info = check_made(ctx, token, key, octs, want, "JWE_SYM", kek=key["k"])
        ctx.check(not info or (k < 1 or info["iv"] == iv) and (k < 2 or info["cek"] == cek),
                  "the CEK and IV given are not used", mechanism="given cek", token=token)
        v = ctx.must("decrypt", JWE_SYM().decrypt, token, rng.choice([lk, key["k"]]))
        ctx.check(v == octs, "decrypted octets differ", mechanism="JWE_SYM", got=v)
        v = ctx.must("decrypt", JWE_SYM().decrypt, token, None, cek=info["cek"] if info
                     else cek)
    else:
        lk = gen.lib_key(rng, gen.public(key), False)
        prv = gen.lib_key(rng, key, True)
        j = JWE_EC(msg, alg=alg, enc=enc)
        a = {}
        if rng.random() < .5:
            a["apu"] = want["apu"] = ref.b64e(b"Alice")
        if rng.random() < .5:
            a["apv"] = want["apv"] = ref.b64e(b"Bob")
        if rng.random() < .3:
            a = dict((m, x.encode()) for m, x in a.items())  # apu, apv
        if k:
            a["iv"] = iv
        if k == 2 and alg != "ECDH-ES":
            a["cek"] = cek
        got = ctx.must("enc_setup", j.enc_setup, msg, "", key=lk, **a)
        c, ek, v_iv, params, epk = got
        ctx.check(v_iv == a.get("iv", v_iv) and c == a.get("cek", c),
                  "the CEK and IV given are not used", mechanism="given cek EC")
        token = ctx.must("encrypt", j.encrypt, lk, iv=v_iv, cek=c, params=params,
                         encrypted_key=ek)
        info = check_made(ctx, token, key, octs, want, "JWE_EC")
        ctx.check(not info or info["cek"] == c and info["iv"] == v_iv,
                  "the CEK set up is not the one used", mechanism="JWE_EC cek", token=token)
        jwt = JWEnc().unpack(token)
        d = JWE_EC(**jwt.headers)
        c2 = ctx.must("dec_setup", d.dec_setup, jwt, key=prv)
        ctx.check(c2 == c, "the two sides do not agree on the CEK", mechanism="JWE_EC cek")
        v = ctx.must("decrypt", d.decrypt, token)
    ctx.event("opened here")
    ctx.check(v == octs, "decrypted octets differ", mechanism="class", got=v, expected=octs,
              token=token)


def g_parts(ctx, i):
    """the encrypters of a content key, and the keys made of a shared secret"""
    rng = ctx.rng
    # a shared secret of any length (OpenID Connect Core, section 10.2)
    secret = gen.octets(rng) or b"s"
    if rng.random() < .3:
        secret = gen.text(rng).encode("utf-8") or b"s"
    lk = gen.lib_key(rng, {"kty": "oct", "k": secret})
    for alg, h, n in [("A128KW", "sha256", 16), ("A192KW", "sha256", 24),
                      ("A256KW", "sha256", 32), ("HS256", "sha256", 32),
                      ("HS384", "sha384", 48), ("HS512", "sha512", 64)]:
        got = ctx.must("encryption_key", lk.encryption_key, alg=alg,
                       **({"private": True} if rng.random() < .5 else {}))
        ctx.case("encryption_key", alg, secret)
        ctx.check(got == hashlib.new(h, secret).digest()[:n],
                  "the key made of a shared secret is another", mechanism="encryption_key",
                  alg=alg, secret=secret, got=got)
    if i % 4:
        return
    key = rng.choice([k for k in gen.RSAK if ref.rsa_k(k["n"]) >= 128])
    prv, pub = gen.lib_key(rng, key, True).get_key(), \
        gen.lib_key(rng, gen.public(key), False).get_key()
    size = ref.rsa_k(key["n"])
    for digest in (False, True):
        e = RSAEncrypter(digest) if digest or rng.random() < .5 else RSAEncrypter()
        most = size - 11 - (20 if digest else 0)
        for pad, alg, limit in [("pkcs1_padding", "RSA1_5", most),
                                ("pkcs1_oaep_padding", "RSA-OAEP", size - 42),
                                ("pkcs1_oaep_256_padding", "RSA-OAEP-256", size - 66)]:
            m = rng.choice([b"\0", b"", b"x"]) + gen.octets(rng)
            m = (m or b"y")[:limit]
            if rng.random() < .1:
                m = rng.randbytes(limit)
            ct = ctx.must("rsa encrypt", e.encrypt, m, pub, pad)
            ctx.case("rsa", alg, digest, m)
            back = ctx.must("rsa decrypt", e.decrypt, ct, prv, pad)
            ctx.check(back == m, "decrypted octets differ", mechanism="RSAEncrypter",
                      padding=pad, with_digest=digest, got=back, expected=m)
            ctx.check(ref.rsa_decrypt(alg, ct, key)[:len(m)] == m,
                      "the reference does not decrypt it", mechanism="RSAEncrypter", padding=pad)
            if digest and pad == "pkcs1_padding":
                continue
            bad = bytearray(ct)
            bad[rng.randrange(size)] ^= 1 << rng.randrange(8)
            out = ctx.call("rsa decrypt bad", e.decrypt, bytes(bad), prv, pad)
            ctx.event("altered encrypted key")
            ctx.check(not out.ok or out.value != m, "an altered encrypted key still decrypts",
                      mechanism="RSAEncrypter altered", outcome=out)
        # the digest behind the key is the sender's and the recipient's affair
        enc = rng.choice(ref.ENCS[:3])
        msg = gen.octets(rng)
        j = JWE_RSA(msg, digest, alg="RSA1_5", enc=enc)
        token = ctx.must("encrypt", j.encrypt, pub)
        for reader in (True, False):
            d = JWE_RSA(with_digest=reader)
            out = ctx.call("decrypt digest", d.decrypt, token, prv)
            ctx.case("with_digest", digest, reader, token)
            if reader == digest:
                ctx.check(out.ok and out.value == msg, "decrypted octets differ",
                          mechanism="with_digest", outcome=out)
            else:
                ctx.check(not out.ok, "a key without (or with) a digest is taken for the other",
                          mechanism="with_digest mixed", outcome=out)


def g_refused(ctx, i):
    """what can not be done is refused, not done in another way"""
    rng = ctx.rng
    for _ in range(6):
        alg, enc = rng.choice(ref.ENC_ALGS), rng.choice(ref.ENCS[:3])
        key = gen.RSAK[5] if alg[0] == "R" else gen.enc_key(rng, alg, enc)
        kw = {"alg": alg, "enc": enc}
        k = rng.randrange(6)
        given = {}
        if k == 0:
            kw["alg"] = rng.choice(["dir", "RSA", "RSA-OAEP-512", "A512KW", "A128GCMKW",
                                    "ECDH-ES+A512KW", "ECDH", "none", "RS256", "PBES2-HS256",
                                    "", "a128kw"])
        elif k == 1:
            kw["enc"] = rng.choice(["A128CBC", "A128CBC-HS512", "A512GCM", "none", "",
                                    "a128gcm", "A128CTR", "HS256"])
        elif k == 2:
            kw["zip"] = rng.choice(["def", "GZIP", "ZIP", "DEFLATE"])
        elif k == 3:
            # a content key or IV that is not of the size that is announced
            kw["alg"] = alg = rng.choice(ref.ENC_ALGS[:6])
            kw["enc"] = enc = rng.choice(ref.ENCS)
            key = gen.RSAK[5] if alg[0] == "R" else gen.enc_key(rng, alg, enc)
            given["cek"] = rng.randbytes(rng.choice(
                [n for n in (1, 8, 16, 24, 32, 48, 64, 72) if n != ref.CEK_LEN[enc]]))
            if rng.random() < .3:
                given["iv"] = rng.randbytes(ref.IV_LEN[enc])
        elif k == 4:
            kw["alg"] = alg = rng.choice(ref.ENC_ALGS[:6])
            kw["enc"] = enc = rng.choice(ref.ENCS)
            key = gen.RSAK[5] if alg[0] == "R" else gen.enc_key(rng, alg, enc)
            given["iv"] = rng.randbytes(rng.choice(
                [n for n in (1, 8, 11, 12, 13, 15, 16, 17, 24) if n != ref.IV_LEN[enc]]))
            if rng.random() < .3:
                given["cek"] = rng.randbytes(ref.CEK_LEN[enc])
        else:
            # a key of another kind only
            other = [a for a in ref.ENC_ALGS if a[0] != alg[0]]
            key = gen.enc_key(rng, rng.choice(other), enc)
        lk = gen.lib_key(rng, key, True)
        ctx.case("refused", kw, gen.ident(key), given)
        ctx.event("must refuse")
        out = ctx.call("encrypt odd", JWE(b"secret", **kw).encrypt, [lk], **given)
        ctx.check(not out.ok, "an unsupported way of encrypting is not refused",
                  mechanism="refused", kw=kw, given=given, outcome=out, key=gen.ident(key))


def g_again(ctx, i):
    """one object encrypts and decrypts several messages; what it did before does not matter"""
    rng = ctx.rng
    j = JWE()
    keys, made = [], []
    for n in range(4):
        alg, enc = rng.choice(ref.ENC_ALGS), rng.choice(ref.ENCS[:3] * 3 + ref.ENCS[3:])
        key = gen.enc_key(rng, alg, enc)
        kid = rng.choice(["", "k%d" % n])
        h = dict({"alg": alg, "enc": enc}, **({"kid": kid} if kid else {}))
        if rng.random() < .3:
            h["zip"] = "DEF"
        if alg.startswith("EC") and rng.random() < .5:
            h["apu"] = ref.b64e(gen.octets(rng, (1, 5, 16)))
        octs = gen.octets(rng)
        lk = gen.lib_key(rng, key, True, **({"kid": kid} if kid else {}))
        if rng.random() < .6:
            t = ref.jwe(h, octs, key, rng)
        else:
            kw = dict((m, v) for m, v in h.items() if m != "apu")
            t = ctx.must("encrypt", JWE(octs, **kw).encrypt, [lk])
        keys.append(lk)
        made.append((t, octs, lk))
    order = [rng.choice(made) for _ in range(7)]
    ctx.case("again", order)
    for n, (t, octs, lk) in enumerate(order):
        if rng.random() < .2:
            ctx.call("in vain", j.decrypt, t[:-3], keys)
        if rng.random() < .2:
            ctx.call("in vain", j.decrypt, t, keys, alg="RSA")
        out = ctx.call("decrypt", j.decrypt, t, rng.choice([[lk], keys]))
        ctx.event("opened here")
        ctx.check(out.ok and out.value == octs, "an object that was used before does not decrypt "
                  "a good token", mechanism="again", token=t, outcome=out, expected=octs,
                  before=order[:n])
    # one object encrypts to one recipient after another
    alg, enc = pair(i)
    octs = gen.octets(rng)
    j = JWE(octs, alg=alg, enc=enc)
    for n in range(2 if enc.endswith("GCM") else 4):
        key = gen.enc_key(rng, alg, enc)
        kid = rng.choice(["", "s%d" % n, "s0"])
        meta = {"kid": kid} if kid else {}
        lk = gen.lib_key(rng, key, True, **meta)
        ctx.case("encrypt again", alg, enc, gen.ident(key), meta)
        t = ctx.must("encrypt again", j.encrypt, [lk])
        check_made(ctx, t, key, octs, dict(meta, alg=alg, enc=enc), "JWE again")
        open_here(ctx, t, key, octs, meta, "made here again")


GROUPS = [Group("again", g_again, 40, 900),
          Group("here", g_here, 120, 2400), Group("there", g_there, 120, 2400),
          Group("classes", g_classes, 90, 2400), Group("refused", g_refused, 40, 600),
          Group("parts", g_parts, 60, 2000), Group("large", g_large, 20, 500)]
CHUNK = 6
GROUPS = boost(GROUPS, 3)
