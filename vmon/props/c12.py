"""C12: content encryption and key wrap primitives match the standards."""
import hmac

from Cryptodome.Cipher import AES

from vmon import gen, ref
from vmon.core import Group
from jwkest.aes_gcm import AES_GCM, InvalidInputException
from jwkest.aes_key_wrap import (aes_unwrap_key, aes_unwrap_key_withpad, aes_wrap_key,
                                 aes_wrap_key_withpad)
from jwkest.extra import aes_cbc_hmac_decrypt, aes_cbc_hmac_encrypt

RULE = ("A case is one primitive operation: an encryption or wrapping compared octet by octet "
        "with the reference, a decryption or unwrapping of reference output, or an altered "
        "or ill-sized input. Non-trivial: distinct (key, input).")
MINIMUM = {"gcm made": 300, "gcm altered": 900, "cbc made": 300, "cbc altered": 1500,
           "kw made": 300, "kw altered": 1200, "leading zero": 60, "kin": 1000, "gcm long": 14, "iv reuse": 50,
           "other initial value": 150}
ASSUME = ["Cryptodome's AES and GCM and hashlib's HMAC are right",
          "the padded key wrap is the openssl one (always at least one octet of padding)"]
LENS = (0, 1, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 64, 100, 127, 128, 129, 255, 256, 257,
        1000, 4096)


def aad_of(rng, big=0):
    if rng.random() < .3:
        return ref.b64e(ref.jdump({"alg": "dir", "enc": "A128GCM"})).encode()
    if big and rng.random() < .04:   # the length in bits does not fit into 16 bits
        return gen.big_octets(rng, big)
    return gen.octets(rng, LENS)


def g_gcm(ctx, i):
    rng = ctx.rng
    klen = (16, 24, 32)[i % 3]
    key = rng.randbytes(klen)
    if rng.random() < .15:
        key = b"\0" + key[1:]
    as_int = klen == 16 and rng.random() < .2
    g = ctx.must("AES_GCM", AES_GCM, ref.o2i(key) if as_int else key)
    if rng.random() < .2:           # a cipher object can be given another key
        key = rng.randbytes(klen)
        ctx.must("change_key", g.change_key, key)
    ivs = []
    fixed = [b"\0" * 12, b"\0" * 11 + b"\1", b"\xff" * 12, b"\0" * 8 + b"\xff" * 4]
    for j in range(14):
        iv = fixed.pop() if fixed and rng.random() < .3 else rng.randbytes(12)
        if rng.random() < .15:
            iv = b"\0" * rng.randrange(1, 8) + iv[8:]
            iv = iv + rng.randbytes(12 - len(iv))
        if iv in ivs:
            continue
        pt, aad = gen.octets(rng, LENS), aad_of(rng, 9000 if rng.random() < .3 else 0)
        if rng.random() < .02:
            pt = rng.randbytes(70000)
        if iv[0] == 0:
            ctx.event("leading zero")
        ct, tag = ref.gcm_encrypt(key, iv, aad, pt)
        n = ref.o2i(iv)
        ctx.case("gcm", key, iv, aad, pt)
        args = (n, pt, aad) if aad or rng.random() < .5 else (n, pt)
        gct, gtag = ctx.must("gcm encrypt", g.encrypt, *args)
        ctx.event("gcm made")
        ctx.check(gct == ct and gtag == ref.o2i(tag), "AES-GCM output differs from the "
                  "standard's", mechanism="gcm encrypt", key=key.hex(), iv=iv.hex(),
                  aad=aad.hex(), pt=pt.hex(), got=(gct, gtag), expected=(ct, tag.hex()))
        args = (n, ct, ref.o2i(tag), aad) if aad or rng.random() < .5 else \
            (n, ct, ref.o2i(tag))
        back = ctx.must("gcm decrypt", g.decrypt, *args)
        ctx.check(back == pt, "AES-GCM does not give the plaintext back",
                  mechanism="gcm decrypt", got=back, pt=pt)
        ivs.append(iv)
        # reuse, at once or later, is not silent; decryption is not concerned
        if rng.random() < .5:
            old = rng.choice([iv, rng.choice(ivs)])
            out = ctx.call("gcm reuse", g.encrypt, ref.o2i(old), b"other", b"")
            ctx.event("iv reuse")
            ctx.check(not out.ok and isinstance(out.exc, InvalidInputException),
                      "an IV was reused silently", mechanism="iv reuse", outcome=out,
                      iv=old.hex(), last=old == iv)
        for _ in range(4):
            a, c, t, v = aad, ct, ref.o2i(tag), n
            k = rng.randrange(6)
            if k == 0:
                what, a = gen.mut_octets(rng, aad)
            elif k == 1:
                what, c = gen.mut_octets(rng, ct)
            elif k == 2:
                what, t = "bit", t ^ (1 << rng.randrange(128))
            elif k == 3:
                what, v = "bit", v ^ (1 << rng.randrange(96))
            elif k == 4:
                what, t = "tag", rng.choice([0, 1, t >> 8, t >> 32, t & (2**96 - 1),
                                             t & (2**32 - 1), t ^ (2**128 - 1), t + 1,
                                             t + 2**128, t << 8])
                if t == ref.o2i(tag):
                    continue
            else:
                what = "aad moved"
                if len(aad) < 16 or aad[-16:] == b"\0" * 16:
                    continue
                a, c = aad[:-16], aad[-16:] + ct
            ctx.event("gcm altered")
            ctx.case("gcm altered", key, v, a, c, t)
            out = ctx.call("gcm altered", g.decrypt, v, c, t, a)
            ctx.check(not out.ok, "altered AES-GCM input is not refused",
                      mechanism="gcm altered %d" % k, what=what, outcome=out)
    # the same IV is good again after a change of key
    if ivs:
        key2 = rng.randbytes(klen)
        ctx.must("change_key", g.change_key, key2)
        iv = rng.choice(ivs)
        out = ctx.must("gcm encrypt", g.encrypt, ref.o2i(iv), b"x" * 20, b"a")
        ct, tag = ref.gcm_encrypt(key2, iv, b"a", b"x" * 20)
        ctx.check(out == (ct, ref.o2i(tag)), "AES-GCM output after a change of key",
                  mechanism="gcm change_key")
    for v in (1 << 96, (1 << 96) + 5, 1 << 128):
        for fn, args in ((g.encrypt, (v, b"x", b"")), (g.decrypt, (v, b"x", 0, b""))):
            out = ctx.call("gcm long iv", fn, *args)
            ctx.check(not out.ok, "an IV of more than 96 bits is not refused",
                      mechanism="gcm long iv", outcome=out)


def g_gcm_key(ctx, i):
    for n in (0, 1, 8, 15, 17, 20, 31, 33, 48, 64):
        out = ctx.call("gcm key", AES_GCM, ctx.rng.randbytes(n))
        ctx.case("gcm key", n)
        ctx.check(not out.ok, "a key of the wrong size is not refused",
                  mechanism="gcm key size", n=n)


def g_gcm_many(ctx, i):
    """very many keys in one process: none of them gets what was worked out for another"""
    rng = ctx.rng
    made = []
    for n in range(40 if ctx.tier == "quick" else 250):
        key, iv = rng.randbytes(rng.choice([16, 24, 32])), rng.randbytes(12)
        pt, aad = rng.randbytes(rng.choice([0, 1, 16, 20])), rng.randbytes(5)
        g = ctx.must("AES_GCM", AES_GCM, key)
        c = AES.new(key, AES.MODE_GCM, nonce=iv)
        c.update(aad)
        want = c.encrypt_and_digest(pt)
        ctx.case("gcm many", key, iv, pt)
        got = ctx.must("gcm encrypt", g.encrypt, int.from_bytes(iv, "big"), pt, aad)
        ctx.check((got[0], int(got[1])) == (want[0], int.from_bytes(want[1], "big")),
                  "AES-GCM output differs from SP 800-38D", mechanism="gcm output", n=n)
        made.append((g, iv, pt, aad, want))
    for g, iv, pt, aad, want in made[::7]:      # and the older ones are as they were
        got = ctx.must("gcm decrypt", g.decrypt, int.from_bytes(iv, "big"), want[0],
                       int.from_bytes(want[1], "big"), aad)
        ctx.check(got == pt, "AES-GCM decryption differs from SP 800-38D",
                  mechanism="gcm back", got=got)


def g_gcm_long(ctx, i):
    """long additional data and texts: lengths that do not fit into 16 to 21 bits"""
    rng = ctx.rng
    key, iv = rng.randbytes(rng.choice([16, 24, 32])), rng.randbytes(12)
    sizes = [8192, 65535, 65536, 65537, 70000, 131072, 131073]
    if ctx.tier != "quick":
        sizes += [262144, 262145, 524288, 1 << 20, (1 << 20) + 1]
    n = sizes[i // 2 % len(sizes)]
    rest = rng.choice([0, 1, 16, 40])
    aad, pt = rng.randbytes(n if i % 2 else rest), rng.randbytes(rest if i % 2 else n)
    c = AES.new(key, AES.MODE_GCM, nonce=iv)
    c.update(aad)
    ct, tag = c.encrypt_and_digest(pt)
    g = ctx.must("AES_GCM", AES_GCM, key)
    ctx.case("gcm long", key, iv, len(aad), len(pt))
    ctx.event("gcm long")
    if i // 2 // len(sizes) % 2:
        got = ctx.must("gcm decrypt", g.decrypt, ref.o2i(iv), ct, ref.o2i(tag), aad)
        ctx.check(got == pt, "AES-GCM of long input is not decrypted", mechanism="gcm long back",
                  sizes=(len(aad), len(pt)))
        return
    got = ctx.must("gcm encrypt", g.encrypt, ref.o2i(iv), pt, aad)
    ctx.check((got[0], int(got[1])) == (ct, ref.o2i(tag)),
              "AES-GCM output for long input differs from the standard's",
              mechanism="gcm long", sizes=(len(aad), len(pt)))


def g_cbc(ctx, i):
    rng = ctx.rng
    klen = (32, 48, 64)[i % 3]
    half, h = ref.CBC[klen]
    for _ in range(10):
        key, iv = rng.randbytes(klen), rng.randbytes(16)
        if rng.random() < .15:
            key, iv = b"\0" + key[1:], b"\0\0" + iv[2:]
            ctx.event("leading zero")
        pt, aad = gen.octets(rng, LENS), aad_of(rng, 1 << 20)
        if rng.random() < .02:
            pt = gen.big_octets(rng, 1 << 20)
        if rng.random() < .1:        # plaintext that looks padded
            n = rng.randrange(1, 17)
            pt = pt + bytes([n]) * n
        ct, tag = ref.cbc_encrypt(key, iv, aad, pt)
        ctx.case("cbc", key, iv, aad, pt)
        ctx.event("cbc made")
        got = ctx.must("cbc encrypt", aes_cbc_hmac_encrypt, key, iv, aad, pt)
        ctx.check(tuple(got) == (ct, tag), "AES-CBC+HMAC output differs from the standard's",
                  mechanism="cbc encrypt", klen=klen, aad=aad.hex(), pt=pt.hex(), got=got)
        back = ctx.must("cbc decrypt", aes_cbc_hmac_decrypt, key, iv, aad, ct, tag)
        ctx.check(back == pt, "AES-CBC+HMAC does not give the plaintext back",
                  mechanism="cbc decrypt", got=back, pt=pt)
        for _ in range(8):
            k2, v, a, c, t = key, iv, aad, ct, tag
            k = rng.randrange(8)
            what = "moved"
            if k == 0:
                what, a = gen.mut_octets(rng, aad)
            elif k == 1:
                what, c = gen.mut_octets(rng, ct)
            elif k == 2:
                what, t = gen.mut_octets(rng, tag)
            elif k == 3:
                what, v = gen.mut_octets(rng, iv)
            elif k == 4:
                k2 = key[half:] + key[:half]
                what = "halves of the key swapped"
            elif k == 5:            # the text that is authenticated stays the same
                if not aad:
                    continue
                n = rng.randrange(1, min(16, len(aad)) + 1)
                m = aad + iv + ct
                a, v, c = m[:len(aad) - n], m[len(aad) - n:len(aad) - n + 16], \
                    m[len(aad) - n + 16:]
                what = "aad moved into iv"
            elif k == 6:
                m = aad + iv + ct
                if len(ct) < 32:
                    continue
                a, v, c = m[:len(aad) + 16], m[len(aad) + 16:len(aad) + 32], ct[16:]
                what = "ciphertext moved into aad"
            else:
                what = "other tag"
                full = hmac.new(key[:half], aad + iv + ct + ref.i2o(8 * len(aad), 8),
                                ref.HASH[h]).digest()
                t = rng.choice([full, full[half:], full[:half // 2],
                                hmac.new(key[:half], aad + iv + ct + ref.i2o(len(aad), 8),
                                         ref.HASH[h]).digest()[:half],
                                hmac.new(key[:half], aad + iv + ct,
                                         ref.HASH[h]).digest()[:half],
                                hmac.new(key[half:], aad + iv + ct +
                                         ref.i2o(8 * len(aad), 8),
                                         ref.HASH[h]).digest()[:half]])
                if t == tag:
                    continue
            ctx.event("cbc altered")
            ctx.case("cbc altered", k2, v, a, c, t)
            out = ctx.call("cbc altered", aes_cbc_hmac_decrypt, k2, v, a, c, t)
            ctx.check(not out.ok, "altered AES-CBC+HMAC input is not refused",
                      mechanism="cbc altered %d" % k, what=what, outcome=out)
        # mal-formed padding under a right tag, and ciphertext of no blocks
        last = rng.choice([0, 17, 18, 255, 128])
        block = rng.randbytes(15) + bytes([last])
        if rng.random() < .5:
            n = rng.randrange(2, 17)
            block = rng.randbytes(16 - n) + bytes([n ^ 1]) + bytes([n]) * (n - 1)
        body = rng.randbytes(16 * rng.randrange(3)) + block
        bct = AES.new(key[half:], AES.MODE_CBC, iv).encrypt(body)
        for c in (bct, b"", bct + b"x", bct[:-1]):
            t = hmac.new(key[:half], aad + iv + c + ref.i2o(8 * len(aad), 8),
                         ref.HASH[h]).digest()[:half]
            out = ctx.call("cbc padding", aes_cbc_hmac_decrypt, key, iv, aad, c, t)
            ctx.event("cbc altered")
            ctx.case("cbc padding", key, iv, c)
            ctx.check(not out.ok, "mal-formed padding is not refused",
                      mechanism="cbc padding", outcome=out, body=body.hex(), n=len(c))
    for n in (0, 1, 15, 16, 24, 31, 33, 47, 49, 63, 65, 128):
        k2 = rng.randbytes(n)
        for fn, args in ((aes_cbc_hmac_encrypt, (k2, iv, b"", b"x")),
                         (aes_cbc_hmac_decrypt, (k2, iv, b"", ct, tag))):
            out = ctx.call("cbc key size", fn, *args)
            ctx.check(not out.ok, "a key of the wrong size is not refused",
                      mechanism="cbc key size", n=n)
    for n in (0, 8, 12, 15, 17, 32):
        v = rng.randbytes(n)
        out = ctx.call("cbc iv size", aes_cbc_hmac_encrypt, key, v, b"", b"x")
        ctx.check(not out.ok, "an IV of the wrong size is not refused",
                  mechanism="cbc iv size", n=n)


def g_kw(ctx, i):
    rng = ctx.rng
    klen = (16, 24, 32)[i % 3]
    for _ in range(10):
        kek = rng.randbytes(klen)
        n = rng.choice([16, 24, 32, 40, 48, 64, 72, 128, 256, 512, 1024])
        key = gen.octets(rng, (n,))
        if rng.random() < .2:
            key = b"\0" * 8 + key[8:]
        if key[0] == 0:
            ctx.event("leading zero")
        w = ref.kw_wrap(kek, key)
        ctx.case("kw", kek, key)
        ctx.event("kw made")
        got = ctx.must("wrap", aes_wrap_key, kek, key)
        ctx.check(got == w, "key wrap output differs from RFC 3394", mechanism="wrap",
                  kek=kek.hex(), key=key.hex(), got=got)
        back = ctx.must("unwrap", aes_unwrap_key, kek, w)
        ctx.check(back == key, "key unwrap does not give the key back",
                  mechanism="unwrap", got=back, key=key)
        iv = rng.getrandbits(64)
        if rng.random() < .3:
            wi = ctx.must("wrap", aes_wrap_key, kek, key, iv)
            ctx.check(ctx.must("unwrap", aes_unwrap_key, kek, wi, iv) == key,
                      "key wrap with another IV", mechanism="wrap iv")
            out = ctx.call("unwrap", aes_unwrap_key, kek, wi)
            ctx.check(not out.ok or iv == 0xa6a6a6a6a6a6a6a6, "a key wrapped with another "
                      "IV is not refused", mechanism="unwrap iv")
        for _ in range(6):
            what, bad = gen.mut_octets(rng, w)
            k2 = kek
            if rng.random() < .15:
                bad, (what, k2) = w, ("kek", bytes([kek[0] ^ 1]) + kek[1:])
            elif rng.random() < .15:
                # blocks reordered or repeated
                bl = [w[j:j + 8] for j in range(0, len(w), 8)]
                a, b = rng.sample(range(len(bl)), 2)
                bl[a], bl[b] = bl[b], bl[a]
                bad, what = b"".join(bl), "blocks swapped"
                if bad == w:
                    continue
            ctx.event("kw altered")
            ctx.case("kw altered", k2, bad)
            out = ctx.call("unwrap altered", aes_unwrap_key, k2, bad)
            ctx.check(not out.ok, "an altered wrapped key is not refused",
                      mechanism="unwrap altered", what=what, outcome=out)
        # what the two ways to hide half of the integrity check would let through
        body = ref.kw_unwrap(kek, w)
        for a in (b"\xa6" * 4 + b"\0" * 4, b"\0" * 4 + b"\xa6" * 4, b"\0" * 8,
                  b"\xa6" * 7 + b"\xa7", b"\xa7" + b"\xa6" * 7,
                  b"\xa6\x59\x59\xa6" + ref.i2o(len(body), 4)):
            wi = ctx.must("wrap", aes_wrap_key, kek, body, ref.o2i(a))
            ctx.event("kw altered")
            ctx.case("kw iv", kek, wi)
            out = ctx.call("unwrap altered", aes_unwrap_key, kek, wi)
            ctx.check(not out.ok, "a wrong integrity value is not refused",
                      mechanism="integrity value", a=a.hex(), outcome=out)
        # RFC 3394: n 64-bit blocks, n >= 2
        for m in (0, 1, 7, 8, 9, 15, 17, 20, 23, 25, 33):
            out = ctx.call("wrap size", aes_wrap_key, kek, rng.randbytes(m))
            ctx.event("kw altered")
            ctx.check(not out.ok, "key data of invalid length is not refused",
                      mechanism="wrap size", n=m, outcome=out)
            out = ctx.call("unwrap size", aes_unwrap_key, kek, rng.randbytes(m + 8))
            ctx.check(not out.ok, "a wrapped key of invalid length is not refused",
                      mechanism="unwrap size", n=m + 8, outcome=out)
        # a single block, or none, wrapped in the same way
        body = rng.randbytes(8)
        a, r = b"\xa6" * 8, body
        for t in range(1, 7):
            b = AES.new(kek, AES.MODE_ECB).encrypt(a + r)
            a, r = ref.i2o(ref.o2i(b[:8]) ^ t, 8), b[8:]
        for w1 in (b"\xa6" * 8, a + r, b""):
            out = ctx.call("unwrap size", aes_unwrap_key, kek, w1)
            ctx.check(not out.ok, "a wrapped key of invalid length is not refused",
                      mechanism="unwrap size", n=len(w1), outcome=out)
    for m in (0, 8, 15, 17, 20, 33, 64):
        out = ctx.call("kek size", aes_wrap_key, rng.randbytes(m), bytes(16))
        ctx.check(not out.ok, "a key encryption key of the wrong size is not refused",
                  mechanism="kek size", n=m)


def g_pad(ctx, i):
    rng = ctx.rng
    kek = rng.randbytes((16, 24, 32)[i % 3])
    for n in [rng.randrange(8, 80) for _ in range(8)] + [8, 16, 9, 15, 17, 255, 256, 257]:
        key = gen.octets(rng, (n,))
        if rng.random() < .3:
            key = key[:-2] + b"\0\0"        # zeros of its own at the end
        w = ctx.must("wrap padded", aes_wrap_key_withpad, kek, key)
        ctx.case("padded", kek, key)
        ctx.event("kw made")
        body = key + b"\0" * (8 - n % 8)
        a = b"\xa6\x59\x59\xa6" + ref.i2o(n, 4)
        r = ref.kw_unwrap(kek, w, check=False)
        ctx.check(r == body and ref_iv(kek, w) == a, "padded key wrap output",
                  mechanism="wrap padded", n=n, got=r, expected=body)
        back = ctx.must("unwrap padded", aes_unwrap_key_withpad, kek, w)
        ctx.check(back == key, "padded key unwrap does not give the key back",
                  mechanism="unwrap padded", got=back, key=key)
        for _ in range(3):
            what, bad = gen.mut_octets(rng, w)
            ctx.event("kw altered")
            ctx.case("padded altered", kek, bad)
            out = ctx.call("unwrap padded altered", aes_unwrap_key_withpad, kek, bad)
            ctx.check(not out.ok, "an altered wrapped key is not refused",
                      mechanism="unwrap padded altered", what=what, outcome=out)
        out = ctx.call("unwrap", aes_unwrap_key, kek, w)
        ctx.check(not out.ok, "a padded wrapped key is taken for a plain one",
                  mechanism="padded as plain", outcome=out)
        plain = ref.kw_wrap(kek, rng.randbytes(24))
        out = ctx.call("unwrap padded altered", aes_unwrap_key_withpad, kek, plain)
        ctx.check(not out.ok, "a plain wrapped key is taken for a padded one",
                  mechanism="plain as padded", outcome=out)
    # wrapped under this key, but with other initial values
    for _ in range(12):
        body = rng.randbytes(8 * rng.randrange(2, 9))
        a = rng.choice([
            bytes(8), b"\xff" * 8, bytes(4) + ref.i2o(len(body) - 1, 4), rng.randbytes(8),
            b"\xa6\x59\x59" + rng.randbytes(5), b"\x59\xa6\x59\xa6" + ref.i2o(9, 4),
            ref.i2o(9, 4) + b"\xa6\x59\x59\xa6", b"\xa6" * 7 + rng.randbytes(1),
            ref.i2o(rng.randrange(1 << rng.randrange(1, 64)), 8), b"\xa6" * 4 + bytes(4),
            b"\xa6\x59\xa6\x59" + ref.i2o(9, 4), b"\x0a\x65\x95\x9a\x60" + bytes(3)])
        if a[:4] == b"\xa6\x59\x59\xa6" or a == b"\xa6" * 8:
            continue
        w = wrap_with(kek, a, body)
        ctx.case("other initial value", a, kek, body)
        ctx.event("other initial value")
        for name, fn in (("unwrap padded", aes_unwrap_key_withpad), ("unwrap", aes_unwrap_key)):
            out = ctx.call(name + " other initial value", fn, kek, w)
            ctx.check(not out.ok, "a key wrapped with another initial value is not refused",
                      mechanism="initial value " + name, iv=a.hex(), outcome=out)


def wrap_with(kek, a, key):
    """RFC 3394 with any initial value"""
    r = [key[i:i + 8] for i in range(0, len(key), 8)]
    e = AES.new(kek, AES.MODE_ECB)
    for j in range(6):
        for i in range(len(r)):
            b = e.encrypt(a + r[i])
            a = ref.i2o(ref.o2i(b[:8]) ^ (len(r) * j + i + 1), 8)
            r[i] = b[8:]
    return a + b"".join(r)


def g_kin(ctx, i):
    """a series of operations on arguments that have much in common: what one came to
    must not decide about another"""
    rng = ctx.rng
    klen = (16, 24, 32)[i % 3]
    b = dict(key=rng.randbytes(64), iv=rng.randbytes(16), aad=rng.randbytes(40),
             pt=rng.randbytes(rng.choice([16, 32, 40, 64])), kek=rng.randbytes(32))
    done = []
    for j in range(60):
        if done and rng.random() < .7:
            b = dict(rng.choice(done))
        a = dict(b)
        for name in rng.sample(sorted(a), rng.choice([0, 1, 1, 1, 2])):
            a[name] = gen.kin(rng, a[name])
        done.append(a)
        n = rng.choice([klen, 16, 24, 32])
        op = rng.randrange(4)
        ctx.case("kin", op, n, sorted(a.items()))
        ctx.event("kin")
        if op == 0:
            w = ref.kw_wrap(a["kek"][:n], a["pt"])
            got = ctx.must("wrap", aes_wrap_key, a["kek"][:n], a["pt"])
            ctx.check(got == w, "key wrap output differs from RFC 3394",
                      mechanism="kin wrap", args=a, n=n, got=got)
            got = ctx.must("unwrap", aes_unwrap_key, a["kek"][:n], w)
            ctx.check(got == a["pt"], "key unwrap does not give the key back",
                      mechanism="kin unwrap", args=a, n=n, got=got)
            for k2 in {gen.kin(rng, a["kek"][:n]), a["kek"][:48 - n], a["kek"][:32]}:
                if k2 != a["kek"][:n] and len(k2) in (16, 24, 32):
                    out = ctx.call("unwrap", aes_unwrap_key, k2, w)
                    ctx.check(not out.ok, "an altered wrapped key is not refused",
                              mechanism="kin unwrap kek", outcome=out)
        elif op == 1:
            m = 2 * n
            key = a["key"][:m]
            e = ref.cbc_encrypt(key, a["iv"], a["aad"], a["pt"])
            got = ctx.must("cbc encrypt", aes_cbc_hmac_encrypt, key, a["iv"], a["aad"],
                           a["pt"])
            ctx.check(tuple(got) == e, "AES-CBC+HMAC output differs from the standard's",
                      mechanism="kin cbc encrypt", args=a, n=n, got=got)
            got = ctx.must("cbc decrypt", aes_cbc_hmac_decrypt, key, a["iv"], a["aad"], *e)
            ctx.check(got == a["pt"], "AES-CBC+HMAC does not give the plaintext back",
                      mechanism="kin cbc decrypt", got=got)
            o = rng.choice(done)
            args = (o["key"][:m], a["iv"], a["aad"]) if rng.random() < .4 else \
                (key, o["iv"], a["aad"]) if rng.random() < .5 else (key, a["iv"], o["aad"])
            if args != (key, a["iv"], a["aad"]):
                out = ctx.call("cbc altered", aes_cbc_hmac_decrypt, *(args + e))
                ctx.check(not out.ok, "altered AES-CBC+HMAC input is not refused",
                          mechanism="kin cbc altered", outcome=out)
        elif op == 2:
            key, iv = a["key"][:n], a["iv"][:12]
            ct, tag = ref.gcm_encrypt(key, iv, a["aad"], a["pt"])
            got = ctx.must("gcm encrypt", AES_GCM(key).encrypt, ref.o2i(iv), a["pt"],
                           a["aad"])
            ctx.check(got == (ct, ref.o2i(tag)), "AES-GCM output differs from the "
                      "standard's", mechanism="kin gcm encrypt", args=a, n=n, got=got)
            got = ctx.must("gcm decrypt", AES_GCM(key).decrypt, ref.o2i(iv), ct,
                           ref.o2i(tag), a["aad"])
            ctx.check(got == a["pt"], "AES-GCM does not give the plaintext back",
                      mechanism="kin gcm decrypt", got=got)
            o = rng.choice(done)
            if (o["key"][:n], o["aad"]) != (key, a["aad"]):
                out = ctx.call("gcm altered", AES_GCM(o["key"][:n]).decrypt, ref.o2i(iv), ct,
                               ref.o2i(tag), o["aad"])
                ctx.check(not out.ok, "altered AES-GCM input is not refused",
                          mechanism="kin gcm altered", outcome=out)
        else:
            w = ctx.must("wrap padded", aes_wrap_key_withpad, a["kek"][:n], a["pt"] + b"x")
            got = ctx.must("unwrap padded", aes_unwrap_key_withpad, a["kek"][:n], w)
            r = ref.kw_unwrap(a["kek"][:n], w, check=False)
            ctx.check(got == a["pt"] + b"x" and
                      r == got + b"\0" * (8 - len(got) % 8), "padded key unwrap",
                      mechanism="kin padded", args=a, n=n, got=got)


def ref_iv(kek, w):
    """the integrity value that unwrapping comes to"""
    a = w[:8]
    r = [w[i:i + 8] for i in range(8, len(w), 8)]
    e = AES.new(kek, AES.MODE_ECB)
    for j in range(5, -1, -1):
        for i in range(len(r) - 1, -1, -1):
            b = e.decrypt(ref.i2o(ref.o2i(a) ^ (len(r) * j + i + 1), 8) + r[i])
            a, r[i] = b[:8], b[8:]
    return a


GROUPS = [Group("gcm", g_gcm, 90, 3000), Group("gcm_key", g_gcm_key, 2, 20),
          Group("gcm_many", g_gcm_many, 5, 16), Group("gcm_long", g_gcm_long, 28, 96),
          Group("cbc", g_cbc, 60, 3000), Group("kw", g_kw, 48, 2400),
          Group("pad", g_pad, 30, 1200), Group("kin", g_kin, 24, 900)]
