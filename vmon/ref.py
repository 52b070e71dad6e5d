"""Independent reference for RFC 7515-7518, 7638, 3394, SP 800-38D and ECDSA.

Shares no code with jwkest. RSA is done with pow() and explicit encodings,
HMAC/hashes with hashlib/hmac, AES and curve points with Cryptodome.
"""
import hashlib
import hmac
import json
import math
import zlib

from Cryptodome.Cipher import AES
from Cryptodome.PublicKey.ECC import EccPoint

HASH = {"256": hashlib.sha256, "384": hashlib.sha384, "512": hashlib.sha512}
SIG_ALGS = ["HS256", "HS384", "HS512", "RS256", "RS384", "RS512",
            "PS256", "PS384", "PS512", "ES256", "ES384", "ES512"]
ENC_ALGS = ["RSA1_5", "RSA-OAEP", "RSA-OAEP-256", "A128KW", "A192KW", "A256KW",
            "ECDH-ES", "ECDH-ES+A128KW", "ECDH-ES+A192KW", "ECDH-ES+A256KW"]
ENCS = ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512",
        "A128GCM", "A192GCM", "A256GCM"]
CEK_LEN = {"A128CBC-HS256": 32, "A192CBC-HS384": 48, "A256CBC-HS512": 64,
           "A128GCM": 16, "A192GCM": 24, "A256GCM": 32}
IV_LEN = dict((e, 12 if e.endswith("GCM") else 16) for e in ENCS)
TAG_LEN = {"A128CBC-HS256": 16, "A192CBC-HS384": 24, "A256CBC-HS512": 32,
           "A128GCM": 16, "A192GCM": 16, "A256GCM": 16}
ES_CURVE = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
ALPHA = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"


class Bad(Exception):
    """The reference rejects."""


# -- base64url ---------------------------------------------------------------

def b64e(b):
    """octets -> text, written out with shifts rather than with base64"""
    out = []
    for i in range(0, len(b), 3):
        c = b[i:i + 3]
        n = int.from_bytes(c.ljust(3, b"\0"), "big")
        q = [ALPHA[(n >> s) & 63] for s in (18, 12, 6, 0)][:len(c) + 1]
        out.extend(q)
    return bytes(out).decode("ascii")


_REV = dict((c, i) for i, c in enumerate(ALPHA))


def b64d(t, strict=False):
    """text -> octets; padding allowed only if exact; strict: canonical bits"""
    b = t.encode("utf-8", "surrogatepass") if isinstance(t, str) else bytes(t)
    core = b.rstrip(b"=")
    pad = len(b) - len(core)
    if pad and (pad != -len(core) % 4 or len(core) % 4 == 1):
        raise Bad("padding")
    if len(core) % 4 == 1:
        raise Bad("length")
    n = bits = 0
    out = bytearray()
    for c in core:
        if c not in _REV:
            raise Bad("character")
        n = (n << 6) | _REV[c]
        bits += 6
        if bits >= 8:
            bits -= 8
            out.append((n >> bits) & 255)
            n &= (1 << bits) - 1
    if strict and n:
        raise Bad("non-canonical")
    return bytes(out)


def i2o(n, size=None):
    if size is None:
        size = max(1, (n.bit_length() + 7) // 8)
    return n.to_bytes(size, "big")


def o2i(b):
    return int.from_bytes(b, "big")


# -- curves ------------------------------------------------------------------

class Curve(object):
    def __init__(self, name, p, a, b, n, gx, gy):
        self.name, self.p, self.a, self.b, self.n = name, p, a, b, n
        self.g = (gx, gy)
        self.size = (p.bit_length() + 7) // 8

    def on(self, pt):
        x, y = pt
        return (0 <= x < self.p and 0 <= y < self.p and
                (y * y - (x * x * x + self.a * x + self.b)) % self.p == 0)

    def mul(self, k, pt=None):
        """k * pt, or None for the point at infinity"""
        if pt is None:
            pt = self.g
        k %= self.n
        if k == 0:
            return None
        q = EccPoint(pt[0], pt[1], self.name) * k
        return (int(q.x), int(q.y))

    def add(self, p1, p2):
        if p1 is None:
            return p2
        if p2 is None:
            return p1
        if p1[0] == p2[0] and (p1[1] + p2[1]) % self.p == 0:
            return None
        q = EccPoint(p1[0], p1[1], self.name) + EccPoint(p2[0], p2[1], self.name)
        return (int(q.x), int(q.y))

    def neg(self, pt):
        return None if pt is None else (pt[0], -pt[1] % self.p)

    def digest_int(self, dg):
        """leftmost bits of a digest, FIPS 186-4 section 6.4"""
        e = o2i(dg)
        extra = 8 * len(dg) - self.n.bit_length()
        return e >> extra if extra > 0 else e

    def sign(self, e, d, k):
        r = self.mul(k)[0] % self.n
        s = pow(k, -1, self.n) * (e + r * d) % self.n
        return r, s

    def verify(self, e, r, s, q):
        if not (0 < r < self.n and 0 < s < self.n):
            return False
        w = pow(s, -1, self.n)
        pt = self.add(self.mul(e * w % self.n), self.mul(r * w % self.n, q))
        return pt is not None and pt[0] % self.n == r

    def sqrt(self, v):
        y = pow(v % self.p, (self.p + 1) // 4, self.p)
        return y if y * y % self.p == v % self.p else None


def _c(name, p, b, n, gx, gy):
    return Curve(name, p, p - 3, b, n, gx, gy)


CURVES = {
    "P-256": _c(
        "P-256",
        2**256 - 2**224 + 2**192 + 2**96 - 1,
        0x5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b,
        0xffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551,
        0x6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296,
        0x4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5),
    "P-384": _c(
        "P-384",
        2**384 - 2**128 - 2**96 + 2**32 - 1,
        0xb3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef,
        0xffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973,
        0xaa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7,
        0x3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f),
    "P-521": _c(
        "P-521",
        2**521 - 1,
        0x051953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00,
        0x1fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409,
        0xc6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66,
        0x11839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650),
}

# -- RSA, by hand -------------------------------------------------------------

PREFIX = {"256": bytes.fromhex("3031300d060960864801650304020105000420"),
          "384": bytes.fromhex("3041300d060960864801650304020205000430"),
          "512": bytes.fromhex("3051300d060960864801650304020305000440")}


def rsa_k(n):
    return (n.bit_length() + 7) // 8


def rsa_crt(m, key):
    p, q = key["p"], key["q"]
    mp = pow(m % p, key["d"] % (p - 1), p)
    mq = pow(m % q, key["d"] % (q - 1), q)
    return mq + q * ((mp - mq) * pow(q, -1, p) % p)


def emsa_pkcs1(msg, h, k):
    t = PREFIX[h] + HASH[h](msg).digest()
    if k < len(t) + 11:
        raise Bad("key too short")
    return b"\0\1" + b"\xff" * (k - len(t) - 3) + b"\0" + t


def mgf1(seed, length, hf):
    out = b""
    c = 0
    while len(out) < length:
        out += hf(seed + c.to_bytes(4, "big")).digest()
        c += 1
    return out[:length]


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


def emsa_pss(msg, h, embits, salt, mgf=None):
    hf = HASH[h]
    emlen = (embits + 7) // 8
    mh = hf(msg).digest()
    if emlen < len(mh) + len(salt) + 2:
        raise Bad("key too short")
    hh = hf(b"\0" * 8 + mh + salt).digest()
    db = b"\0" * (emlen - len(salt) - len(mh) - 2) + b"\1" + salt
    m = bytearray(xor(db, mgf1(hh, len(db), HASH[mgf] if mgf else hf)))
    m[0] &= 0xff >> (8 * emlen - embits)
    return bytes(m) + hh + b"\xbc"


def pss_check(msg, em, h, embits):
    hf = HASH[h]
    emlen = (embits + 7) // 8
    hl = hf().digest_size
    if len(em) != emlen or emlen < 2 * hl + 2 or em[-1] != 0xbc:
        return False
    mdb, hh = em[:emlen - hl - 1], em[emlen - hl - 1:-1]
    unused = 8 * emlen - embits
    if mdb[0] >> (8 - unused) if unused else 0:
        return False
    db = bytearray(xor(mdb, mgf1(hh, len(mdb), hf)))
    db[0] &= 0xff >> unused
    ps = emlen - 2 * hl - 2        # RFC 7518: salt as long as the hash
    if any(db[:ps]) or db[ps] != 1:
        return False
    return hf(b"\0" * 8 + hf(msg).digest() + bytes(db[ps + 1:])).digest() == hh


def rsa_sign(alg, msg, key, rng):
    n = key["n"]
    h = alg[2:]
    if alg.startswith("RS"):
        em = emsa_pkcs1(msg, h, rsa_k(n))
    else:
        em = emsa_pss(msg, h, n.bit_length() - 1,
                      rng.randbytes(HASH[h]().digest_size))
    return i2o(rsa_crt(o2i(em), key), rsa_k(n))


def rsa_verify(alg, msg, sig, key):
    n, e = key["n"], key["e"]
    if len(sig) != rsa_k(n) or o2i(sig) >= n:
        return False
    m = pow(o2i(sig), e, n)
    h = alg[2:]
    if alg.startswith("RS"):
        try:
            return i2o(m, rsa_k(n)) == emsa_pkcs1(msg, h, rsa_k(n))
        except Bad:
            return False
    embits = n.bit_length() - 1
    emlen = (embits + 7) // 8
    if m.bit_length() > 8 * emlen:
        return False
    return pss_check(msg, i2o(m, emlen), h, embits)


def rsa_encrypt(alg, cek, key, rng):
    k = rsa_k(key["n"])
    if alg == "RSA1_5":
        ps = bytes(rng.randrange(1, 256) for _ in range(k - len(cek) - 3))
        if len(ps) < 8:
            raise Bad("key too short")
        em = b"\0\2" + ps + b"\0" + cek
    else:
        hf = hashlib.sha1 if alg == "RSA-OAEP" else hashlib.sha256
        hl = hf().digest_size
        if k < len(cek) + 2 * hl + 2:
            raise Bad("key too short")
        db = hf(b"").digest() + b"\0" * (k - len(cek) - 2 * hl - 2) + b"\1" + cek
        seed = rng.randbytes(hl)
        mdb = xor(db, mgf1(seed, len(db), hf))
        em = b"\0" + xor(seed, mgf1(mdb, hl, hf)) + mdb
    return i2o(pow(o2i(em), key["e"], key["n"]), k)


def rsa_decrypt(alg, ct, key):
    k = rsa_k(key["n"])
    if len(ct) != k or o2i(ct) >= key["n"]:
        raise Bad("length")
    em = i2o(rsa_crt(o2i(ct), key), k)
    if alg == "RSA1_5":
        if em[:2] != b"\0\2":
            raise Bad("padding")
        z = em.find(b"\0", 2)
        if z < 10:
            raise Bad("padding")
        return em[z + 1:]
    hf = hashlib.sha1 if alg == "RSA-OAEP" else hashlib.sha256
    hl = hf().digest_size
    if em[0]:
        raise Bad("padding")
    seed = xor(em[1:hl + 1], mgf1(em[hl + 1:], hl, hf))
    db = xor(em[hl + 1:], mgf1(seed, k - hl - 1, hf))
    if db[:hl] != hf(b"").digest():
        raise Bad("padding")
    z = db.find(b"\1", hl)
    if z < 0 or any(db[hl:z]):
        raise Bad("padding")
    return db[z + 1:]


# -- JWS ----------------------------------------------------------------------
# Reference keys are dicts: kty, and k (bytes) / n,e,d,p,q / crv,x,y,d (ints)

def sign(alg, msg, key, rng):
    h = alg[2:]
    if alg.startswith("HS"):
        return hmac.new(key["k"], msg, HASH[h]).digest()
    if alg[:2] in ("RS", "PS"):
        return rsa_sign(alg, msg, key, rng)
    c = CURVES[ES_CURVE[alg]]
    if key["crv"] != c.name:
        raise Bad("curve")
    e = c.digest_int(HASH[h](msg).digest())
    r, s = c.sign(e, key["d"], rng.randrange(1, c.n))
    return i2o(r, c.size) + i2o(s, c.size)


def verify(alg, msg, sig, key):
    """Whether sig is a signature of msg under alg and key"""
    if alg not in SIG_ALGS:
        return False
    h = alg[2:]
    if alg.startswith("HS"):
        return key["kty"] == "oct" and \
            hmac.new(key["k"], msg, HASH[h]).digest() == sig
    if alg[:2] in ("RS", "PS"):
        return key["kty"] == "RSA" and rsa_verify(alg, msg, sig, key)
    c = CURVES[ES_CURVE[alg]]
    if key["kty"] != "EC" or key["crv"] != c.name or len(sig) != 2 * c.size:
        return False
    e = c.digest_int(HASH[h](msg).digest())
    return c.verify(e, o2i(sig[:c.size]), o2i(sig[c.size:]), (key["x"], key["y"]))


def jdump(obj):
    return json.dumps(obj, separators=(",", ":")).encode("utf-8")


def jws(header, payload, key, rng, alg=None):
    """compact token"""
    inp = b64e(jdump(header)) + "." + b64e(payload)
    return inp + "." + b64e(sign(alg or header["alg"], inp.encode(), key, rng))


# -- AES ----------------------------------------------------------------------

def kw_wrap(kek, key):
    a = b"\xa6" * 8
    r = [key[i:i + 8] for i in range(0, len(key), 8)]
    if len(key) % 8 or len(r) < 2:
        raise Bad("length")
    e = AES.new(kek, AES.MODE_ECB)
    for j in range(6):
        for i in range(len(r)):
            b = e.encrypt(a + r[i])
            a = i2o(o2i(b[:8]) ^ (len(r) * j + i + 1), 8)
            r[i] = b[8:]
    return a + b"".join(r)


def kw_unwrap(kek, w, check=True):
    if len(w) % 8 or len(w) < 24:
        raise Bad("length")
    a = w[:8]
    r = [w[i:i + 8] for i in range(8, len(w), 8)]
    e = AES.new(kek, AES.MODE_ECB)
    for j in range(5, -1, -1):
        for i in range(len(r) - 1, -1, -1):
            b = e.decrypt(i2o(o2i(a) ^ (len(r) * j + i + 1), 8) + r[i])
            a, r[i] = b[:8], b[8:]
    if check and a != b"\xa6" * 8:
        raise Bad("integrity")
    return b"".join(r)


def gcm_encrypt(key, iv, aad, pt):
    c = AES.new(key, AES.MODE_GCM, nonce=iv, mac_len=16)
    c.update(aad)
    return c.encrypt_and_digest(pt)


def gcm_decrypt(key, iv, aad, ct, tag):
    if len(iv) != 12 or len(tag) != 16:
        raise Bad("size")
    c = AES.new(key, AES.MODE_GCM, nonce=iv, mac_len=16)
    c.update(aad)
    try:
        return c.decrypt_and_verify(ct, tag)
    except ValueError:
        raise Bad("tag")


CBC = {32: (16, "256"), 48: (24, "384"), 64: (32, "512")}


def cbc_encrypt(key, iv, aad, pt, padding=None):
    half, h = CBC[len(key)]
    n = 16 - len(pt) % 16
    pad = bytes([n]) * n if padding is None else padding
    ct = AES.new(key[half:], AES.MODE_CBC, iv).encrypt(pt + pad)
    m = hmac.new(key[:half], aad + iv + ct + i2o(8 * len(aad), 8), HASH[h])
    return ct, m.digest()[:half]


def cbc_decrypt(key, iv, aad, ct, tag):
    if len(key) not in CBC or len(iv) != 16 or len(ct) % 16 or not ct:
        raise Bad("size")
    half, h = CBC[len(key)]
    m = hmac.new(key[:half], aad + iv + ct + i2o(8 * len(aad), 8), HASH[h])
    if m.digest()[:half] != tag:
        raise Bad("tag")
    pt = AES.new(key[half:], AES.MODE_CBC, iv).decrypt(ct)
    n = pt[-1]
    if not 1 <= n <= 16 or pt[-n:] != bytes([n]) * n:
        raise Bad("padding")
    return pt[:-n]


def content_encrypt(enc, cek, iv, aad, pt):
    f = gcm_encrypt if enc.endswith("GCM") else cbc_encrypt
    return f(cek, iv, aad, pt)


def content_decrypt(enc, cek, iv, aad, ct, tag):
    if len(cek) != CEK_LEN[enc]:
        raise Bad("cek size")
    f = gcm_decrypt if enc.endswith("GCM") else cbc_decrypt
    return f(cek, iv, aad, ct, tag)


def concat_kdf(z, alg, apu, apv, bits):
    info = b"".join(i2o(len(x), 4) + x for x in (alg.encode(), apu, apv)) + \
        i2o(bits, 4)
    out = b""
    i = 1
    while len(out) * 8 < bits:
        out += hashlib.sha256(i2o(i, 4) + z + info).digest()
        i += 1
    return out[:bits // 8]


def ecdh_key(crv, d, pub, alg, enc, apu, apv):
    c = CURVES[crv]
    if not c.on(pub):
        raise Bad("point")
    z = i2o(c.mul(d, pub)[0], c.size)
    if alg == "ECDH-ES":
        return concat_kdf(z, enc, apu, apv, 8 * CEK_LEN[enc])
    return concat_kdf(z, alg, apu, apv, int(alg[-5:-2]))


def sym_kek(k, alg):
    """The library derives the key encryption key as OpenID Connect Core 10.2"""
    return hashlib.sha256(k).digest()[:int(alg[1:4]) // 8]


# -- JWE ----------------------------------------------------------------------

def deflate(b):
    c = zlib.compressobj(9, zlib.DEFLATED, -15)
    return c.compress(b) + c.flush()


def jwe(header, pt, key, rng, cek=None, iv=None, eph=None, kek=None, parts=None):
    """compact token for recipient key; header has alg and enc"""
    h = dict(header)
    alg, enc = h["alg"], h["enc"]
    cek = cek if cek is not None else rng.randbytes(CEK_LEN[enc])
    iv = iv if iv is not None else rng.randbytes(IV_LEN[enc])
    ek = b""
    if alg.startswith("RSA"):
        ek = rsa_encrypt(alg, cek, key, rng)
    elif alg.startswith("A"):
        ek = kw_wrap(kek or sym_kek(key["k"], alg), cek)
    else:
        c = CURVES[key["crv"]]
        d = eph or rng.randrange(1, c.n)
        q = c.mul(d)
        h.setdefault("epk", {"kty": "EC", "crv": c.name,
                             "x": b64e(i2o(q[0], c.size)),
                             "y": b64e(i2o(q[1], c.size))})
        dk = ecdh_key(c.name, d, (key["x"], key["y"]), alg, enc,
                      b64d(h.get("apu", "")), b64d(h.get("apv", "")))
        if alg == "ECDH-ES":
            cek = dk
        else:
            ek = kw_wrap(dk, cek)
    if "zip" in h:
        pt = deflate(pt)
    hb = b64e(jdump(h))
    ct, tag = content_encrypt(enc, cek, iv, hb.encode(), pt)
    if parts is not None:
        parts.update(cek=cek, iv=iv, ek=ek, ct=ct, tag=tag, header=h)
    return ".".join([hb, b64e(ek), b64e(iv), b64e(ct), b64e(tag)])


def jwe_open(token, key, kek=None, info=None):
    """-> plaintext; raises Bad"""
    t = token.split(".")
    if len(t) != 5:
        raise Bad("parts")
    hb = t[0]
    try:
        h = json.loads(b64d(hb))
    except ValueError:
        raise Bad("header")
    ek, iv, ct, tag = [b64d(x) for x in t[1:]]
    alg, enc = h["alg"], h["enc"]
    if alg.startswith("RSA"):
        cek = rsa_decrypt(alg, ek, key)
    elif alg.startswith("A"):
        cek = kw_unwrap(kek or sym_kek(key["k"], alg), ek)
    else:
        epk = h["epk"]
        c = CURVES[key["crv"]]
        if epk.get("kty") != "EC" or epk["crv"] != c.name:
            raise Bad("epk curve")
        x, y = b64d(epk["x"]), b64d(epk["y"])
        if len(x) != c.size or len(y) != c.size:
            raise Bad("epk width")
        dk = ecdh_key(c.name, key["d"], (o2i(x), o2i(y)), alg, enc,
                      b64d(h.get("apu", "")), b64d(h.get("apv", "")))
        if alg == "ECDH-ES":
            if ek:
                raise Bad("encrypted key")
            cek = dk
        else:
            cek = kw_unwrap(dk, ek)
    if info is not None:
        info.update(header=h, cek=cek, iv=iv, ek=ek, ct=ct, tag=tag)
    pt = content_decrypt(enc, cek, iv, hb.encode(), ct, tag)
    if "zip" in h:
        if h["zip"] != "DEF":
            raise Bad("zip")
        pt = zlib.decompress(pt, -15)
    return pt


# -- JWK ----------------------------------------------------------------------

def jwk(key, private=False, **meta):
    """the JWK of a reference key, as RFC 7518 section 6 has it"""
    d = dict(meta)
    d["kty"] = key["kty"]
    if key["kty"] == "oct":
        d["k"] = b64e(key["k"])
    elif key["kty"] == "RSA":
        for m in ("n", "e") + (("d", "p", "q") if private else ()):
            d[m] = b64e(i2o(key[m]))
    else:
        c = CURVES[key["crv"]]
        d["crv"] = c.name
        for m in ("x", "y") + (("d",) if private else ()):
            d[m] = b64e(i2o(key[m], c.size))
    return d


def thumbprint(key, h="256"):
    j = jwk(key)
    return HASH[h](json.dumps(j, separators=(",", ":"), sort_keys=True)
                   .encode()).digest()
