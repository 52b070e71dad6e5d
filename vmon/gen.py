"""Generators: key material, payloads, headers, mutations. All deterministic in
the random.Random they are given."""
import json
import unicodedata
import os

from Cryptodome.PublicKey import RSA

from vmon import core, ref

with open(os.path.join(core.ROOT, "fixtures", "keys.json")) as _f:
    _fx = json.load(_f)


def _ints(d, names):
    return dict((m, int(d[m], 16)) for m in names)


RSAK = [dict(_ints(k, "nedpq"), kty="RSA") for k in _fx["rsa"]]
ECK = dict((c, [dict(_ints(k, "dxy"), kty="EC", crv=c, tag=k["tag"])
                for k in L]) for c, L in _fx["ec"].items())
OCT = [dict(kty="oct", k=bytes.fromhex(h)) for h in _fx["oct"]]
R1024, R2048 = RSAK[:5], RSAK[5:9]
CRVS = ["P-256", "P-384", "P-521"]


def public(key):
    """the public part of a reference key"""
    return dict((m, key[m]) for m in ("kty", "n", "e", "crv", "x", "y")
                if m in key) if key["kty"] != "oct" else dict(key)


def ident(key):
    """a short name for a reference key"""
    if key["kty"] == "RSA":
        return "RSA%d:%x" % (key["n"].bit_length(), key["n"] & 0xffffff)
    if key["kty"] == "EC":
        return "%s:%x" % (key["crv"], key["x"] & 0xffffff)
    return "oct%d:%s%s" % (len(key["k"]), key["k"][:3].hex(), key["k"][-3:].hex())


def sig_key(rng, alg):
    """a reference key suitable for a signature algorithm"""
    if alg.startswith("HS"):
        return rng.choice(OCT)
    if alg.startswith("ES"):
        return rng.choice(ECK[ref.ES_CURVE[alg]])
    pool = RSAK[:9] if alg not in ("PS512",) else RSAK[3:9]
    k = rng.choice(pool[:5] if rng.random() < .7 else pool)
    if alg == "PS512" and ref.rsa_k(k["n"]) < 131:
        k = RSAK[4]
    return k


def enc_key(rng, alg, enc=None, crv=None):
    if alg.startswith("RSA"):
        need = ref.CEK_LEN.get(enc, 64) + (
            {"RSA1_5": 11, "RSA-OAEP": 42, "RSA-OAEP-256": 66}[alg])
        pool = [k for k in RSAK[:9] if ref.rsa_k(k["n"]) >= need]
        small = [k for k in pool if k["n"].bit_length() < 1200]
        return rng.choice(small if small and rng.random() < .8 else pool)
    if alg.startswith("A"):
        return rng.choice(OCT)
    return rng.choice(ECK[crv or rng.choice(CRVS)])


# -- library keys --------------------------------------------------------------

def lib_key(rng, key, private=True, how=None, **meta):
    """A jwkest key for a reference key, made in one of the documented ways."""
    from jwkest.jwk import ECKey, RSAKey, SYMKey, keyrep, KEYS
    kty = key["kty"]
    meta = dict((k, v) for k, v in meta.items() if v)
    hows = {"RSA": ["keyrep", "members", "key", "set", "load_key"],
            "EC": ["keyrep", "members", "ints", "set"],
            "oct": ["keyrep", "key", "members", "set"]}[kty]
    how = how or rng.choice(hows)
    jwk = ref.jwk(key, private, **meta)
    if how == "keyrep":
        return keyrep(jwk)
    if how == "set":
        ks = KEYS()
        ks.load_jwks(json.dumps({"keys": [jwk]}))
        return ks.keys()[0]
    if kty == "RSA":
        if how == "members":
            d = dict(jwk)
            d.pop("kty")
            return RSAKey(**d)
        t = (key["n"], key["e"]) + ((key["d"], key["p"], key["q"])
                                    if private else ())
        if how == "load_key":
            return RSAKey(**meta).load_key(RSA.construct(t))
        return RSAKey(key=RSA.construct(t), **meta)
    if kty == "EC":
        d = dict(jwk)
        d.pop("kty")
        if how == "ints":
            for m in ("x", "y", "d"):
                if m in d:
                    d[m] = key[m]
        return ECKey(**d)
    if how == "members":
        return SYMKey(k=jwk["k"], **meta)
    return SYMKey(key=key["k"], **meta)


def jwe_key(key, libkey, private):
    """What JWE_RSA etc. want as key"""
    return libkey.key if key["kty"] == "RSA" else libkey


# -- payloads --------------------------------------------------------------------

WORDS = ["", "a", "hello", "Live long and prosper", "true", "null", "123",
         "1.5", "\"quoted\"", "{", "[]", "{}", "{\"a\": 1}", "[1,2,",
         "r\u00e4ksm\u00f6rg\u00e5s", "\u2603 \U0001F512", "a\nb\r\n", "  spaced  ",
         "\x00nul", "line1\tline2", "NaN", "Infinity", "-0", "1e400",
         "\ufeff{}", "'single'", "a.b.c", "0123456789" * 30,
         # texts that Unicode calls equivalent to others
         "A\u030a e\u0301", "\u212b \u2126 \ufb01 \u00bd", "\u1112\u1161\u11ab",
         "\u0130\u0131\u00df\u1e9e \u200b\u00ad\u2028"]


def text(rng):
    if rng.random() < .5:
        return rng.choice(WORDS)
    n = rng.choice([1, 2, 3, 7, 15, 16, 17, 31, 32, 33, 100, 255, 1000])
    pool = rng.choice(["abcdefghijklmnopqrstuvwxyz ", "\u00e5\u00e4\u00f6abc",
                       "\u4e2d\u6587\u2603\U0001F600x", "ea\u0301\u030a\u212b\u1112\u1161"])
    return "".join(rng.choice(pool) for _ in range(n))


def octets(rng, lengths=(0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64,
                         65, 100, 255, 256, 1000)):
    n = rng.choice(lengths)
    kind = rng.randrange(5)
    if kind == 0:
        return bytes(n)
    if kind == 1:
        return b"\xff" * n
    if kind == 2:
        return b"\0" * (n // 2) + rng.randbytes(n - n // 2)
    return rng.randbytes(n)


BIG = (2047, 2048, 4095, 4096, 4097, 6000, 8191, 8192, 8193, 16383, 16384, 16385, 20000,
       32767, 32768, 32769, 49152, 65535, 65536, 65537, 70000, 98304, 131072, 131073, 200000,
       262144, 524289, 1 << 20, (1 << 20) + 1, 1500000, 2100000, (1 << 22) + 3)


def big(rng, most=70000):
    """a large size, near the limits of counters and buffers"""
    return rng.choice([n for n in BIG if n <= most])


def big_octets(rng, most=70000):
    n = big(rng, most)
    k = rng.randrange(4)
    if k == 0:
        return bytes(n)
    if k == 1:
        return (b"all work and no play " * (n // 21 + 1))[:n]
    if k == 2:      # zeros at the end
        return rng.randbytes(n - n // 3) + bytes(n // 3)
    return rng.randbytes(n)


def big_text(rng, most=70000):
    n = big(rng, most)
    unit = rng.choice(["x", "0123456789", "\u00e5", "\u2603 ", "text of some length, "])
    return (unit * (n // len(unit) + 1))[:n]


def jsonval(rng, depth=2):
    k = rng.randrange(9 if depth else 6)
    if k == 0:
        return rng.choice([0, 1, -1, 2**31, 2**53 + 1, 10**30, 1311280970])
    if k == 1:
        return rng.choice([0.5, -1.25, 1e-7, 1e22, 3.141592653589793])
    if k == 2:
        return rng.choice([True, False, None])
    if k in (3, 4, 5):
        return text(rng)
    if k == 6:
        return [jsonval(rng, depth - 1) for _ in range(rng.randrange(4))]
    return dict((text(rng)[:20], jsonval(rng, depth - 1))
                for _ in range(rng.randrange(4)))


def claims(rng):
    d = {"iss": "https://example.com/" + str(rng.randrange(100)),
         "exp": rng.randrange(2**31), "http://example.com/is_root": True}
    if rng.random() < .5:
        d[text(rng)[:10]] = jsonval(rng)
    return d


def payload(rng):
    """-> (what to hand to the library, the octets that must be transmitted or
    None where only the JSON value is fixed, kind)"""
    k = rng.randrange(10)
    if rng.random() < .01:
        if rng.random() < .5:
            b = big_octets(rng)
            return b, b, "octets"
        if rng.random() < .5:
            return {"v": big_text(rng, 33000)}, None, "claims"
        t = big_text(rng)
        return t, t.encode("utf-8"), "text"
    if k < 3:
        t = text(rng)
        return t, t.encode("utf-8"), "text"
    if k < 6:
        b = octets(rng)
        return b, b, "octets"
    if k < 8:
        return claims(rng), None, "claims"
    v = jsonval(rng)
    if isinstance(v, str):
        return v, v.encode("utf-8"), "text"
    return v, None, "json"


def model_payload(octs, header):
    """The documented rule for reading a payload back."""
    try:
        t = octs.decode("utf-8")
    except UnicodeDecodeError:
        t = octs
    cty = header.get("cty", "JWT")
    if isinstance(cty, str) and cty.lower() != "jwt":
        return t
    try:
        return json.loads(t)
    except ValueError:
        return t


def same(a, b):
    """equality that tells types apart (True/1, str/bytes) and knows NaN"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b or (a != a and b != b)


# -- mutations ---------------------------------------------------------------------

def mut_octets(rng, b):
    """-> (name, other octets)"""
    for _ in range(20):
        k = rng.randrange(16)
        if k == 0 and b:
            i = rng.randrange(len(b))
            m = "bit flip", b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:]
        elif k == 1 and b:
            m = "last bit flip", b[:-1] + bytes([b[-1] ^ 1])
        elif k == 2 and b:
            m = "first bit flip", bytes([b[0] ^ 0x80]) + b[1:]
        elif k == 3 and b:
            m = "truncate right", b[:rng.randrange(len(b))]
        elif k == 4 and b:
            m = "truncate one", b[:-1]
        elif k == 5 and b:
            m = "truncate left", b[rng.randrange(1, len(b) + 1):]
        elif k == 6:
            m = "append zero", b + b"\0" * rng.choice([1, 2, 8, 16])
        elif k == 7:
            m = "append", b + rng.randbytes(rng.choice([1, 2, 8, 16]))
        elif k == 8:
            m = "prepend zero", b"\0" * rng.choice([1, 2, 8]) + b
        elif k == 9:
            m = "prepend", rng.randbytes(rng.choice([1, 2, 8])) + b
        elif k == 10:
            m = "strip zeros", b.lstrip(b"\0")
        elif k == 11:
            m = "empty", b""
        elif k == 12:
            m = "double", b + b
        elif k == 13 and len(b) > 1:
            h = len(b) // 2
            m = "swap halves", b[h:] + b[:h]
        elif k == 14:
            m = "zeros", bytes(len(b))
        else:
            m = "random", rng.randbytes(len(b))
        if m[1] != b:
            return m
    return "append zero", b + b"\0"


def kin(rng, b):
    """octets that have much in common with b, of the same length (for finding what was
    remembered under too short a name)"""
    n = len(b)
    if not n:
        return b
    h = n // 2
    k = rng.randrange(9)
    if k == 0:
        r = b[:h] + rng.randbytes(n - h)
    elif k == 1:
        r = rng.randbytes(h) + b[h:]
    elif k == 2:
        r = b[:-1] + bytes([b[-1] ^ 1 << rng.randrange(8)])
    elif k == 3:
        r = bytes([b[0] ^ 1 << rng.randrange(8)]) + b[1:]
    elif k == 4:
        r = b[h:] + b[:h]
    elif k == 5:
        r = b[::-1]
    elif k == 6:
        i = rng.randrange(n)
        r = b[:i] + bytes([b[i] ^ 1 << rng.randrange(8)]) + b[i + 1:]
    elif k == 7:
        r = b[:16] + rng.randbytes(n - 16) if n > 16 else b[:-1] + rng.randbytes(1)
    else:
        r = b[:8] + rng.randbytes(max(0, n - 16)) + b[8:][-8:] if n > 16 else b
    return r


def small_x(rng, c):
    """a point whose x coordinate is 0 or small: x + p fits into the same octets"""
    while True:
        x = rng.choice([0, rng.randrange(20), rng.randrange(1 << 60)])
        y = c.sqrt((x ** 3 + c.a * x + c.b) % c.p)
        if y:
            return x, rng.choice([y, c.p - y])


def kin_text(rng, t):
    """a text that a careless comparison takes for t"""
    r = rng.choice([t.upper(), t.lower(), t.swapcase(), t.title(), t + " ", " " + t, t + "\0",
                    t + "\n", t[:-1], t[1:], t + t[-1:], t + "=", "0" + t, t + "/",
                    unicodedata.normalize("NFD", t), unicodedata.normalize("NFKC", t),
                    "".join(c for c in t if c < "\x7f"), t.replace("-", "_"),
                    t.encode("utf-8").decode("latin-1"), t.encode("ascii", "replace").decode(),
                    t[::-1], "kid:" + t, '"' + t + '"', "*", t[:1], t + "x", t.strip()])
    return r


def spellings(t):
    """other base64url texts that decode to the octets that t decodes to"""
    a = ref.ALPHA.decode()
    r = len(t) % 4
    if r not in (2, 3):
        return []
    v = a.index(t[-1])
    step = 16 if r == 2 else 4
    base = v - v % step
    return [t[:-1] + a[base + k] for k in range(step) if base + k != v][:3]


def mut_header(rng, h):
    """-> (name, other header dict); never the same"""
    h2 = dict(h)
    k = rng.randrange(8)
    if k == 0:
        h2["alg"] = rng.choice([a for a in ref.SIG_ALGS + ["none", "None", ""]
                                if a != h.get("alg")])
        return "alg", h2
    if k == 1:
        h2.pop("alg", None)
        return "no alg", h2
    if k == 2:
        h2["kid"] = "other" if h.get("kid") != "other" else "another"
        return "kid", h2
    if k == 3 and "kid" in h2:
        h2.pop("kid")
        return "no kid", h2
    if k == 4:
        h2["typ"] = "JOSE" if h.get("typ") != "JOSE" else "JWT"
        return "typ", h2
    if k == 5:
        h2["cty"] = "x" if h.get("cty") != "x" else "y"
        return "cty", h2
    if k == 6:
        h2["x"] = h2.get("x", 0) + 1 if isinstance(h2.get("x", 0), int) else 0
        return "extra", h2
    h2["nonce"] = rng.randrange(10**9)
    return "nonce", h2


def mut_text(rng, t):
    """-> (name, other token text), on the level of characters and dots"""
    for _ in range(30 if t else 0):
        k = rng.randrange(16)
        p = t.split(".")
        i = rng.randrange(len(t))
        j = rng.randrange(len(p))
        if k == 0:
            c = rng.choice(ref.ALPHA.decode())
            m = "char", t[:i] + c + t[i + 1:]
        elif k == 1:
            m = "delete char", t[:i] + t[i + 1:]
        elif k == 2:
            m = "insert char", t[:i] + rng.choice(ref.ALPHA.decode()) + t[i:]
        elif k == 3:
            m = "junk char", t[:i] + rng.choice("+/=*% \n\t\x00\u00e9") + t[i + rng.randrange(2):]
        elif k == 4:
            m = "truncate", t[:i]
        elif k == 5:
            m = "extra part", t + "." + rng.choice(["", "AA", p[-1]])
        elif k == 6:
            m = "leading part", rng.choice(["", "AA", p[0]]) + "." + t
        elif k == 7:
            m = "drop part", ".".join(p[:j] + p[j + 1:])
        elif k == 8:
            p[j] = ""
            m = "empty part", ".".join(p)
        elif k == 9 and len(p) > 1:
            a, b = rng.sample(range(len(p)), 2)
            p[a], p[b] = p[b], p[a]
            m = "swap parts", ".".join(p)
        elif k == 10:
            m = "trailing newline", t + rng.choice(["\n", "\r\n", " ", "\x00"])
        elif k == 11:
            m = "leading space", rng.choice(["\n", " ", "\ufeff"]) + t
        elif k == 12:
            q = t[i]
            m = "swap case", t[:i] + q.swapcase() + t[i + 1:]
        elif k == 13:
            p[j] += rng.choice(["=", "==", "===", "A", "AA", "AAAA"])
            m = "pad part", ".".join(p)
        elif k == 14:
            m = "double dot", t.replace(".", "..", 1)
        else:
            p[j] = p[j].replace("-", "+").replace("_", "/")
            m = "plain base64", ".".join(p)
        if m[1] != t:
            return m
    return "trailing newline", t + "\n"


def parse(token):
    """What a compact token means to the reference: (header dict, list of octets)"""
    parts = token.split(".")
    octs = [ref.b64d(p) for p in parts]
    try:
        h = json.loads(octs[0].decode("utf-8"))
    except ValueError:
        raise ref.Bad("header")
    if not isinstance(h, dict):
        raise ref.Bad("header")
    return h, octs
