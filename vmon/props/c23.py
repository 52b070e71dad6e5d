"""C23: password-based key derivation matches PKCS#5."""
import base64
import hashlib

from Cryptodome.Hash import MD5, SHA1, SHA224, SHA256, SHA384, SHA512

from vmon import gen, ref
from vmon.core import Group, boost
from jwkest.PBKDF2 import PBKDF2, crypt

RULE = ("A case is one derivation (password, salt, iterations, digest) read in a random "
        "partition, one password hash made or verified, or one bad argument. Non-trivial: "
        "distinct arguments. The reference is hashlib.pbkdf2_hmac.")
MINIMUM = {"read.return": 700, "crypt.return": 500, "refused": 300,
           "wrong password": 200}
ASSUME = ["hashlib.pbkdf2_hmac is right"]
MODS = [(SHA1, "sha1"), (SHA256, "sha256"), (SHA512, "sha512"), (SHA384, "sha384"),
        (SHA224, "sha224"), (MD5, "md5")]
ALLOWED = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789./"


def word(rng):
    k = rng.randrange(5)
    if k == 0:
        return gen.text(rng)
    if k == 1:
        return gen.octets(rng)
    if k == 2:          # around the HMAC block sizes, where keys get hashed
        n = rng.choice([0, 1, 19, 20, 21, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200])
        return rng.randbytes(n) if rng.random() < .5 else "p" * n
    if k == 3:
        return rng.choice([b"\0", b"", "", b"a\0", b"a\0b", "\u00e5", "pass word",
                           b"\xff\xfe", "\U0001F511", "0"])
    return "".join(rng.choice(ALLOWED) for _ in range(rng.randrange(1, 30)))


def octs(v):
    return v.encode("utf-8") if isinstance(v, str) else v


def g_stream(ctx, i):
    rng = ctx.rng
    w, s = word(rng), word(rng)
    mod, name = rng.choice(MODS[:3] if rng.random() < .8 else MODS)
    c = rng.choice([1, 1, 2, 3, 10, 100, 400, 1000])
    total = rng.choice([1, 16, 19, 20, 21, 24, 32, 33, 40, 63, 64, 65, 100, 200, 300])
    if c >= 400:
        total = min(total, 64)
    if rng.random() < .06:
        # more blocks than one octet counts; more iterations than usual
        if rng.random() < .5:
            c, total = rng.choice([1, 2]), rng.choice([5121, 8200, 16400, 33000])
        else:
            c, total = rng.choice([4095, 4096, 4097, 10000, 65537]), 20
    default = rng.random() < .1
    if default:
        mod, name, c, total = SHA1, "sha1", 1000, min(total, 40)
        f = ctx.must("PBKDF2", PBKDF2, w, s)
    elif mod is SHA1 and rng.random() < .5:
        f = ctx.must("PBKDF2", PBKDF2, w, s, c)
    else:
        f = ctx.must("PBKDF2", PBKDF2, w, s, c, mod)
    exp = hashlib.pbkdf2_hmac(name, octs(w), octs(s), c, total)
    ctx.case("stream", w, s, c, name, total)
    got = b""
    while len(got) < total:
        n = min(total - len(got), rng.choice([0, 1, 2, 3, 7, 16, 20, 24, 32, 64, 500]) * (40 if total > 5000 else 1))
        if rng.random() < .3:
            h = ctx.must("hexread", f.hexread, n)
            ctx.check(isinstance(h, bytes) and len(h) == 2 * n, "hexread length",
                      mechanism="hexread", got=h, n=n)
            b = bytes.fromhex(h.decode("ascii"))
        else:
            b = ctx.must("read", f.read, n)
        ctx.need(isinstance(b, bytes) and len(b) == n, "read did not give the octets "
                 "asked for", mechanism="read length", n=n, got=b)
        got += b
        ctx.need(exp.startswith(got), "the key stream differs from PBKDF2-HMAC",
                 mechanism="stream", word=w, salt=s, iterations=c, digest=name,
                 got=got.hex(), expected=exp.hex(), at=len(got) - n)
    if rng.random() < .3:
        ctx.must("close", f.close)
        ctx.must("close", f.close)
        out = ctx.call("read closed", f.read, 1)
        ctx.event("refused")
        ctx.check(not out.ok, "a closed stream can be read", mechanism="closed")


def hash_of(w, salt, c):
    full = "$p5k2$%s$%s" % ("" if c == 400 else "%x" % c, salt)
    raw = hashlib.pbkdf2_hmac("sha1", octs(w), full.encode(), c, 24)
    return full + "$" + base64.b64encode(raw, b"./").decode("ascii")


def g_crypt(ctx, i):
    rng = ctx.rng
    w = word(rng)
    salt = "".join(rng.choice(ALLOWED) for _ in range(rng.choice([0, 1, 2, 8, 8, 16, 40])))
    c = rng.choice([None, 1, 2, 10, 13, 16, 255, 256, 399, 400, 401])
    if rng.random() < .04:
        c = rng.choice([1000, 4095, 4096, 4097, 5000, 10000, 65535, 65536])
    n = 400 if c is None else c
    exp = hash_of(w, salt, n)
    k = rng.randrange(4)
    arg = salt.encode() if rng.random() < .2 else salt
    if k == 0 and c is None:
        got = ctx.must("crypt", crypt, w, arg)
    elif k == 1:
        got = ctx.must("crypt", PBKDF2.crypt, w, arg, iterations=c)
    else:
        got = ctx.must("crypt", crypt, w, arg, c)
    ctx.case("crypt", w, salt, c)
    ctx.check(got == exp, "the password hash differs from the PBKDF2 one",
              mechanism="crypt", word=w, salt=salt, iterations=c, got=got, expected=exp)
    # reproducible from its own output, whatever iteration count is passed along
    for extra in ((), (rng.choice([1, 7, 400, 1000]),)):
        again = ctx.must("crypt", crypt, w, exp, *extra)
        ctx.check(again == exp, "the password hash is not reproduced from its own output",
                  mechanism="reproduce", hash=exp, got=again, word=w, extra=extra)
    # and only the right password gives it
    o = octs(w)
    for _ in range(2 if n < 1000 else 0):
        name, other = gen.mut_octets(rng, o)
        if other.rstrip(b"\0") == o.rstrip(b"\0") and len(o) <= 64 and len(other) <= 64:
            continue            # HMAC pads its key with zeros
        got = ctx.must("crypt", crypt, other, exp)
        ctx.event("wrong password")
        ctx.check(got != exp, "another password gives the same hash",
                  mechanism="wrong password", word=w, other=other)
        ctx.check(got == hash_of(other, salt, n), "the hash of another password is wrong",
                  mechanism="crypt", word=other)


def g_fresh(ctx, i):
    """salts made by crypt itself"""
    w = word(ctx.rng)
    seen = {}
    for _ in range(4):
        got = ctx.must("crypt", crypt, w)
        p = got.split("$")
        ctx.need(len(p) == 5 and p[1] == "p5k2" and len(p[3]) == 8 and
                 all(ch in ALLOWED for ch in p[3]), "odd password hash",
                 mechanism="salt form", got=got)
        ctx.check(got == hash_of(w, p[3], 400), "the password hash differs from the PBKDF2 "
                  "one", mechanism="crypt", got=got, word=w)
        ctx.check(ctx.must("crypt", crypt, w, got) == got, "the password hash is not "
                  "reproduced", mechanism="reproduce")
        seen[p[3]] = seen.get(p[3], 0) + 1
        ctx.case("fresh", got)
    ctx.check(len(seen) > 1, "the salt is the same every time", mechanism="salt repeats",
              salts=seen)


def g_far(ctx, i):
    """long key streams: the block number takes two and three octets"""
    rng = ctx.rng
    w, s = word(rng), word(rng)
    total = [0x100 * 20 + 40, 0x1000 * 20 + 1, 0x10000 * 20 + 20][i % 3]
    f = ctx.must("PBKDF2", PBKDF2, w, s, 1)
    exp = hashlib.pbkdf2_hmac("sha1", octs(w), octs(s), 1, total)
    ctx.case("far", w, s, total)
    n = 0
    while n < total:
        b = ctx.must("read", f.read, min(total - n, rng.choice([999, 20000, 100001])))
        ctx.need(b and b == exp[n:n + len(b)], "the key stream differs from PBKDF2-HMAC",
                 mechanism="stream", at=n, word=w, salt=s)
        n += len(b)


def g_octets(ctx, i):
    """a stream in tiny pieces: every value an octet can have begins and ends one"""
    rng = ctx.rng
    w, s = word(rng), word(rng)
    exp = hashlib.pbkdf2_hmac("sha1", octs(w), octs(s), 1, 3000)
    f = ctx.must("PBKDF2", PBKDF2, w, s, 1)
    ctx.case("octets", w, s)
    n = 0
    while n < len(exp):
        k = min(rng.choice([1, 1, 2, 3]), len(exp) - n)
        if rng.random() < .6:
            h = ctx.must("hexread", f.hexread, k)
            ctx.need(h == exp[n:n + k].hex().encode(), "hexread differs from PBKDF2-HMAC",
                     mechanism="hexread", got=h, at=n, word=w, salt=s)
        else:
            b = ctx.must("read", f.read, k)
            ctx.need(b == exp[n:n + k], "the key stream differs from PBKDF2-HMAC",
                     mechanism="stream", got=b.hex(), at=n, word=w, salt=s)
        n += k


def g_bad(ctx, i):
    rng = ctx.rng
    w, s = word(rng), word(rng)
    tries = [
        ("iterations 0", lambda: PBKDF2(w, s, 0).read(1)),
        ("iterations < 0", lambda: PBKDF2(w, s, -rng.randrange(1, 1000)).read(1)),
        ("iterations text", lambda: PBKDF2(w, s, "10").read(1)),
        ("iterations float", lambda: PBKDF2(w, s, 1.5).read(1)),
        ("password int", lambda: PBKDF2(17, s).read(1)),
        ("password None", lambda: PBKDF2(None, s).read(1)),
        ("salt int", lambda: PBKDF2(w, 17).read(1)),
        ("salt None", lambda: PBKDF2(w, None).read(1)),
        ("crypt salt int", lambda: crypt(w, 17)),
        ("crypt salt char", lambda: crypt(w, "ab" + rng.choice("$!-_ \n\x00=+\u00e5:,"))),
        ("crypt word int", lambda: crypt(17, "salt")),
        ("crypt upper hex", lambda: crypt(w, "$p5k2$1F$salt$" + "." * 32)),
        ("crypt leading zero", lambda: crypt(w, "$p5k2$0a$salt$" + "." * 32)),
        ("crypt iterations 0", lambda: crypt(w, "$p5k2$0$salt$" + "." * 32)),
        ("crypt iterations -1", lambda: crypt(w, "$p5k2$-1$salt$" + "." * 32)),
        ("crypt iterations x", lambda: crypt(w, "$p5k2$x$salt$" + "." * 32)),
        ("crypt no iterations", lambda: crypt(w, "salt", 0)),
        ("crypt < 0 iterations", lambda: crypt(w, "salt", -rng.randrange(1, 500))),
        ("crypt text iterations", lambda: crypt(w, "salt", "10")),
        ("crypt salt byte", lambda: crypt(w, b"ab\xe5")),
        ("crypt short", lambda: crypt(w, "$p5k2$1f")),
    ]
    for name, fn in tries:
        out = ctx.call("bad", fn)
        ctx.case("bad", name, w, s)
        ctx.event("refused")
        ctx.check(not out.ok and isinstance(out.exc, (TypeError, ValueError)),
                  "a bad argument is not refused with TypeError or ValueError",
                  mechanism="bad argument " + name, name=name, outcome=out)


GROUPS = [Group("stream", g_stream, 400, 12000), Group("crypt", g_crypt, 160, 4000),
          Group("fresh", g_fresh, 20, 300), Group("bad", g_bad, 20, 300),
          Group("far", g_far, 3, 12), Group("octets", g_octets, 6, 100)]
GROUPS = boost(GROUPS, 2)
