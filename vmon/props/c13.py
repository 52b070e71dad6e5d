"""C13: base64url and integer codecs are exact and strict."""
import itertools

import jwkest
from jwkest import BadSyntax

from vmon import gen, ref
from vmon.core import Group, boost

RULE = ("A case is one octet string or integer encoded and decoded, or one text decoded. All "
        "octet strings and all texts of up to two octets are enumerated, all four-octet texts "
        "over representatives of the character classes, the rest is sampled. Non-trivial: "
        "distinct argument per function.")
MINIMUM = {"encode": 60000, "decode accepted": 5000, "decode refused": 60000,
           "integers": 3000}
ASSUME = ["base64_to_long is documented as lenient: it is only checked on well-formed text"]


def decode(ctx, t):
    """t: octets"""
    try:
        e = ref.b64d(t)
    except ref.Bad:
        e = None
    try:
        got = jwkest.b64d(t)
    except BadSyntax:
        got = None
    except Exception as err:
        got = err
    ctx.events["decode refused" if got is None else "decode accepted"] += 1
    ctx.check(type(got) is type(e) and got == e, "b64d and the standard disagree",
              mechanism="b64d", text=t, got=got, expected=e)
    return e


def encode(ctx, b):
    ctx.events["encode"] += 1
    t = jwkest.b64e(b)
    ctx.check(t == ref.b64e(b).encode(), "b64e and the standard disagree",
              mechanism="b64e", octets=b, got=t)
    ctx.check(jwkest.b64d(t) == b, "b64d does not invert b64e", mechanism="inverse",
              octets=b, got=t)


def integer(ctx, n):
    ctx.events["integers"] += 1
    e = ref.b64e(ref.i2o(n))
    t = ctx.must("long_to_base64", jwkest.long_to_base64, n)
    ctx.check(t == e, "integer is not encoded as its minimal big-endian octets",
              mechanism="long_to_base64", n=n, got=t, expected=e)
    for f in (jwkest.base64_to_long, jwkest.base64url_to_long):
        for arg in (e, e.encode()):
            v = ctx.must(f.__name__, f, arg)
            ctx.check(v == n, "%s does not invert the encoding" % f.__name__,
                      mechanism=f.__name__, n=n, text=arg, got=v)
        for z in (1, 2, 3):
            e0 = ref.b64e(bytes(z) + ref.i2o(n))
            v = ctx.must(f.__name__, f, e0)
            ctx.check(v == n, "%s and leading zero octets" % f.__name__,
                      mechanism=f.__name__ + " zeros", n=n, text=e0, got=v)
    b = ref.i2o(n)
    h = ctx.must("long2hexseq", jwkest.long2hexseq, n)
    ctx.check(h == b, "long2hexseq is not the big-endian octets", mechanism="long2hexseq",
              n=n, got=h)
    a = ctx.must("long2intarr", jwkest.long2intarr, n)
    ctx.check(list(a) == (list(b) if n else []), "long2intarr is not the octet list",
              mechanism="long2intarr", n=n, got=a)
    v = ctx.must("intarr2long", jwkest.intarr2long, list(b))
    ctx.check(v == n, "intarr2long does not invert", mechanism="intarr2long", n=n, got=v)
    v = ctx.must("intarr2bin", jwkest.intarr2bin, list(b))
    ctx.check(v == b, "intarr2bin is not the octets", mechanism="intarr2bin", n=n, got=v)


def g_short(ctx, i):
    """all octet strings / texts starting with octet i, up to length 2"""
    encode(ctx, bytes([i]))
    decode(ctx, bytes([i]))
    for j in range(256):
        encode(ctx, bytes([i, j]))
        decode(ctx, bytes([i, j]))
    if i == 0:
        encode(ctx, b"")
        decode(ctx, b"")
    ctx.case("two octets", i)
    ctx.evaluations += 513


REP = b"AZaz09-_=+/\n .\x00\xc3Q"


def g_four(ctx, i):
    """all texts of 3..4 characters over class representatives, with each first one"""
    a = bytes([REP[i]])
    for n in (2, 3):
        for t in itertools.product(REP, repeat=n):
            decode(ctx, a + bytes(t))
            ctx.evaluations += 1
    ctx.case("class texts", a)


def g_long(ctx, i):
    rng = ctx.rng
    for _ in range(20):
        b = gen.octets(rng, (3, 4, 5, 6, 7, 8, 9, 31, 32, 33, 63, 64, 65, 66, 128, 255,
                             256, 257, 1000))
        encode(ctx, b)
        ctx.case("encode", b)
        t = ref.b64e(b)
        decode(ctx, t.encode())
        decode(ctx, (t + "=" * (-len(t) % 4)).encode())
        for _ in range(6):
            name, t2 = gen.mut_text(rng, t)
            decode(ctx, t2.encode("utf-8", "replace"))
            ctx.case(name, t2)
        for k in range(1, 5):
            decode(ctx, t.encode() + b"=" * k)
        m = rng.randrange(len(t))
        for c in range(256):
            decode(ctx, t[:m].encode() + bytes([c]) + t[m + 1:].encode())
        s = gen.text(rng)
        u = ctx.must("b64e_enc_dec", jwkest.b64e_enc_dec, s)
        ctx.check(u == ref.b64e(s.encode("utf-8")), "b64e_enc_dec differs",
                  mechanism="b64e_enc_dec", text=s, got=u)
        v = ctx.must("b64d_enc_dec", jwkest.b64d_enc_dec, u)
        ctx.check(v == s, "b64d_enc_dec does not invert", mechanism="b64d_enc_dec",
                  text=s, got=v)
        # what is not the encoding of an UTF-8 text is refused
        m = rng.randrange(len(u) + 1)
        for c in "\u00e5\u00c5\u0131\uff21\u2013\u4e2d\U0001d400\udc41 \n+/*":
            bad = u[:m] + c + u[m:]
            out = ctx.call("b64d_enc_dec", jwkest.b64d_enc_dec, bad)
            ctx.check(not out.ok and isinstance(out.exc, (ValueError, BadSyntax)),
                      "text that is not base64url is not refused",
                      mechanism="b64d_enc_dec strict", text=bad, got=out)
        try:
            b.decode("utf-8")
        except UnicodeDecodeError:
            out = ctx.call("b64d_enc_dec", jwkest.b64d_enc_dec, ref.b64e(b))
            ctx.check(not out.ok and isinstance(out.exc, ValueError),
                      "octets that are not text are given as text",
                      mechanism="b64d_enc_dec utf-8", octets=b, got=out)
        s = b.decode("latin-1")
        for f in (jwkest.as_bytes, jwkest.as_unicode):
            ctx.check(f(b) in (b, b.decode("utf-8", "replace")), "conversion differs",
                      mechanism=f.__name__, arg=b)
        ctx.check(jwkest.as_bytes(s) == s.encode("utf-8"), "as_bytes is not UTF-8",
                  mechanism="as_bytes", arg=s)


def g_big(ctx, i):
    """long texts are judged like short ones, wherever the flaw is"""
    rng = ctx.rng
    b = gen.big_octets(rng, (1 << 22) + 3 if i % 8 == 0 else 140000)
    ctx.case("big", b)
    encode(ctx, b)
    t = ref.b64e(b).encode()
    decode(ctx, t + b"=" * (-len(t) % 4))
    for _ in range(12):
        at = rng.choice([0, 1, len(t) // 2, len(t) - 1, len(t) - 2, len(t), 4096, 65536,
                         rng.randrange(len(t))])
        k = rng.randrange(6)
        if k < 3:
            c = rng.choice([b"+", b"/", b"=", b"\n", b" ", b"\0", b"\xc3\xa5", b".", b"*"])
            u = t[:at] + c + t[at + (k == 0):]
        elif k == 3:
            u = t[:at] + t[at + rng.randrange(1, 4):]
        elif k == 4:
            u = t + b"=" * rng.randrange(1, 5)
        else:
            u = b"\n".join(t[j:j + 76] for j in range(0, len(t), 76))
        ctx.case("big text", u)
        decode(ctx, u)
    n = ref.o2i(b[:rng.choice([512, 1024, 2048, 5000])]) | 1
    integer(ctx, n)
    s = gen.big_text(rng)
    u = ctx.must("b64e_enc_dec", jwkest.b64e_enc_dec, s)
    ctx.check(u == ref.b64e(s.encode("utf-8")), "b64e_enc_dec differs",
              mechanism="b64e_enc_dec", size=len(s))
    ctx.check(ctx.must("b64d_enc_dec", jwkest.b64d_enc_dec, u) == s,
              "b64d_enc_dec does not invert", mechanism="b64d_enc_dec", size=len(s))


EDGE = [0, 1, 127, 128, 255, 256, 257, 65535, 65536, 2**24 - 1, 2**24, 2**31, 2**32 - 1,
        2**32, 2**63, 2**64 - 1, 2**64, 65537]


def g_ints(ctx, i):
    rng = ctx.rng
    for j in range(40):
        k = rng.randrange(5)
        bits = rng.choice([8, 16, 24, 31, 32, 64, 65, 127, 255, 256, 384, 521, 1024, 2048])
        n = [rng.getrandbits(bits), (1 << bits) - 1, 1 << bits, rng.getrandbits(bits) << 8,
             rng.getrandbits(bits) << 64][k]
        integer(ctx, n)
        ctx.case("integer", n)
    if i == 0:
        for n in list(range(2000)) + EDGE + [1 << k for k in range(600)]:
            integer(ctx, n)
            ctx.case("integer", n)


def g_urllong(ctx, i):
    """base64url_to_long refuses everything that is not base64url"""
    rng = ctx.rng
    for _ in range(60):
        b = gen.octets(rng, (1, 2, 3, 4, 5, 31, 32, 66))
        t = ref.b64e(b)
        name, t2 = gen.mut_text(rng, t)
        if rng.random() < .5:
            k = rng.randrange(len(t) + 1)
            t2 = t[:k] + rng.choice("+/=\n \x00.\u00e9*\u0100") + t[k:]
        arg = t2 if rng.random() < .5 else t2.encode("utf-8", "replace")
        try:
            if "=" in t2 or not t2:
                raise ref.Bad("padding")
            e = ref.o2i(ref.b64d(t2))
        except ref.Bad:
            e = None
        out = ctx.call("base64url_to_long", jwkest.base64url_to_long, arg)
        ctx.case("strict", arg)
        if e is None:
            ctx.check(not out.ok and isinstance(out.exc, ValueError),
                      "text that is not base64url is not refused with ValueError",
                      mechanism="strict", text=arg, got=out)
        else:
            ctx.check(out.ok and out.value == e, "base64url integer is not decoded",
                      mechanism="strict value", text=arg, got=out, expected=e)


GROUPS = [
    Group("big", g_big, 3, 300),
    Group("short", g_short, 256, 256),
    Group("four", g_four, len(REP), len(REP)),
    Group("long", g_long, 20, 1500),
    Group("ints", g_ints, 40, 2000),
    Group("urllong", g_urllong, 60, 3000),
]
CHUNK = 4
GROUPS = boost(GROUPS, 10)
