"""C25: token hashes bind the whole value at the algorithm's strength."""
import hashlib

from vmon import gen, ref
from vmon.core import Group, boost
from jwkest import jwk
from jwkest.jws import left_hash

RULE = ("A case is one value (text or octets) with one strength, or one pair of values that "
        "differ in one place. Non-trivial: distinct (strength, value). The reference is "
        "hashlib plus an own base64url encoder.")
MINIMUM = {"left_hash.return": 3000, "sensitivity": 400, "digest.return": 1000}
ASSUME = ["hashlib's SHA-2 is right"]
STRENGTHS = {"HS256": ("sha256", 16), "HS384": ("sha384", 24), "HS512": ("sha512", 32)}


def expected(octs, func):
    name, n = STRENGTHS[func]
    return ref.b64e(hashlib.new(name, octs).digest()[:n])


def judge(ctx, value, func, what, default=False):
    octs = value.encode("utf-8") if isinstance(value, str) else bytes(value)
    ctx.case(what, func, value)
    got = ctx.must("left_hash", left_hash, value) if default else \
        ctx.must("left_hash", left_hash, value, func)
    ctx.check(isinstance(got, str), "the half hash is not text", mechanism="type",
              got=got, func=func)
    ctx.check(got == expected(octs, func), "the half hash is not the left half of the "
              "digest of the value", mechanism="value " + what, func=func, value=value,
              got=got, expected=expected(octs, func))
    return got


def value(rng):
    k = rng.randrange(4)
    if k == 0:
        return gen.text(rng)
    if k == 1:
        return gen.octets(rng)
    if k == 2:      # around the block sizes of the hash functions
        n = rng.choice([54, 55, 56, 57, 63, 64, 65, 110, 111, 112, 113, 127, 128, 129,
                        16, 24, 32, 48, 512, 4096])
        return rng.randbytes(n) if rng.random() < .5 else "t" * n
    n = rng.randrange(200)
    return "".join(rng.choice("\x00\x7f\u0080\u00ff\u0100\uffff\U0010ffffaZ0-_.=")
                   for _ in range(n))


def g_value(ctx, i):
    rng = ctx.rng
    v = value(rng)
    for func in STRENGTHS:
        a = judge(ctx, v, func, "value")
        if isinstance(v, str):
            b = judge(ctx, v.encode("utf-8"), func, "same octets")
            ctx.check(a == b, "text and its octets hash differently", mechanism="kinds")
    if rng.random() < .3:
        judge(ctx, v, "HS256", "default strength", default=True)
    # every part of the value counts
    octs = v.encode("utf-8") if isinstance(v, str) else v
    name, other = gen.mut_octets(rng, octs)
    func = rng.choice(sorted(STRENGTHS))
    ctx.event("sensitivity")
    ctx.check(left_hash(octs, func) != left_hash(other, func),
              "two values have the same half hash", mechanism="sensitivity",
              a=octs, b=other, change=name)
    for fn, h in ((jwk.sha256_digest, "sha256"), (jwk.sha384_digest, "sha384"),
                  (jwk.sha512_digest, "sha512")):
        got = ctx.must("digest", fn, v)
        ctx.check(got == hashlib.new(h, octs).digest(), "digest differs",
                  mechanism="digest " + h, value=v)


def g_short(ctx, i):
    """all values of up to two octets, and single octet changes of longer ones"""
    for func in STRENGTHS:
        judge(ctx, b"", func, "empty")
        judge(ctx, "", func, "empty")
        judge(ctx, bytes([i]), func, "one octet")
        if i < 128:
            judge(ctx, chr(i), func, "one char")
        base = bytes(range(64)) * 4
        judge(ctx, base[:i] + b"\xaa" + base[i:], func, "place %d" % i)
        judge(ctx, b"\0" * i, func, "zeros")
        judge(ctx, "a" * i, func, "length %d" % i)


def g_large(ctx, i):
    rng = ctx.rng
    v = rng.randbytes(rng.choice([65535, 65536, 65537, 1000003, (1 << 20) + 1, 1 << 21, 3000001]))
    for func in STRENGTHS:
        judge(ctx, v, func, "large")
        judge(ctx, v[:-1], func, "large")
        judge(ctx, v[:-1] + bytes([v[-1] ^ 1]), func, "large")


GROUPS = [Group("value", g_value, 500, 20000), Group("short", g_short, 256, 256),
          Group("large", g_large, 8, 60)]
GROUPS = boost(GROUPS, 10)
