"""C11: curve arithmetic and ECDSA agree with the standard."""
from vmon import gen, ref
from vmon.core import Group, boost
from jwkest import curves, ecc, elliptic
from jwkest.ecc import NISTEllipticCurve

RULE = ("A case is one operation of the real curve arithmetic (scalar multiplication, double "
        "multiplication, addition in either coordinate system, compression, key pair, "
        "signature, verification of one (digest, r, s, key)). Non-trivial: distinct "
        "operands. The reference is Cryptodome's points plus the ECDSA equation.")
MINIMUM = {"mul": 400, "sum": 150, "signed": 150, "accepted": 250, "rejected": 700,
           "colliding operands": 80, "uncompress refused": 30}
ASSUME = ["Cryptodome's EccPoint arithmetic is right",
          "a digest is handed over as an integer, so its leading zero bits are not known"]
CURVES = dict((c, NISTEllipticCurve.by_name(c)) for c in gen.CRVS)


def scalar(rng, n):
    """scalars with the bit patterns that signed binary expansions care about"""
    bits = n.bit_length()
    k = rng.randrange(14)
    if k == 0:
        return rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17])
    if k == 1:
        return n + rng.randrange(-4, 5)
    if k == 2:
        return 1 << rng.randrange(bits)
    if k == 3:
        return (1 << rng.randrange(1, bits + 1)) - 1
    if k == 4:
        a, b = rng.randrange(bits), rng.randrange(bits)
        return (1 << a) | (1 << b)
    if k == 5:
        a, b = sorted(rng.sample(range(bits + 1), 2))
        return (1 << b) - (1 << a)
    if k == 6:
        return int("01" * (bits // 2), 2) >> rng.randrange(8)
    if k == 7:
        return int("0110" * (bits // 4), 2) >> rng.randrange(8)
    if k == 8:
        return rng.randrange(2**16)
    if k == 9:
        return rng.randrange(1 << rng.randrange(1, bits))
    if k == 10:
        return (n // 2) + rng.randrange(-2, 3)
    if k == 11:
        return 2 * n - rng.randrange(1, 5)
    if k == 12:
        x = 0
        while x.bit_length() < bits - 20:     # long runs
            r = rng.randrange(1, 60)
            x = (x << r) | (((1 << r) - 1) * rng.randrange(2))
        return x
    return rng.randrange(n)


def point(rng, c):
    k = rng.randrange(4)
    if k == 0:
        return c.g
    key = rng.choice(gen.ECK[c.name])
    pt = (key["x"], key["y"])
    return c.neg(pt) if k == 1 else pt


def same(ctx, got, exp, what, **detail):
    ok = (got is None and exp is None) or (
        got is not None and exp is not None and tuple(got) == tuple(exp))
    ctx.check(ok, "%s differs from the standard's result" % what,
              mechanism=what, got=got, expected=exp, **detail)


def g_mul(ctx, i):
    rng = ctx.rng
    name = gen.CRVS[i % 3]
    c, lib = ref.CURVES[name], CURVES[name]
    for _ in range(4):
        k, pt = scalar(rng, c.n), point(rng, c)
        exp = c.mul(k, pt)
        ctx.event("mul")
        ctx.case("mul", name, k, pt)
        got = ctx.must("mulp", elliptic.mulp, lib.a, lib.b, lib.p, pt, k)
        same(ctx, got, exp, "scalar multiplication", k=hex(k), curve=name)
        if pt == c.g and 0 < k:
            same(ctx, ctx.must("public_key_for", lib.public_key_for, k), exp,
                 "public key", k=hex(k), curve=name)
        if exp is not None and c.on(pt):
            z = ctx.must("dh_z", lib.dh_z, k, pt)
            ctx.check(z == ref.i2o(exp[0], c.size), "shared secret differs from the "
                      "standard's", mechanism="dh_z", curve=name, k=hex(k), got=z)
        if rng.random() < .1:
            got = ctx.must("mul", elliptic.mul, lib.a, lib.b, lib.p, pt, k)
            same(ctx, got, exp, "slow scalar multiplication", k=hex(k), curve=name)


def g_group(ctx, i):
    """group law on the results of the real operations"""
    rng = ctx.rng
    name = gen.CRVS[i % 3]
    c, lib = ref.CURVES[name], CURVES[name]
    args = (lib.a, lib.b, lib.p)
    P, Q = point(rng, c), c.mul(rng.randrange(1, 2**20))
    R = c.neg(P) if rng.random() < .3 else c.mul(rng.randrange(1, 2**20), P)
    to, fro = elliptic.to_projective, elliptic.from_projective

    def scaled(pt):
        """the same point with another z"""
        z = rng.randrange(2, lib.p)
        return (pt[0] * z * z % lib.p, pt[1] * z**3 % lib.p, z, z * z % lib.p,
                pow(z, 3, lib.p))

    def fast(a, b):
        ja = None if a is None else (scaled(a) if rng.random() < .7 else to(a))
        jb = None if b is None else (scaled(b) if rng.random() < .7 else to(b))
        return fro(ctx.must("addf", elliptic.addf, *(args + (ja, jb))), lib.p)

    def slow(a, b):
        return ctx.must("add", elliptic.add, *(args + (a, b)))

    pairs = [(P, Q), (Q, P), (P, P), (P, c.neg(P)), (P, None), (None, P), (None, None),
             (P, R), (Q, R), (c.neg(P), c.neg(Q))]
    for a, b in pairs:
        exp = c.add(a, b)
        ctx.event("sum")
        ctx.case("sum", name, a, b)
        same(ctx, slow(a, b), exp, "point addition", a=a, b=b, curve=name)
        same(ctx, fast(a, b), exp, "projective point addition", a=a, b=b, curve=name)
    same(ctx, slow(slow(P, Q), R), slow(P, slow(Q, R)), "associativity", curve=name)
    for a in (P, Q, R):
        d = fro(ctx.must("doublef", elliptic.doublef, *(args + (scaled(a),))), lib.p)
        same(ctx, d, c.add(a, a), "projective doubling", a=a, curve=name)
        ctx.check(elliptic.element(a, *args) and not
                  elliptic.element((a[0], (a[1] + 1) % lib.p), *args),
                  "curve membership is wrong", mechanism="element", a=a)
        same(ctx, ctx.must("neg", elliptic.neg, a, lib.p), c.neg(a), "negation", a=a)
    ctx.check(ctx.must("doublef", elliptic.doublef, *(args + (None,))) is None,
              "doubling the neutral element", mechanism="double neutral")
    x = rng.choice([1, 2, lib.p - 1, rng.randrange(1, lib.p), rng.randrange(1, 2**20)])
    v = ctx.must("inv", elliptic.inv, x, lib.p)
    ctx.check(0 <= v < lib.p and v * x % lib.p == 1, "modular inverse is wrong",
              mechanism="inv", x=hex(x), got=v)
    x = rng.randrange(1, lib.N)
    v = ctx.must("inv", elliptic.inv, x, lib.N)
    ctx.check(0 <= v < lib.N and v * x % lib.N == 1, "modular inverse is wrong",
              mechanism="inv", x=hex(x), got=v)


def g_double(ctx, i):
    """k1 * P + k2 * Q, with operands that meet on the way"""
    rng = ctx.rng
    name = gen.CRVS[i % 3]
    c, lib = ref.CURVES[name], CURVES[name]
    for _ in range(4):
        if rng.random() < .6:
            d = rng.choice([1, -1, 2, -2, 3, -3, 4, 5, -7, 8])
            k1, k2 = rng.randrange(24), rng.randrange(24)
            if rng.random() < .2:
                k1 = (-k2 * d) % c.n
            P, Q = c.g, c.mul(d)
            ctx.event("colliding operands")
        else:
            P, Q = point(rng, c), point(rng, c)
            k1, k2 = scalar(rng, c.n), scalar(rng, c.n)
        exp = c.add(c.mul(k1, P), c.mul(k2, Q))
        ctx.case("double", name, k1, k2, P, Q)
        got = ctx.must("muladdp", elliptic.muladdp, lib.a, lib.b, lib.p, P, k1, Q, k2)
        same(ctx, got, exp, "sum of two products", k1=hex(k1), k2=hex(k2), P=P, Q=Q,
             curve=name)


def g_compress(ctx, i):
    rng = ctx.rng
    name = gen.CRVS[i % 3]
    c, lib = ref.CURVES[name], CURVES[name]
    pts = [(k["x"], k["y"]) for k in gen.ECK[name]]
    pts += [c.neg(p) for p in pts]
    pts += [c.mul(rng.randrange(1, c.n)) for _ in range(4)]
    for pt in pts:
        cp = ctx.must("compress", lib.compress, pt)
        ctx.case("compress", name, pt)
        ctx.check(cp[0] == pt[0] and cp[1] == pt[1] % 2, "compressed point",
                  mechanism="compress", got=cp, pt=pt)
        same(ctx, ctx.must("uncompress", lib.uncompress, cp), pt,
             "compression round trip", curve=name)
    n = 0
    while n < 6:
        x = rng.randrange(c.p)
        if c.sqrt(x**3 + c.a * x + c.b) is not None:
            continue
        n += 1
        out = ctx.call("uncompress", lib.uncompress, (x, rng.randrange(2)))
        ctx.event("uncompress refused")
        ctx.case("not a point", name, x)
        ctx.check(not out.ok or not c.on(out.value) and out.value is None,
                  "an x that belongs to no point is uncompressed",
                  mechanism="uncompress bad", outcome=out)


def g_params(ctx, i):
    name = gen.CRVS[i % 3]
    c = ref.CURVES[name]
    # whatever object a user can get hold of has the standard's parameters
    for lib in (NISTEllipticCurve.by_name(name), NISTEllipticCurve.by_name(name.encode()),
                NISTEllipticCurve({"P-256": 256, "P-384": 384, "P-521": 521}[name]),
                {"P-256": ecc.P256, "P-384": ecc.P384, "P-521": ecc.P521}[name]):
        ctx.case("parameters", name)
        ctx.check(lib.name() == name and lib.N == c.n and lib.bytes == c.size and
                  tuple(lib.G) == c.g and lib.p == c.p, "curve parameters differ",
                  mechanism="parameters", curve=name)
        for pt, want in ((c.g, True), ((c.g[0], c.g[1] + 1), False),
                         ((c.g[0] + c.p, c.g[1]), False), ((0, 0), False),
                         ((c.g[1], c.g[0]), False)):
            ctx.check(bool(ctx.must("on_curve", lib.on_curve, pt)) == want,
                      "curve membership is wrong", mechanism="on_curve", pt=pt)
    bits, n, order, cp, cq, g = ctx.must("get_curve", curves.get_curve, c.p.bit_length())
    ctx.check((bits, n, order, tuple(g)) == (c.p.bit_length(), c.p, c.n, c.g) and
              (cp - 3) % c.p == 0 and (cq + c.b) % c.p == 0, "curve parameters differ",
              mechanism="get_curve", curve=name)
    ctx.check(c.p.bit_length() in curves.implemented_keys() and
              c.p.bit_length() in curves.implemented_keys(True), "a curve is not listed",
              mechanism="implemented_keys", curve=name)
    for bad in (0, 255, 512, 1024):
        out = ctx.call("get_curve", curves.get_curve, bad)
        ctx.check(not out.ok, "an unknown curve is known", mechanism="get_curve unknown")
    for _ in range(3):
        pt = point(ctx.rng, c)
        ctx.check(ctx.must("curve_q", elliptic.curve_q, pt[0], pt[1], cp, n) == cq % n,
                  "the parameter of the curve through a point is wrong", mechanism="curve_q",
                  pt=pt)
        bad = ((pt[0] + 1) % n, pt[1])
        ctx.check(ctx.must("element", elliptic.element, pt, cp, cq, n) is True and
                  bool(ctx.must("element", elliptic.element, bad, cp, cq, n)) == c.on(bad) and
                  bool(elliptic.element(None, cp, cq, n)), "curve membership is wrong",
                  mechanism="element", pt=pt)
    for bad in ("P-192", "P-255", "p-256", "", "secp256k1", "P-5210"):
        out = ctx.call("by_name", NISTEllipticCurve.by_name, bad)
        ctx.check(not out.ok, "an unknown curve is known", mechanism="by_name", name=bad)
    for _ in range(3):
        d, q = ctx.must("key_pair", lib.key_pair)
        ctx.case("key pair", name, d)
        ctx.check(0 < d < c.n, "private scalar out of range", mechanism="key_pair range")
        same(ctx, q, c.mul(d), "public part of a key pair", curve=name)
    x = ctx.rng.randrange(c.p >> 8 * ctx.rng.randrange(4))
    b = ctx.must("int2bytes", lib.int2bytes, x)
    ctx.check(b == ref.i2o(x, c.size), "integer to octets", mechanism="int2bytes", x=x)
    ctx.check(ctx.must("bytes2int", lib.bytes2int, b) == x, "octets to integer",
              mechanism="bytes2int", x=x)


def digest(rng, n):
    bits = n.bit_length()
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, 1, 2])
    if k == 1:
        return n + rng.randrange(-2, 3)
    if k == 2:
        return (1 << bits) - 1 - rng.randrange(3)
    if k == 3:
        return rng.getrandbits(bits + rng.choice([1, 7, 8, 64, 128, 256, 1000]))
    if k == 4:
        return rng.getrandbits(rng.choice([8, 160, 224, 256, 384, 512]))
    if k == 5:
        return (1 << bits) * rng.choice([1, 2, 3, n])
    return rng.getrandbits(bits)


def e_of(h, n):
    return h >> max(0, h.bit_length() - n.bit_length())


def private(rng, c):
    if rng.random() < .3:
        d = rng.choice([1, 2, 3, c.n - 1, c.n - 2, c.n // 2])
        q = c.mul(d)
        return d, q
    key = rng.choice(gen.ECK[c.name])
    return key["d"], (key["x"], key["y"])


def g_sign(ctx, i):
    rng = ctx.rng
    name = gen.CRVS[i % 3]
    c, lib = ref.CURVES[name], CURVES[name]
    for _ in range(3):
        d, q = private(rng, c)
        h = digest(rng, c.n)
        k = None
        if rng.random() < .5:
            k = rng.randrange(1, c.n) if rng.random() < .7 else rng.choice(
                [1, 2, 3, c.n - 1, c.n - 2])
        ctx.event("signed")
        ctx.case("sign", name, d, h, k)
        sig = ctx.must("sign", lib.sign, h, d) if k is None else \
            ctx.must("sign", lib.sign, h, d, k)
        ctx.need(isinstance(sig, bytes) and len(sig) == 2 * c.size,
                 "a signature does not have the width of its curve",
                 mechanism="width", got=sig, curve=name)
        r, s = ref.o2i(sig[:c.size]), ref.o2i(sig[c.size:])
        ctx.check(c.verify(e_of(h, c.n), r, s, q), "the standard's equation rejects a "
                  "signature made", mechanism="signature", curve=name, h=hex(h), d=hex(d))
        if k is not None:
            er, es = c.sign(e_of(h, c.n), d, k)
            ctx.check(r == er and s in (es, c.n - es), "the signature is not the one "
                      "for that nonce", mechanism="nonce", curve=name, h=hex(h), k=hex(k))
        v = ctx.must("verify", lib.verify, h, sig, q)
        ctx.event("accepted")
        ctx.check(v is True or bool(v), "a signature made does not verify",
                  mechanism="own signature", curve=name, h=hex(h), d=hex(d))


def judge(ctx, lib, c, h, sig, q, what):
    ok = len(sig) == 2 * c.size and c.verify(
        e_of(h, c.n), ref.o2i(sig[:c.size]), ref.o2i(sig[c.size:]), q)
    out = ctx.call("verify", lib.verify, h, sig, q)
    got = out.ok and bool(out.value)
    ctx.case("verify", c.name, h, sig, q)
    ctx.check(out.ok, "verification does not answer for " + what,
              mechanism="no answer " + what, got=out, h=hex(h), sig=sig.hex(), q=q,
              curve=c.name)
    ctx.event("accepted" if ok else "rejected")
    ctx.check(got == ok, "verification and the standard's equation disagree on " + what,
              mechanism="decision " + what, got=out, expected=ok, h=hex(h),
              sig=sig.hex(), q=q, curve=c.name)


def g_verify(ctx, i):
    """pairs around the valid ones and around every bound"""
    rng = ctx.rng
    name = gen.CRVS[i % 3]
    c, lib = ref.CURVES[name], CURVES[name]
    d, q = private(rng, c)
    h = digest(rng, c.n)
    e = e_of(h, c.n)
    k = rng.randrange(1, c.n)
    r, s = c.sign(e, d, k)
    if not s:
        return
    w = c.size
    top = 256**w - 1

    def enc(a, b):
        return ref.i2o(a, w) + ref.i2o(b, w)

    judge(ctx, lib, c, h, enc(r, s), q, "a valid signature")
    judge(ctx, lib, c, h, enc(r, c.n - s), q, "(r, n-s)")
    judge(ctx, lib, c, h + (1 << h.bit_length()), enc(r, s), q, "another digest")
    judge(ctx, lib, c, h ^ 1, enc(r, s), q, "another digest")
    if h >= c.n.bit_length():
        judge(ctx, lib, c, e * 2, enc(r, s), q, "a digest shifted")
        judge(ctx, lib, c, e + c.n, enc(r, s), q, "a digest plus n")
    judge(ctx, lib, c, h, enc(r, s), c.neg(q), "the negated key")
    q2 = c.add(q, c.g)
    if q2 is not None:
        judge(ctx, lib, c, h, enc(r, s), q2, "another key")
    judge(ctx, lib, c, h, enc(s, r), q, "r and s swapped")
    vals = [0, 1, c.n - 1, c.n, c.n + 1, c.p - 1, top, r, s]
    for _ in range(3):
        judge(ctx, lib, c, h, enc(rng.choice(vals), rng.choice(vals)), q, "edge values")
    if r + c.n <= top:
        judge(ctx, lib, c, h, enc(r + c.n, s), q, "r + n")
    if s + c.n <= top:
        judge(ctx, lib, c, h, enc(r, s + c.n), q, "s + n")
    sig = enc(r, s)
    for bad in (b"", sig[:-1], sig[1:], sig + b"\0", b"\0" + sig, sig[:w], sig + sig,
                b"\0" + ref.i2o(r, w) + b"\0" + ref.i2o(s, w),
                ref.i2o(r, w) + b"\0" + ref.i2o(s, w),
                ref.i2o(r, w) + b"\0" * 9 + ref.i2o(s, w)):
        judge(ctx, lib, c, h, bad, q, "a wrong width")
    _, other = gen.mut_octets(rng, sig)
    judge(ctx, lib, c, h, other, q, "an altered signature")
    # an s that is small enough to be written with fewer octets
    s = rng.randrange(1, 1 << 8 * rng.randrange(1, w))
    e = (s * k - r * d) % c.n
    judge(ctx, lib, c, e, enc(r, s), q, "a valid signature")
    judge(ctx, lib, c, e, ref.i2o(r, w) + ref.i2o(s, w).lstrip(b"\0"), q, "a wrong width")


def g_crafted(ctx, i):
    """(e, r, s) whose double multiplication meets equal or opposite operands, and e = 0"""
    rng = ctx.rng
    name = gen.CRVS[i % 3]
    c, lib = ref.CURVES[name], CURVES[name]
    w = c.size
    # any r with u1, u2 chosen: R = u1 G + u2 Q, r = R.x, s = r / u2, e = u1 s
    for _ in range(3):
        d = rng.choice([1, c.n - 1, 2, c.n - 2, 3, 5, rng.randrange(1, c.n)])
        q = c.mul(d)
        u1 = rng.choice([0, 1, 2, 3, 7, c.n - 1, c.n - 2, rng.randrange(c.n)])
        u2 = rng.choice([1, 2, 3, 5, c.n - 1, c.n - 3, rng.randrange(1, c.n)])
        R = c.add(c.mul(u1), c.mul(u2, q))
        if R is None:
            # r can then be anything, and must be refused
            r = rng.choice([1, c.g[0] % c.n, q[0] % c.n])
        else:
            r = R[0] % c.n
        s = r * pow(u2, -1, c.n) % c.n
        e = u1 * s % c.n
        ctx.event("colliding operands")
        judge(ctx, lib, c, e, ref.i2o(r, w) + ref.i2o(s, w), q,
              "crafted operands" if R else "a point at infinity")
    # R.x >= n: r = R.x - n must be accepted; found only by luck, so only for P-521 style
    # ranges; the complement, r = R.x of another point, must be refused
    judge(ctx, lib, c, 0, ref.i2o(c.g[0] % c.n, w) + ref.i2o(1, w), q, "zero digest")


def r_over_n(ctx, i):
    """x coordinates between n and p: r is x - n"""
    name = gen.CRVS[i % 2]          # P-521 has p < 2n too, but they are as rare
    c, lib = ref.CURVES[name], CURVES[name]
    x = c.n + 1 + i
    while True:
        y = c.sqrt(x**3 + c.a * x + c.b)
        if y is not None and x < c.p:
            break
        x += 1
        if x >= c.p:
            return
    # choose Q so that u1 G + u2 Q = (x, y): Q = (R - u1 G) / u2
    R = (x, y)
    u1, u2 = ctx.rng.randrange(1, c.n), ctx.rng.randrange(1, c.n)
    Q = c.mul(pow(u2, -1, c.n), c.add(R, c.neg(c.mul(u1))))
    r = x - c.n
    s = r * pow(u2, -1, c.n) % c.n
    e = u1 * s % c.n
    ctx.event("x over n")
    judge(ctx, lib, c, e, ref.i2o(r, c.size) + ref.i2o(s, c.size), Q, "x over n")
    judge(ctx, lib, c, e, ref.i2o(x, c.size) + ref.i2o(s, c.size), Q, "r not reduced")


GROUPS = [Group("mul", g_mul, 210, 12000), Group("group", g_group, 60, 4000),
          Group("double", g_double, 150, 12000), Group("compress", g_compress, 12, 300),
          Group("params", g_params, 12, 300), Group("sign", g_sign, 150, 9000),
          Group("verify", g_verify, 90, 6000), Group("crafted", g_crafted, 60, 4000),
          Group("r_over_n", r_over_n, 16, 400)]
GROUPS = boost(GROUPS, 2)
