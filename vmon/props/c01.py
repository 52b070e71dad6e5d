"""C01: a verified signed token was signed, as is, by a supplied key."""
import json

from vmon import gen, jose, ref
from vmon.core import Group, boost
from jwkest import constant_time_compare, safe_str_cmp
from jwkest.jws import JWS, SIGNER_ALGS

RULE = ("A case is one token text given to compact verification with a key set: genuine "
        "tokens (made here and by the reference) and alterations of them, structured "
        "forgeries, splices. Non-trivial: the text differs from every other text judged "
        "and was decided by the real verifier. Every acceptance is re-decided by the "
        "reference verifier.")
MINIMUM = {"cube root forgeries": 3, "verify.return": 300, "verify.call": 5000, "long tokens": 15, "rejected": 4000}
ASSUME = ["the reference verifier (pow, hashlib, hmac, Cryptodome points) is right",
          "(r, n-s) is another valid ECDSA signature of the same text, and base64url text "
          "with other unused trailing bits is the same octets; both are accepted"]


def verify(ctx, token, ring, what, rng):
    arg = token.encode("utf-8") if isinstance(token, str) and rng.random() < .3 \
        else token
    # one object may be asked about several tokens
    old = ctx.__dict__.setdefault("verifiers", {})
    jws = old.setdefault(rng.randrange(4), JWS()) if rng.random() < .5 else JWS()
    before = jws.msg, getattr(jws, "key", None)
    out = ctx.call("verify", jws.verify_compact_verbose, arg, ring.lib)
    ctx.case(what, token)
    if not out.ok:
        ctx.check(jws.msg is before[0] and getattr(jws, "key", None) is before[1],
                  "a refused token's payload or key is kept as the verified one",
                  mechanism="kept", token=token, msg=jws.msg)
    if out.ok:
        ctx.event("accepted")
        jose.judge_accept(ctx, out, token, ring, what)
    else:
        ctx.event("rejected")
    return out


def make(ctx, alg, key, rng, kid=None):
    """a genuine token, half of them made by the library"""
    if rng.random() < .5:
        lk = gen.lib_key(rng, key, True, kid=kid)
        msg = gen.payload(rng)[0]
        t = ctx.must("sign", JWS(msg, alg=alg).sign_compact, [lk])
        return t
    h = {"alg": alg}
    if kid:
        h["kid"] = kid
    if rng.random() < .3:
        h["typ"] = "JWT"
    if rng.random() < .2:
        h["cty"] = rng.choice(["JWT", "text/plain", "octet"])
    return ref.jws(h, gen.octets(rng), key, rng)


def resig(t, sig):
    return t.rpartition(".")[0] + "." + ref.b64e(sig)


def g_mutate(ctx, i):
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    key = gen.sig_key(rng, alg)
    kid = rng.choice([None, "k1"])
    t = make(ctx, alg, key, rng, kid)
    ring = jose.Ring()
    if rng.random() < .3:                       # decoys of the same and other types
        ring.add(rng, gen.public(gen.sig_key(rng, alg)), kid=kid)
        ring.add(rng, gen.public(gen.sig_key(rng, rng.choice(ref.SIG_ALGS))))
    ring.add(rng, gen.public(key), kid=kid)
    verify(ctx, t, ring, "genuine " + alg, rng)
    h, octs, inp = jose.signed_parts(t)
    for _ in range(14):
        name, s = gen.mut_octets(rng, octs[2])
        verify(ctx, resig(t, s), ring, "signature: %s %s" % (alg, name), rng)
    for _ in range(5):
        name, p = gen.mut_octets(rng, octs[1])
        verify(ctx, ".".join([t.split(".")[0], ref.b64e(p), t.split(".")[2]]),
               ring, "payload: %s %s" % (alg, name), rng)
    for _ in range(5):
        name, h2 = gen.mut_header(rng, h)
        verify(ctx, ".".join([ref.b64e(ref.jdump(h2))] + t.split(".")[1:]),
               ring, "header: %s %s" % (alg, name), rng)
    for _ in range(10):
        name, t2 = gen.mut_text(rng, t)
        verify(ctx, t2, ring, "text: %s %s" % (alg, name), rng)
    # the same header in other words: equal JSON, other octets
    for h2 in (json.dumps(h).encode(), ref.jdump(h) + b" ",
               json.dumps(h, indent=1).encode()):
        t2 = ".".join([ref.b64e(h2)] + t.split(".")[1:])
        if t2 != t:
            verify(ctx, t2, ring, "header re-encoded " + alg, rng)
    # the same payload in other words
    try:
        p = json.loads(octs[1].decode())
    except ValueError:
        return
    for p2 in (json.dumps(p).encode(), json.dumps(p).encode() + b"\n"):
        t2 = ".".join([t.split(".")[0], ref.b64e(p2), t.split(".")[2]])
        if t2 != t:
            verify(ctx, t2, ring, "payload re-encoded " + alg, rng)


def g_lengths(ctx, i):
    """all truncations of a signature, all single bits of short ones"""
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    key = gen.sig_key(rng, alg)
    t = make(ctx, alg, key, rng)
    ring = jose.Ring()
    ring.add(rng, gen.public(key))
    h, octs, inp = jose.signed_parts(t)
    sig = octs[2]
    for n in range(len(sig)):
        if alg[0] in "RP" and n not in (0, 1, len(sig) - 1) and rng.random() < .7:
            continue
        verify(ctx, resig(t, sig[:n]), ring, "prefix %s" % alg, rng)
        verify(ctx, resig(t, sig[len(sig) - n:]), ring, "suffix %s" % alg, rng)
    for n in (1, 2, 3, 16, len(sig)):
        for fill in (b"\0", b"\xff", sig[-1:]):
            verify(ctx, resig(t, sig + fill * n), ring, "longer %s" % alg, rng)
            verify(ctx, resig(t, fill * n + sig), ring, "longer left %s" % alg, rng)
    bits = range(8 * len(sig)) if alg.startswith("HS") else \
        [rng.randrange(8 * len(sig)) for _ in range(10)]
    for b in bits:
        s = bytearray(sig)
        s[b // 8] ^= 1 << b % 8
        verify(ctx, resig(t, bytes(s)), ring, "bit %s" % alg, rng)
    # pairs of octets changed so that xor or sum stay the same
    for _ in range(20):
        a, b = rng.sample(range(len(sig)), 2)
        d = rng.randrange(1, 256)
        s = bytearray(sig)
        s[a] ^= d
        s[b] ^= d
        verify(ctx, resig(t, bytes(s)), ring, "xor pair %s" % alg, rng)
        s = bytearray(sig)
        s[a], s[b] = s[b], s[a]
        if bytes(s) != sig:
            verify(ctx, resig(t, bytes(s)), ring, "octets swapped %s" % alg, rng)


def g_rsa(ctx, i):
    """encodings that are almost EMSA-PKCS1-v1_5 or EMSA-PSS"""
    rng = ctx.rng
    alg = ("RS256", "RS384", "RS512", "PS256", "PS384", "PS512")[i % 6]
    h = alg[2:]
    key = gen.sig_key(rng, alg)
    if i % 12 < 3:
        key = gen.RSAK[rng.choice([2, 11, 11])]     # e = 3
    ring = jose.Ring()
    ring.add(rng, gen.public(key))
    n, k = key["n"], ref.rsa_k(key["n"])
    inp = ref.b64e(ref.jdump({"alg": alg})) + "." + ref.b64e(gen.octets(rng))
    m = inp.encode()
    dg = ref.HASH[h](m).digest()
    ems = []
    if alg.startswith("RS"):
        good = ref.emsa_pkcs1(m, h, k)
        pre = ref.PREFIX[h]
        other = [x for x in ("256", "384", "512") if x != h]
        t = pre + dg
        nonull = bytes([0x30, len(t) - 4, 0x30, pre[3] - 2]) + pre[4:4 + pre[3] - 2] + \
            bytes([4, len(dg)]) + dg
        ems = [("genuine", good),
               ("no DigestInfo", b"\0\1" + b"\xff" * (k - len(dg) - 3) + b"\0" + dg),
               ("short padding", b"\0\1" + b"\xff" * 8 + b"\0" + t +
                rng.randbytes(k - len(t) - 11)),
               ("no padding", b"\0\1\0" + t + rng.randbytes(k - len(t) - 3)),
               ("zero after", b"\0\1" + b"\xff" * (k - len(t) - 4) + b"\0" + t + b"\0"),
               ("type 2", b"\0\2" + good[2:]), ("type 0", b"\0\0" + good[2:]),
               ("padding octet", good[:5] + b"\xfe" + good[6:]),
               ("no separator", b"\0\1" + b"\xff" * (k - len(t) - 2) + t),
               ("other digest", ref.emsa_pkcs1(m, other[0], k)),
               ("other text", ref.emsa_pkcs1(m + b"x", h, k)),
               ("oid of other hash", b"\0\1" + b"\xff" * (
                   k - len(dg) - len(ref.PREFIX[other[1]]) - 3) + b"\0" +
                ref.PREFIX[other[1]] + dg),
               ("raw digest", b"\0" * (k - len(dg)) + dg)]
    else:
        eb = n.bit_length() - 1
        hl = len(dg)
        salt = rng.randbytes(hl)
        good = ref.emsa_pss(m, h, eb, salt)

        def alt(**kw):
            b = bytearray(good)
            for pos, val in kw.items():
                b[int(pos[1:])] ^= val
            return bytes(b)
        ems = [("genuine", good), ("trailer", good[:-1] + b"\xbd"),
               ("other text", ref.emsa_pss(m + b"x", h, eb, salt)),
               ("salt bit", alt(p0=0, **{"p%d" % (len(good) - hl - 3): 1})),
               ("hash bit", alt(**{"p%d" % (len(good) - 2): 1})),
               ("first bit", alt(p1=1))]
        # a salt of another length, or a mask made with another hash, is another
        # algorithm (RFC 7518, section 3.5)
        most = (eb + 7) // 8 - hl - 2
        for sl in {0, 1, 8, 20, hl - 1, hl + 1, 32, 48, 64, most - 1, most} - {hl}:
            if 0 <= sl <= most:
                ems.append(("salt of %d" % sl, ref.emsa_pss(m, h, eb, rng.randbytes(sl))))
        for o in ("256", "384", "512"):
            if o != h:
                ems.append(("mask with SHA-" + o, ref.emsa_pss(m, h, eb, salt, o)))
        for o in ("256", "384"):
            if o != h:
                try:
                    ems.append(("other hash", ref.emsa_pss(
                        m, o, eb, rng.randbytes(ref.HASH[o]().digest_size))))
                except ref.Bad:
                    pass
        try:
            ems.append(("pkcs1 of it", ref.emsa_pkcs1(m, h, k)))
        except ref.Bad:
            pass
    for name, em in ems:
        v = ref.o2i(em)
        if v >= n:
            continue
        sig = ref.i2o(ref.rsa_crt(v, key), k)
        verify(ctx, inp + "." + ref.b64e(sig), ring, "%s encoding: %s" % (alg, name),
               rng)
    s = ref.o2i(ref.rsa_sign(alg, m, key, rng))
    for name, v in [("s + n", s + n), ("n - s", n - s), ("0", 0), ("1", 1),
                    ("n - 1", n - 1), ("n", n), ("s + 1", s + 1)]:
        for size in {k, k + 1, len(ref.i2o(v))}:
            if len(ref.i2o(v)) <= size:
                verify(ctx, inp + "." + ref.b64e(ref.i2o(v, size)), ring,
                       "%s value %s in %d octets" % (alg, name, size - k), rng)
    if key["e"] == 3 and alg.startswith("RS"):
        # cube root forgery: digest left-justified, rubbish behind
        t = ref.PREFIX[h] + dg
        for pad in (0, 1, 8):
            head = b"\0\1" + b"\xff" * pad + b"\0" + t
            hi = ref.o2i(head) << 8 * (k - len(head))
            r = icbrt(hi) + 1
            em = ref.i2o(r ** 3, k) if (r ** 3).bit_length() <= 8 * k else b""
            if em.startswith(head):
                ctx.event("cube root forgeries")
            verify(ctx, inp + "." + ref.b64e(ref.i2o(r, k)), ring,
                   "cube root pad %d" % pad, rng)


def icbrt(n):
    lo, hi = 0, 1 << (n.bit_length() // 3 + 2)
    while lo < hi:
        mid = (lo + hi + 1) // 2
        if mid ** 3 <= n:
            lo = mid
        else:
            hi = mid - 1
    return lo


def der_int(v):
    b = ref.i2o(v)
    if b[0] & 0x80:
        b = b"\0" + b
    return bytes([2, len(b)]) + b


def g_ecdsa(ctx, i):
    """signature values that are almost right"""
    rng = ctx.rng
    alg = ("ES256", "ES384", "ES512")[i % 3]
    key = gen.sig_key(rng, alg)
    c = ref.CURVES[key["crv"]]
    ring = jose.Ring()
    ring.add(rng, gen.public(key))
    inp = ref.b64e(ref.jdump({"alg": alg})) + "." + ref.b64e(gen.octets(rng))
    m = inp.encode()
    e = c.digest_int(ref.HASH[alg[2:]](m).digest())
    k = rng.randrange(1, c.n)
    r, s = c.sign(e, key["d"], k)
    w = c.size
    cases = [("genuine", r, s), ("zero r", 0, s), ("zero s", r, 0), ("zeros", 0, 0),
             ("n n", c.n, c.n), ("r n", r, c.n), ("n s", c.n, s), ("swapped", s, r),
             ("r + n", r + c.n, s), ("s + n", r, s + c.n), ("both + n", r + c.n, s + c.n),
             ("n - s", r, c.n - s), ("n - r", c.n - r, s), ("r + 1", r + 1, s),
             ("s + 1", r, s + 1), ("p", c.p, s), ("ones", 1, 1), ("-r", c.p - r, s),
             ("e r", e % c.n, s), ("r e", r, e % c.n)]
    # valid for 0, for another hash, for the negated digest, for another key
    cases.append(("digest 0",) + c.sign(0, key["d"], k))
    cases.append(("digest -e",) + c.sign(-e % c.n, key["d"], k))
    for o in ("256", "384", "512"):
        if o != alg[2:]:
            cases.append(("digest sha" + o,) + c.sign(
                c.digest_int(ref.HASH[o](m).digest()), key["d"], k))
    cases.append(("digest mod 2^128",) + c.sign(e % 2**128, key["d"], k))
    cases.append(("digest >> 8",) + c.sign(e >> 8, key["d"], k))
    cases.append(("key -d",) + c.sign(e, -key["d"] % c.n, k))
    cases.append(("key d+1",) + c.sign(e, key["d"] + 1, k))
    cases.append(("key 0",) + c.sign(e, 0, k))
    for name, a, b in cases:
        if max(a, b).bit_length() > 8 * w:
            continue
        verify(ctx, inp + "." + ref.b64e(ref.i2o(a, w) + ref.i2o(b, w)), ring,
               "%s %s" % (alg, name), rng)
    raw = ref.i2o(r, w) + ref.i2o(s, w)
    der = der_int(r) + der_int(s)
    der = b"\x30" + (bytes([len(der)]) if len(der) < 128 else
                     bytes([0x81, len(der)])) + der
    for name, x in [("der", der), ("wider", ref.i2o(r, w + 1) + ref.i2o(s, w + 1)),
                    ("minimal", ref.i2o(r) + ref.i2o(s)),
                    ("r only", ref.i2o(r, w)), ("little endian", raw[::-1]),
                    ("each reversed", raw[:w][::-1] + raw[w:][::-1]),
                    ("zero between", raw[:w] + b"\0" + raw[w:]),
                    ("zero around", b"\0" + raw + b"\0")]:
        if x != raw:
            verify(ctx, inp + "." + ref.b64e(x), ring, "%s %s" % (alg, name), rng)
    # a public key for which the signature is right, and one for which it is not
    bad = dict(gen.public(key), y=c.p - key["y"])
    ring2 = jose.Ring()
    ring2.add(rng, bad)
    verify(ctx, inp + "." + ref.b64e(raw), ring2, "%s negated key" % alg, rng)


def g_splice(ctx, i):
    """parts, algorithms and keys of several genuine tokens combined"""
    rng = ctx.rng
    fam = rng.choice([ref.SIG_ALGS[0:3], ref.SIG_ALGS[3:9], ref.SIG_ALGS[9:],
                      ref.SIG_ALGS])
    toks, ring = [], jose.Ring()
    for j in range(3):
        alg = rng.choice(fam)
        key = gen.sig_key(rng, alg)
        kid = rng.choice([None, "a", "b"])
        toks.append((alg, key, make(ctx, alg, key, rng, kid)))
        if rng.random() < .8:
            ring.add(rng, gen.public(key), kid=kid)
    if not ring.items:
        ring.add(rng, gen.public(toks[0][1]))
    for _, _, t in toks:
        verify(ctx, t, ring, "genuine", rng)
    for _ in range(16):
        a, b, c = [rng.choice(toks)[2].split(".") for _ in range(3)]
        verify(ctx, ".".join([a[0], b[1], c[2]]), ring, "splice", rng)
    for alg, key, t in toks:
        h, octs, inp = jose.signed_parts(t)
        for other in ref.SIG_ALGS:
            # genuine value under the same key, but announced as something else
            if other != alg:
                h2 = ref.b64e(ref.jdump(dict(h, alg=other)))
                verify(ctx, ".".join([h2] + t.split(".")[1:]), ring,
                       "announced %s is %s" % (other, alg), rng)
                if other[:2] == alg[:2] and other[0] != "E":
                    inp2 = (h2 + "." + t.split(".")[1]).encode()
                    try:
                        s = ref.sign(alg, inp2, key, rng)
                    except ref.Bad:
                        continue
                    verify(ctx, inp2.decode() + "." + ref.b64e(s), ring,
                           "signed %s, announced %s" % (alg, other), rng)


def g_keys(ctx, i):
    """genuine tokens, keys that are almost the right one"""
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    key = gen.sig_key(rng, alg)
    t = make(ctx, alg, key, rng)
    near = []
    if key["kty"] == "oct":
        k = key["k"]
        near = [k + b"\0", k + b"x", k[:-1], k[1:], k[::-1], bytes(len(k)), k + k,
                bytes([k[0] ^ 1]) + k[1:], k[:-1] + bytes([k[-1] ^ 1]),
                ref.HASH[alg[2:]](k).digest(), k.lstrip(b"\0"), k.rstrip(b"\0"),
                ref.b64e(k).encode(), k[:len(k) // 2]]
        near = [dict(kty="oct", k=x) for x in near if x]
    elif key["kty"] == "RSA":
        near = [dict(gen.public(key), e=e) for e in (3, 17, 257, 65539)
                if e != key["e"]]
        near += [gen.public(k) for k in gen.RSAK[:9] if k is not key]
        near += [dict(gen.public(key), n=key["n"] + 2),
                 dict(gen.public(key), n=key["n"] ^ 1 << 200)]
    else:
        c = ref.CURVES[key["crv"]]
        q = (key["x"], key["y"])
        near = [dict(kty="EC", crv=c.name, x=p[0], y=p[1]) for p in
                (c.neg(q), c.add(q, c.g), c.add(q, q), c.g) if p]
        near += [gen.public(k) for k in gen.ECK[c.name] if k is not key][:3]
    for k in near:
        ring = jose.Ring()
        try:
            ring.add(rng, k)
        except Exception:
            ctx.event("near key refused")
            continue
        verify(ctx, t, ring, "%s near key" % alg, rng)
        ring.add(rng, gen.public(key))
        verify(ctx, t, ring, "%s near key and right key" % alg, rng)


def g_signers(ctx, i):
    """the signer of an algorithm, and the comparisons, used on their own"""
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    key = gen.sig_key(rng, alg)
    lk = gen.lib_key(rng, key, True)
    pub = gen.public(key) if key["kty"] != "oct" else key
    lp = gen.lib_key(rng, pub, False)
    signer = SIGNER_ALGS[alg]
    msg = gen.octets(rng)
    ctx.case("signer", alg, msg, gen.ident(key))
    if rng.random() < .5:
        sig = ctx.must("signer sign", signer.sign, msg, lk.get_key(alg=alg, private=True))
        ctx.check(ref.verify(alg, msg, bytes(sig), pub), "the signer's signature is not valid",
                  mechanism="signer sign", alg=alg, msg=msg, sig=sig)
        sig = bytes(sig)
    else:
        sig = ref.sign(alg, msg, key, rng)
    trials = [(msg, sig)]
    for _ in range(10):
        m, g = msg, sig
        if rng.random() < .4:
            m = gen.mut_octets(rng, msg)
            m = m[-1] if isinstance(m, tuple) else m
        else:
            g = gen.mut_octets(rng, sig)
            g = g[-1] if isinstance(g, tuple) else g
        trials.append((m, g))
    trials += [(msg, b""), (msg, sig[:-1]), (msg, sig + b"\0"), (msg, b"\0" + sig),
               (b"", sig), (msg + b"\0", sig)]
    other = rng.choice([a for a in ref.SIG_ALGS if a[:2] == alg[:2] and a != alg])
    for m, g in trials:
        for name, sgn in ((alg, signer),) + (((other, SIGNER_ALGS[other]),)
                                             if alg[0] != "E" else ()):
            want = ref.verify(name, m, g, pub)
            out = ctx.call("signer verify", sgn.verify, m, g, lp.get_key(alg=alg))
            ctx.case("signer verify", name, m, g)
            ctx.event("verify.decided")
            ctx.check((out.ok and out.value is True) == want and (want or not out.ok),
                      "a signer's verdict is not the right one", mechanism="signer verify",
                      alg=name, outcome=out, expected=want, msg=m, sig=g)
    # equal exactly if every octet is
    a = gen.octets(rng) or b"x"
    for b in [a, bytes(a), a[:-1], a + a[-1:], a + b"\0", b"", a[::-1],
              bytes([a[0] ^ 0x80]) + a[1:], a[:-1] + bytes([a[-1] ^ 1]), bytes(len(a)),
              a[1:] + a[:1], bytes(x ^ 0xff for x in a)]:
        for name, fn, x, y in [("constant_time_compare", constant_time_compare, a, b),
                               ("constant_time_compare", constant_time_compare, b, a),
                               ("safe_str_cmp", safe_str_cmp, a.decode("latin-1"),
                                b.decode("latin-1"))]:
            got = ctx.must(name, fn, x, y)
            ctx.case(name, x, y)
            ctx.check(got is (x == y), "a comparison is wrong", mechanism=name, a=x, b=y,
                      got=got)


def g_large(ctx, i):
    """long texts altered anywhere, and the right key among many"""
    rng = ctx.rng
    alg = ref.SIG_ALGS[i % 12]
    key = gen.sig_key(rng, alg)
    h = {"alg": alg}
    if rng.random() < .3:
        h["x"] = gen.big_text(rng, 70000)
    msg = gen.big_octets(rng, 200000)
    if rng.random() < .5:
        lk = gen.lib_key(rng, key, True)
        t = ctx.must("sign", JWS(msg, alg=alg).sign_compact, [lk],
                     protected=dict(h, cty="octets"))
    else:
        t = ref.jws(h, msg, key, rng)
    ring = jose.Ring()
    for _ in range(rng.choice([0, 0, 5, 20, 60])):
        k = gen.sig_key(rng, alg)
        if k["kty"] == "oct":
            k = {"kty": "oct", "k": rng.randbytes(40)}
        ring.add(rng, gen.public(k))
    ring.add(rng, gen.public(key))
    if rng.random() < .3:
        ring.items.reverse()
    verify(ctx, t, ring, "long genuine " + alg, rng)
    hb, pb, sb = t.split(".")
    p = ref.b64d(pb)
    for _ in range(6):
        b = bytearray(p)
        at = rng.choice([0, 1, 2047, 4096, 8192, 16384, 32767, 32768, 48000, 65535, 65536,
                         65537, 98304, 131072, len(b) - 1, len(b) - 2, rng.randrange(len(b)),
                         rng.randrange(len(b) // 2, len(b))])
        b[min(at, len(b) - 1)] ^= 1 << rng.randrange(8)
        verify(ctx, ".".join([hb, ref.b64e(bytes(b)), sb]), ring, "long, one bit " + alg, rng)
    for p2 in (p[:-1], p + b"\0", p[:-1] + bytes([p[-1] ^ 1]), p[:len(p) // 2],
               p[:rng.choice([1024, 4096])], p + p, p + rng.randbytes(1 << 12)):
        verify(ctx, ".".join([hb, ref.b64e(p2), sb]), ring, "long, other length " + alg, rng)
    ctx.event("long tokens")


GROUPS = [
    Group("large", g_large, 12 * 2, 12 * 40),
    Group("signers", g_signers, 12 * 4, 12 * 200),
    Group("mutate", g_mutate, 12 * 14, 12 * 400),
    Group("lengths", g_lengths, 12 * 3, 12 * 60),
    Group("rsa", g_rsa, 6 * 8, 6 * 200),
    Group("ecdsa", g_ecdsa, 3 * 14, 3 * 300),
    Group("splice", g_splice, 40, 1500),
    Group("keys", g_keys, 12 * 5, 12 * 120),
]
GROUPS = boost(GROUPS, 6)
