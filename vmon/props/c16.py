"""C16: thumbprints follow RFC 7638; equality and hashing are lawful."""
import hashlib
import json
import math

from vmon import gen, ref
from vmon.core import Group, boost
from jwkest.jwk import (ECKey, Key, KEYS, RSAKey, SYMKey, key_eq, keyrep,
                        make_public_copy, rsa_eq)
from Cryptodome.PublicKey import RSA

RULE = ("A case is one key (material, metadata, way of making it) with one hash function and a "
        "history of earlier calls, or one pair or triple of keys under the laws of equality and "
        "hashing. Non-trivial: distinct (key, way, history) or distinct pair. The reference "
        "writes the RFC 7638 text itself and hashes it with hashlib.")
MINIMUM = {"thumbprint.return": 1500, "pair": 3500, "equal pair": 400, "unequal pair": 1500,
           "triple": 300, "hash pair": 250, "odd operand": 400}
ASSUME = ["whether a private key equals its public copy is not judged, only that equality "
          "stays an equivalence with equal hashes",
          "hashing a key without a key id gives it one; the copy compared with is then hashed "
          "too", "EC thumbprints are a known finding (members crv, x, y without kty)"]
HASHES = {"SHA-256": "256", "SHA-384": "384", "SHA-512": "512"}
KEYSET = gen.R1024 + gen.R2048 + sum(gen.ECK.values(), []) + gen.OCT


def meta_of(rng):
    m = {}
    if rng.random() < .6:
        m["kid"] = rng.choice(["a", "b", "\u00e5", "1", "A", " ", "aa", 'a"b', "a\\b", "a b",
                               "a/b", "{}", "a="])
    if rng.random() < .4:
        m["use"] = rng.choice(["sig", "enc"])
    if rng.random() < .4:
        m["alg"] = rng.choice(["RS256", "ES256", "HS256", "A128KW", "RSA-OAEP"])
    return m


def no_kty(key, h):
    j = ref.jwk(key)
    j.pop("kty")
    return ref.HASH[h](json.dumps(j, separators=(",", ":"), sort_keys=True).encode()).digest()


def shuffled(rng, d):
    L = list(d.items())
    rng.shuffle(L)
    return dict(L)


def make(ctx, key, private, meta):
    """a library key, in one of the ways gen knows or from an odd but valid JWK"""
    rng = ctx.rng
    k = rng.random()
    if k < .6:
        return gen.lib_key(rng, key, private, **meta), "made"
    jwk = shuffled(rng, ref.jwk(key, private, **meta))
    if k < .75:
        ks = KEYS()
        ks.load_jwks(json.dumps({"keys": [jwk]}))
        return ks.keys()[0], "reordered"
    if k < .85:
        jwk.update(ext="private member", key_ops=["sign"])
        return keyrep(jwk), "extra members"
    if k < .93 and private and key["kty"] != "oct":
        return make_public_copy(gen.lib_key(rng, key, True, **meta)), "public copy"
    # out and in again
    a = gen.lib_key(rng, key, private, **meta)
    d = a.serialize(private=private)
    return keyrep(dict((x, v.decode() if isinstance(v, bytes) else v)
                       for x, v in d.items())), "again"


def exercise(ctx, lk, key):
    """some history: calls that must not change what the key is"""
    rng = ctx.rng
    done = []
    for _ in range(rng.randrange(4)):
        k = rng.randrange(8)
        if k == 0:
            done.append("get_hash")
            ctx.must("get_hash", lk.get_hash, rng.choice([None] + sorted(HASHES)))
        elif k == 1:
            done.append("serialize")
            ctx.must("serialize", lk.serialize, private=rng.random() < .5)
        elif k == 2:
            done.append("to_dict")
            ctx.must("to_dict", lk.to_dict)
        elif k == 3:
            done.append("str")
            ctx.must("str", str, lk)
        elif k == 4:
            done.append("thumbprint")
            ctx.must("thumbprint", lk.thumbprint, rng.choice(sorted(HASHES)))
        elif k == 5:
            done.append("eq")
            ctx.must("eq", lambda: lk == lk)
        elif k == 6:
            done.append("verify")
            ctx.must("verify", lk.verify)
        else:
            done.append("keys")
            ctx.must("keys", lk.keys)
    return done


def judge_thumb(ctx, lk, key, name, **detail):
    h = HASHES[name]
    got = ctx.must("thumbprint", lk.thumbprint, name)
    want = ref.thumbprint(key, h)
    if got == want:
        ctx.check(True, "")
    elif key["kty"] == "EC" and got == no_kty(key, h):
        ctx.check(False, "EC thumbprint leaves kty out", mechanism="ec-thumbprint-without-kty",
                  **detail)
    else:
        ctx.check(False, "the thumbprint is not the RFC 7638 value",
                  mechanism="thumbprint " + key["kty"], key=gen.ident(key), hash=name,
                  got=got.hex() if isinstance(got, bytes) else got, expected=want.hex(),
                  **detail)
    return got


def g_thumb(ctx, i):
    rng = ctx.rng
    key = KEYSET[i % len(KEYSET)]
    seen = {}
    for _ in range(4):
        private = rng.random() < .5
        meta = meta_of(rng)
        lk, how = make(ctx, key, private, meta)
        done = exercise(ctx, lk, key)
        ctx.case(gen.ident(key), private, meta, how, done)
        names = sorted(HASHES)
        rng.shuffle(names)
        for name in names:
            got = judge_thumb(ctx, lk, key, name, how=how, done=done, meta=meta)
            prev = seen.setdefault(name, (got, how, done))
            ctx.check(got == prev[0], "the thumbprint depends on form, metadata or history",
                      mechanism="thumbprint varies", key=gen.ident(key), how=how, done=done,
                      first=prev)
        # the members asked for, whatever their order, which is left as it is
        members = list(ref.jwk(key))
        rng.shuffle(members)
        name = rng.choice(names)
        asked, required = list(members), list(getattr(lk, "required", ()))
        got = ctx.must("thumbprint", lk.thumbprint, name, members)
        ctx.check(members == asked and list(getattr(lk, "required", ())) == required,
                  "a thumbprint reorders the list of members",
                  mechanism="members list", asked=asked, now=members)
        ctx.check(got == ref.thumbprint(key, HASHES[name]),
                  "the thumbprint over the required members is not the RFC 7638 value",
                  mechanism="members " + key["kty"], members=members, key=gen.ident(key))
        # metadata asked for as well: RFC 7638 allows it, and the text is minimal JSON
        mine = dict((k, v) for k, v in meta.items() if v.isascii())
        if mine:
            asked = sorted(mine) + members
            rng.shuffle(asked)
            full = dict(ref.jwk(key), **mine)
            text = json.dumps(full, separators=(",", ":"), sort_keys=True)
            lk2 = gen.lib_key(rng, key, private, **meta)
            got = ctx.must("thumbprint", lk2.thumbprint, name, asked)
            ctx.check(got == ref.HASH[HASHES[name]](text.encode()).digest(),
                      "the thumbprint over metadata too is not the hash of the minimal JSON",
                      mechanism="metadata members", asked=asked, meta=meta, key=gen.ident(key))
        # the key id that is made of it
        if rng.random() < .5:
            before = lk.thumbprint("SHA-256")
            ctx.must("add_kid", lk.add_kid)
            ctx.check(lk.kid == ref.b64e(before), "the key id made is not the thumbprint",
                      mechanism="add_kid", kid=lk.kid, key=gen.ident(key))
            ctx.check(lk.thumbprint("SHA-256") == before, "the key id changed the thumbprint",
                      mechanism="thumbprint varies")


# -- pairs ------------------------------------------------------------------------

def variant(rng, key):
    """a reference key with other material that is close by, or None"""
    k = dict(key)
    if key["kty"] == "oct":
        b = key["k"]
        k["k"] = rng.choice([b + b"\0", b"\0" + b, b[:-1] + bytes([b[-1] ^ 1]), b + b,
                             bytes([b[0] ^ 0x80]) + b[1:]])
        return k
    if key["kty"] == "EC":
        c = ref.CURVES[key["crv"]]
        k["d"] = c.n - key["d"]
        k["y"] = c.p - key["y"]
        return k
    j = rng.choice([o for o in gen.RSAK[:9] if o["n"] != key["n"]])
    return dict(j)


def differ(rng, meta):
    m = dict(meta)
    what = rng.choice(["kid", "use", "alg"])
    if what == "kid":
        m["kid"] = rng.choice([v for v in ("a", "b", "A", "a ", "\u00e5", "") if
                               v != meta.get("kid", "")])
    elif what == "use":
        m["use"] = "enc" if meta.get("use") != "enc" else rng.choice(["sig", ""])
    else:
        m["alg"] = rng.choice([v for v in ("RS256", "HS512", "ES384", "") if
                               v != meta.get("alg", "")])
    return m


def norm(meta):
    return dict((k, v) for k, v in meta.items() if v)


def equal(ctx, a, b, **detail):
    """a == b, with the laws every comparison has to keep"""
    ab = ctx.must("eq", lambda: a == b)
    ba = ctx.must("eq", lambda: b == a)
    ne = ctx.must("ne", lambda: a != b)
    ctx.event("pair")
    ctx.check(isinstance(ab, bool), "equality is not a truth value", mechanism="eq type",
              got=ab, **detail)
    ctx.check(bool(ab) == bool(ba), "equality is not symmetric", mechanism="symmetry",
              a=repr(a), b=repr(b), **detail)
    ctx.check(bool(ne) != bool(ab), "inequality is not the opposite of equality",
              mechanism="ne", **detail)
    return bool(ab)


def hashes(ctx, a, b, **detail):
    """equal keys have equal hashes"""
    if ctx.rng.random() < .5:
        exercise(ctx, a, None)
    if ctx.rng.random() < .5:
        exercise(ctx, b, None)
    if not equal(ctx, a, b, **detail):
        return          # something in between gave one of them a key id
    ha = ctx.must("hash", hash, a)
    hb = ctx.must("hash", hash, b)
    ctx.event("hash pair")
    ctx.check(equal(ctx, a, b), "hashing two equal keys made them unequal",
              mechanism="hash unequal", **detail)
    ctx.check(ha == hb, "equal keys have different hashes", mechanism="hash law", a=ha, b=hb,
              **detail)
    ctx.check(hash(a) == ha, "the hash of a key changes", mechanism="hash changes", **detail)
    ctx.check(b in {a} and {a: 1}.get(b) == 1 and len({a, b}) == 1,
              "an equal key is not found in a set or dictionary", mechanism="hash lookup",
              **detail)


def g_pair(ctx, i):
    rng = ctx.rng
    key = rng.choice(KEYSET)
    meta = meta_of(rng)
    a, ha = make(ctx, key, rng.random() < .5, meta)
    ctx.check(equal(ctx, a, a), "a key does not equal itself", mechanism="reflexive",
              key=gen.ident(key), how=ha)
    # the same key made in another way
    for _ in range(2):
        b, hb = make(ctx, key, rng.random() < .5, meta)
        ctx.case(gen.ident(key), meta, ha, hb, "same")
        ctx.check(equal(ctx, a, b), "the same key does not equal itself",
                  mechanism="same key unequal", key=gen.ident(key), meta=meta, a=ha, b=hb)
        ctx.event("equal pair")
    # other metadata
    for _ in range(3):
        m2 = differ(rng, meta)
        b, hb = make(ctx, key, rng.random() < .5, norm(m2))
        ctx.case(gen.ident(key), meta, m2, "metadata")
        ctx.check(not equal(ctx, a, b), "keys with different metadata are equal",
                  mechanism="metadata ignored", meta=meta, other=m2, key=gen.ident(key))
        ctx.event("unequal pair")
    # other material
    for _ in range(4):
        o = variant(rng, key) if rng.random() < .6 else rng.choice(KEYSET)
        if gen.public(o) == gen.public(key):
            continue
        if o["kty"] == "EC" and not 0 < o["d"] < ref.CURVES[o["crv"]].n:
            continue
        b, hb = make(ctx, o, rng.random() < .5, meta)
        ctx.case(gen.ident(key), gen.ident(o), meta, "material")
        ctx.check(not equal(ctx, a, b), "keys with different material are equal",
                  mechanism="material ignored", key=gen.ident(key), other=gen.ident(o),
                  meta=meta)
        ctx.event("unequal pair")
    # another exponent with the same modulus
    if key["kty"] == "RSA":
        e2 = 3 if key["e"] != 3 else 65537
        b = keyrep(dict(ref.jwk(dict(key, e=e2)), **meta))
        ctx.check(not equal(ctx, a, b), "keys with different material are equal",
                  mechanism="material ignored", exponents=(key["e"], e2))
        ctx.event("unequal pair")
    # things that are no keys
    for o in [None, "", key, 0, object(), [], a.kid, dict(a.__dict__), float("nan"), Key, b"",
              (), Key(kty=a.kty, kid=a.kid), RSAKey(), SYMKey(), ECKey(), type(a)]:
        out = ctx.call("eq.odd", lambda: (a == o, o == a, a != o))
        ctx.event("odd operand")
        ctx.check(out.ok and out.value == (False, False, True),
                  "comparing with something that is no such key", mechanism="odd operand",
                  other=repr(type(o)), out=out)
    # members that keys have in common
    b, hb = make(ctx, key, rng.random() < .5, meta)
    hashes(ctx, a, b, key=gen.ident(key), a_how=ha, b_how=hb, meta=meta)


def g_triple(ctx, i):
    """equivalence over a small population with many coincidences"""
    rng = ctx.rng
    keys = rng.sample(KEYSET, 2)
    keys.append(variant(rng, keys[0]))
    keys = [k for k in keys if k["kty"] != "EC" or 0 < k["d"] < ref.CURVES[k["crv"]].n]
    metas = [meta_of(rng), {}]
    pop = []
    for _ in range(9):
        k, m = rng.choice(keys), rng.choice(metas)
        lk, how = make(ctx, k, rng.random() < .5, m)
        if rng.random() < .4:
            exercise(ctx, lk, k)
        if rng.random() < .3:
            ctx.must("hash", hash, lk)
        pop.append((lk, k, how))
    n = len(pop)
    eq = [[equal(ctx, pop[a][0], pop[b][0]) for b in range(n)] for a in range(n)]
    ctx.case([(gen.ident(k), how) for _, k, how in pop], metas)
    for a in range(n):
        ctx.check(eq[a][a], "a key does not equal itself", mechanism="reflexive")
        for b in range(n):
            if eq[a][b]:
                ctx.check(gen.public(pop[a][1]) == gen.public(pop[b][1]),
                          "keys with different material are equal",
                          mechanism="material ignored", a=gen.ident(pop[a][1]),
                          b=gen.ident(pop[b][1]))
                for c in range(n):
                    ctx.event("triple")
                    ctx.check(not eq[b][c] or eq[a][c], "equality is not transitive",
                              mechanism="transitive",
                              keys=[(gen.ident(pop[j][1]), pop[j][2]) for j in (a, b, c)])
    for a in range(n):
        for b in range(a):
            if eq[a][b] and rng.random() < .6:
                hashes(ctx, pop[a][0], pop[b][0], key=gen.ident(pop[a][1]))


def g_reload(ctx, i):
    """a key object that is given another key"""
    rng = ctx.rng
    k1, k2 = rng.sample(gen.R1024, 2)
    meta = dict(meta_of(rng), kid=rng.choice(["a", "b"]))
    a = RSAKey(**meta).load_key(gen.lib_key(rng, k1, rng.random() < .5).key)
    exercise(ctx, a, k1)
    if rng.random() < .7:
        ctx.must("hash", hash, a)
    a.load_key(gen.lib_key(rng, k2, rng.random() < .5).key)
    done = exercise(ctx, a, k2)
    for name in HASHES:
        judge_thumb(ctx, a, k2, name, how="loaded anew", done=done)
    b, how = make(ctx, k2, rng.random() < .5, meta)
    ctx.case(gen.ident(k1), gen.ident(k2), meta, done)
    ctx.check(equal(ctx, a, b), "the same key does not equal itself",
              mechanism="same key unequal", how=how)
    ctx.event("equal pair")
    hashes(ctx, a, b, what="loaded anew")
    o, how = make(ctx, k1, rng.random() < .5, meta)
    ctx.check(not equal(ctx, a, o), "keys with different material are equal",
              mechanism="material ignored", what="loaded anew")


def g_unknown(ctx, i):
    """keys of a type that the library does not know have metadata only; raw keys"""
    rng = ctx.rng

    def mk(kty, meta):
        d = dict(meta, kty=kty)
        if rng.random() < .5:
            d.update(crv="Ed25519", x="AAAA")
            return keyrep(d)
        return Key(**d) if rng.random() < .5 else keyrep(d)

    kty = rng.choice(["OKP", "AKP", "XX", "rsa", "", "\u00e5"])
    meta = meta_of(rng)
    a, b = mk(kty, meta), mk(kty, meta)
    ctx.case("unknown", kty, meta)
    ctx.check(equal(ctx, a, a), "a key does not equal itself", mechanism="reflexive", kty=kty)
    ctx.check(equal(ctx, a, b), "the same key does not equal itself",
              mechanism="same key unequal", kty=kty, meta=meta)
    ctx.event("equal pair")
    for o in (mk(kty, norm(differ(rng, meta))), mk(kty + "x", meta)):
        ctx.check(not equal(ctx, a, o), "keys with different metadata are equal",
                  mechanism="metadata ignored", kty=kty, meta=meta)
        ctx.event("unequal pair")
    key = rng.choice(KEYSET)
    o, how = make(ctx, key, rng.random() < .5, meta)
    ctx.check(not equal(ctx, a, o), "keys of different types are equal",
              mechanism="material ignored", kty=kty, other=gen.ident(key))
    ha, hb = ctx.must("hash", hash, a), ctx.must("hash", hash, b)
    ctx.event("hash pair")
    ctx.check(ha == hb and a == b and b in {a}, "equal keys have different hashes",
              mechanism="hash law", kty=kty)
    # the keys of the cryptographic library, and texts
    k1, k2 = rng.sample(gen.R1024, 2)
    raw = [gen.lib_key(rng, k, p).key for k in (k1, k2) for p in (False, True)]
    raw += [gen.lib_key(rng, k1, rng.random() < .5).key, "a", "b", "a", None, 1, b"a"]
    # nearly the same: one of the two numbers differs
    n, e = k1["n"], k1["e"]
    near = [(n, 3 if e != 3 else 5), (n, e + 2 ** rng.randrange(1, 40)),
            (n ^ 2 ** rng.randrange(1, n.bit_length() - 1), e), (n, e)]
    raw += [RSA.construct(x) for x in rng.sample([v for v in near if math.gcd(*v) == 1], 2)]
    for x in raw:
        for y in raw:
            got = ctx.must("key_eq", key_eq, x, y)
            ctx.event("pair")
            if isinstance(x, str) or isinstance(y, str):
                want = isinstance(x, str) and isinstance(y, str) and x == y
            elif hasattr(x, "n") and hasattr(y, "n"):
                want = (x.n, x.e) == (y.n, y.e)
            else:
                continue
            ctx.check(got is want, "raw keys are compared wrongly", mechanism="key_eq",
                      got=got, expected=want, types=(type(x).__name__, type(y).__name__))
            if hasattr(x, "n") and hasattr(y, "n"):
                got = ctx.must("rsa_eq", rsa_eq, x, y)
                ctx.check(got is want, "raw keys are compared wrongly", mechanism="rsa_eq",
                          got=got, expected=want)


GROUPS = [Group("unknown", g_unknown, 60, 1500), Group("thumb", g_thumb, 200, 6000), Group("pair", g_pair, 350, 9000),
          Group("triple", g_triple, 40, 1200), Group("reload", g_reload, 40, 1200)]
GROUPS = boost(GROUPS, 8)
