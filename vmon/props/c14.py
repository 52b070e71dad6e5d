"""C14: keys survive export and import, and malformed keys are refused."""
import json

from vmon import gen, ref
from vmon.core import Group, boost
from jwkest.ecc import NISTEllipticCurve, P256, P384, P521
from jwkest.jwk import (keyitems2keyreps, ECKey, KEYS, RSAKey, SYMKey, jwk_wrap, key_from_jwk_dict, keyrep,
                        load_jwks)
from jwkest.jws import JWS

RULE = ("A case is one key made in one way, exported and imported in others, or one JWK with "
        "a malformed, missing or inconsistent member. Non-trivial: distinct (key, metadata, "
        "way) or distinct JWK. An own JWK encoder gives the expected members.")
MINIMUM = {"exported": 500, "imported": 900, "must be refused": 1500, "tolerated": 300,
           "leading zero octet": 60}
ASSUME = ["non-canonical texts of the same values (leading zero octets, unused bits) may be "
          "refused or taken for the same key",
          "the CRT members dp, dq, qi are carried, not used, and not validated"]
ALL = [k for k in gen.RSAK if k["n"].bit_length() <= 2048] + sum(gen.ECK.values(), []) + \
    gen.OCT
BIG = [k for k in gen.RSAK if k["n"].bit_length() > 2048]


def view(lk, private):
    """the key material that a library key would use, or None"""
    try:
        if isinstance(lk, RSAKey):
            k = lk.get_key()
            v = {"kty": "RSA", "n": int(k.n), "e": int(k.e)}
            if (int(lk.n), int(lk.e)) != (v["n"], v["e"]):
                return "members and key differ"
            if private and k.has_private():
                v.update(d=int(k.d))
            return v
        if isinstance(lk, ECKey):
            x, y = lk.get_key(private=False)
            v = {"kty": "EC", "crv": lk.curve.name(), "x": int(x), "y": int(y)}
            if private:
                try:
                    v["d"] = int(lk.get_key(private=True))
                except ValueError:
                    pass
            return v
        if isinstance(lk, SYMKey):
            k = lk.get_key()
            return {"kty": "oct", "k": bytes(k)} if k else None
    except Exception:
        return None
    return None


def same_material(a, key, private):
    if not isinstance(a, dict):
        return False
    names = {"RSA": ["n", "e"], "EC": ["crv", "x", "y"], "oct": ["k"]}[key["kty"]]
    if private and key["kty"] != "oct":
        names.append("d")
    if key["kty"] == "RSA" and private:
        # any exponent that works is the same key
        lam = (key["p"] - 1) * (key["q"] - 1)
        return a.get("n") == key["n"] and a.get("e") == key["e"] and \
            "d" in a and (a["d"] * a["e"]) % (key["p"] - 1) == 1 and \
            (a["d"] * a["e"]) % (key["q"] - 1) == 1 and lam > 0
    return a.get("kty") == key["kty"] and all(a.get(m) == key[m] for m in names)


def meta_of(rng):
    m = {}
    if rng.random() < .6:
        m["kid"] = rng.choice(["k1", "2011-04-29", "\u00e5\u00e4\u00f6", "1", " ", "a" * 90,
                               "\U0001F511", "=+/"])
    if rng.random() < .4:
        m["use"] = rng.choice(["sig", "enc", "sig", "enc", "tls", "wrap", "SIG", "s", "ver",
                               "\u00e5"])
    if rng.random() < .4:
        m["alg"] = rng.choice(["RS256", "ES256", "HS256", "RSA-OAEP", "A128KW", "ECDH-ES",
                               "PS512", "other"])
    return m


def works(ctx, lk, pub, key, what):
    """a token signed with the imported key verifies with the imported public one"""
    rng = ctx.rng
    alg = {"RSA": "RS256", "oct": "HS256"}.get(key["kty"]) or \
        [a for a, c in ref.ES_CURVE.items() if c == key["crv"]][0]
    for k in (lk, pub):
        if k.alg and k.alg != alg or k.use and k.use != "sig":
            return
    t = ctx.must("sign", JWS("usable", alg=alg).sign_compact, [lk])
    h, o = gen.parse(t)
    ctx.check(ref.verify(alg, t.rpartition(".")[0].encode(), o[2], gen.public(key)),
              "a signature made with an imported key is not one of the key",
              mechanism="usable", what=what, key=gen.ident(key))
    v = ctx.must("verify", JWS().verify_compact, t, [pub])
    ctx.check(v == "usable", "payload", mechanism="usable verify", got=v)
    ctx.event("usable")


def importers(rng, jwk, key, private):
    """-> [(name, function)] all documented ways in"""
    d = dict(jwk)
    kty = d.pop("kty")
    cls = {"RSA": RSAKey, "EC": ECKey, "oct": SYMKey}[kty]
    b = dict((m, v.encode("utf-8") if isinstance(v, str) else v) for m, v in d.items())
    ways = [
        ("keyrep", lambda: keyrep(dict(jwk))),
        ("keyrep enc", lambda: keyrep(dict(jwk), "utf-8")),
        ("keyrep text", lambda: keyrep(dict(jwk), "")),
        ("members", lambda: cls(**d)),
        ("members octets", lambda: cls(**b)),
        ("load_jwks", lambda: load_jwks(json.dumps({"keys": [jwk]}))[0]),
        ("set", lambda: KEYS().load_jwks(json.dumps({"keys": [jwk]})).keys()[0]),
    ]

    def by_dict():
        ks = KEYS()
        ks.load_dict({"keys": [dict(jwk)]})
        return list(ks)[0]

    def by_add():
        ks = KEYS()
        ks.add(dict(jwk))
        return ks.keys()[-1]
    ways += [("load_dict", by_dict), ("add", by_add)]
    return ways


def check_import(ctx, lk, key, meta, private, what):
    ctx.event("imported")
    v = view(lk, private)
    ctx.check(same_material(v, key, private), "the imported key is another one",
              mechanism="material " + what, what=what, got=v, key=gen.ident(key))
    for m in ("kid", "use", "alg"):
        ctx.check(getattr(lk, m) == meta.get(m, ""), "metadata changed on import",
                  mechanism="metadata " + what, what=what, member=m,
                  got=getattr(lk, m), expected=meta.get(m, ""))


def check_export(ctx, got, key, meta, private, what):
    ctx.event("exported")
    exp = ref.jwk(key, private, **meta)
    ctx.check(isinstance(got, dict) and gen.same(
        dict((m, v.decode() if isinstance(v, bytes) else v) for m, v in got.items()), exp),
        "the exported JWK is not the one RFC 7518 prescribes",
        mechanism="export " + what, what=what, got=got, expected=exp)


def g_trip(ctx, i):
    rng = ctx.rng
    key = ALL[i % len(ALL)] if rng.random() < .97 else rng.choice(BIG)
    private = key["kty"] == "oct" or rng.random() < .6
    meta = meta_of(rng)
    jwk = ref.jwk(key, private, **meta)
    for m in ("n", "d", "x", "y", "k", "p", "q"):
        v = jwk.get(m)
        if v and ref.b64d(v)[0] == 0:
            ctx.event("leading zero octet")
    first = gen.lib_key(rng, key, private, None, **meta)
    check_import(ctx, first, key, meta, private, "given")
    ctx.check(ctx.must("verify", first.verify) is True, "a good key does not pass its own "
              "inspection", mechanism="inspection", key=gen.ident(key), meta=meta)
    if rng.random() < .3:
        odd = gen.lib_key(rng, key, private, None, **meta)
        odd.kid = rng.choice([5, True, ["k"], {"kid": "k"}, 1.5, b"k"])
        out = ctx.call("verify odd", odd.verify)
        ctx.check(not out.ok or out.value is not True, "a key id that is no text passes the "
                  "inspection", mechanism="inspection kid", kid=odd.kid, outcome=out)
    ways = importers(rng, jwk, key, private)
    rng.shuffle(ways)
    keep = []
    for name, fn in ways[:4]:
        ctx.case("import", name, gen.ident(key), private, meta)
        lk = ctx.must("import", fn)
        check_import(ctx, lk, key, meta, private, name)
        keep.append(lk)
    lk = rng.choice([first] + keep)
    for args, kw, p in (((), {}, False), ((False,), {}, False), ((True,), {}, True),
                        ((), {"private": True}, True)):
        got = ctx.must("serialize", lk.serialize, *args, **kw)
        check_export(ctx, got, key, meta, p and private, "serialize")
    ks = KEYS()
    ks.append(lk)
    text = ctx.must("dump_jwks", ks.dump_jwks)
    d = json.loads(text)
    ctx.need(isinstance(d, dict) and len(d.get("keys", [])) == 1, "dump",
             mechanism="dump form", got=text)
    check_export(ctx, d["keys"][0], key, meta, False, "dump_jwks")
    # exported here, imported here: an equal, equally usable key
    out = ctx.must("serialize", lk.serialize, private=True)
    again = ctx.must("import", keyrep, json.loads(json.dumps(out)))
    check_import(ctx, again, key, meta, private, "own export")
    ctx.check(again == lk and lk == again and not again != lk, "export and import do not "
              "give an equal key", mechanism="equal", key=gen.ident(key), meta=meta,
              exported=out)
    pub = ctx.must("import", keyrep, json.loads(json.dumps(lk.serialize())))
    check_import(ctx, pub, key, meta, False, "own public export")
    ctx.check(key["kty"] == "oct" or "d" not in view(pub, True), "a public export gives a "
              "private key", mechanism="public import", key=gen.ident(key))
    if private and key.get("n", 0).bit_length() <= 2048 and rng.random() < .5:
        works(ctx, again, pub, key, "own export")
        works(ctx, rng.choice(keep), pub, key, "import")
    k = ctx.must("to_dict", lk.to_dict)
    check_export(ctx, dict((m, k.get(m)) for m in out), key, meta, private, "to_dict")
    if private:
        m = dict(meta, kid=meta.get("kid", "a"))
        lk = ctx.must("import", key_from_jwk_dict, ref.jwk(key, True, **m))
        check_import(ctx, lk, key, {"kid": m["kid"]}, True, "key_from_jwk_dict")
        if key["kty"] != "oct":
            lk = ctx.must("import", key_from_jwk_dict, ref.jwk(key, True, **m),
                          private=False)
            check_import(ctx, lk, key, {"kid": m["kid"]}, False,
                         "key_from_jwk_dict public")
            ctx.check("d" not in view(lk, True), "a public import has a private member",
                      mechanism="public import", key=gen.ident(key))


def g_made(ctx, i):
    """keys generated by the library, or wrapped from other objects"""
    rng = ctx.rng
    for curve in (P256, P384, P521):
        meta = meta_of(rng)
        for lk in (ECKey(**meta).load_key(curve),
                   jwk_wrap(NISTEllipticCurve.by_name(curve.name()),
                            meta.get("use", ""), meta.get("kid", ""))):
            v = view(lk, True)
            c = ref.CURVES[curve.name()]
            ctx.case("generated", v)
            ctx.need(v is not None and c.mul(v["d"]) == (v["x"], v["y"]),
                     "a generated key is not a key pair", mechanism="generated", got=v)
            got = ctx.must("serialize", lk.serialize, private=True)
            m = dict((a, getattr(lk, a)) for a in ("kid", "use", "alg") if getattr(lk, a))
            check_export(ctx, got, v, m, True, "generated")
            again = ctx.must("import", keyrep, json.loads(json.dumps(got)))
            check_import(ctx, again, v, m, True, "generated")
            ctx.check(again == lk and lk == again, "export and import do not give an equal "
                      "key", mechanism="equal", what="generated", exported=got)
            ctx.check(lk.crv == curve.name(), "a generated key does not know its curve",
                      mechanism="curve name", got=lk.crv)
        x = ctx.must("import", ECKey, x=v["x"], y=v["y"], d=v["d"], crv=curve.name())
        check_import(ctx, x, v, {}, True, "integers")
        y = ctx.must("import", ECKey, x=v["x"], y=v["y"], d=v["d"], curve=curve)
        ctx.check(y.crv == curve.name(), "a key made with a curve does not know its name",
                  mechanism="curve name", got=y.crv)
        got = ctx.must("serialize", y.serialize, private=True)
        check_export(ctx, got, v, {}, True, "made with a curve")
        again = ctx.must("import", keyrep, json.loads(json.dumps(got)))
        ctx.check(x == y and again == y and y == again, "export and import do not give an "
                  "equal key", mechanism="equal", what="made with a curve", exported=got)
        bad = [(v, dd) for dd in (v["d"] - c.n, v["d"] + c.n, -v["d"], -c.n, c.n, v["d"] + 1)]
        for pt in (c.g, c.neg(c.g)):
            q = {"x": pt[0], "y": pt[1]}
            bad += [(q, dd) for dd in (-1, -2, 1 - c.n, -c.n - 1, -7, c.n + 1, 2 * c.n - 1)]
        for q, dd in bad:
            out = ctx.call("import bad", rng.choice([
                lambda: ECKey(x=q["x"], y=q["y"], d=dd, crv=curve.name()),
                lambda: keyrep(dict(kty="EC", crv=curve.name(), x=q["x"], y=q["y"], d=dd))]))
            ctx.case("bad scalar", q, dd)
            ctx.event("must be refused")
            ctx.check(not out.ok, "a private scalar out of range is not refused",
                      mechanism="accepted EC integer", d=dd, curve=curve.name())
    # symmetric keys from octets and text of all lengths
    for n in (1, 2, 3, 15, 16, 17, 32, 64, 100):
        o = gen.octets(rng, (n,))
        lk = ctx.must("import", SYMKey, key=o)
        ctx.case("octets", o)
        check_export(ctx, ctx.must("serialize", lk.serialize), {"kty": "oct", "k": o}, {},
                     True, "octets")
        t = "".join(rng.choice("abc\u00e5\u2603") for _ in range(n))
        if rng.random() < .5:       # white space, letter case, normal forms are part of a key
            t = rng.choice([" ", "\n", "\t", "A", "\0", "e\u0301", ""]) + t[1:] + rng.choice(
                [" ", "\r\n", "=", "\x85", "Z", "\u212b", ""])
            t = t or "x"
        lk = rng.choice([ctx.must("import", SYMKey, key=t),
                         ctx.must("jwk_wrap", jwk_wrap, t)])
        check_export(ctx, ctx.must("serialize", lk.serialize),
                     {"kty": "oct", "k": t.encode("utf-8")}, {}, True, "text")
    # many at a time
    model = [(rng.choice(["RSA", "rsa"]), rng.sample(gen.R1024, 2)),
             ("oct", [{"kty": "oct", "k": gen.octets(rng) or b"k"} for _ in range(3)])]
    rng.shuffle(model)
    items = dict((t, [k["k"] if t == "oct" else gen.lib_key(rng, k, True, "key").key
                      for k in ks]) for t, ks in model)
    got = ctx.must("keyitems2keyreps", keyitems2keyreps, items)
    flat = [k for _, ks in model for k in ks]
    ctx.case("many", [gen.ident(k) for k in flat])
    ctx.check(isinstance(got, list) and len(got) == len(flat), "keys lost or invented",
              mechanism="keyitems2keyreps", got=len(got))
    for k, lk in zip(flat, got):
        check_import(ctx, lk, k, {}, True, "many")
    # redundant RSA members are carried through
    key = rng.choice(gen.R1024)
    crt = {"dp": key["d"] % (key["p"] - 1), "dq": key["d"] % (key["q"] - 1),
           "di": pow(key["q"], -1, key["p"])}
    jwk = ref.jwk(key, True)
    jwk.update((m, ref.b64e(ref.i2o(v))) for m, v in crt.items())
    lk = ctx.must("import", keyrep, dict(jwk))
    check_import(ctx, lk, key, {}, True, "crt")
    got = ctx.must("serialize", lk.serialize, private=True)
    ctx.check(gen.same(got, jwk), "the CRT members are not exported as imported",
              mechanism="crt", got=got, expected=jwk)


JUNK = ["!", " ", "\n", "\t", "+", "/", "=", ".", ",", "\x00", "\u00e5", "%", "~"]


def damage(rng, jwk, key):
    """-> (name, JWK that must be refused)"""
    d = dict(jwk)
    kty = d["kty"]
    names = {"RSA": ["n", "e", "d", "p", "q"], "EC": ["x", "y", "d"], "oct": ["k"]}[kty]
    names = [m for m in names if m in d]
    needed = {"RSA": ["n", "e"], "EC": ["crv", "x", "y"], "oct": ["k"]}[kty]
    m = rng.choice(names)
    t = d[m]
    c = ref.CURVES.get(d.get("crv"))
    k = rng.randrange(16)
    if k == 0:
        m = rng.choice(needed)
        d.pop(m)
        return "missing " + m, d
    if k == 1:
        m = rng.choice(needed)
        d[m] = rng.choice(["", None, [], {}])
        return "empty " + m, d
    if k in (2, 3):
        i = rng.randrange(len(t) + 1)
        j = rng.choice(JUNK)
        if j == "=" and i >= len(t) - 3:
            j = "!"
        d[m] = t[:i] + j + t[i + rng.randrange(2):]
        return "character %r in %s" % (j, m), d
    if k == 4:
        d[m] = rng.choice(["A", "AAAAA", t + "A" * ((1 - len(t)) % 4 or 4)
                           if (len(t) + (1 - len(t)) % 4) % 4 == 1 else "A"])
        return "length of " + m, d
    if k == 5:
        d[m] = rng.choice([[t], {"a": t}, 1.5, ["A"], -1] +
                          ([True] if key.get("d") != 1 else []))
        return "type of " + m, d
    if k == 6 and kty != "oct":
        d[m] = rng.choice(["AA", "AAAA", "A" * 43])
        return "zero " + m, d
    if k == 7 and kty == "EC":
        d["crv"] = rng.choice([x for x in gen.CRVS if x != key["crv"]] +
                              ["P-192", "P-224", "secp256k1", "p-256", "P256", "", "Ed25519",
                               "P-256 ", "P-255"])
        return "curve", d
    if k == 8 and kty == "EC":
        m = rng.choice(["x", "y"])
        v = (key[m] + rng.choice([1, -1, 2, 1 << rng.randrange(200)])) % c.p
        d[m] = ref.b64e(ref.i2o(v, c.size))
        if c.on((v if m == "x" else key["x"], v if m == "y" else key["y"])):
            return damage(rng, jwk, key)
        return "off the curve", d
    if k == 9 and kty == "EC":
        d["x"], d["y"] = d["y"], d["x"]
        return "x and y swapped", d
    if k == 10 and kty == "EC":
        if "d" not in d and rng.random() < .5:
            # still of the proper width
            x, y = gen.small_x(rng, c)
            d["x"], d["y"] = ref.b64e(ref.i2o(x + c.p, c.size)), ref.b64e(ref.i2o(y, c.size))
            return "out of range x", d
        m = rng.choice(["x", "y"])
        d[m] = ref.b64e(ref.i2o(key[m] + c.p * rng.choice([1, 2, 2**16])))
        return "out of range " + m, d
    if k == 11 and kty == "EC" and "d" in d:
        v = rng.choice([key["d"] + c.n, key["d"] + 1, c.n - key["d"], c.n, c.n + 1, 1])
        if v == key["d"]:
            v += c.n
        d["d"] = ref.b64e(ref.i2o(v))
        return "another d", d
    if k == 12 and kty == "EC" and "d" in d:
        # a point that belongs to another key
        q = c.mul(key["d"] + 1 + rng.randrange(5))
        if q is None:
            return damage(rng, jwk, key)
        d["x"], d["y"] = [ref.b64e(ref.i2o(v, c.size)) for v in q]
        return "another point", d
    if k == 11 and kty == "RSA" and "d" in d:
        d["d"] = ref.b64e(ref.i2o(key["d"] + rng.choice([2, -2, 1, 4, 1 << 100])))
        return "another d", d
    if k == 12 and kty == "RSA" and "d" in d:
        m = rng.choice(["p", "q"])
        d[m] = ref.b64e(ref.i2o(key[m] + rng.choice([2, -2, 4])))
        return "another " + m, d
    if k == 13 and kty == "RSA" and "d" in d:
        d["n"] = ref.b64e(ref.i2o(rng.choice([x for x in gen.R1024 if x["n"] != key["n"]])
                                  ["n"]))
        return "another n", d
    if k == 14 and kty == "RSA" and "d" in d:
        d["e"] = ref.b64e(ref.i2o(rng.choice([v for v in (3, 5, 17, 257, 65537, 65539)
                                              if v != key["e"]])))
        return "another e", d
    if k == 15:
        other = rng.choice([x for x in ("RSA", "EC", "oct") if x != kty])
        d["kty"] = other
        return "kty " + other, d
    return damage(rng, jwk, key)


def tolerated(rng, jwk, key):
    """-> (name, JWK whose members still mean the same key, more or less)"""
    d = dict(jwk)
    names = [m for m in ("n", "e", "d", "p", "q", "x", "y") if m in d]
    k = rng.randrange(6)
    if k == 0 and names:
        m = rng.choice(names)
        d[m] = ref.b64e(b"\0" * rng.randrange(1, 4) + ref.b64d(d[m]))
        return "leading zeros in " + m, d
    if k == 1 and names:
        m = rng.choice(names)
        d[m] = ref.b64e(ref.b64d(d[m]).lstrip(b"\0"))
        return "minimal " + m, d
    m = rng.choice(names or ["k"])
    t = d[m]
    if k == 2 and len(t) % 4:
        free = {2: 16, 3: 4}[len(t) % 4]
        v = ref.ALPHA.index(t[-1].encode())
        d[m] = t[:-1] + chr(ref.ALPHA[v - v % free + rng.randrange(free)])
        return "unused bits in " + m, d
    if k == 3:
        d[m] = t + "=" * (-len(t) % 4)
        return "padded " + m, d
    if k == 4:
        d[rng.choice(["kid", "use", "alg"])] = rng.choice([17, None, ["a"], True, {}])
        return "metadata", d
    if d["kty"] == "RSA" and "d" in d:
        d.pop(rng.choice(["p", "q"]))
        return "prime left out", d
    if "d" in d:
        d["d"] = rng.choice([None, ""])
        return "d left out", d
    d["foo"] = {"bar": [1]}
    return "unknown member", d


def entry(rng, d):
    def by_set():
        ks = KEYS()
        ks.load_jwks(json.dumps({"keys": [d]}))
        return list(ks)[0]

    def by_dict():
        ks = KEYS()
        ks.load_dict({"keys": [dict(d)]})
        return list(ks)[0]

    def by_add():
        ks = KEYS()
        ks.add(dict(d))
        return list(ks)[0]

    def by_class():
        a = dict(d)
        return {"RSA": RSAKey, "EC": ECKey, "oct": SYMKey}[a.pop("kty")](**a)
    return rng.choice([("keyrep", lambda: keyrep(dict(d))), ("set", by_set),
                       ("load_dict", by_dict), ("add", by_add), ("class", by_class)])


def g_bad(ctx, i):
    rng = ctx.rng
    key = rng.choice(ALL)
    if key.get("n", 0).bit_length() > 1100:
        key = rng.choice(gen.R1024)
    private = rng.random() < .6
    meta = {"kid": "k"} if rng.random() < .5 else {}
    jwk = ref.jwk(key, private, **meta)
    for _ in range(8):
        name, d = damage(rng, jwk, key)
        how, fn = entry(rng, d)
        ctx.case("bad", how, d)
        ctx.event("must be refused")
        out = ctx.call("import bad", fn)
        v = view(out.value, True) if out.ok else None
        # the bare constructors may make a key object that holds no material, when
        # they were given none or not all of it
        ok = not out.ok or (
            how == "class" and v is None and not getattr(out.value, "key", None) and
            not all(d.get(m) for m in {"RSA": ["n", "e"], "EC": ["crv"],
                                       "oct": ["k"]}.get(d.get("kty"), "k")))
        ctx.check(ok, "a malformed JWK is not refused: " + name.split()[0],
                  mechanism="accepted %s %s" % (jwk["kty"], name.split()[0]), how=how,
                  name=name, jwk=d, got=v)
    for _ in range(4):
        name, d = tolerated(rng, jwk, key)
        how, fn = entry(rng, d)
        ctx.case("tolerated", how, d)
        ctx.event("tolerated")
        out = ctx.call("import odd", fn)
        if out.ok:
            v = view(out.value, True)
            ctx.check(v is None or same_material(v, key, "d" in v),
                      "an odd JWK becomes another key: " + name.split()[0],
                      mechanism="another key", how=how, name=name, jwk=d, got=v)
            if v is not None:
                # and what it is exported as is well-formed
                e = ctx.call("serialize", out.value.serialize, private=True)
                if e.ok and not name.startswith("metadata"):
                    x = ref.jwk(key, "d" in v or key["kty"] == "oct")
                    x = dict((m, x[m]) for m in x if m not in ("p", "q", "d"))
                    g = dict((m, e.value.get(m)) for m in x)
                    ctx.check(gen.same(g, x), "an odd JWK is exported in another form",
                              mechanism="odd export", name=name, got=g, expected=x)


def g_garbage(ctx, i):
    """things that are no JWKs at all"""
    rng = ctx.rng
    for d in ({}, {"kty": None}, {"kty": ""}, {"kty": 17}, {"kty": "AKP"}, {"kid": "a"},
              {"kty": "rsa", "n": "AQAB", "e": "AQAB"}, {"kty": ["RSA"]},
              {"n": "AQAB", "e": "AQAB"}, {"kty": "RSA"}, {"kty": "EC"}, {"kty": "oct"},
              {"kty": "EC", "crv": "P-256"}, {"kty": "RSA", "d": "AQAB"},
              {"kty": "RSA", "n": "AQAB", "e": "AQAB", "d": "AQAB"},
              {"kty": "oct", "K": "AAAA"}, {"kty": "OCT", "k": "AAAA"}):
        out = ctx.call("garbage", keyrep, dict(d))
        ctx.case("garbage", d)
        ctx.event("must be refused")
        if out.ok:
            usable = view(out.value, True)
            ctx.check(usable is None and not out.value.get_key(),
                      "garbage becomes a usable key", mechanism="garbage", jwk=d,
                      got=usable)
    for text in ("", "{}", "[]", "null", "17", '"keys"', '{"keys": 17}', '{"keys": [17]}',
                 '{"keys": [null]}', '{"keys": [[]]}', '{"keys": {}', "{keys: []}",
                 '{"Keys": []}', '{"keys": null}'):
        out = ctx.call("garbage set", load_jwks, text)
        ctx.case("garbage set", text)
        ctx.event("must be refused")
        ctx.check(not out.ok, "garbage is taken for a key set", mechanism="garbage set",
                  text=text, outcome=out)


GROUPS = [Group("trip", g_trip, 300, 9000), Group("made", g_made, 12, 300),
          Group("bad", g_bad, 240, 9000), Group("garbage", g_garbage, 2, 2)]
GROUPS = boost(GROUPS, 6)
