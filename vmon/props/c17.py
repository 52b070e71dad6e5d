"""C17: a key set behaves as an ordered collection, updated all or nothing."""
import json

from vmon import gen, ref
from vmon.core import Group, boost
from vmon.props.c14 import same_material, view
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwk import KEYS, Key, load_jwks

RULE = ("A case is one operation on a key set at one point of a random history of loads, "
        "additions, failing loads, lookups and dumps, over two key sets at a time. Non-trivial: "
        "distinct (history so far, operation). After every operation the whole observable state "
        "is compared with a list model.")
MINIMUM = {"op": 3000, "failed op": 700, "added": 2000, "state compared": 3000,
           "dump loaded": 300, "mid-list failure": 150}
ASSUME = ["the list that keys() returns is the set's own, as documented by its use; it is not "
          "modified here",
          "a key of unknown type keeps its type, key id, use and algorithm only"]
SMALL = gen.R1024 + sum(gen.ECK.values(), []) + gen.OCT
KIDS = ["", "", "a", "b", "A", "k1", "\u00e5", " "]


def meta_of(rng):
    m = {"kid": rng.choice(KIDS)}
    if rng.random() < .3:
        m["use"] = rng.choice(["sig", "enc"])
    if rng.random() < .3:
        m["alg"] = rng.choice(["RS256", "ES256", "HS256"])
    return dict((k, v) for k, v in m.items() if v)


class Entry(object):
    """what the model knows about one key of the set"""

    def __init__(self, key, meta, private, obj=None):
        self.key, self.meta, self.private, self.obj = key, meta, private, obj

    def __repr__(self):
        return "<%s %s>" % (gen.ident(self.key) if "kty" in self.key and
                            self.key["kty"] in ("RSA", "EC", "oct") else self.key, self.meta)


def good_spec(rng):
    """-> JWK, Entry"""
    if rng.random() < .07:
        kty = rng.choice(["OKP", "rsa", "ec", "OCT", "XYZ"])
        m = meta_of(rng)
        return dict(m, kty=kty, crv="Ed25519", x="AAAA"), Entry({"kty": kty}, m, False)
    key = rng.choice(SMALL)
    private = rng.random() < .5
    m = meta_of(rng)
    jwk = ref.jwk(key, private, **m)
    if rng.random() < .2:
        jwk["key_ops"] = ["verify"]
    return jwk, Entry(key, m, private)


def bad_spec(rng):
    """a JWK that must be refused"""
    key = rng.choice(SMALL)
    d = ref.jwk(key, rng.random() < .5, **meta_of(rng))
    k = rng.randrange(9)
    m = rng.choice({"RSA": ["n", "e"], "EC": ["x", "y", "crv"], "oct": ["k"]}[key["kty"]])
    if k == 0:
        d.pop(m)
    elif k == 1:
        d[m] = "!" + d[m]
    elif k == 2:
        d.pop("kty")
    elif k == 3:
        return rng.choice([None, 5, "RSA", [], ["kty"], {}, True])
    elif k == 4:
        d["kty"] = rng.choice([None, 5, ["RSA"], {}])
    elif k == 5:
        d[m] = rng.choice(["", None])
    elif k == 6 and key["kty"] == "EC":
        d["y"], d["x"] = d["x"], d["y"]
    elif k == 7 and key["kty"] != "oct":
        d["d"] = "*"
    else:
        d[m] = d[m][:-1] + "~"
    return d


def observe(ctx, ks, model, where, deep=False):
    """every observer against the model"""
    rng = ctx.rng
    got = ctx.must("list", list, ks)
    ctx.event("state compared")
    ctx.need(len(got) == len(model), "the set does not hold the keys that were added",
             mechanism="content", where=where, got=len(got), expected=model)
    ctx.check(ctx.must("len", len, ks) == len(model), "len() disagrees", mechanism="len",
              where=where)
    ctx.check([id(k) for k in ctx.must("keys", ks.keys)] == [id(k) for k in got],
              "keys() disagrees with iteration", mechanism="keys()", where=where)
    for n, (lk, e) in enumerate(zip(got, model)):
        if e.obj is not None:
            ctx.check(lk is e.obj, "a key object was replaced or moved", mechanism="identity",
                      where=where, at=n, model=model)
        else:
            e.obj = lk
            deep = True
        if deep or rng.random() < .1:
            if e.key["kty"] in ("RSA", "EC", "oct"):
                ok = same_material(view(lk, e.private), e.key, e.private)
            else:
                ok = type(lk) is Key
            ctx.check(ok, "a key of the set is not the one added", mechanism="material",
                      where=where, at=n, expected=e)
            ctx.check(lk.kty == e.key["kty"] and lk.kid == e.meta.get("kid", "") and
                      lk.use == e.meta.get("use", "") and lk.alg == e.meta.get("alg", ""),
                      "the metadata of a key is not that added", mechanism="metadata",
                      where=where, expected=e, got=(lk.kty, lk.kid, lk.use, lk.alg))
    kids = [e.meta["kid"] for e in model if e.meta.get("kid")]
    ctx.check(ctx.must("kids", ks.kids) == kids, "kids() disagrees", mechanism="kids",
              where=where, got=ks.kids(), expected=kids)
    for kid in rng.sample(KIDS + ["none such", "K1"], 3):
        want = [e.obj for e in model if e.meta.get("kid", "") == kid]
        r = ctx.must("by_kid", ks.by_kid, kid)
        ctx.check([id(k) for k in r] == [id(k) for k in want],
                  "by_kid() does not give the keys with that id, in order",
                  mechanism="by_kid", where=where, kid=kid, got=r, model=model)
    for kty in rng.sample(["RSA", "rsa", "EC", "ec", "oct", "OCT", "Oct", "OKP", "okp", "",
                           "XYZ"], 3):
        want = [e.obj for e in model if e.key["kty"].lower() == kty.lower()]
        r = ctx.must("getitem", lambda: ks[kty])
        ctx.check([id(k) for k in r] == [id(k) for k in want],
                  "lookup by type does not give the keys of that type, in order",
                  mechanism="getitem", where=where, kty=kty, got=r, model=model)
    kt = ctx.must("key_types", ks.key_types)
    ctx.check(sorted(kt) == sorted(set(e.key["kty"] for e in model)),
              "key_types() disagrees", mechanism="key_types", got=kt, model=model)
    if rng.random() < .4:
        r = ctx.must("as_dict", ks.as_dict)
        want = {}
        for e in model:
            t = e.key["kty"]
            if t in ("rsa", "ec"):
                t = t.upper()
            elif t not in ("RSA", "EC", "oct"):
                t = t.lower()
            want.setdefault(t, []).append(id(e.obj))
        ctx.check(dict((t, [id(k) for k in L]) for t, L in r.items()) == want,
                  "as_dict() disagrees", mechanism="as_dict", got=r, model=model)


def dump(ctx, ks, model, where):
    rng = ctx.rng
    txt = ctx.must("dump", rng.choice([ks.dump_jwks, ks.__str__, ks.__repr__]))
    doc = json.loads(txt)
    ctx.need(isinstance(doc, dict) and isinstance(doc.get("keys"), list) and
             len(doc["keys"]) == len(model), "the dump does not have the keys of the set",
             mechanism="dump", dump=txt, model=model)
    for d, e in zip(doc["keys"], model):
        want = ref.jwk(e.key, False, **e.meta) if e.key["kty"] in ("RSA", "EC", "oct") else \
            dict(e.meta, kty=e.key["kty"])
        ctx.check(d == want, "the dump does not have the public content of the set",
                  mechanism="dump", got=d, expected=want)
    ks2 = KEYS()
    r = ctx.must("load dump", ks2.load_jwks, txt)
    ctx.check(r is ks2, "load_jwks does not return the set", mechanism="return")
    observe(ctx, ks2, [Entry(e.key, e.meta, e.key["kty"] == "oct") for e in model],
            "after loading the dump", True)
    ctx.event("dump loaded")


def step(ctx, ks, model, trail):
    """one operation; extends the model if it succeeds"""
    rng = ctx.rng
    k = rng.randrange(20)
    ctx.event("op")
    if k < 5:            # load of good keys
        specs = [good_spec(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        doc = {"keys": [s[0] for s in specs]}
        if rng.random() < .3:
            doc["extra"] = 1
        if rng.random() < .5:
            name, fn, arg = "load_jwks", ks.load_jwks, json.dumps(doc)
            if rng.random() < .3:
                arg = json.dumps(doc, ensure_ascii=False, indent=1)
        else:
            name, fn, arg = "load_dict", ks.load_dict, doc
        trail.append((name, len(specs)))
        ctx.must(name, fn, arg)
        model.extend(s[1] for s in specs)
        ctx.event("added", len(specs))
    elif k < 8:
        spec, e = good_spec(rng)
        trail.append(("add", repr(e)))
        ctx.must("add", ks.add, dict(spec))
        model.append(e)
        ctx.event("added")
    elif k < 10:
        key, private, m = rng.choice(SMALL), rng.random() < .5, meta_of(rng)
        lk = gen.lib_key(rng, key, private, **m)
        trail.append(("append", gen.ident(key)))
        ctx.must("append", ks.append, lk)
        model.append(Entry(key, m, private, lk))
        ctx.event("added")
    elif k < 12:
        m = dict((x, v) for x, v in meta_of(rng).items() if x != "alg")
        t = rng.randrange(3)
        if t == 0:
            key = rng.choice(gen.R1024)
            raw = gen.lib_key(rng, key, True, "key").key
            e = Entry(key, m, True)
        elif t == 1:
            s = rng.choice(["secret", "p\u00e5ss", "x" * 40, " lead", "trail ", "line\n", "\tTaB\r\n",
                            " ", "\ufeffbom", "nul\0", "0", "UPPER lower", "a+b/c==",
                            "e\u0301\u00e9", "%41&amp;"])
            raw, e = s, Entry({"kty": "oct", "k": s.encode("utf-8")}, m, True)
        else:
            raw = NISTEllipticCurve.by_name(rng.choice(gen.CRVS))
            e = None
        trail.append(("wrap_add", t))
        ctx.must("wrap_add", ks.wrap_add, raw, **m)
        if e is None:
            # a new key on that curve: take it as it is
            lk = ks.keys()[-1]
            x, y = lk.get_key()
            e = Entry({"kty": "EC", "crv": raw.name(), "x": int(x), "y": int(y),
                       "d": int(lk.get_key(private=True))}, m, True)
        model.append(e)
        ctx.event("added")
    elif k < 15:         # one of the keys is malformed
        specs = [good_spec(rng)[0] for _ in range(rng.randrange(1, 5))]
        at = rng.randrange(len(specs) + 1)
        specs.insert(at, bad_spec(rng))
        doc = {"keys": specs}
        name = rng.choice(["load_jwks", "load_dict"])
        trail.append((name, "bad at %d" % at))
        out = ctx.call("bad load", getattr(ks, name),
                       json.dumps(doc) if name == "load_jwks" else doc)
        ctx.check(not out.ok, "a set with a malformed key was loaded without an error",
                  mechanism="accepted bad set", doc=doc, at=at)
        ctx.event("failed op")
        if at:
            ctx.event("mid-list failure")
    elif k < 17:
        arg = rng.choice(["", "{", "null", "[]", "5", "\"keys\"", "{}", "{\"Keys\": []}",
                          "{\"keys\": null}", "{\"keys\": 5}", "{\"keys\": [5]}",
                          "{\"keys\": [null]}", "{\"keys\": [[]]}", "{\"keys\": \"abc\"}",
                          "{\"keys\": {\"kty\": \"RSA\"}}", "not json", "[{\"kty\": \"oct\"}]",
                          json.dumps({"keys": [good_spec(rng)[0]]})[:-rng.randrange(1, 9)]])
        trail.append(("bad document", arg[:40]))
        out = ctx.call("bad load", ks.load_jwks, arg)
        ctx.check(not out.ok, "a text that is no key set was loaded without an error",
                  mechanism="accepted bad set", text=arg)
        ctx.event("failed op")
    elif k < 18:
        spec = bad_spec(rng)
        trail.append(("bad add", repr(spec)[:60]))
        out = ctx.call("bad add", ks.add, spec)
        ctx.check(not out.ok, "a malformed key was added without an error",
                  mechanism="accepted bad key", spec=spec)
        ctx.event("failed op")
    elif k < 19:
        raw = rng.choice([None, 5, [], {}, object(), 1.5])
        trail.append(("bad wrap", repr(raw)[:20]))
        out = ctx.call("bad wrap_add", ks.wrap_add, raw)
        ctx.check(not out.ok, "a thing that is no key was wrapped and added",
                  mechanism="accepted bad key", raw=raw)
        ctx.event("failed op")
    else:
        trail.append(("lookup of odd things",))
        ctx.call("odd lookup", ks.by_kid, rng.choice([None, 5, [], b"a"]))
        ctx.call("odd lookup", lambda: ks[rng.choice(["", "zzz", "\u00e5"])])


def g_history(ctx, i):
    rng = ctx.rng
    sets = [(KEYS(), [], []), (KEYS(), [], [])]
    for n in range(rng.randrange(6, 22)):
        ks, model, trail = rng.choice(sets)
        step(ctx, ks, model, trail)
        ctx.case(trail)
        for s, m, t in sets:
            observe(ctx, s, m, t[-3:])
        if rng.random() < .15:
            dump(ctx, ks, model, trail[-3:])
            observe(ctx, ks, model, "after a dump")
    for s, m, t in sets:
        observe(ctx, s, m, "at the end", True)
        dump(ctx, s, m, "at the end")


def g_many(ctx, i):
    """sets of many keys"""
    rng = ctx.rng
    n = rng.choice([33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1000, 1030])
    specs = []
    for j in range(n):
        if rng.random() < .9:
            k = rng.randbytes(rng.choice([1, 8, 16]))
            spec = {"kty": "oct", "k": ref.b64e(k)}
            m = {}
            if rng.random() < .7:
                spec["kid"] = m["kid"] = "k%d" % rng.choice([j, j, j // 2, 7])
            specs.append((spec, Entry({"kty": "oct", "k": k}, m, True)))
        else:
            specs.append(good_spec(rng))
    ks, model = KEYS(), []
    at = 0
    while at < n:
        m = rng.choice([1, 7, 50, n])
        part = specs[at:at + m]
        ctx.must("load_jwks", ks.load_jwks, json.dumps({"keys": [s[0] for s in part]}))
        model += [s[1] for s in part]
        at += m
    ctx.case("many", [s[0] for s in specs])
    ctx.event("many keys", n)
    observe(ctx, ks, model, "many", False)
    dump(ctx, ks, model, "many")
    at = rng.randrange(n + 1)
    bad = [s[0] for s in specs]
    bad.insert(at, bad_spec(rng))
    out = ctx.call("bad load", ks.load_dict, {"keys": bad})
    ctx.check(not out.ok, "a set with a malformed key was loaded without an error",
              mechanism="accepted bad set", at=at)
    observe(ctx, ks, model, "many after a bad load", False)


def g_function(ctx, i):
    """load_jwks() as a function"""
    rng = ctx.rng
    specs = [good_spec(rng) for _ in range(rng.randrange(5))]
    txt = json.dumps({"keys": [s[0] for s in specs]})
    ctx.case("load_jwks", txt)
    keys = ctx.must("load_jwks", load_jwks, txt)
    ks = KEYS()
    for k in keys:
        ks.append(k)
    observe(ctx, ks, [s[1] for s in specs], "load_jwks()", True)
    bad = [s[0] for s in specs]
    bad.insert(rng.randrange(len(bad) + 1), bad_spec(rng))
    ctx.case("load_jwks", bad)
    out = ctx.call("bad load", load_jwks, json.dumps({"keys": bad}))
    ctx.check(not out.ok, "a set with a malformed key was loaded without an error",
              mechanism="accepted bad set", doc=bad)
    # a fresh set is empty, whatever other sets went through
    ctx.check(len(KEYS()) == 0 and list(KEYS()) == [], "a new set is not empty",
              mechanism="shared")


GROUPS = [Group("history", g_history, 260, 7000), Group("function", g_function, 120, 3000),
          Group("many", g_many, 4, 150)]
GROUPS = boost(GROUPS, 8)
