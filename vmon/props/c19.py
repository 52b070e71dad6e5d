"""C19: operations do not interfere with each other or with their inputs."""
import copy
import importlib
import json

from vmon import gen, ref
from vmon.core import Group
from vmon.props.c14 import same_material, view
from jwkest import jwe as jwe_mod
from jwkest import jws as jws_mod
from jwkest.jwe import JWE
from jwkest.jwk import KEYS, key_from_jwk_dict, keyrep, load_jwks, make_public_copy
from jwkest.jws import JWS, left_hash
from jwkest.jwt import JWT, b2s_conv

RULE = ("A case is one operation at one point of a random history over shared keys, key lists "
        "and header objects, many of them failing ones. Around it the caller's objects and the "
        "module tables are compared with deep copies; its outcome is compared with the outcome "
        "of the same operation on freshly made keys, and successful outcomes with the "
        "reference. Non-trivial: distinct (position in history, operation, arguments).")
MINIMUM = {"op": 2000, "ok": 1100, "failed": 550, "keys compared": 4500, "arguments compared": 2000,
           "fresh replay": 2000, "tables compared": 2000, "canary": 250,
           "after a failure": 900}
ASSUME = ["hashing a key without key id gives it one, as documented; the model does the same",
          "what a signing or decrypting object itself remembers (its payload, its algorithm) is "
          "its own; every operation uses a new one"]
TABLES = [("jws", ["SIGNER_ALGS", "ALG2CRV", "KDESC"]),
          ("jwe", ["KEYLEN", "ENC2ALG", "SUPPORTED", "ENCALGLEN1", "ENCALGLEN2"]),
          ("jwk", ["DIGEST_HASH", "ALG2KEYLEN"]), ("extra", ["LENMET"]), ("curves", ["DOMAINS"]),
          ("jwt", []), ("__init__", ["JWT_TYPES", "JWT_CLAIMS", "JWT_HEADERS"])]
CLASSES = [("jws", "JWx", ["args"]), ("jws", "JWS", ["args"]), ("jwe", "JWE", ["args"]),
           ("jwe", "JWE_SYM", ["args"]), ("jwe", "JWE_RSA", ["args"]), ("jwe", "JWE_EC", ["args"]),
           ("jwk", "Key", ["members", "longs", "public_members", "required"]),
           ("jwk", "RSAKey", ["members", "longs", "public_members", "required"]),
           ("jwk", "ECKey", ["members", "longs", "public_members", "required"]),
           ("jwk", "SYMKey", ["members", "public_members", "required"])]


def frozen(v):
    if isinstance(v, dict):
        return tuple(sorted((repr(k), frozen(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(frozen(x) for x in v)
    if v is None or isinstance(v, (str, bytes, int, float, bool)):
        return repr(v)
    return type(v).__name__, id(v)


def tables():
    r = {}
    for m, names in TABLES:
        mod = importlib.import_module("jwkest" if m == "__init__" else "jwkest." + m)
        for n in names:
            if hasattr(mod, n):
                r[m + "." + n] = frozen(getattr(mod, n))
    for m, c, names in CLASSES:
        cls = getattr(importlib.import_module("jwkest." + m), c, None)
        for n in names:
            if hasattr(cls, n):
                r["%s.%s.%s" % (m, c, n)] = frozen(getattr(cls, n))
    return r


class Entry(object):
    """one shared key and how to make another one like it"""

    def __init__(self, rng, key, private, meta):
        self.key, self.private, self.meta = key, private, dict(meta)
        hows = {"RSA": ["keyrep", "members", "key", "set", "load_key"],
                "EC": ["keyrep", "members", "ints", "set"],
                "oct": ["keyrep", "key", "members", "set"]}[key["kty"]]
        self.how = rng.choice(hows)
        self.rng = rng
        self.lib = self.fresh()

    def fresh(self):
        return gen.lib_key(self.rng, self.key, self.private, self.how, **self.meta)

    def __repr__(self):
        return "<%s %s %s %s>" % (gen.ident(self.key), self.how, self.private, self.meta)


def compare_key(ctx, e, when, op):
    ctx.event("keys compared")
    lk = e.lib
    private = e.private or e.key["kty"] == "oct"
    for m in ("kid", "use", "alg"):
        ctx.check(getattr(lk, m, None) == e.meta.get(m, ""),
                  "a key's metadata were changed by an operation", mechanism="key " + m,
                  key=e, member=m, got=getattr(lk, m, None), op=op)
    ctx.check(lk.kty == e.key["kty"], "a key's type was changed", mechanism="key kty", key=e,
              op=op)
    v = view(lk, private)
    ctx.check(same_material(v, e.key, private), "a key's material was changed by an operation",
              mechanism="key material", key=e, got=v, op=op)


def compare_export(ctx, e, op):
    """what the key exports is still what it exported when it was new"""
    for private in (False, True):
        if private and not e.private:
            continue
        want = ref.jwk(e.key, private, **e.meta)
        out = ctx.call("serialize", e.lib.serialize, private)
        got = dict((k, v.decode() if isinstance(v, bytes) else v) for k, v in out.value.items()) \
            if out.ok else None
        if ctx.check(out.ok, "a key can not be exported any more", mechanism="export gone",
                     key=e, op=op, exc=repr(out.exc)):
            ctx.check(gen.same(dict((m, got.get(m)) for m in want), want),
                      "a key exports something else after an operation", mechanism="export",
                      key=e, op=op, got=got, expected=want)
            ctx.check(private or not {"d", "p", "q"} & set(got),
                      "a public export carries private members after an operation",
                      mechanism="export private", key=e, op=op)


# -- operations: each gives (outcome value description) for a list of keys --------------------
# An operation is (name, function(keys) -> value, caller's argument objects, judge(value, entries))

def headers_for(rng):
    h = {}
    for m, v in (("typ", "JOSE"), ("cty", "text/plain"), ("x5c", ["AAAA", "BBBB"]),
                 ("nonce", [1, {"a": "b"}]), ("x5t", "AAAA"), ("extra", {"deep": {"er": [1]}})):
        if rng.random() < .25:
            h[m] = copy.deepcopy(v)
    return h


def open_signed(token, entries):
    """-> payload octets, index of the entry whose key verifies; reference"""
    h, octs = gen.parse(token)
    inp = token.rpartition(".")[0].encode()
    if h["alg"] == "none":
        return octs[1], "none" if not octs[2] else "signed", h
    for n, e in enumerate(entries):
        if ref.verify(h["alg"], inp, octs[2], e.key):
            return octs[1], n, h
    raise ref.Bad("nobody's")


def payload_obj(rng):
    v, octs, kind = gen.payload(rng)
    if kind == "claims" and rng.random() < .5:
        v["nested"] = {"list": [1, [2, {"x": "y"}]], "none": None}
    if kind == "claims" and rng.random() < .3:
        # octets in claims are converted when the token is made, in the token only
        v["aud"] = [b"one", "two", [b"three", {"four": b"4"}]]
        v["octs"] = b"abc"
        v["in"] = {"b": b"c", "d": [b"e"]}
    return v


def as_text(v):
    if isinstance(v, bytes):
        return v.decode("utf-8")
    if isinstance(v, dict):
        return dict((k, as_text(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [as_text(x) for x in v]
    return v


def carries(octs, msg):
    if isinstance(msg, bytes):
        return octs == msg
    if isinstance(msg, str):
        return octs == msg.encode()
    try:
        return gen.same(json.loads(octs.decode("utf-8")), json.loads(json.dumps(as_text(msg))))
    except ValueError:
        return False


def op_sign(rng, entries, junk):
    e = rng.choice(entries)
    alg = junk_alg(rng) if junk and rng.random() < .4 else sig_alg(rng, e)
    msg = payload_obj(rng)
    prot = headers_for(rng)
    if junk and rng.random() < .4:
        msg = rng.choice([object(), {1, 2}, {"a": object()}])

    def run(keys):
        return JWS(msg, alg=alg).sign_compact(keys, protected=prot)

    def judge(ctx, v, ents):
        try:
            octs, n, h = open_signed(v, ents)
        except (ref.Bad, KeyError) as err:
            return "nobody's signature: %s" % err, None
        if not carries(octs, msg):
            return "other payload", None
        for m, x in prot.items():
            if not gen.same(h.get(m), x):
                return "other header " + m, None
        return None, (h["alg"], h.get("kid"), n)
    return "sign", run, [msg, prot], judge, (alg, e)


def op_sign_json(rng, entries, junk):
    e = rng.choice(entries)
    alg = sig_alg(rng, e)
    msg = payload_obj(rng)
    heads = []
    for _ in range(rng.randrange(1, 3)):
        p = headers_for(rng)
        if rng.random() < .6:
            p["alg"] = alg if not junk or rng.random() < .5 else junk_alg(rng)
        heads.append((p, rng.choice([None, {"u": [1, 2]}, {}])))
    if rng.random() < .15:
        heads = None
    flat = rng.random() < .5

    def run(keys):
        return JWS(msg, alg=alg).sign_json(keys, headers=heads, flatten=flat)

    def judge(ctx, v, ents):
        d = json.loads(v)
        r = []
        for s in d.get("signatures", [d]):
            try:
                octs, n, h = open_signed("%s.%s.%s" % (s["protected"], d["payload"],
                                                       s["signature"]), ents)
            except (ref.Bad, KeyError) as err:
                return "nobody's signature: %s" % err, None
            if not carries(octs, msg):
                return "other payload", None
            r.append((h["alg"], h.get("kid"), n, repr(s.get("header"))))
        return None, r
    return "sign_json", run, [msg, heads], judge, (alg, e)


def token_for(rng, e, junk):
    alg = sig_alg(rng, e, True)
    key = e.key
    if key["kty"] != "oct" and "d" not in key:
        key = dict(key)
    h = {"alg": alg}
    if rng.random() < .4:
        h["kid"] = e.meta.get("kid", "") or "zz"
    pl = json.dumps(gen.claims(rng)).encode()
    t = ref.jws(h, pl, key, rng)
    if junk:
        k = rng.randrange(5)
        if k == 0:
            t = gen.mut_text(rng, t)[1]
        elif k == 1:
            p = t.split(".")
            p[2] = ref.b64e(gen.mut_octets(rng, ref.b64d(p[2]))[1])
            t = ".".join(p)
        elif k == 2:
            t = ref.b64e(ref.jdump(dict(h, alg=junk_alg(rng)))) + t[t.index("."):]
        elif k == 3:
            t = ref.b64e(ref.jdump(dict(h, alg="none"))) + "." + t.split(".")[1] + "."
        else:
            t = ref.b64e(ref.jdump(dict(h, crit=["x"], x=1))) + t[t.index("."):]
    return t, pl, alg


def op_verify(rng, entries, junk):
    e = rng.choice(entries)
    t, pl, alg = token_for(rng, e, junk)
    if rng.random() < .3:
        t = t.encode("utf-8", "surrogatepass")
    pin = rng.choice([None, alg, None, "HS384"])

    def run(keys):
        r = JWS().verify_compact_verbose(t, keys, sigalg=pin)
        return r["msg"], [n for n, k in enumerate(keys) if k is r.get("key")]

    def judge(ctx, v, ents):
        if not gen.same(v[0], json.loads(pl.decode())):
            return "other payload", None
        return None, v[1]
    return "verify", run, [t], judge, (alg, e)


def op_verify_json(rng, entries, junk):
    pl = json.dumps(gen.claims(rng)).encode()
    sigs = []
    for _ in range(rng.randrange(1, 3)):
        e = rng.choice(entries)
        alg = sig_alg(rng, e, True)
        h = ref.b64e(ref.jdump({"alg": alg}))
        s = ref.sign(alg, ("%s.%s" % (h, ref.b64e(pl))).encode(), e.key, rng)
        if junk and rng.random() < .5:
            s = gen.mut_octets(rng, s)[1]
        sigs.append({"protected": h, "signature": ref.b64e(s), "header": {"x": [1]}})
    t = json.dumps({"payload": ref.b64e(pl), "signatures": sigs})

    def run(keys):
        return JWS().verify_json(t, keys)

    def judge(ctx, v, ents):
        return (None if gen.same(v, json.loads(pl.decode())) else "other payload"), 1
    return "verify_json", run, [t], judge, len(sigs)


def enc_alg(rng, e):
    a = {"RSA": ref.ENC_ALGS[:3], "oct": ref.ENC_ALGS[3:6], "EC": ref.ENC_ALGS[6:]}
    return rng.choice(a[e.key["kty"]])


def small_enc(rng, alg, e):
    if rng.random() < .06:
        return rng.choice(ref.ENCS[3:])
    return ref.ENCS[0] if alg.startswith("RSA") and e.key["n"].bit_length() < 1100 else \
        rng.choice(ref.ENCS[:3])


def op_encrypt(rng, entries, junk):
    e = rng.choice(entries)
    alg = enc_alg(rng, e)
    enc = small_enc(rng, alg, e)
    msg = gen.octets(rng)
    kw = rng.choice([{}, {"cty": "JWT"}, {"zip": "DEF"}, {"x5c": ["AAAA"]}, {"kid": "k1"}])
    kw = copy.deepcopy(kw)
    if junk:
        k = rng.randrange(3)
        if k == 0:
            enc = "A512GCM"
        elif k == 1:
            alg = rng.choice(["dir", "A128GCMKW", "XYZ"])
        else:
            msg = object()

    def run(keys):
        return JWE(msg, alg=alg, enc=enc, **kw).encrypt(keys)

    def judge(ctx, v, ents):
        for n, x in enumerate(ents):
            try:
                if ref.jwe_open(v, x.key) == msg:
                    h = gen.parse(v)[0]
                    return None, (h["alg"], h["enc"], h.get("kid"), n)
            except (ref.Bad, KeyError, ValueError, TypeError):
                continue
        return "nobody can read it", None
    return "encrypt", run, [msg, kw], judge, (alg, enc, e)


def op_decrypt(rng, entries, junk):
    e = rng.choice(entries)
    alg = enc_alg(rng, e)
    enc = small_enc(rng, alg, e)
    msg = gen.octets(rng)
    h = {"alg": alg, "enc": enc}
    if rng.random() < .3:
        h["zip"] = "DEF"
    if rng.random() < .3 and e.meta.get("kid"):
        h["kid"] = e.meta["kid"]
    if alg.startswith("ECDH") and rng.random() < .5:
        h["apu"] = ref.b64e(rng.randbytes(5))
    t = ref.jwe(h, msg, e.key, rng)
    if junk:
        if rng.random() < .3:
            t = gen.mut_text(rng, t)[1]
        else:
            p = t.split(".")
            n = rng.choice([1, 2, 3, 4])
            p[n] = ref.b64e(gen.mut_octets(rng, ref.b64d(p[n]))[1])
            t = ".".join(p)
    fac = rng.random() < .5

    def run(keys):
        if fac:
            return jwe_mod.factory(t).decrypt(keys=keys)
        return JWE().decrypt(t, keys)

    def judge(ctx, v, ents):
        return (None if v == msg else "other plaintext"), 1
    return "decrypt", run, [t], judge, (alg, enc, e)


def op_key(rng, entries, junk):
    n = rng.randrange(len(entries))
    e = entries[n]
    k = rng.choice(["thumbprint", "serialize", "to_dict", "str", "copy", "eq", "get_key", "keys",
                    "verify", "hash", "get_hash", "serialize private", "bad thumbprint",
                    "bad get_key", "encryption_key"])
    if k == "hash" and "kid" not in e.meta and rng.random() < .6:
        k = "eq"            # leave some of the keys without key id

    def run(keys):
        x = keys[n]
        if k == "thumbprint":
            return x.thumbprint("SHA-256", ["kty", "n", "e", "crv", "x", "y", "k"])
        if k == "serialize":
            return x.serialize()
        if k == "serialize private":
            return x.serialize(True)
        if k == "to_dict":
            return x.to_dict()
        if k == "str":
            return len(str(x)) > 0
        if k == "copy":
            return make_public_copy(x).serialize()
        if k == "eq":
            return x == x, x == keys[0], x == keys[-1], x == 5
        if k == "get_key":
            return type(x.get_key(private=False)).__name__
        if k == "keys":
            return sorted(x.keys())
        if k == "verify":
            return x.verify()
        if k == "hash":
            return hash(x)
        if k == "get_hash":
            return x.get_hash(rng_hash)
        if k == "bad thumbprint":
            return x.thumbprint("SHA-1")
        if k == "encryption_key":
            return type(x.encryption_key(alg=ekalg, private=False)).__name__
        return x.get_key(alg="XX", private="yes", nonsense=1) is not None
    rng_hash = rng.choice(["SHA-256", "SHA-384", "SHA-512"])
    ekalg = rng.choice(["A128KW", "A256KW", "RSA-OAEP", "ECDH-ES", "A192KW"])

    def judge(ctx, v, ents):
        if k == "thumbprint" and v != ref.thumbprint(e.key):
            return "other thumbprint", None
        if k == "serialize" and {"d", "p", "q"} & set(v):
            return "private members", None
        return None, repr(sorted(v.items()) if isinstance(v, dict) else v)
    return k, run, [], judge, (k, e, n)


def op_set(rng, entries, junk):
    docs = [ref.jwk(x.key, rng.random() < .5, **x.meta) for x in entries]
    for d in docs:
        if rng.random() < .2:
            d["key_ops"] = ["verify"]
    if junk:
        docs.insert(rng.randrange(len(docs) + 1), rng.choice([
            {"kty": "RSA"}, {"kty": "EC", "crv": "P-256", "x": "AA", "y": "AA"}, {"x": 1}, {},
            {"kty": "oct"}]))
    doc = {"keys": docs}
    k = rng.choice(["load_dict", "load_jwks", "load_jwks()", "keyrep", "key_from_jwk_dict",
                    "append", "left_hash"])
    n = rng.randrange(len(docs))

    def run(keys):
        s = KEYS()
        if k == "load_dict":
            s.load_dict(doc)
        elif k == "load_jwks":
            s.load_jwks(json.dumps(doc))
        elif k == "load_jwks()":
            return [x.kty for x in load_jwks(json.dumps(doc))]
        elif k == "keyrep":
            return keyrep(docs[n]).kty
        elif k == "key_from_jwk_dict":
            return key_from_jwk_dict(docs[n]).kty
        elif k == "left_hash":
            return left_hash("abc", "HS384")
        else:
            for x in keys:
                s.append(x)
            s.dump_jwks()
            # listing and looking up change nothing either
            return ([x.kty for x in s], s.kids(), sorted(s.key_types()), len(s),
                    [x.kty for x in s["rsa"]] if s["rsa"] else None,
                    [x is y for x, y in zip(s.keys(), keys)], json.loads(s.dump_jwks()),
                    sorted((t, len(v)) for t, v in s.as_dict().items()))
        return [x.kty for x in s.keys()], s.kids()

    def judge(ctx, v, ents):
        return None, repr(v)
    return k, run, [doc], judge, (k, n)


def op_parts(rng, entries, junk):
    """the parts of a token, by themselves"""
    head = dict(headers_for(rng), alg=rng.choice(["none", "HS256", "RS256"]))
    parts = [rng.choice([rng.randbytes(5), "text", "", payload_obj(rng)])
             for _ in range(rng.randrange(1, 5))]
    item = payload_obj(rng)
    own = rng.random() < .5
    if junk and rng.random() < .5:
        parts[rng.randrange(len(parts))] = rng.choice([object(), {1, 2}])
    k = rng.choice(["pack", "pack", "b2s_conv"])

    def run(keys):
        if k == "b2s_conv":
            return b2s_conv(item)
        if own:
            return JWT(**head).pack(parts=parts)
        return JWT().pack(parts=parts, headers=head)

    def judge(ctx, v, ents):
        if k == "b2s_conv":
            return None if gen.same(v, as_text(item)) else "converted to something else", None
        p = v.split(".")
        if len(p) != 1 + len(parts):
            return "other number of parts", None
        if not gen.same(json.loads(ref.b64d(p[0]).decode("utf-8")), as_text(head)):
            return "other header", None
        for x, y in zip(p[1:], parts):
            if not carries(ref.b64d(x), y):
                return "other part", None
        return None, v
    return k, run, [parts, head, item], judge, (k, own, len(parts))


def sig_alg(rng, e, any_key=False):
    key = e.key
    if key["kty"] == "oct":
        return rng.choice(ref.SIG_ALGS[:3])
    if key["kty"] == "EC":
        return [a for a, c in ref.ES_CURVE.items() if c == key["crv"]][0]
    return rng.choice(["RS256", "RS384", "RS512", "PS256", "PS384"] if
                      key["n"].bit_length() >= 1024 else ["RS256", "PS256"])


def junk_alg(rng):
    return rng.choice(["none", "XX256", "HS999", "RS1", "ES256K", ""])


OPS = [(op_sign, 5), (op_sign_json, 2), (op_verify, 6), (op_verify_json, 2), (op_encrypt, 4),
       (op_decrypt, 5), (op_key, 8), (op_set, 4), (op_parts, 2)]
CHOICE = sum(([f] * w for f, w in OPS), [])
POOL = gen.R1024 + gen.ECK["P-256"] + gen.ECK["P-256"] + gen.OCT[:6] + gen.ECK["P-384"]


def norm(out):
    """outcome for comparison, without judging"""
    return "ok" if out.ok else "raise " + type(out.exc).__name__


def canary(ctx, entries, op):
    """operations with one right answer"""
    ctx.event("canary")
    k = ctx.rng.choice(gen.R1024)
    lk = gen.lib_key(ctx.rng, k)
    t = ctx.must("canary sign", JWS("canary", alg="RS256").sign_compact, [lk])
    h, octs = gen.parse(t)
    ctx.check(h == {"alg": "RS256"} and octs[1] == b"canary" and
              octs[2] == ref.rsa_sign("RS256", t.rpartition(".")[0].encode(), k, ctx.rng),
              "a signature made after this history is not what it always is",
              mechanism="canary sign", token=t, op=op)
    o = ctx.rng.choice(gen.OCT)
    lo = gen.lib_key(ctx.rng, o)
    t = ref.jws({"alg": "HS256"}, b'{"a":1}', o, ctx.rng)
    ctx.check(ctx.must("canary verify", JWS().verify_compact, t, [lo]) == {"a": 1},
              "a token verifies differently after this history", mechanism="canary verify")
    ctx.check(not ctx.call("canary reject", JWS().verify_compact, t[:-3] + "AAA", [lo]).ok,
              "a bad token is accepted after this history", mechanism="canary reject")
    t = ref.jwe({"alg": "A128KW", "enc": "A128CBC-HS256"}, b"xyz", o, ctx.rng)
    ctx.check(ctx.must("canary decrypt", JWE().decrypt, t, [lo]) == b"xyz",
              "a token decrypts differently after this history", mechanism="canary decrypt")


def g_history(ctx, i):
    rng = ctx.rng
    base = tables()
    entries = []
    for n in range(rng.randrange(2, 6)):
        meta = {}
        if rng.random() < .5:
            meta["kid"] = rng.choice(["k1", "k2", "k3"])
        if rng.random() < .15:
            meta["use"] = rng.choice(["sig", "enc"])
        key = rng.choice(POOL)
        entries.append(Entry(rng, key, rng.random() < .8, meta))
    keys = [e.lib for e in entries]
    quiet = rng.random() < .5       # do not touch the keys in between
    failed = False
    hist = []
    for step in range(rng.randrange(8, 16)):
        junk = rng.random() < .35
        name, run, args, judge, info = rng.choice(CHOICE)(rng, entries, junk)
        hist.append(name)
        ctx.case(step, name, info, [e.key for e in entries], [e.meta for e in entries])
        before = copy.deepcopy(args) if plain(args) else None
        listed = list(keys)
        fresh = [e.fresh() for e in entries]
        out = ctx.call(name, run, keys)
        ctx.event("op")
        ctx.event("ok" if out.ok else "failed")
        if failed:
            ctx.event("after a failure")
        op = "%s %s %s" % (name, info, hist)
        # 1. the caller's objects
        ctx.check(len(keys) == len(listed) and all(a is b for a, b in zip(keys, listed)),
                  "the caller's list of keys was changed", mechanism="key list", op=op)
        if before is not None:
            ctx.event("arguments compared")
            if not gen.same(list(args), before):
                mech = "arguments " + name
                if name == "sign_json" and explained(args, before, info[0]):
                    mech = "sign_json-adds-alg"
                ctx.check(False, "an argument of the caller's was changed", mechanism=mech,
                          op=op, got=args, before=before)
                # go on with what the caller had
                restore(args, before)
        # 2. module tables
        ctx.event("tables compared")
        now = tables()
        ctx.check(now == base, "a module-wide table was changed", mechanism="tables", op=op,
                  which=[t for t in base if now.get(t) != base[t]])
        # 3. the same with fresh keys
        ctx.event("fresh replay")
        out2 = ctx.call(name + " fresh", run, fresh)
        if before is not None:
            restore(args, before)
        if norm(out) != norm(out2):
            ctx.check(False, "an operation has another outcome than with fresh keys",
                      mechanism="outcome " + name, op=op, shared=repr(out), fresh=repr(out2))
        elif out.ok:
            w1, n1 = judge(ctx, out.value, entries)
            w2, n2 = judge(ctx, out2.value, entries)
            ctx.check(w1 is None, "a result that the reference does not confirm",
                      mechanism="result " + name, op=op, why=w1, got=out.value)
            ctx.check(n1 == n2, "an operation gives another result than with fresh keys",
                      mechanism="value " + name, op=op, shared=n1, fresh=n2)
        else:
            failed = True
        if name == "hash" and out.ok and "kid" not in info[1].meta:
            info[1].meta["kid"] = info[1].lib.kid
            ctx.check(isinstance(info[1].lib.kid, str) and info[1].lib.kid,
                      "hashing gave a key an odd key id", mechanism="hash kid",
                      got=info[1].lib.kid)
        if not quiet:
            for e in entries:
                compare_key(ctx, e, step, op)
    for e in entries:
        compare_key(ctx, e, "end", op)
        compare_export(ctx, e, op)
        f = e.fresh()
        a, b = ctx.call("eq", lambda: e.lib == f), ctx.call("eq", lambda: f == e.lib)
        ctx.check(a.ok and b.ok and a.value is True and b.value is True,
                  "a used key is no longer equal to a fresh one", mechanism="used key unequal",
                  key=e, history=hist)
    canary(ctx, entries, hist)


def plain(v):
    """whether it can be copied and compared"""
    if isinstance(v, dict):
        return all(plain(x) for x in v.values())
    if isinstance(v, (list, tuple)):
        return all(plain(x) for x in v)
    return v is None or isinstance(v, (str, bytes, int, float))


def explained(args, before, alg):
    """the only difference is alg, added to protected headers that lacked it"""
    b = copy.deepcopy(before)
    if b[1] is None or len(b[1]) != len(args[1]):
        return False
    for (p, _), (q, _) in zip(b[1], args[1]):
        if "alg" not in p and q.get("alg") == alg:
            p["alg"] = alg
    return gen.same(list(args), b)


def restore(args, before):
    for n, (a, b) in enumerate(zip(args, before)):
        if isinstance(a, dict):
            a.clear()
            a.update(copy.deepcopy(b))
        elif isinstance(a, list):
            if n == 1 and all(isinstance(x, tuple) for x in a):
                # the pairs are bound into the list; change them in place
                for (p, u), (bp, bu) in zip(a, b):
                    p.clear()
                    p.update(copy.deepcopy(bp))
                    if u is not None:
                        u.clear()
                        u.update(copy.deepcopy(bu))
            else:
                a[:] = copy.deepcopy(b)


GROUPS = [Group("history", g_history, 300, 9000)]
