"""C05: JSON-serialized tokens verify only if every signature does."""
import copy
import json

from vmon import gen, jose, ref
from vmon.core import Group, boost
from jwkest.jwk import KEYS
from jwkest.jws import JWS

RULE = ("A case is one JSON document given to verification with a key set: documents made "
        "here and by the reference with 1-5 signatures, and alterations of any member. "
        "Non-trivial: distinct documents. The reference decides every signature.")
MINIMUM = {"produced": 100, "must accept": 250, "must reject": 2000, "several signatures": 150,
           "one of several bad": 500, "entries checked": 250}
ASSUME = ["names that occur in both the protected and the unprotected header, and documents "
          "with both the general and the flattened members, may be refused",
          "signatures that give the payload different content types, or a payload that is "
          "NaN (no JSON), may be refused"]


def a_key(rng, alg, big=False):
    if big and alg[0] in "RP":      # any of them is large enough for PS512
        return rng.choice(gen.RSAK[4:7])
    if alg == "PS512":
        return rng.choice([gen.RSAK[4], gen.R2048[0]])
    if alg[:2] in ("RS", "PS"):
        return rng.choice(gen.R1024)
    return gen.sig_key(rng, alg)


def key_list(rng, lib):
    if rng.random() < .3:
        ks = KEYS()
        for k in lib:
            ks.append(k)
        return ks
    return list(lib)


def extra_headers(rng):
    d = {}
    for m, v in (("typ", "JOSE+JSON"), ("cty", "text/plain"), ("x", [1, {"y": None}]),
                 ("jku", "https://example.com/x"), ("nonce", "\u00e5\u2603")):
        if rng.random() < .12:
            d[m] = v
    return d


def read(doc):
    """-> [(protected text, header, signature octets, unprotected, odd)], payload text
    raises Bad"""
    if not isinstance(doc, dict) or not isinstance(doc.get("payload"), str):
        raise ref.Bad("document")
    odd = "signatures" in doc and bool({"protected", "header", "signature"} & set(doc))
    sigs = doc["signatures"] if "signatures" in doc else [doc]
    if not isinstance(sigs, list) or not sigs:
        raise ref.Bad("signatures")
    ref.b64d(doc["payload"])
    res = []
    for e in sigs:
        if not isinstance(e, dict) or not isinstance(e.get("signature"), str) or \
                not isinstance(e.get("protected"), str):
            raise ref.Bad("entry")
        h = json.loads(ref.b64d(e["protected"]).decode("utf-8"))
        up = e.get("header", {})
        if not isinstance(h, dict) or not isinstance(up, dict):
            raise ref.Bad("header")
        res.append((e["protected"], h, ref.b64d(e["signature"]), up,
                    odd or bool(set(h) & set(up)) or (
                        "header" in e and not up) or "" in (h.get("typ"), h.get("cty"))))
    return res, doc["payload"]


def judge(ctx, text, ring, allow_none=False, sigalg=None, what="", must=True):
    """verify a document and decide it independently"""
    rng = ctx.rng
    try:
        entries, body = read(json.loads(text))
    except (ref.Bad, ValueError, RecursionError):
        entries, body = None, None
    verdicts, values, odd = [], [], False
    for p, h, sig, up, o in entries or []:
        merged = dict(up, **h)
        if "alg" not in h:
            verdicts.append("reject")
            continue
        odd = odd or o or not isinstance(h["alg"], str)
        verdicts.append(jose.predict(merged, (p + "." + body).encode("utf-8"), sig, ring,
                                     allow_none, sigalg, None)[0])
        values.append(gen.model_payload(ref.b64d(body), h))
    ok = bool(verdicts) and "reject" not in verdicts
    kw = {}
    if allow_none or rng.random() < .2:
        kw["allow_none"] = allow_none
    if sigalg:
        kw["sigalg"] = sigalg
    # one object may be asked about several documents
    old = ctx.__dict__.setdefault("verifiers", {})
    j = old.setdefault(rng.randrange(4), JWS()) if rng.random() < .5 else JWS()
    out = ctx.call("verify_json", j.verify_json, text, key_list(rng, ring.lib), **kw)
    ctx.case(what, text, kw)
    d = dict(what=what, document=text, verdicts=verdicts, options=kw, outcome=out,
             keys=[(gen.ident(k), m) for _, k, m in ring.items])
    if not ok:
        ctx.event("must reject")
        if len(verdicts) > 1 and "key" in verdicts:
            ctx.event("one of several bad")
        ctx.check(not out.ok, "a JSON token with a signature that does not verify is "
                  "accepted: " + what.split(":")[0], mechanism="accepted " +
                  what.split(":")[0], **d)
        return out
    # (a value that is not equal to itself, NaN, can not be compared with the others)
    same = all(gen.same(v, values[0]) and v == values[0] for v in values[1:])
    if same and not odd and must:
        ctx.event("must accept")
    if out.ok:
        ctx.event("accepted")
        ctx.check(any(gen.same(out.value, v) for v in values), "another payload is returned",
                  mechanism="payload", expected=values, **d)
        return out
    if same and not odd and must:
        ctx.violation("a good JSON token is refused: " + what.split(":")[0],
                      mechanism="refused " + what.split(":")[0], **d)
    return out


def ref_doc(rng, n, octs=None, flat=None, none=False):
    """-> document, ring"""
    ring = jose.Ring()
    octs = gen.octets(rng) if octs is None else octs
    body = ref.b64e(octs)
    sigs = []
    for j in range(n):
        alg = rng.choice(ref.SIG_ALGS)
        key = a_key(rng, alg)
        m = {"kid": "k%d" % j} if rng.random() < .7 else {}
        h = dict({"alg": alg}, **extra_headers(rng))
        h.pop("cty", None)
        up = {}
        if m and rng.random() < .8:
            (h if rng.random() < .5 else up)["kid"] = m["kid"]
        if rng.random() < .2:
            up["z"] = 1
        if none and rng.random() < .5:
            h["alg"] = "none"
            sig = b""
        else:
            sig = None
        hb = ref.b64e(ref.jdump(h))
        if sig is None:
            sig = ref.sign(alg, (hb + "." + body).encode(), key, rng)
            ring.add(rng, gen.public(key), **m)
        e = {"protected": hb, "signature": ref.b64e(sig)}
        if up:
            e["header"] = up
        sigs.append(e)
    rng.shuffle(ring.items)
    if n == 1 and (rng.random() < .5 if flat is None else flat):
        return dict(sigs[0], payload=body), ring
    return {"payload": body, "signatures": sigs}, ring


def dump(rng, doc):
    return json.dumps(doc) if rng.random() < .5 else \
        json.dumps(doc, indent=1, ensure_ascii=False, sort_keys=True)


def spoil(rng, doc, ring):
    """-> (name, altered document)"""
    d = copy.deepcopy(doc)
    flat = "signatures" not in d
    sigs = [d] if flat else d["signatures"]
    j = rng.randrange(len(sigs))
    e = sigs[j]
    k = rng.randrange(26) if flat or rng.random() > .04 else 21
    if k == 0:
        name, o = gen.mut_octets(rng, ref.b64d(e["signature"]))
        e["signature"] = ref.b64e(o)
        return "signature: " + name, d
    if k == 1:
        name, o = gen.mut_octets(rng, ref.b64d(d["payload"]))
        d["payload"] = ref.b64e(o)
        return "payload: " + name, d
    if k == 2:
        h = json.loads(ref.b64d(e["protected"]))
        name, h = gen.mut_header(rng, h)
        e["protected"] = ref.b64e(ref.jdump(h))
        return "protected: " + name, d
    if k == 3:
        up = e.setdefault("header", {})
        up[rng.choice(["kid", "alg", "crit", "x", "jwk", "typ", "cty", "b64"])] = rng.choice(
            ["k0", "none", ["exp"], "HS256", False])
        return "unprotected", d
    if k == 4:
        e["signature"] = ""
        return "empty signature", d
    if k == 5:
        e.pop(rng.choice(["signature", "protected"]))
        return "member dropped", d
    if k == 6:
        d.pop("payload")
        return "no payload", d
    if k == 7:
        if flat:
            d.pop("signature")
            return "no signature", d
        d["signatures"] = []
        return "no signatures", d
    if k == 8 and not flat:
        d["signatures"] = rng.choice([None, {}, "", 0, False, True, [None], [[]], [{}],
                                      {"0": sigs[0]}, "x", [17], [""]])
        return "odd signatures", d
    if k in (9, 10) and not flat:
        # one more entry, by nobody that is trusted
        alg = rng.choice(ref.SIG_ALGS)
        key = a_key(rng, alg)
        if any(gen.public(key) == x for _, x, _ in ring.items):
            return spoil(rng, doc, ring)
        hb = ref.b64e(ref.jdump({"alg": alg}))
        sigs.insert(rng.randrange(len(sigs) + 1), {"protected": hb, "signature": ref.b64e(
            ref.sign(alg, (hb + "." + d["payload"]).encode(), key, rng))})
        return "foreign entry", d
    if k == 11 and not flat:
        hb = ref.b64e(ref.jdump({"alg": rng.choice(["none", "None", "NONE"])}))
        sigs.insert(rng.randrange(len(sigs) + 1), {"protected": hb, "signature": ""})
        return "unsecured entry", d
    if k == 12 and not flat and len(sigs) > 1:
        a, b = rng.sample(sigs, 2)
        a["signature"], b["signature"] = b["signature"], a["signature"]
        return "signatures swapped", d
    if k == 13 and not flat and len(sigs) > 1:
        a, b = rng.sample(sigs, 2)
        a["protected"], b["protected"] = b["protected"], a["protected"]
        return "protected swapped", d
    if k == 14 and not flat:
        sigs.append(copy.deepcopy(e))
        return "duplicate entry", d
    if k == 15 and not flat:
        rng.shuffle(sigs)
        if len(sigs) > 1:
            sigs.pop()
        return "entries dropped", d
    if k == 16:
        # protected members moved out of the signature
        h = json.loads(ref.b64d(e["protected"]))
        m = rng.choice(sorted(h))
        e["header"] = dict(e.get("header", {}), **{m: h.pop(m)})
        e["protected"] = ref.b64e(ref.jdump(h))
        return "moved out", d
    if k == 17:
        d["payload"] = rng.choice([None, 17, [], {}, True, d["payload"] + "!",
                                   " " + d["payload"], d["payload"] + "."])
        return "odd payload", d
    if k == 18:
        e["protected"] = rng.choice(["", None, {}, "e30", "bnVsbA", "W10", {"alg": "none"},
                                     e["protected"] + ".", "." + e["protected"],
                                     e["protected"][:-1], "IiI"])
        return "odd protected", d
    if k == 19:
        e["signature"] = rng.choice([None, 17, [], {}, e["signature"] + ".",
                                     e["signature"] + "." + e["signature"], "." +
                                     e["signature"]])
        return "odd signature", d
    if k == 20:
        e["header"] = rng.choice([None, 17, [], "x", [["kid", "k0"]], {}])
        return "odd header", d
    if k == 21 and flat:
        s = dict((m, d.pop(m)) for m in ("protected", "signature", "header") if m in d)
        if rng.random() < .5:
            s["signature"] = ref.b64e(gen.mut_octets(rng, ref.b64d(s["signature"]))[1])
        d["signatures"] = [s]
        return "general form", d
    if k == 21:
        if rng.random() < .4:
            # a bad signature in the flattened members, good ones in the general
            d.update(protected=e["protected"], signature=ref.b64e(b"x" * 32))
            return "both forms", d
        # a good one in the flattened members, another entry or none in the general
        d.update(copy.deepcopy(e))
        what = rng.randrange(4)
        if what == 0:
            d["signatures"] = []
        elif what == 1 and len(sigs) > 1:
            d["signatures"] = [copy.deepcopy(x) for x in sigs if x is not e]
            for x in d["signatures"]:
                x["signature"] = ref.b64e(gen.mut_octets(rng, ref.b64d(x["signature"]))[1])
        else:
            e["signature"] = rng.choice(["", ref.b64e(gen.mut_octets(
                rng, ref.b64d(e["signature"]))[1])])
        return "flattened beside general", d
    if k == 22:
        # parts moved over the dots
        t = e["protected"] + "." + d["payload"]
        d["payload"] = t.split(".")[1][1:]
        e["protected"] += t.split(".")[1][:1]
        return "dot moved", d
    if k == 23:
        h = json.loads(ref.b64d(e["protected"]))
        e["protected"] = ref.b64e(json.dumps(h, indent=1).encode())
        return "protected re-encoded", d
    if k == 24:
        h = json.loads(ref.b64d(e["protected"]))
        h["alg"] = rng.choice(["none", "None", "HS256", "", None, "foo"])
        e["protected"] = ref.b64e(ref.jdump(h))
        e["signature"] = ""
        return "downgraded", d
    h = json.loads(ref.b64d(e["protected"]))
    if h.get("alg", "").startswith("HS"):
        return spoil(rng, doc, ring)
    h["alg"] = "HS256"
    e["protected"] = ref.b64e(ref.jdump(h))
    inp = (e["protected"] + "." + d["payload"]).encode() \
        if isinstance(d["payload"], str) else b""
    e["signature"] = ref.b64e(ref.sign("HS256", inp, {"kty": "oct", "k": b""}, rng))
    return "empty HMAC key", d


def g_altered(ctx, i):
    rng = ctx.rng
    n = (1, 1, 2, 2, 3, 4, 5)[i % 7]
    doc, ring = ref_doc(rng, n)
    if n > 1:
        ctx.event("several signatures")
    judge(ctx, dump(rng, doc), ring, what="genuine")
    for _ in range(18):
        name, d = spoil(rng, doc, ring)
        judge(ctx, dump(rng, d), ring, allow_none=rng.random() < .1 and "crit" not in name,
              what=name, must=name.split(":")[0] in (
                  "duplicate entry", "entries dropped", "general form"))


def g_each(ctx, i):
    """every single signature corrupted, and every single key missing"""
    rng = ctx.rng
    n = 2 + i % 4
    doc, ring = ref_doc(rng, n, flat=False)
    ctx.event("several signatures")
    judge(ctx, dump(rng, doc), ring, what="genuine")
    for j in range(n):
        for _ in range(2):
            d = copy.deepcopy(doc)
            e = d["signatures"][j]
            e["signature"] = ref.b64e(gen.mut_octets(rng, ref.b64d(e["signature"]))[1])
            judge(ctx, dump(rng, d), ring, what="one bad")
        d = copy.deepcopy(doc)
        d["signatures"][j]["signature"] = rng.choice(doc["signatures"])["signature"]
        judge(ctx, dump(rng, d), ring, what="one copied", must=False)
        r = jose.Ring()
        r.items = ring.items[:j] + ring.items[j + 1:]
        judge(ctx, dump(rng, doc), r, what="one key missing", must=False)
        # only that signature is left
        d = dict(doc, signatures=[doc["signatures"][j]])
        judge(ctx, dump(rng, d), ring, what="one left")
        # the payload changed and only that one signed again
        d = copy.deepcopy(doc)
        d["payload"] = ref.b64e(gen.mut_octets(rng, ref.b64d(doc["payload"]))[1])
        judge(ctx, dump(rng, d), ring, what="payload changed")
    judge(ctx, dump(rng, doc), jose.Ring(), what="no keys")


def g_long(ctx, i):
    """many signatures, one of them anywhere spoilt; large payloads"""
    rng = ctx.rng
    n = rng.choice([6, 8, 9, 10, 12, 16, 17, 20, 31, 32, 33, 40, 64, 65, 70])
    doc, ring = ref_doc(rng, n, gen.big_octets(rng) if rng.random() < .2 else None, False)
    ctx.event("several signatures")
    ctx.event("many signatures")
    judge(ctx, dump(rng, doc), ring, what="genuine")
    for j in {0, n - 1, n // 2, rng.randrange(n), rng.randrange(n)}:
        d = copy.deepcopy(doc)
        e = d["signatures"][j]
        k = rng.randrange(4)
        if k == 0:
            e["signature"] = doc["signatures"][j - 1]["signature"]
        elif k == 1:
            e["signature"] = ""
        else:
            e["signature"] = ref.b64e(gen.mut_octets(rng, ref.b64d(e["signature"]))[1])
        judge(ctx, dump(rng, d), ring, what="one of many bad")
    d = copy.deepcopy(doc)
    d["payload"] = ref.b64e(ref.b64d(d["payload"]) + b"x")
    judge(ctx, dump(rng, d), ring, what="payload changed")
    r = jose.Ring()
    j = rng.randrange(n)
    r.items = ring.items[:j] + ring.items[j + 1:]
    judge(ctx, dump(rng, doc), r, what="one key missing", must=False)


def g_none(ctx, i):
    """unsecured entries among the others"""
    rng = ctx.rng
    for _ in range(6):
        doc, ring = ref_doc(rng, rng.choice([1, 1, 2, 3]), none=True)
        judge(ctx, dump(rng, doc), ring, allow_none=rng.random() < .6,
              sigalg=rng.choice([None, None, None, "none", "HS256"]), what="unsecured")


def g_made(ctx, i):
    """documents produced by the library"""
    rng = ctx.rng
    n = (1, 1, 2, 3)[i % 4]
    msg, octs, kind = gen.payload(rng)
    ring = jose.Ring()
    headers, expect = [], []
    default = rng.choice(ref.SIG_ALGS)
    for j in range(n):
        alg = rng.choice(ref.SIG_ALGS)
        p = dict({"alg": alg}, **extra_headers(rng))
        p.pop("cty", None)
        k = rng.random()
        if k < .2:
            p.pop("alg")
            alg = default
        elif k < .3:
            p, alg = None, default
        key = a_key(rng, alg, True)
        m = {"kid": "k%d" % j} if rng.random() < .7 else {}
        if m and p is not None and rng.random() < .4:
            p["kid"] = m["kid"]
        ring.add(rng, key, True, **m)
        up = rng.choice([None, {}, {"x": 1}, {"kid": "zz", "y": [None]}])
        if up and "kid" in up:
            up = dict(up, kid=m["kid"]) if m else {"x": 2}
        if rng.random() < .3:
            up = dict(up or {}, **rng.choice([
                {"typ": "x"}, {"typ": "JWT", "z": ""}, {"jku": "https://example.com/j"},
                {"x5u": "https://example.com/c", "\u00e5": 1.5}, {"nonce": None},
                {"jwk": ref.jwk(gen.public(gen.RSAK[1]))}, {"x5t": "AAAA", "exp": 0}]))
            for m2 in set(up) & set(p or {}):
                up.pop(m2)
        headers.append((p, up))
        expect.append((dict(p or {}, alg=alg), dict(up or {})))
    flatten = rng.random() < .5
    given = copy.deepcopy(headers)
    kw = {"flatten": True} if flatten else {}
    j = JWS(msg, alg=default)
    if n == 1 and rng.random() < .3:
        expect = [({"alg": default}, {})]
        ring.items = []
        ring.add(rng, a_key(rng, default, True), True, **rng.choice([{}, {"kid": "k"}]))
        given = None
    text = ctx.must("sign_json", j.sign_json, list(ring.lib), given, **kw)
    ctx.event("produced")
    ctx.case("made", kind, octs, headers, default, flatten, text)
    d = dict(text=text, headers=headers, default=default)
    try:
        doc = json.loads(text)
        entries, body = read(doc)
    except (ValueError, ref.Bad) as err:
        ctx.violation("the document produced is not a JWS", mechanism="produced form",
                      err=err, **d)
        return
    if octs is not None:
        ctx.check(ref.b64d(body) == octs, "another payload is signed",
                  mechanism="produced payload", **d)
    else:
        try:
            v = json.loads(ref.b64d(body).decode())
        except ValueError:
            v = None
        ctx.check(gen.same(v, msg), "another payload is signed", mechanism="produced payload",
                  **d)
    ctx.need(len(entries) == len(expect), "not one signature per header pair",
             mechanism="produced entries", **d)
    ctx.check(("signatures" in doc) == (not (flatten and n == 1)), "the wrong form is made",
              mechanism="produced form", **d)
    raw = doc["signatures"] if "signatures" in doc else [doc]
    allowed = {"protected", "header", "signature"} | (
        set() if "signatures" in doc else {"payload"})
    for (p, h, sig, up, _), (xh, xu), e in zip(entries, expect, raw):
        ctx.event("entries checked")
        ctx.check(set(e) <= allowed, "unexpected members", mechanism="produced members",
                  entry=e, **d)
        if xu:
            ctx.check(gen.same(up, xu), "the unprotected header differs",
                      mechanism="produced unprotected", got=up, expected=xu, **d)
        else:
            ctx.check("header" not in e, "an empty unprotected header is not omitted",
                      mechanism="produced empty", entry=e, **d)
        kid = h.get("kid")
        xh2 = dict(xh)
        xh2.setdefault("kid", kid)
        if kid is None:
            xh2.pop("kid")
        ctx.check(gen.same(h, xh2), "the protected header differs",
                  mechanism="produced protected", got=h, expected=xh, **d)
        used = [m for _, k, m in ring.items if jose.fits(h, k, m) and ref.verify(
            h["alg"], (p + "." + body).encode(), sig, k)]
        ctx.check(used, "an entry does not verify", mechanism="produced signature",
                  header=h, **d)
        ctx.check(not used or kid is None or any(m.get("kid") == kid for m in used),
                  "the key id is not the one of the key used", mechanism="produced kid",
                  header=h, **d)
    # and it verifies here, with the public keys only
    pub = jose.Ring()
    for _, k, m in ring.items:
        pub.add(rng, gen.public(k), **m)
    judge(ctx, text, pub, what="produced")
    for _ in range(4):
        name, d2 = spoil(rng, doc, pub)
        judge(ctx, dump(rng, d2), pub, what="produced, " + name, must=False)


def g_texts(ctx, i):
    """texts that are not documents"""
    rng = ctx.rng
    doc, ring = ref_doc(rng, rng.choice([1, 2]))
    t = json.dumps(doc)
    for x in ("", "{}", "[]", "null", "17", '"x"', "true", "[" + t + "]", t + t, t[:-1],
              "{" + t, t + "x", '{"payload": "e30"}', '{"signatures": []}',
              '{"payload": "e30", "signatures": []}', '{"payload": "", "signatures": []}',
              '{"payload": "e30", "signature": ""}',
              '{"payload": "e30", "protected": "", "signature": ""}',
              '{"payload": "e30", "protected": "e30", "signature": ""}',
              '{"payload": "e30", "header": {"alg": "none"}, "signature": ""}',
              '{"payload": "e30", "header": {"alg": "none"}, "protected": "e30", '
              '"signature": ""}', json.dumps({"payload": doc["payload"]})):
        judge(ctx, x, ring, what="text", must=False,
              allow_none=rng.random() < .5)
    for _ in range(10):
        a = rng.randrange(len(t))
        x = t[:a] + rng.choice("\"{}[]:,x \\") + t[a + rng.randrange(2):]
        judge(ctx, x, ring, what="text mutated", must=False)


GROUPS = [Group("altered", g_altered, 160, 4500), Group("each", g_each, 40, 1200),
          Group("long", g_long, 8, 250),
          Group("none", g_none, 30, 800), Group("made", g_made, 160, 4000),
          Group("texts", g_texts, 15, 300)]
GROUPS = boost(GROUPS, 4)
