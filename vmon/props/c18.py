"""C18: recognising tokens never crashes and agrees with parsing."""
import json
import sys

from vmon import gen, ref
from vmon.core import Group, boost
from jwkest import BadSyntax, JWKESTException
from jwkest import jwe as jwe_mod
from jwkest import jws as jws_mod
from jwkest.jwe import JWE, JWEnc
from jwkest.jws import JWS, NoSuitableSigningKeys

RULE = ("A case is one text (or its octets) shown to both recognisers, directly and through both "
        "factories; an independent classifier says what it is. Tokens come from the library, "
        "from the reference, from mutation and from a hostile corpus. Non-trivial: distinct "
        "texts.")
MINIMUM = {"text": 6000, "signed": 450, "encrypted": 300, "JSON signed": 150, "neither": 3000,
           "malformed": 1500, "library token": 350, "unsupported named": 400,
           "no algorithm named": 120, "verified through factory": 120,
           "decrypted through factory": 60}
ASSUME = ["a five-part text whose typ is JWE counts as recognised whatever algorithm it names, "
          "as the recogniser documents",
          "octets that are not UTF-8 but another encoding of a JSON document, and JSON nested "
          "beyond the parser's limit, may be classified either way, but not with a crash"]
SIGS = set(ref.SIG_ALGS + ["none"])


def small(text):
    return text if len(text) < 3000 else text[:3000]


def parse_json(data):
    """-> (known, value): known False where the parser may differ"""
    if isinstance(data, bytes):
        try:
            data = data.decode("utf-8")
        except UnicodeDecodeError:
            if b"\0" in data or data[:2] in (b"\xff\xfe", b"\xfe\xff"):
                return False, None
            return True, ValueError
        if data.startswith("\ufeff"):
            return False, None
        if "\0" in data[:4]:        # may be read as UTF-16 or UTF-32
            return False, None
    try:
        return True, json.loads(data)
    except ValueError:
        return True, ValueError
    except RecursionError:
        return False, None


def classify(data):
    """-> dict(signed, encrypted: True/False/None for either/"error", header)"""
    r = {"signed": False, "encrypted": "error", "header": None}
    known, doc = parse_json(data)
    if not known:
        r["signed"] = None
        if isinstance(data, str) or b"." not in data:
            pass
        r["encrypted"] = None
        return r
    if isinstance(doc, dict):
        keys = set(doc)
        r["signed"] = bool({"payload", "signatures"} <= keys or {"payload", "signature"} <= keys)
        r["json"] = True
    try:
        text = data if isinstance(data, str) else data.decode("utf-8")
        text.encode("utf-8")
    except UnicodeError:
        return r
    if "." not in text:
        return r
    try:
        octs = [ref.b64d(p) for p in text.split(".")]
        h = octs[0].decode("utf-8")
    except (ref.Bad, UnicodeDecodeError):
        return r
    known, h = parse_json(h)
    if not known:
        r["encrypted"] = None
        return r
    if not isinstance(h, dict):
        return r
    r["header"] = h
    r["parts"] = octs
    if doc is ValueError and len(octs) == 3 and "alg" in h:
        alg = "none" if h["alg"] is None else h["alg"]
        r["signed"] = isinstance(alg, str) and alg in SIGS
    typ, alg, enc = h.get("typ"), h.get("alg"), h.get("enc")
    r["encrypted"] = len(octs) == 5 and (
        isinstance(typ, str) and typ.lower() == "jwe" or
        isinstance(alg, str) and alg in ref.ENC_ALGS and
        isinstance(enc, str) and enc in ref.ENCS)
    return r


def judge(ctx, data, what):
    c = classify(data)
    ctx.case(small(data))
    ctx.event("text")
    out = ctx.call("is_jws", JWS().is_jws, data)
    if ctx.check(out.ok, "asking whether a text is a signed token raised",
                 mechanism="is_jws raised", what=what, text=data, exc=repr(out.exc)):
        ctx.check(isinstance(out.value, bool), "is_jws does not answer yes or no",
                  mechanism="is_jws answer", what=what, text=data, got=out.value)
        if c["signed"] is not None:
            ctx.check(bool(out.value) == c["signed"],
                      "is_jws claims a text that is no signed token" if out.value else
                      "is_jws does not recognise a signed token",
                      mechanism="is_jws " + ("false yes" if out.value else "false no"),
                      what=what, text=data, header=c["header"])
    fac = ctx.call("jws.factory", jws_mod.factory, data)
    if ctx.check(fac.ok, "the factory for signed tokens raised", mechanism="jws.factory raised",
                 what=what, text=data, exc=repr(fac.exc)):
        ctx.check((fac.value is not None) == bool(out.value if out.ok else None),
                  "factory and is_jws disagree", mechanism="jws.factory disagrees", what=what,
                  text=data)
    signed = fac.ok and fac.value is not None
    if signed and not c.get("json") and c["header"] is not None:
        ctx.event("signed")
        ctx.check(gen.same(dict(fac.value.jwt.headers, alg=fac.value.jwt.headers["alg"] or
                                "none"), dict(c["header"], alg=c["header"]["alg"] or "none")),
                  "the recognised token's header is not the one in the text",
                  mechanism="jws.factory header", what=what, text=data)
        ctx.check([bytes(p) for p in fac.value.jwt.part] == c["parts"],
                  "the recognised token's parts are not those of the text",
                  mechanism="jws.factory parts", what=what, text=data)
    elif signed:
        ctx.event("JSON signed")
    out = ctx.call("jwe.factory", jwe_mod.factory, data)
    enc = out.ok and out.value is not None
    if not out.ok:
        ctx.check(isinstance(out.exc, (JWKESTException, ValueError)),
                  "asking whether a text is an encrypted token raised something that is not a "
                  "parse error", mechanism="jwe.factory raised", what=what, text=data,
                  exc=repr(out.exc))
        ctx.event("malformed")
    if c["encrypted"] == "error":
        ctx.check(not out.ok or not enc, "a malformed text is taken for an encrypted token",
                  mechanism="jwe false yes", what=what, text=data)
        ctx.check(not out.ok, "a text that does not parse is not refused",
                  mechanism="jwe no error", what=what, text=data)
    elif c["encrypted"] is not None:
        if ctx.check(out.ok, "a text that parses is refused", mechanism="jwe refused",
                     what=what, text=data, exc=repr(out.exc)):
            ctx.check(enc == c["encrypted"],
                      "claims a text that is no encrypted token" if enc else
                      "does not recognise an encrypted token",
                      mechanism="jwe " + ("false yes" if enc else "false no"), what=what,
                      text=data, header=c["header"])
        un = ctx.call("JWEnc.unpack", JWEnc().unpack, data)
        if ctx.check(un.ok, "a text that parses is refused", mechanism="jwe refused",
                     what=what, text=data):
            ask = ctx.call("is_jwe", un.value.is_jwe)
            ctx.check(ask.ok and ask.value is enc, "is_jwe and the factory disagree",
                      mechanism="is_jwe disagrees", what=what, text=data, got=repr(ask))
    if enc:
        ctx.event("encrypted")
        if c["header"] is not None:
            ctx.check(gen.same(out.value.jwt.headers, c["header"]) and
                      [bytes(p) for p in out.value.jwt.part] == c["parts"],
                      "the recognised token is not the one in the text",
                      mechanism="jwe.factory parts", what=what, text=data)
    ctx.check(not (signed and enc), "one text is claimed to be both signed and encrypted",
              mechanism="both", what=what, text=data)
    if not signed and not enc:
        ctx.event("neither")
        h = c["header"]
        if h is not None and len(c["parts"]) in (3, 5):
            a = h.get("alg", "absent")
            ctx.event("no algorithm named" if a == "absent" else "unsupported named")
    return signed, enc


def both(ctx, text, what):
    r = judge(ctx, text, what)
    try:
        b = text.encode("utf-8")
    except UnicodeEncodeError:
        return r
    if ctx.rng.random() < .6:
        judge(ctx, b, what)
    return r


# -- what the library makes ----------------------------------------------------------------

def g_made(ctx, i):
    rng = ctx.rng
    alg = (ref.SIG_ALGS + ["none"])[i % 13]
    key = gen.sig_key(rng, alg) if alg != "none" else rng.choice(gen.OCT)
    lk = gen.lib_key(rng, key, True, kid=rng.choice(["", "k"]))
    msg, octs, kind = gen.payload(rng)
    prot = rng.choice([None, {"typ": "JOSE"}, {"cty": "text/plain"}, {"typ": "JWE"},
                       {"enc": "A128GCM"}])
    keys = [] if alg == "none" else [lk]
    maker = JWS(msg) if alg == "none" and rng.random() < .5 else JWS(msg, alg=alg)
    if alg == "none" and not keys and not prot and rng.random() < .5:
        t = ctx.must("sign_compact", maker.sign_compact)
    else:
        t = ctx.must("sign_compact", maker.sign_compact, keys,
                     **({"protected": prot} if prot else {}))
    ctx.event("library token")
    s, e = both(ctx, t, "made signed")
    ctx.check(s and not e, "a signed token that the library made is not recognised",
              mechanism="own signed token", token=t, signed=s, encrypted=e)
    f = jws_mod.factory(t)
    if f is not None and rng.random() < .7:
        a = ctx.call("verify via factory", lambda: f.verify_compact_verbose(
            t, keys, allow_none=True))
        b = ctx.call("verify direct", lambda: JWS().verify_compact_verbose(
            t, keys, allow_none=True))
        ctx.event("verified through factory")
        ctx.check(a.ok and b.ok and gen.same(a.value["msg"], b.value["msg"]),
                  "a token verifies differently through the factory",
                  mechanism="factory verify", token=t, a=repr(a), b=repr(b))
    if alg != "none" and rng.random() < .6:
        flat = rng.random() < .5
        heads = [({"alg": alg}, rng.choice([None, {"x": 1}]))
                 for _ in range(1 if flat else rng.randrange(1, 3))]
        j = ctx.must("sign_json", JWS(msg, alg=alg).sign_json, [lk],
                     headers=[(dict(p), u) for p, u in heads], flatten=flat)
        ctx.event("library token")
        s, e = both(ctx, j, "made JSON")
        ctx.check(s and not e, "a JSON signed token that the library made is not recognised",
                  mechanism="own JSON token", token=j)
    # encrypted
    ea, enc = ref.ENC_ALGS[i % 10], ref.ENCS[(i // 10) % 3 if rng.random() < .8 else
                                              rng.randrange(6)]
    ek = gen.enc_key(rng, ea, enc)
    elk = gen.lib_key(rng, ek, True, kid=rng.choice(["", "k"]))
    if rng.random() < .5:
        body = gen.octets(rng)
    else:
        body = t.encode()
    kw = rng.choice([{}, {"typ": "JWT"}, {"cty": "JWT"}, {"typ": "JWE"}])
    t = ctx.must("encrypt", JWE(body, alg=ea, enc=enc, **kw).encrypt, [elk])
    ctx.event("library token")
    s, e = both(ctx, t, "made encrypted")
    ctx.check(e and not s, "an encrypted token that the library made is not recognised",
              mechanism="own encrypted token", token=t, signed=s, encrypted=e)
    f = jwe_mod.factory(t)
    if f is not None:
        a = ctx.call("decrypt via factory", lambda: f.decrypt(keys=[elk]))
        ctx.event("decrypted through factory")
        ctx.check(a.ok and a.value == body, "a token decrypts differently through the factory",
                  mechanism="factory decrypt", token=t, got=repr(a))
    for tok in (t,):
        for _ in range(2):
            both(ctx, gen.mut_text(rng, tok)[1], "mutated")


# -- headers of every kind ---------------------------------------------------------------

ALGS = ref.SIG_ALGS + ref.ENC_ALGS + ["none"]
BAD_ALGS = ["None", "NONE", "nOnE", "hs256", "HS256 ", " HS256", "HS128", "ES256K", "EdDSA",
            "RS1", "PS", "", "dir", "A128GCMKW", "PBES2-HS256+A128KW", "RSA-OAEP-512",
            "rsa-oaep", "A128KW ", "A256GCM", "A128CBC-HS256", "ECDH", "ECDH-ES+A256GCMKW", "ES521",
            "HS256\0", "\u00e5", "RS256,HS256", 0, 1, 256, 1.5, True, False, [], ["HS256"], {},
            {"HS256": 1}, [None], None]
TYPS = ["JWE", "jwe", "JwE", "JWT", "JWS", "JOSE+JSON", "", "jwe ", " JWE", "JWE+JSON", 5,
        None, True, [], ["JWE"], {}, {"JWE": "jwe"}, 1.5]


def header(rng):
    h = {}
    k = rng.random()
    if k < .5:
        h["alg"] = rng.choice(ALGS)
    elif k < .85:
        h["alg"] = rng.choice(BAD_ALGS)
    k = rng.random()
    if k < .5:
        h["enc"] = rng.choice(ref.ENCS)
    elif k < .7:
        h["enc"] = rng.choice(BAD_ALGS + ref.ENC_ALGS)
    if rng.random() < .35:
        h["typ"] = rng.choice(TYPS)
    for m in ("kid", "cty", "crit", "zip", "epk", "jwk", "x5c", "b64", "payload", "signature"):
        if rng.random() < .06:
            h[m] = gen.jsonval(rng)
    return h


def form(rng, h):
    k = rng.randrange(6)
    if k == 0:
        return json.dumps(h, indent=1).encode()
    if k == 1:
        return json.dumps(h, ensure_ascii=False).encode()
    if k == 2:      # a member twice; the last one counts
        s = json.dumps(h)
        m = rng.choice(["alg", "enc", "typ"])
        d = '{"%s":%s' % (m, json.dumps(rng.choice(ALGS + BAD_ALGS)))
        return (d + ("," if len(h) else "") + s[1:]).encode()
    return ref.jdump(h)


def g_header(ctx, i):
    rng = ctx.rng
    for _ in range(12):
        h = header(rng)
        n = rng.choice([3, 3, 5, 5, 5, 2, 4, 6, 1])
        t = ".".join([ref.b64e(form(rng, h))] + [
            ref.b64e(rng.choice([b"", b"{}", rng.randbytes(rng.randrange(40))]))
            for _ in range(n - 1)])
        both(ctx, t, "header")
        if rng.random() < .4:
            name, t = gen.mut_text(rng, t)
            both(ctx, t, name)


VALUES = [b"null", b"true", b"[]", b"[[\"alg\",\"HS256\"]]", b"\"alg\"", b"\"HS256\"", b"1",
          b"-0", b"1e999", b"NaN", b"{}", b"", b" ", b"{", b"\xef\xbb\xbf{\"alg\":\"HS256\"}",
          b"{\"alg\":\"HS256\"", b"{'alg':'HS256'}", b"\xff{\"alg\":\"HS256\"}",
          b"{\"alg\":\"HS256\"}x", b"{\"alg\":\"HS\\u0032\\u0035\\u0036\"}",
          b"{\"\\u0061lg\":\"HS256\"}", b"{\"alg\":\"\\ud800\"}", b"\0{\"alg\":\"HS256\"}",
          b"{\"alg\":\"HS256\",}", b"{\"alg\":HS256}", b"{\"alg\":null}",
          b"{\"alg\":\"none\",\"alg\":\"HS256\"}", b"{\"alg\":" + b"9" * 5000 + b"}",
          b"[" * 200 + b"]" * 200, b"[" * 100000, b"{\"a\":" * 5000 + b"1" + b"}" * 5000,
          b"{\"alg\":\"HS256\",\"x\":" + b"[" * 20000 + b"]" * 20000 + b"}",
          b"{\"alg\":" + b"[" * 20000 + b"]" * 20000 + b"}",
          b"{\"alg\":\"RSA-OAEP\",\"enc\":\"A128GCM\",\"x\":" + b"[" * 99999 + b"}"]


def g_value(ctx, i):
    v = VALUES[i]
    for n in (3, 5):
        for tail in (".AA", "."):
            t = ref.b64e(v) + tail * (n - 1)
            judge(ctx, t, "header value")
            judge(ctx, t.encode(), "header value")
    try:
        judge(ctx, v.decode("utf-8"), "value")
    except UnicodeDecodeError:
        pass
    judge(ctx, v, "value")


# -- JSON documents ----------------------------------------------------------------------

def g_json(ctx, i):
    rng = ctx.rng
    for _ in range(25):
        d = {}
        for m in ("payload", "signatures", "signature", "protected", "header", "ciphertext",
                  "recipients", "iv", "alg"):
            if rng.random() < .45:
                d[m] = rng.choice([gen.jsonval(rng), "", None, [], {}, [{}], "e30"])
        k = rng.randrange(6)
        if k == 0:
            d = gen.jsonval(rng)
        elif k == 1:
            d = [d]
        elif k == 2:
            d = {"x": d}
        s = rng.choice([json.dumps(d), json.dumps(d, ensure_ascii=False),
                        json.dumps(d, indent=2), " \n" + json.dumps(d) + "\t"])
        if rng.random() < .15:
            s = rng.choice([s[:-1], s + "x", s.replace('"', "'"), "\ufeff" + s, s + s,
                            "[" * 3000 + s, s[1:]])
        both(ctx, s, "JSON")
        if rng.random() < .1:
            judge(ctx, s.encode(rng.choice(["utf-16", "utf-32", "utf-16-le", "latin-1"]),
                                "replace"), "JSON otherwise encoded")


POOL = ["e30", ".", ".", "=", "eyJhbGciOiJub25lIn0", "eyJhbGciOiJIUzI1NiJ9", "A", "_", "-", "+",
        "\n", "{", "}", "\"", "[", "]", ":", ",", "W10", "MQ", " ", "\0", "\u00e9", "\ud800",
        "payload", "null", "\U0001f600",
        ref.b64e(b'{"alg":"RSA-OAEP","enc":"A128GCM"}'), ref.b64e(b'{"typ":"JWE"}'), "AA", ".AA",
        "...", "...."]


def g_noise(ctx, i):
    rng = ctx.rng
    for _ in range(25):
        k = rng.randrange(3)
        if k == 0:
            judge(ctx, rng.randbytes(rng.choice([0, 1, 2, 3, 10, 50, 300])), "octets")
        elif k == 1:
            both(ctx, "".join(rng.choice(POOL) for _ in range(rng.randrange(12))), "pieces")
        else:
            n = rng.randrange(1, 20)
            both(ctx, "".join(chr(rng.choice([rng.randrange(128), rng.randrange(0xd800),
                                              rng.randrange(0xd800, 0xe000),
                                              rng.randrange(0x10000, 0x110000)]))
                              for _ in range(n)), "characters")


GROUPS = [Group("made", g_made, 260, 2500), Group("header", g_header, 200, 6000),
          Group("value", g_value, len(VALUES), len(VALUES)), Group("json", g_json, 60, 3000),
          Group("noise", g_noise, 60, 3000)]
GROUPS = boost(GROUPS, 6)
