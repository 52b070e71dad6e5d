"""C03: packing and unpacking a token loses and invents nothing."""
import json

from vmon import gen, ref
from vmon.core import Group, boost
from jwkest.jws import JWS, JWSig
from jwkest.jwe import JWEnc
from jwkest.jwt import JWT, b64encode_item

RULE = ("A case is one token packed and unpacked here, one packed by the reference and "
        "unpacked here, or one hostile text. Non-trivial: distinct text. The reference "
        "decides whether a text is a token and what it contains.")
MINIMUM = {"packed": 450, "unpack.return": 1500, "refused": 1500, "payload.return": 700}
ASSUME = ["json of the standard library defines what JSON is"]

CLS = [JWT, JWSig, JWEnc]


def ref_parse(tok):
    """(headers, octets, texts) or Bad; tok is text or octets"""
    if isinstance(tok, str):
        try:
            tok = tok.encode("utf-8")
        except UnicodeEncodeError:
            raise ref.Bad("surrogate")
    parts = tok.split(b".")
    if len(parts) < 2:
        raise ref.Bad("no dot")
    octs = [ref.b64d(p) for p in parts]
    try:
        h = json.loads(octs[0].decode("utf-8"))
    except (ValueError, RecursionError):
        raise ref.Bad("header")
    if not isinstance(h, dict):
        raise ref.Bad("header type")
    return h, octs, parts


def judge(ctx, tok, what, cls=None):
    """unpack tok and compare with the reference's reading"""
    ctx.case(what, tok)
    j = (cls or ctx.rng.choice(CLS))()
    out = ctx.call("unpack", j.unpack, tok)
    try:
        h, octs, texts = ref_parse(tok)
    except ref.Bad as err:
        ctx.event("refused" if not out.ok else "half-parsed")
        ctx.check(not out.ok, "a text that is not a token is not refused",
                  mechanism="not refused", what=what, token=tok, why=err,
                  headers=getattr(j, "headers", None), part=getattr(j, "part", None))
        return None
    if not ctx.check(out.ok, "a well-formed token is refused", mechanism="refused good",
                     what=what, token=tok, outcome=out):
        return None
    r = out.value
    ctx.check(gen.same(r.headers, h), "headers differ after unpacking",
              mechanism="headers", what=what, token=tok, got=r.headers, expected=h)
    ctx.check([bytes(p) for p in r.part] == octs, "part octets differ after unpacking",
              mechanism="parts", what=what, token=tok, got=r.part, expected=octs)
    ctx.check([bytes(p) for p in r.b64part] == list(texts),
              "the transmitted text was changed", mechanism="text", what=what, token=tok,
              got=r.b64part)
    named = []
    if isinstance(r, JWSig) and len(octs) == 3:
        named = [(r.signature, octs[2]), (r.sign_input, texts[0] + b"." + texts[1])]
    elif isinstance(r, JWEnc) and len(octs) == 5:
        named = zip([r.protected_header, r.encrypted_key, r.initialization_vector,
                     r.ciphertext, r.authentication_tag, r.b64_protected_header,
                     r.b64_encrypted_key, r.b64_initialization_vector, r.b64_ciphertext,
                     r.b64_authentication_tag], list(octs) + list(texts))
    for f, want in named:
        ctx.event("part by name")
        ctx.check(ctx.must("part by name", f) == want, "a part has another name's value",
                  mechanism="named part", what=what, token=tok, part=f.__name__)
    if isinstance(r, (JWSig, JWEnc)):
        ctx.check(len(r) == len(octs), "the number of parts is wrong", mechanism="len",
                  token=tok, got=len(r))
    if len(octs) > 1 and (not isinstance(h.get("cty", ""), str)):
        return r
    if len(octs) > 1:
        p = ctx.call("payload", r.payload)
        e = gen.model_payload(octs[1], h)
        ctx.check(p.ok and gen.same(p.value, e), "payload differs",
                  mechanism="payload", what=what, token=tok, got=p, expected=e)
        ctx.check([bytes(x) for x in r.part] == octs, "payload() changes the parts",
                  mechanism="payload side effect", token=tok)
    again = ctx.call("repack", r.pack)
    t = tok.decode("ascii") if isinstance(tok, bytes) else tok
    ctx.check(again.ok and again.value == t, "packing again changes the text",
              mechanism="repack", what=what, token=tok, got=again)
    return r


def header(rng):
    h = {"alg": rng.choice(["HS256", "none", "RS512", "dir", "\u00e5", None, ""])}
    for _ in range(rng.randrange(5)):
        h[rng.choice(["typ", "kid", "cty", "x", "\u2603", "a b", "nested", "", "exp",
                      "n" * 50])] = gen.jsonval(rng)
    if "cty" in h:
        h["cty"] = rng.choice(["JWT", "jwt", "Jwt", "text/plain", "", "json", "JWS"])
    if rng.random() < .2:
        del h["alg"]
    return h


def model_header(h):
    e = dict(h)
    if not e.get("alg"):
        e["alg"] = None
    return e


def g_pack(ctx, i):
    rng = ctx.rng
    h = header(rng)
    n = rng.choice([1, 2, 2, 2, 4, 5])
    given, octs = [], []
    for _ in range(n):
        v, o, kind = gen.payload(rng)
        given.append(v)
        octs.append(o)
    if rng.random() < .2:                      # octets inside JSON values are text
        given[0], octs[0] = {"a": b"b\xc3\xa4r", "l": [b"x", 1]}, None
    ctx.event("packed")
    ctx.case("pack", h, given)
    cls = rng.choice(CLS)
    how = rng.randrange(3)
    if how == 0:
        t = ctx.must("pack", cls(**h).pack, given)
    elif how == 1:
        t = ctx.must("pack", cls(alg="x").pack, parts=list(given),
                     headers=model_header(h))
    else:
        t = ctx.must("pack", cls(**h).pack, parts=tuple(given) if 0 else list(given))
    ctx.need(isinstance(t, str), "packing does not give text", mechanism="pack type",
             got=t)
    try:
        h2, o2, _ = ref_parse(t)
        for p in t.split("."):
            ref.b64d(p, strict=True)
    except ref.Bad as err:
        ctx.violation("packing gives a text that is not a token", mechanism="pack form",
                      token=t, why=err)
        return
    ctx.check(gen.same(h2, model_header(h)), "packed header differs",
              mechanism="packed header", token=t, got=h2, expected=model_header(h))
    ctx.need(len(o2) == n + 1, "number of parts differs", mechanism="packed parts",
             token=t)
    for v, o, got in zip(given, octs, o2[1:]):
        if o is not None:
            ctx.check(got == o, "packed octets differ", mechanism="packed octets",
                      token=t, got=got, expected=o)
        else:
            e = json.loads(json.dumps(v, default=lambda b: b.decode("utf-8")))
            try:
                g = json.loads(got.decode("utf-8"))
            except ValueError:
                g = got
            ctx.check(gen.same(g, e), "packed JSON differs", mechanism="packed JSON",
                      token=t, got=got, expected=e)
    judge(ctx, t, "pack", cls)
    judge(ctx, t.encode(), "pack", cls)


def g_in(ctx, i):
    rng = ctx.rng
    h = header(rng)
    hb = rng.choice([ref.jdump(h), json.dumps(h).encode(), json.dumps(h, indent=3).encode(),
                     json.dumps(h, ensure_ascii=False).encode(), b" \n" + ref.jdump(h)])
    parts = [ref.b64e(hb)]
    for _ in range(rng.choice([1, 2, 2, 4])):
        o = rng.choice([gen.octets(rng), gen.text(rng).encode(),
                        json.dumps(gen.jsonval(rng)).encode(), b"",
                        json.dumps(gen.claims(rng), ensure_ascii=False).encode()])
        p = ref.b64e(o)
        if rng.random() < .2:
            p += "=" * (-len(p) % 4)
        parts.append(p)
    t = ".".join(parts)
    judge(ctx, t if rng.random() < .5 else t.encode(), "reference packed")


def g_hostile(ctx, i):
    rng = ctx.rng
    h = header(rng)
    t = ".".join([ref.b64e(ref.jdump(h)), ref.b64e(gen.octets(rng)),
                  ref.b64e(gen.octets(rng))])
    for _ in range(8):
        name, t2 = gen.mut_text(rng, t)
        judge(ctx, t2, name)
        if rng.random() < .3:
            name, t3 = gen.mut_text(rng, t2)
            judge(ctx, t3, name)
        b = t2.encode("utf-8", "surrogatepass")
        k = rng.randrange(len(b) + 1)
        judge(ctx, b[:k] + bytes([rng.randrange(256)]) + b[k:], "octet inserted")
    for _ in range(4):
        hb = ref.jdump(h)
        name, hb2 = gen.mut_octets(rng, hb)
        judge(ctx, ref.b64e(hb2) + t[t.index("."):], "header octets: " + name)


JUNK = ["", ".", "..", "...", "a", "a.b", "..a", "e30.", "e30.e30", "e30", ".e30",
        "bnVsbA.", "W10.e30", "MQ.MQ", "ImEi.e30", "dHJ1ZQ.e30", "e30.\u00e9", "e30.\ud800",
        "\u00e9.e30", "e30=.e30", "e30=e30.", "e30\n.e30", " e30.e30", "e30 .e30",
        "e30.e3\x000", "eyJhIjpOYU59.e30", "e30.=", "e30.====", "e30.A===", "e30.AA=",
        "e30.AAA==", "e30.AAAA=", "e30.AAAA====", "e30.A", "e30.AAAAA", "=.e30", "e30.-_",
        "e30.+/", "/w.e30", "e30e30e30", "eyJhIjoxLCJhIjoyfQ.e30", "e30.%3d", "e30.e30.e30.e30.e30.e30"]


def g_junk(ctx, i):
    t = JUNK[i]
    for cls in CLS:
        judge(ctx, t, "junk", cls)
        try:
            judge(ctx, t.encode(), "junk", cls)
        except UnicodeEncodeError:
            pass


def g_random(ctx, i):
    rng = ctx.rng
    pool = ["e30", ".", "=", "eyJhbGciOiJub25lIn0", "A", "_", "-", "+", "\n", "{}", "\"",
            "W10", "MQ", " "]
    for _ in range(40):
        t = "".join(rng.choice(pool) for _ in range(rng.randrange(1, 8)))
        judge(ctx, t, "random")


def g_cty(ctx, i):
    """the content type decides how a payload is read back, through JWS too"""
    rng = ctx.rng
    from jwkest.jwk import SYMKey
    k = SYMKey(key=b"0123456789abcdef0123456789abcdef")
    for cty in (None, "JWT", "jwt", "JwT", "text/plain", "", "json", "jwtx"):
        for msg in ("{\"a\": 1}", "123", "plain", b"\xff\xfe", "null", "[1]", b"\x80{}",
                    {"a": [1, 2.5, None, True, "\u00e5"]}, [], 7, 1.5, True, None, "",
                    "\"x\"", "1e3", " 1 "):
            h = {} if cty is None else {"cty": cty}
            ctx.case("cty", cty, msg)
            alg = rng.choice(["HS256", "none"])
            t = ctx.must("sign", JWS(msg, alg=alg).sign_compact, [k], protected=h)
            _, octs, _ = ref_parse(t)
            e = gen.model_payload(octs[1], h)
            if not isinstance(msg, (str, bytes)) and cty in (None, "JWT", "jwt", "JwT"):
                e = msg
            v = ctx.must("verify", JWS().verify_compact, t, [k], allow_none=True)
            ctx.check(gen.same(v, e), "payload is not what was put in",
                      mechanism="payload", cty=cty, msg=msg, got=v, expected=e)


GROUPS = [
    Group("pack", g_pack, 500, 20000),
    Group("in", g_in, 500, 20000),
    Group("hostile", g_hostile, 250, 9000),
    Group("junk", g_junk, len(JUNK), len(JUNK)),
    Group("random", g_random, 80, 4000),
    Group("cty", g_cty, 8, 60),
]
GROUPS = boost(GROUPS, 10)
