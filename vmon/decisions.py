"""Child of the C21 monitor: takes a corpus of decisions, prints what was decided.

usage: python [options] decisions.py SRC CORPUS LOGLEVEL; imports nothing of the harness.
"""
import io
import json
import logging
import sys

src, corpus, level = sys.argv[1:4]
sys.path.insert(0, src)

sink = io.StringIO()
if level == "DEBUG":
    logging.basicConfig(level=logging.DEBUG, stream=sink)
elif level == "OFF":
    logging.disable(logging.CRITICAL)

from jwkest import BadSyntax                                        # noqa
import jwkest                                                       # noqa
from jwkest import b64d, b64e, base64_to_long, base64url_to_long    # noqa
from jwkest import jwe as jwe_mod, jws as jws_mod                   # noqa
from jwkest.PBKDF2 import PBKDF2, crypt                             # noqa
from jwkest.aes_gcm import AES_GCM                                  # noqa
from jwkest.aes_key_wrap import aes_unwrap_key                      # noqa
from jwkest.ecc import NISTEllipticCurve                            # noqa
from jwkest.extra import ecdh_derive_key                            # noqa
from jwkest.jwe import JWE                                          # noqa
from jwkest.jwk import KEYS, keyrep, make_public_copy               # noqa
from jwkest.jws import JWS, left_hash                               # noqa
from jwkest.jwt import JWT                                          # noqa

assert not jwkest.__file__ or jwkest.__file__.startswith(src)
if not jwkest.__file__.startswith(src):
    sys.exit("wrong module: %s" % jwkest.__file__)


def keys(item):
    return [keyrep(k) for k in item["keys"]]


def hx(s):
    return bytes.fromhex(s)


def d_verify(item):
    r = JWS(**item.get("ctor", {})).verify_compact_verbose(
        item["token"], keys(item), allow_none=item.get("allow_none", False),
        sigalg=item.get("sigalg"))
    return [r["msg"], r["key"].serialize() if "key" in r else None]


def d_verify_json(item):
    return JWS().verify_json(item["token"], keys(item))


def d_decrypt(item):
    if item.get("factory"):
        return jwe_mod.factory(item["token"]).decrypt(keys=keys(item))
    return JWE().decrypt(item["token"], keys(item))


def d_import(item):
    k = keyrep(item["jwk"])
    return [k.serialize(), k.serialize(True)]


def d_public(item):
    return make_public_copy(keyrep(item["jwk"])).serialize(True)


def d_thumbprint(item):
    return keyrep(item["jwk"]).thumbprint(item["hash"])


def d_same(item):
    a, b = keys(item)
    return [a == b, a != b, hash(a) == hash(b)]


def d_set(item):
    k = KEYS()
    k.load_jwks(item["doc"])
    return [len(k), k.kids(), sorted(k.key_types()), json.loads(k.dump_jwks()),
            sorted((t, len(l)) for t, l in k.as_dict().items())]


def d_classify(item):
    t = item["token"]
    return [bool(JWS().is_jws(t)), jws_mod.factory(t) is not None,
            jwe_mod.factory(t) is not None]


def d_unpack(item):
    j = JWT().unpack(item["token"])
    return [j.headers, list(j.part), j.payload()]


def d_pack(item):
    return JWT(**item["headers"]).pack([item["msg"], "x"])


def d_sign(item):
    msg = item["msg"] if "msg" in item else hx(item["hex"])
    k = keys(item)
    t = JWS(msg, alg=item["alg"]).sign_compact(k, protected=item.get("protected"))
    r = JWS().verify_compact(t, k)
    # signatures may be random, the text that is signed may not
    return [t.rpartition(".")[0], r, t if item["alg"][:2] in ("HS", "RS") else None]


def d_sign_json(item):
    k = keys(item)
    t = JWS(item["msg"], alg=item["alg"]).sign_json(k, headers=item["headers"],
                                                     flatten=item["flatten"])
    d = json.loads(t)
    for s in d.get("signatures", [d]):
        s.pop("signature")
    return [d, JWS().verify_json(t, k)]


def d_encrypt(item):
    k = keys(item)
    t = JWE(hx(item["hex"]), alg=item["alg"], enc=item["enc"], **item.get("kw", {})).encrypt(k)
    h = JWT().unpack(t).headers
    for m in ("epk", "apu", "apv"):
        h.pop(m, None)
    return [h, JWE().decrypt(t, k)]


def d_codec(item):
    r = []
    for f in (b64d, base64_to_long, base64url_to_long):
        try:
            r.append(f(item["text"].encode()))
        except Exception as err:
            r.append("raise " + type(err).__name__)
    return r


def d_unwrap(item):
    return aes_unwrap_key(hx(item["kek"]), hx(item["data"]))


def d_ecdsa(item):
    c = NISTEllipticCurve.by_name(item["crv"])
    return c.verify(int(item["h"], 16), hx(item["sig"]), tuple(int(v, 16) for v in item["pub"]))


def d_ecdh(item):
    c = NISTEllipticCurve.by_name(item["crv"])
    return ecdh_derive_key(c, int(item["d"], 16), tuple(int(v, 16) for v in item["pub"]),
                           hx(item["apu"]), hx(item["apv"]), item["alg"].encode(), item["bits"])


def d_gcm(item):
    g = AES_GCM(hx(item["key"]))
    n = lambda m: int(item[m], 16)
    return g.decrypt(n("iv"), hx(item["ct"]), n("tag"), hx(item["aad"]))


def d_pbkdf2(item):
    return PBKDF2(item["password"], hx(item["salt"]), item["rounds"]).read(item["n"])


def d_crypt(item):
    return crypt(item["password"], item["salt"], 10)


def d_left_hash(item):
    return left_hash(item["text"], item["func"])


def canon(v):
    if isinstance(v, bytes):
        return {"octets": v.hex()}
    if isinstance(v, dict):
        return {"dict": sorted([[str(k), canon(x)] for k, x in v.items()],
                               key=lambda x: x[0])}
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if v is None or isinstance(v, (bool, int, float, str)):
        return [type(v).__name__, repr(v)]
    return type(v).__name__


with open(corpus, encoding="ascii") as f:
    items = json.load(f)
out = []
for item in items:
    try:
        out.append(["ok", canon(globals()["d_" + item["op"]](item))])
    except Exception as err:
        out.append(["raise", type(err).__name__])
sys.stdout.write(json.dumps(out) + "\n")
