"""Shared oracles for signed and encrypted tokens."""
import json

from vmon import gen, ref
from vmon.core import Abort


def fits(header, key, meta):
    """Whether a supplied key (reference key + metadata) may be used to verify a
    token with this header: type, declared algorithm, key id and curve."""
    alg = header.get("alg")
    if alg not in ref.SIG_ALGS:
        return False
    kty = {"H": "oct", "R": "RSA", "P": "RSA", "E": "EC"}[alg[0]]
    if key["kty"] != kty:
        return False
    if alg in ref.ES_CURVE and key["crv"] != ref.ES_CURVE[alg]:
        return False
    if meta.get("alg") and meta["alg"] != alg:
        return False
    kid = header.get("kid")
    return not kid or kid == meta.get("kid", "")


class Ring(object):
    """Supplied keys: library key, reference key, metadata."""

    def __init__(self):
        self.items = []

    def add(self, rng, key, private=False, how=None, **meta):
        lk = gen.lib_key(rng, key, private, how, **meta)
        self.items.append((lk, key, meta))
        return lk

    @property
    def lib(self):
        return [i[0] for i in self.items]

    def find(self, lk):
        for i in self.items:
            if i[0] is lk:
                return i
        return None


FAMILY = {"HS": "oct", "RS": "RSA", "PS": "RSA", "ES": "EC", "A1": "oct", "A2": "oct",
          "EC": "EC", "DI": "oct"}


def family(alg):
    """the key type that an algorithm of this name is about, or None"""
    return FAMILY.get(alg[:2].upper()) if isinstance(alg, str) else None


class Asked(object):
    """which of the keys are asked for their key material, while it is on"""
    classes = {}
    heard = []

    def __init__(self, keys):
        self.keys = keys

    @classmethod
    def watched(cls, base):
        if base not in cls.classes:
            def wrap(name):
                orig = getattr(base, name)

                def method(self, *args, **kwargs):
                    cls.heard.append(self)
                    return orig(self, *args, **kwargs)
                return method
            cls.classes[base] = type(base.__name__, (base,), dict(
                (n, wrap(n)) for n in ("get_key", "encryption_key", "decryption_key")
                if hasattr(base, n)))
        return cls.classes[base]

    def __enter__(self):
        self.old = [(k, k.__class__) for k in self.keys]
        del self.heard[:]
        for k, c in self.old:
            k.__class__ = self.watched(c)
        return self

    def __exit__(self, *a):
        for k, c in self.old:
            k.__class__ = c
        self.asked = list(self.heard)

    def unfit(self, algs):
        """the keys that were asked although no algorithm that plays a part is for their type"""
        types = set(family(a) for a in algs)
        return [type(k).__name__ for k in self.asked if k.kty not in types]


def signed_parts(token):
    """-> header, octets of the three parts, signing input; raises Bad"""
    if isinstance(token, bytes):
        try:
            token = token.decode("utf-8")
        except UnicodeDecodeError:
            raise ref.Bad("text")
    if token.count(".") != 2:
        raise ref.Bad("parts")
    h, octs = gen.parse(token)
    return h, octs, token.rpartition(".")[0].encode("utf-8")


def predict(h, inp, sig, ring, allow_none, sigalg, ctor):
    """-> ("none"|"key"|"reject", [admissible library keys])"""
    if "crit" in h:
        return "reject", []
    alg = h.get("alg")
    pins = [p for p in (sigalg, ctor) if p]
    if "alg" in h and (alg is None or isinstance(alg, str) and alg.lower() == "none"):
        if any(p.lower() != "none" for p in pins) or not allow_none:
            return "reject", []
        return "none", []
    if not isinstance(alg, str) or alg not in ref.SIG_ALGS:
        return "reject", []
    if any(p != alg for p in pins):
        return "reject", []
    good = [lk for lk, key, meta in ring.items
            if fits(h, key, meta) and ref.verify(alg, inp, sig, key)]
    return ("key" if good else "reject"), good


def judge_accept(ctx, out, token, ring, what):
    """An acceptance must be one the reference makes too, with the key and the
    payload reported. verbose results only."""
    v = out.value
    if not ctx.check(isinstance(v, dict) and "msg" in v,
                     "verification returned something that is not a result",
                     mechanism="odd result", what=what, result=v, token=token):
        return
    try:
        h, octs, inp = signed_parts(token)
    except ref.Bad as err:
        ctx.violation("accepted a text that is not a signed token",
                      mechanism="accepted malformed", why=str(err), token=token,
                      what=what)
        return
    used = ring.find(v.get("key"))
    if not ctx.check(used is not None, "the key reported is not a supplied key",
                     mechanism="foreign key", key=v.get("key"), what=what,
                     token=token):
        return
    alg = h.get("alg")
    ctx.check(fits(h, used[1], used[2]), "accepted with a key that does not fit",
              mechanism="unfit key", header=h, key=gen.ident(used[1]),
              meta=used[2], what=what)
    ok = isinstance(alg, str) and ref.verify(alg, inp, octs[2], used[1])
    ctx.check(ok, "accepted a signature that is not valid",
              mechanism="accepted invalid signature", what=what, token=token,
              header=h, key=gen.ident(used[1]), sig=octs[2].hex())
    ctx.check(gen.same(v["msg"], gen.model_payload(octs[1], h)),
              "payload reported is not the one signed",
              mechanism="wrong payload", what=what, got=v["msg"],
              expected=gen.model_payload(octs[1], h))


def open_token(token):
    """reference reading of any compact token, Bad if malformed"""
    return gen.parse(token)
