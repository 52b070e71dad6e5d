"""C21: security decisions do not depend on interpreter configuration."""
import collections
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from vmon import core, gen, ref
from vmon.core import Group
from vmon.props import c10, c17, c19

RULE = ("A case is one decision (a token, key, key set or primitive input with the caller's "
        "options) taken by child interpreters under every configuration; the transcripts "
        "(value, or type of the exception) are compared with each other and with what the "
        "reference says where it has an opinion. Non-trivial: distinct decision inputs.")
MINIMUM = {"decision": 700, "child": 100, "accepted": 250, "refused": 250,
           "reference accepts": 220, "reference refuses": 220, "transcripts compared": 8000,
           "logged": 300}
ASSUME = ["the type of an exception is part of a decision, its text is not",
          "what is random by design (signatures, ephemeral keys) is left out of the transcript"]

CONFIGS = [
    ("plain", [], {}, "NONE", None),
    ("-O", ["-O"], {}, "NONE", None),
    ("-OO", ["-OO"], {}, "NONE", None),
    ("debug log", [], {}, "DEBUG", None),
    ("log off -OO", ["-OO"], {}, "OFF", None),
    ("hash seed 0", [], {"PYTHONHASHSEED": "0"}, "NONE", None),
    ("hash seed 1", [], {"PYTHONHASHSEED": "1"}, "NONE", None),
    ("hash seed random", ["-R"], {"PYTHONHASHSEED": "random"}, "NONE", None),
    ("locale C", [], {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0",
                      "PYTHONIOENCODING": "ascii"}, "NONE", None),
    ("locale C debug", ["-O"], {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
     "DEBUG", None),
    ("utf8 mode", ["-X", "utf8"], {"LC_ALL": "C.UTF-8", "LANG": "C.UTF-8"}, "NONE", None),
    ("other directory", [], {"TZ": "Pacific/Kiritimati"}, "NONE", "empty"),
    ("directory with decoys", [], {"PYTHONSAFEPATH": "1"}, "NONE", "decoys"),
    ("root directory", [], {"HOME": "/nonexistent"}, "NONE", "/"),
    ("isolated", ["-I"], {}, "NONE", None),
    ("no bytecode", ["-B"], {}, "NONE", None),
    ("dev mode", ["-X", "dev"], {}, "DEBUG", None),
]


def jwks(entries, private):
    return [ref.jwk(e[0], private, **e[1]) for e in entries]


def item_verify(rng):
    n = rng.randrange(1, 4)
    alg = rng.choice(ref.SIG_ALGS)
    key = gen.sig_key(rng, alg)
    h = {"alg": alg}
    if rng.random() < .3:
        h["kid"] = "k1"
    keys = [(key, {"kid": "k1"} if rng.random() < .5 else {})]
    for _ in range(n - 1):
        keys.append((rng.choice(c17.SMALL), {}))
    pl = json.dumps(gen.claims(rng)).encode() if rng.random() < .7 else gen.octets(rng)
    t = ref.jws(h, pl, key, rng)
    want = "ok"
    item = {"op": "verify", "keys": None}
    k = rng.randrange(16)
    if "kid" in h and not keys[0][1]:
        want = "raise"
    if k == 0:
        p = t.split(".")
        p[2] = ref.b64e(gen.mut_octets(rng, ref.b64d(p[2]))[1])
        t, want = ".".join(p), "raise"
    elif k == 1:
        t, want = gen.mut_text(rng, t)[1], None
    elif k == 2:
        t = ref.b64e(ref.jdump(dict(h, alg="none"))) + "." + ref.b64e(pl) + "."
        item["allow_none"] = rng.random() < .5
        want = "ok" if item["allow_none"] else "raise"
    elif k == 3:
        item["sigalg"] = rng.choice([a for a in ref.SIG_ALGS if a != alg])
        want = "raise"
    elif k == 4:
        item["ctor"] = {"alg": rng.choice([a for a in ref.SIG_ALGS if a != alg])}
        want = "raise"
    elif k == 5:
        t, want = ref.jws(dict(h, crit=["exp"]), pl, key, rng), "raise"
    elif k == 6:
        t, want = ref.jws(dict(h, alg=rng.choice(["XX", "HS1", "", None, 5])), pl, key, rng,
                          alg=alg), "raise"
    elif k == 7:
        # hashed with the text of a public key
        other = rng.choice(gen.R1024)
        t = ref.jws({"alg": "HS256"}, pl, {"kty": "oct", "k": json.dumps(
            ref.jwk(other)).encode()}, rng)
        keys, want = [(other, {})], "raise"
    elif k == 8:
        keys = [(rng.choice([x for x in c17.SMALL if x["kty"] != key["kty"]]), {})]
        want = "raise"
    elif k == 9:
        keys[0] = (key, dict(keys[0][1], alg=rng.choice([a for a in ref.SIG_ALGS if a != alg])))
        want = "raise"
    elif k == 10:
        t, want = t.rpartition(".")[0] + ".", "raise"
    item.update(token=t, keys=jwks(keys, rng.random() < .3))
    if len(keys) > 1 and want == "raise" and k not in (0, 2, 3, 4, 5, 6, 10):
        want = None
    return item, want


def item_verify_json(rng):
    pl = json.dumps(gen.claims(rng)).encode()
    alg = rng.choice(["HS256", "RS256", "ES256"])
    key = gen.sig_key(rng, alg)
    sigs = []
    want = "ok"
    for _ in range(rng.randrange(0, 3)):
        h = ref.b64e(ref.jdump({"alg": alg}))
        s = ref.sign(alg, ("%s.%s" % (h, ref.b64e(pl))).encode(), key, rng)
        if rng.random() < .3:
            s, want = gen.mut_octets(rng, s)[1], "raise"
        sigs.append({"protected": h, "signature": ref.b64e(s)})
    d = {"payload": ref.b64e(pl), "signatures": sigs}
    if not sigs:
        want = "raise"
    if rng.random() < .2:
        d.pop(rng.choice(["payload", "signatures"]))
        want = "raise"
    return {"op": "verify_json", "token": json.dumps(d), "keys": [ref.jwk(key)]}, want


def item_decrypt(rng):
    alg = rng.choice(ref.ENC_ALGS)
    enc = rng.choice(ref.ENCS[:3]) if rng.random() < .93 else rng.choice(ref.ENCS[3:])
    key = gen.enc_key(rng, alg, enc)
    h = {"alg": alg, "enc": enc}
    if rng.random() < .3:
        h["zip"] = "DEF"
    t = ref.jwe(h, gen.octets(rng), key, rng)
    want = "ok"
    k = rng.randrange(6)
    if k == 0:
        p = t.split(".")
        n = rng.choice([1, 2, 3, 4])
        p[n] = ref.b64e(gen.mut_octets(rng, ref.b64d(p[n]))[1])
        t, want = ".".join(p), "raise"
    elif k == 1:
        t, want = gen.mut_text(rng, t)[1], None
    elif k == 2:
        p = t.split(".")
        p[0] = ref.b64e(ref.jdump(dict(json.loads(ref.b64d(p[0])), x=1)))
        t, want = ".".join(p), "raise"
    elif k == 3:
        # another key (P and -P agree on the same secret, so not one with the same x)
        key, want = rng.choice([x for x in c17.SMALL if x != key and not (
            x["kty"] == key["kty"] == "EC" and x["x"] == key["x"])]), "raise"
    return {"op": "decrypt", "token": t, "keys": [ref.jwk(key, True)],
            "factory": rng.random() < .5}, want


def item_import(rng):
    if rng.random() < .5:
        jwk, e = c17.good_spec(rng)
        return {"op": rng.choice(["import", "import", "public"]), "jwk": jwk}, "ok"
    return {"op": "import", "jwk": c17.bad_spec(rng)}, "raise"


def item_hostile(rng):
    """a token whose ephemeral key is hostile"""
    key = rng.choice(gen.ECK["P-256"])

    class Quiet(object):
        def event(self, *a):
            pass
    name, epk, zs = c10.hostile(Quiet(), rng, key)
    t = c10.build(rng, rng.choice(c10.ALGS), rng.choice(ref.ENCS[:3]), epk,
                  (zs or [bytes(32)])[0], b"attack")
    return {"op": "decrypt", "token": t, "keys": [ref.jwk(key, True)]}, "raise"


def item_misc(rng):
    k = rng.randrange(12)
    if k == 0:
        return {"op": "thumbprint", "jwk": ref.jwk(rng.choice(c17.SMALL)),
                "hash": rng.choice(["SHA-256", "SHA-384", "SHA-512"])}, "ok"
    if k == 1:
        a = rng.choice(c17.SMALL)
        b = rng.choice([a, a, rng.choice(c17.SMALL)])
        return {"op": "same", "keys": [ref.jwk(a, rng.random() < .5),
                                       ref.jwk(b, False, **rng.choice([{}, {"kid": "x"}]))]}, "ok"
    if k == 2:
        specs = [c17.good_spec(rng)[0] for _ in range(3)]
        want = "ok"
        if rng.random() < .5:
            specs.append(c17.bad_spec(rng))
            want = "raise"
        return {"op": "set", "doc": json.dumps({"keys": specs})}, want
    if k == 3:
        t = ref.jws({"alg": rng.choice(["HS256", "none", "XX"])}, b"{}", gen.OCT[0], rng,
                    alg="HS256")
        return {"op": "classify", "token": gen.mut_text(rng, t)[1]}, None
    if k == 4:
        t = ref.jws(rng.choice([{"alg": "HS256"}, {"alg": "HS256", "cty": "text/plain"}]),
                    gen.octets(rng), gen.OCT[0], rng)
        return {"op": "unpack", "token": t if rng.random() < .5 else gen.mut_text(rng, t)[1]}, \
            None
    if k == 5:
        return {"op": "pack", "headers": {"alg": "none", gen.text(rng)[:10]: gen.jsonval(rng)},
                "msg": gen.jsonval(rng)}, "ok"
    if k == 6:
        return {"op": "codec", "text": rng.choice(["AA", "AA==", "A", "A+/", "A-_", "", "AAA=",
                                                   "AA\n", " AA", "====", "\u00e5"])}, "ok"
    if k == 7:
        kek, cek = rng.randbytes(16), rng.randbytes(32)
        w = ref.kw_wrap(kek, cek)
        bad = rng.random() < .6
        if bad:
            w = gen.mut_octets(rng, w)[1]
        return {"op": "unwrap", "kek": kek.hex(), "data": w.hex()}, "raise" if bad else "ok"
    if k == 8:
        crv = rng.choice(gen.CRVS)
        c = ref.CURVES[crv]
        key = rng.choice(gen.ECK[crv])
        alg = [a for a, x in ref.ES_CURVE.items() if x == crv][0]
        sig = ref.sign(alg, b"m", key, rng)
        h = ref.HASH[alg[2:]](b"m").hexdigest()
        pub = (key["x"], key["y"])
        if rng.random() < .5:
            pub = (pub[0], (pub[1] + 1) % c.p)
        if rng.random() < .5:
            sig = gen.mut_octets(rng, sig)[1]
        return {"op": "ecdsa", "crv": crv, "h": h, "sig": sig.hex(),
                "pub": ["%x" % v for v in pub]}, None
    if k == 9:
        crv = rng.choice(gen.CRVS)
        c = ref.CURVES[crv]
        d, q = rng.randrange(1, c.n), c.mul(rng.randrange(1, c.n))
        want = "ok"
        if rng.random() < .5:
            q, want = rng.choice([(q[0], (q[1] + 1) % c.p), (0, 0), (q[0] + c.p, q[1])]), "raise"
        return {"op": "ecdh", "crv": crv, "d": "%x" % d, "pub": ["%x" % v for v in q],
                "apu": "00", "apv": "ff", "alg": "A128GCM", "bits": 128}, want
    if k == 10:
        return {"op": rng.choice(["pbkdf2", "crypt"]), "password": gen.text(rng),
                "salt": rng.choice(["00ff", "abcdef01"]), "rounds": 5, "n": 40}, "ok"
    return {"op": "left_hash", "text": gen.text(rng),
            "func": rng.choice(["HS256", "HS384", "HS512", "XX"])}, "ok"


def item_sign(rng):
    k = rng.randrange(3)
    if k == 2:
        alg = rng.choice(ref.ENC_ALGS)
        enc = rng.choice(ref.ENCS[:3])
        key = gen.enc_key(rng, alg, enc)
        item = {"op": "encrypt", "alg": alg, "enc": enc, "hex": gen.octets(rng).hex(),
                "keys": [ref.jwk(key, True)], "kw": rng.choice([{}, {"zip": "DEF"}])}
        want = "ok"
        if rng.random() < .2:
            item[rng.choice(["alg", "enc"])] = "XX"
            want = "raise"
        return item, want
    alg = rng.choice(ref.SIG_ALGS)
    key = gen.sig_key(rng, alg)
    if k == 1:
        return {"op": "sign_json", "alg": alg, "msg": gen.claims(rng),
                "keys": [ref.jwk(key, True)], "flatten": rng.random() < .5,
                "headers": [[{"typ": "JOSE", "alg": alg}, rng.choice([None, {"x": 1}])]
                            for _ in range(rng.randrange(1, 3))]}, "ok"
    item = {"op": "sign", "alg": alg, "keys": [ref.jwk(key, True)],
            "protected": rng.choice([None, {"typ": "JOSE"}, {"\u00e5": ["\u2603", 1.5]}])}
    if rng.random() < .5:
        item["msg"] = gen.jsonval(rng)
    else:
        item["hex"] = gen.octets(rng).hex()
    if rng.random() < .25:
        item["keys"] = [rng.choice([ref.jwk(rng.choice(
            [x for x in c17.SMALL if x["kty"] != key["kty"]]), True)])]
        return item, "raise"
    if key["kty"] != "oct" and rng.random() < .25:
        item["keys"] = [ref.jwk(key, False)]
        return item, "raise"
    return item, "ok"


KINDS = [item_verify] * 6 + [item_verify_json] * 2 + [item_decrypt] * 5 + [item_import] * 4 + \
    [item_hostile] * 2 + [item_misc] * 6 + [item_sign] * 4


def run_child(conf, corpus, scratch):
    name, flags, env, level, cwd = conf
    e = {"PATH": "/usr/bin:/bin", "HOME": scratch}
    e.update(env)
    if "-I" not in flags:
        e["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    else:
        flags = flags + ["-B"]
    d = {None: scratch, "empty": os.path.join(scratch, "empty"),
         "decoys": os.path.join(scratch, "decoys")}.get(cwd, cwd)
    p = subprocess.run([sys.executable] + flags + [
        os.path.join(core.ROOT, "vmon", "decisions.py"), core.SRC.rstrip("/"), corpus, level],
        cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode:
        return None, p.stderr.decode("utf-8", "replace")[-800:]
    return json.loads(p.stdout.decode("ascii")), None


def g_corpus(ctx, i):
    rng = ctx.rng
    items, wants = [], []
    for _ in range(120 if ctx.tier == "quick" else 250):
        item, want = rng.choice(KINDS)(rng)
        items.append(item)
        wants.append(want)
        ctx.case(json.dumps(item, sort_keys=True))
        ctx.event("decision")
    scratch = tempfile.mkdtemp(prefix="vmon-c21-")
    try:
        os.mkdir(os.path.join(scratch, "empty"))
        decoys = os.path.join(scratch, "decoys")
        os.mkdir(decoys)
        for n in ("json", "base64", "jwkest", "hashlib", "hmac", "requests", "six"):
            with open(os.path.join(decoys, n + ".py"), "w") as f:
                f.write("raise SystemExit('decoy')\n")
        corpus = os.path.join(scratch, "corpus.json")
        with open(corpus, "w") as f:
            json.dump(items, f)
        base = None
        for conf in CONFIGS:
            got, err = run_child(conf, corpus, scratch)
            ctx.event("child")
            if conf[3] == "DEBUG":
                ctx.event("logged", len(items))
            if got is None:
                if base is None:
                    raise core.HarnessError(err)
                ctx.check(False, "the library does not come up or go down under a configuration",
                          mechanism="config " + conf[0], config=conf[:3], stderr=err)
                continue
            if base is None:
                base = got
                for item, want, g in zip(items, wants, got):
                    ctx.event("accepted" if g[0] == "ok" else "refused")
                    if want:
                        ctx.event("reference accepts" if want == "ok" else "reference refuses")
                        ctx.check(g[0] == want, "a decision is not the reference's",
                                  mechanism="decision " + item["op"], item=json.dumps(item),
                                  got=g, expected=want)
                continue
            for item, want, b, g in zip(items, wants, base, got):
                ctx.event("transcripts compared")
                ctx.check(b == g, "a decision depends on the interpreter's configuration",
                          mechanism="%s under %s" % (item["op"], conf[0]), item=json.dumps(item),
                          plain=b, here=g, config=conf[:4])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


GROUPS = [Group("corpus", g_corpus, 8, 110)]
