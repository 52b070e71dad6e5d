"""C09: keys, IVs, nonces and ephemeral keys are fresh and unpredictable."""
import json
import os
import pickle
import random
import time

from vmon import gen, ref
from vmon.core import Group
from jwkest.ecc import NISTEllipticCurve, P256, P384, P521
from jwkest.jwe import JWE, JWE_RSA, JWE_SYM
from jwkest.jwk import ECKey, KEYS, jwk_wrap
from jwkest.jws import JWS

RULE = ("A case is one history of encryptions, signatures and key generations over shared and "
        "fresh objects, with the process's general-purpose generator reseeded or rewound and "
        "the clock stopped between them, and in forked processes; the content key, IV, "
        "ephemeral key and ECDSA nonce of every token are recovered with the private keys by "
        "the reference and entered in a ledger. Non-trivial: distinct histories. The oracle is "
        "that no secret ever appears twice, none is contained in another one of its token, all "
        "are in range, and in samples of many no bit is biased and no two are close.")
MINIMUM = {"content keys": 600, "ivs": 600, "nonces": 400, "ephemeral keys": 150,
           "generated keys": 100, "rewound": 300, "forks": 30, "sampled values": 3000,
           "object used again": 150, "forked secrets": 250}
ASSUME = ["randomness of the operating system is good: only repetition, coupling to the "
          "general-purpose generator or the clock, and gross bias would be seen",
          "content keys and IVs that the caller hands in are the caller's"]
CURVES = {"P-256": P256, "P-384": P384, "P-521": P521}
SEED_TYPES = ["seed", "setstate", "none", "seed", "setstate"]


class Ledger(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.seen = {}
        self.log = []

    def enter(self, kind, value, where):
        """one secret: an integer or octets"""
        self.ctx.event(kind)
        if isinstance(value, int):
            value = ref.i2o(value)
        v = bytes(value)
        prev = self.seen.get(v)
        if prev is not None:
            self.ctx.check(False, "a secret was used twice", mechanism="repeated " + kind,
                           kind=kind, value=v.hex(), first=prev, second=where)
        else:
            self.ctx.check(True, "")
            self.seen[v] = (kind, where)
        self.log.append((kind, v))


class Rewind(object):
    """puts the general-purpose generator and the clock back"""

    def __init__(self, rng):
        self.seed = rng.randrange(1000)
        self.state = random.Random(rng.randrange(1000)).getstate()
        self.now = 1700000000 + rng.randrange(10**6)
        self.saved = None

    def put(self, ctx, rng):
        k = rng.choice(SEED_TYPES)
        if k == "seed":
            random.seed(self.seed)
        elif k == "setstate":
            random.setstate(self.state)
        if k != "none":
            ctx.event("rewound")
        return k

    def __enter__(self):
        self.saved = (time.time, time.time_ns, time.monotonic, time.perf_counter)
        t = float(self.now)
        time.time = lambda: t
        time.time_ns = lambda: int(t) * 10**9
        time.monotonic = time.perf_counter = lambda: t
        self.rs = random.getstate()
        return self

    def __exit__(self, *exc):
        time.time, time.time_ns, time.monotonic, time.perf_counter = self.saved
        random.setstate(self.rs)
        return False


def nonce(crv, dg, sig, d):
    c = ref.CURVES[crv]
    if len(sig) != 2 * c.size:
        raise ref.Bad("width")
    r, s = ref.o2i(sig[:c.size]), ref.o2i(sig[c.size:])
    k = pow(s, -1, c.n) * (c.digest_int(dg) + r * d) % c.n
    return k, c.n - k, r


def enter_nonce(ctx, led, crv, dg, sig, d, where):
    k, neg, r = nonce(crv, dg, sig, d)
    c = ref.CURVES[crv]
    ok = c.mul(k)
    ctx.need(ok is not None and ok[0] % c.n == r, "the signature is not one of this key",
             mechanism="not a signature", where=where)
    ctx.check(min(k, neg).bit_length() > c.n.bit_length() - 64, "the ECDSA nonce is small",
              mechanism="small nonce", k=min(k, neg), where=where)
    ctx.check(d not in (k, neg), "the ECDSA nonce is the private key",
              mechanism="nonce is key", where=where)
    led.enter("nonces", min(k, neg), where)


def enter_token(ctx, led, tok, key, kek, where):
    info = {}
    try:
        pt = ref.jwe_open(tok, key, kek=kek, info=info)
    except (ref.Bad, KeyError, ValueError, TypeError) as err:
        ctx.violation("the reference cannot open the token", mechanism="not a token",
                      why=repr(err), token=tok, where=where)
        return
    led.enter("content keys", info["cek"], where)
    led.enter("ivs", info["iv"], where)
    ctx.check(info["iv"][:8] not in info["cek"] and info["cek"][:8] not in tok.encode(),
              "the IV is part of the content key", mechanism="iv of cek", where=where)
    if "epk" in info["header"]:
        x = ref.b64d(info["header"]["epk"]["x"])
        led.enter("ephemeral keys", ref.o2i(x), where)
        ctx.check(ref.o2i(x) != key["x"], "the ephemeral key is the recipient's",
                  mechanism="ephemeral is static", where=where)
    if info["ek"]:
        led.enter("wrapped keys", info["ek"], where)
    return pt


def g_history(ctx, i):
    rng = ctx.rng
    led = Ledger(ctx)
    rw = Rewind(rng)
    ec = dict((c, rng.choice(gen.ECK[c])) for c in gen.CRVS)
    rsa, octk = rng.choice(gen.R1024), rng.choice(gen.OCT)
    lec = dict((c, gen.lib_key(rng, k, True)) for c, k in ec.items())
    lrsa, loct = gen.lib_key(rng, rsa, True), gen.lib_key(rng, octk, True)
    ring = KEYS()
    for lk in [lrsa, loct] + list(lec.values()):
        ring.append(lk)
    msg = rng.choice([b"the same message", gen.octets(rng)])
    objs = {}
    trail = []
    with rw:
        for n in range(rng.randrange(8, 20)):
            k = rng.randrange(13)
            how = rw.put(ctx, rng)
            if k < 5:
                alg = rng.choice(ref.ENC_ALGS)
                enc = rng.choice(ref.ENCS[:3] * 4 + ref.ENCS[3:])
                crv = rng.choice(gen.CRVS[:2] + gen.CRVS[:1])
                if alg.startswith("RSA"):
                    key, lk = rsa, lrsa
                elif alg.startswith("A"):
                    key, lk = octk, loct
                else:
                    key, lk = ec[crv], lec[crv]
                if ref.rsa_k(rsa["n"]) < 131 and alg == "RSA-OAEP-256" and \
                        enc == "A256CBC-HS512":
                    enc = "A128CBC-HS256"
                again = rng.random() < .6 and (alg, enc) in objs
                other = not again and objs and rng.random() < .3
                if again:
                    obj = objs[alg, enc]
                elif other:
                    obj = rng.choice(list(objs.values()))
                    obj["alg"], obj["enc"] = alg, enc
                else:
                    obj = JWE(msg, alg=alg, enc=enc)
                objs[alg, enc] = obj
                objs = dict((a, o) for a, o in objs.items() if o is not obj or
                            a == (alg, enc))
                if again or other:
                    ctx.event("object used again")
                where = (n, alg, enc, "again" if again else "other alg" if other else "new",
                         how)
                trail.append(where)
                tok = ctx.must("encrypt", obj.encrypt, [lk])
                enter_token(ctx, led, tok, key, None, where)
                if rng.random() < .4:
                    # the object is then used to read a token
                    reader = rng.choice(list(objs.values()))
                    trail.append((n, "read"))
                    out = ctx.call("decrypt", reader.decrypt, tok, [lk])
                    ctx.check(out.ok and out.value == msg, "the token does not decrypt",
                              mechanism="decrypt", out=out, where=where)
            elif k < 6:
                alg = rng.choice(["RSA1_5", "RSA-OAEP", "A128KW", "A256KW"])
                enc = rng.choice(ref.ENCS[:2])
                trail.append((n, "class", alg, enc, how))
                if alg.startswith("RSA"):
                    obj = JWE_RSA(msg, alg=alg, enc=enc)
                    for _ in range(2):
                        rw.put(ctx, rng)
                        tok = ctx.must("encrypt class", obj.encrypt, lrsa.key)
                        enter_token(ctx, led, tok, rsa, None, trail[-1])
                else:
                    kek = bytes(range(int(alg[1:4]) // 8))
                    obj = JWE_SYM(msg, alg=alg, enc=enc)
                    for _ in range(2):
                        rw.put(ctx, rng)
                        tok = ctx.must("encrypt class", obj.encrypt, kek)
                        enter_token(ctx, led, tok, octk, kek, trail[-1])
                ctx.event("object used again")
            elif k < 8:
                alg = rng.choice(["ES256", "ES256", "ES384", "ES512"])
                crv = ref.ES_CURVE[alg]
                obj = JWS(msg, alg=alg)
                for _ in range(2):
                    rw.put(ctx, rng)
                    trail.append((n, alg, how))
                    tok = ctx.must("sign", obj.sign_compact, [lec[crv]])
                    inp, _, s = tok.rpartition(".")
                    enter_nonce(ctx, led, crv, ref.HASH[alg[2:]](inp.encode()).digest(),
                                ref.b64d(s), ec[crv]["d"], trail[-1])
            elif k < 9:
                alg = rng.choice(["ES256", "ES384"])
                crv = ref.ES_CURVE[alg]
                trail.append((n, "json", alg, how))
                doc = json.loads(ctx.must("sign_json", JWS(msg, alg=alg).sign_json, [lec[crv]],
                                          [({"alg": alg}, None), ({"alg": alg}, {"a": 1})]))
                for s in doc["signatures"]:
                    inp = s["protected"] + "." + doc["payload"]
                    enter_nonce(ctx, led, crv, ref.HASH[alg[2:]](inp.encode()).digest(),
                                ref.b64d(s["signature"]), ec[crv]["d"], trail[-1])
            elif k == 12:
                # the caller holds the content key: the IV is a new one every time; or
                # the IV, and then the content key is
                alg = rng.choice(["RSA1_5", "RSA-OAEP", "A128KW", "A256KW"])
                enc = rng.choice(ref.ENCS[:3] * 2 + ref.ENCS[3:])
                cek = rng.randbytes(ref.CEK_LEN[enc])
                iv = rng.randbytes(ref.IV_LEN[enc])
                hold = rng.choice(["cek", "cek", "iv"])
                trail.append((n, "held " + hold, alg, enc, how))
                ctx.event("caller holds")
                obj = None
                for _ in range(3):
                    rw.put(ctx, rng)
                    if obj is None or rng.random() < .5:
                        obj = JWE(msg, alg=alg, enc=enc)
                    tok = ctx.must("encrypt held", obj.encrypt,
                                   [lrsa if alg[0] == "R" else loct],
                                   **{hold: cek if hold == "cek" else iv})
                    h, o = gen.parse(tok)
                    if hold == "cek":
                        led.enter("ivs", o[2], trail[-1])
                        ctx.check(o[2][:8] not in cek and o[2] != bytes(len(o[2])),
                                  "the IV is part of the content key", mechanism="iv of cek",
                                  where=trail[-1])
                    else:
                        info = {}
                        ref.jwe_open(tok, rsa if alg[0] == "R" else octk, info=info)
                        led.enter("content keys", info["cek"], trail[-1])
            elif k < 10:
                crv = rng.choice(gen.CRVS[:2])
                c = rng.choice([CURVES[crv], NISTEllipticCurve.by_name(crv)])
                h = rng.choice([0, 1, 12345, ref.CURVES[crv].n - 1])
                trail.append((n, "curve sign", crv, how))
                for _ in range(2):
                    rw.put(ctx, rng)
                    sig = ctx.must("curve.sign", c.sign, h, ec[crv]["d"])
                    enter_nonce(ctx, led, crv, ref.i2o(h, ref.CURVES[crv].size), sig,
                                ec[crv]["d"], trail[-1])
            else:
                crv = rng.choice(gen.CRVS[:2])
                trail.append((n, "generate", crv, how))
                for d in generate(ctx, rng, crv, rw):
                    led.enter("generated keys", d, trail[-1])
    ctx.case(trail, msg)


def generate(ctx, rng, crv, rw):
    """private scalars of new keys, made in the ways there are"""
    c = rng.choice([CURVES[crv], NISTEllipticCurve.by_name(crv)])
    rc = ref.CURVES[crv]
    for _ in range(2):
        rw.put(ctx, rng)
        k = rng.randrange(5)
        if k == 0:
            d, q = ctx.must("key_pair", c.key_pair)
        else:
            if k == 1:
                lk = ctx.must("load_key", ECKey().load_key, c)
            elif k == 2:
                lk = ctx.must("ECKey(key)", ECKey, key=c)
            elif k == 3:
                lk = ctx.must("jwk_wrap", jwk_wrap, c)
            else:
                ks = KEYS()
                ctx.must("wrap_add", ks.wrap_add, c)
                lk = ks.keys()[0]
            d, q = lk.get_key(private=True), lk.get_key()
        ctx.need(isinstance(d, int) and 0 < d < rc.n and rc.mul(d) == tuple(q),
                 "a generated key is not a key", mechanism="bad key", d=d, q=q)
        ctx.check(min(d, rc.n - d).bit_length() > rc.n.bit_length() - 64,
                  "a generated private key is small", mechanism="small key", d=d)
        yield d


# -- forks -------------------------------------------------------------------------

GCM = ("A128GCM", "A192GCM", "A256GCM")


def secrets_of(rng, lec, ec, lrsa, rsa, loct, octk, gcm=True):
    """some secrets, recovered; run in a child"""
    out = []
    for enc in (GCM if gcm else ()):
        tok = JWE(b"the same", alg="A128KW", enc=enc).encrypt([loct])
        info = {}
        ref.jwe_open(tok, octk, info=info)
        out += [("cek " + enc, info["cek"]), ("iv " + enc, info["iv"])]
    for n in range(3):
        for alg, lk, key in [("RSA-OAEP", lrsa, rsa), ("A128KW", loct, octk),
                             ("ECDH-ES+A128KW", lec, ec), ("ECDH-ES", lec, ec)]:
            tok = JWE(b"the same", alg=alg, enc="A128CBC-HS256").encrypt([lk])
            info = {}
            ref.jwe_open(tok, key, info=info)
            out.append(("cek " + alg, info["cek"]))
            out.append(("iv", info["iv"]))
            if "epk" in info["header"]:
                out.append(("epk", ref.b64d(info["header"]["epk"]["x"])))
        tok = JWS("the same", alg="ES256").sign_compact([lec])
        inp, _, s = tok.rpartition(".")
        k, neg, r = nonce("P-256", ref.HASH["256"](inp.encode()).digest(), ref.b64d(s),
                          ec["d"])
        out.append(("nonce", ref.i2o(min(k, neg), 32)))
        out.append(("key", ref.i2o(ECKey().load_key(P256).d, 32)))
    return out


def g_fork(ctx, i):
    rng = ctx.rng
    ec, rsa, octk = rng.choice(gen.ECK["P-256"]), rng.choice(gen.R1024), rng.choice(gen.OCT)
    lec, lrsa, loct = [gen.lib_key(rng, k, True) for k in (ec, rsa, octk)]
    if rng.random() < .7:       # the parent has been at work before
        secrets_of(rng, lec, ec, lrsa, rsa, loct, octk)
    ctx.case("fork", gen.ident(ec), gen.ident(rsa), gen.ident(octk))
    with Rewind(rng) as rw:
        kids = []
        for n in range(rng.randrange(2, 5)):
            r, w = os.pipe()
            random.seed(rw.seed)
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    blob = pickle.dumps(secrets_of(rng, lec, ec, lrsa, rsa, loct, octk))
                    with os.fdopen(w, "wb") as f:
                        f.write(blob)
                    code = 0
                except BaseException as err:
                    try:
                        with os.fdopen(w, "wb") as f:
                            f.write(pickle.dumps(repr(err)))
                    except BaseException:
                        pass
                finally:
                    os._exit(code)
            os.close(w)
            kids.append((pid, r))
        random.seed(rw.seed)
        runs = [secrets_of(rng, lec, ec, lrsa, rsa, loct, octk)]
        for pid, r in kids:
            with os.fdopen(r, "rb") as f:
                runs.append(pickle.loads(f.read()))
            os.waitpid(pid, 0)
            ctx.event("forks")
    seen = {}
    for n, run in enumerate(runs):
        ctx.need(isinstance(run, list), "an operation fails in a forked process",
                 mechanism="fork fails", error=run)
        for kind, v in run:
            ctx.event("forked secrets")
            prev = seen.setdefault(v, (n, kind))
            ctx.check(prev == (n, kind), "a secret repeats in a forked process",
                      mechanism="repeated in fork", kind=kind, first=prev,
                      second=(n, kind))
        ctx.check(len(set(v for _, v in run)) == len(run), "a secret repeats",
                  mechanism="repeated in run", run=n)


# -- samples ------------------------------------------------------------------------

def judge_sample(ctx, kind, values, bits):
    """bits: number of bits that should be uniform. Thresholds of 8 standard deviations"""
    n = len(values)
    ctx.event("sampled values", n)
    ctx.check(len(set(values)) == n, "a value repeats", mechanism="repeated " + kind,
              kind=kind, n=n)
    for b in range(bits):
        ones = sum(v >> b & 1 for v in values)
        if abs(2 * ones - n) > 8 * n ** .5:
            ctx.violation("a bit is biased", mechanism="biased " + kind, kind=kind, bit=b,
                          ones=ones, n=n)
            break
    ctx.check(True, "")
    s = sorted(values)
    gap = min(b - a for a, b in zip(s, s[1:]))
    ctx.check(gap.bit_length() > bits - 64 - 2 * n.bit_length() or bits < 100,
              "values lie close together", mechanism="close " + kind, kind=kind, gap=gap)
    diffs = [b - a for a, b in zip(values, values[1:])]
    ctx.check(len(set(diffs)) == len(diffs) and
              len(set(a ^ b for a, b in zip(values, values[1:]))) == len(diffs),
              "values follow each other regularly", mechanism="regular " + kind, kind=kind)
    together(ctx, kind, values, bits)
    # octets within the values
    if bits >= 96:
        same = sum(1 for v in values if len(set(ref.i2o(v, bits // 8 + 1))) < bits // 24)
        ctx.check(same == 0, "values have a pattern", mechanism="pattern " + kind, kind=kind)


def together(ctx, kind, values, bits):
    """no two bits, and no two octets, of a value go together. Of octets, ten values tell;
    more than half of them equal happens by chance less than once in 10**9 runs"""
    n = len(values)
    if n >= 140:
        col = [sum((v >> b & 1) << j for j, v in enumerate(values)) for b in range(bits)]
        for a in range(bits):
            for b in range(a):
                ones = (col[a] ^ col[b]).bit_count()
                if abs(2 * ones - n) > 8 * n ** .5:
                    ctx.violation("two bits of a secret are coupled", mechanism="coupled " + kind,
                                  kind=kind, bits=(b, a), differ=ones, n=n)
                    return
    octs = [ref.i2o(v % 2 ** (bits // 8 * 8), bits // 8) for v in values]
    for a in range(bits // 8):
        for b in range(a):
            for name, f in (("equal", lambda o: o[a] == o[b]),
                            ("opposite", lambda o: o[a] ^ o[b] == 255),
                            ("consecutive", lambda o: (o[b] + 1) % 256 == o[a])):
                if n >= 10 and sum(1 for o in octs if f(o)) > n / 2:
                    ctx.violation("two octets of a secret are coupled",
                                  mechanism="coupled " + kind, kind=kind, octets=(b, a), how=name,
                                  n=n)
                    return
    ctx.check(True, "")


def g_sample(ctx, i):
    rng = ctx.rng
    k = i % 8
    ctx.case("sample", i)
    N = 150
    if k < 3:
        crv = ["P-256", "P-256", "P-384"][k]
        key = rng.choice(gen.ECK[crv])
        c = CURVES[crv]
        vals = []
        h = rng.getrandbits(256)
        for _ in range(N):
            sig = ctx.must("curve.sign", c.sign, h, key["d"])
            rc = ref.CURVES[crv]
            r, s = ref.o2i(sig[:rc.size]), ref.o2i(sig[rc.size:])
            e = h >> max(0, h.bit_length() - rc.n.bit_length())
            vals.append(pow(s, -1, rc.n) * (e + r * key["d"]) % rc.n)
        judge_sample(ctx, "nonce", vals, rc.n.bit_length() - 1)
        return
    if k == 3:
        crv = "P-256"
        vals = [ctx.must("key_pair", CURVES[crv].key_pair)[0] for _ in range(N)]
        judge_sample(ctx, "key", vals, 255)
        return
    if k == 4:
        key = rng.choice(gen.ECK["P-521"])
        vals = []
        for _ in range(60):
            d, q = ctx.must("key_pair", P521.key_pair)
            vals.append(d)
        judge_sample(ctx, "key P-521", vals, 520)
        return
    key = [rng.choice(gen.R1024), rng.choice(gen.OCT), rng.choice(gen.ECK["P-256"])][k - 5]
    alg = ["RSA1_5", "A128KW", "ECDH-ES+A128KW"][k - 5]
    lk = gen.lib_key(rng, key, True)
    enc = rng.choice(ref.ENCS[:3])
    obj = JWE(b"x", alg=alg, enc=enc)
    ceks, ivs = [], []
    for _ in range(N):
        tok = ctx.must("encrypt", obj.encrypt, [lk])
        info = {}
        ref.jwe_open(tok, key, info=info)
        ceks.append(ref.o2i(info["cek"]))
        ivs.append(ref.o2i(info["iv"]))
    judge_sample(ctx, "content key", ceks, 8 * ref.CEK_LEN[enc])
    judge_sample(ctx, "iv", ivs, 128)
    together(ctx, "content key and iv", [c << 128 | v for c, v in zip(ceks, ivs)],
             8 * ref.CEK_LEN[enc] + 128)


def g_gcm(ctx, i):
    """the 96 bit IVs of GCM"""
    rng = ctx.rng
    ceks, ivs = [], []
    key = rng.choice(gen.OCT)
    lk = gen.lib_key(rng, key, True)
    enc = ref.ENCS[3 + i % 3]
    ctx.case("gcm", enc, i)
    led = Ledger(ctx)
    for n in range(70):
        if n < 10 or ctx.tier == "thorough":
            tok = ctx.must("encrypt", JWE(b"x", alg="A128KW", enc=enc).encrypt, [lk])
            info = {}
            ref.jwe_open(tok, key, info=info)
            ivs.append(ref.o2i(info["iv"]))
            ceks.append(info["cek"])
            led.enter("content keys", info["cek"], n)
            led.enter("ivs", info["iv"], n)
    if len(ivs) >= 70:
        judge_sample(ctx, "gcm iv", ivs, 96)
        judge_sample(ctx, "gcm key", [ref.o2i(c) for c in ceks], 8 * ref.CEK_LEN[enc])
    together(ctx, "gcm iv", ivs, 96)
    together(ctx, "gcm key and iv", [ref.o2i(c) << 96 | v for c, v in zip(ceks, ivs)],
             8 * ref.CEK_LEN[enc] + 96)


GROUPS = [Group("history", g_history, 120, 2400), Group("fork", g_fork, 24, 300),
          Group("sample", g_sample, 24, 160), Group("gcm", g_gcm, 3, 24)]
CHUNK = 3
