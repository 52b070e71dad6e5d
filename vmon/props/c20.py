"""C20: keys and key sets can be shared between threads."""
import json

from vmon import gen, ref, sched
from vmon.core import Group
from vmon.props import c19
from vmon.props.c19 import make_public_copy
from jwkest import elliptic
from jwkest.ecc import NISTEllipticCurve
from jwkest.jwe import JWE
from jwkest.jwk import KEYS, keyrep
from jwkest.jws import JWS

RULE = ("A case is one schedule of 2 to 4 threads that work with the same keys, list of keys and "
        "key set: under a controlled scheduler that switches threads at traced source lines of "
        "the library (one operation interrupted at every place it passes, in turn, while another one is "
        "done; a few chosen preemption points; or at random with a given probability), "
        "or running freely with the shortest switch interval. The outcome of every operation "
        "is compared with its outcome alone, with fresh keys, and checked by the reference. "
        "Non-trivial: distinct interleavings (sequence of switch places).")
MINIMUM = {"schedule": 1800, "switch": 4000, "traced line": 60000, "concurrent op": 3000,
           "free op": 900, "concurrent ok": 900, "shared set op": 400, "same signer": 80,
           "first use together": 80, "preemption at line": 1500,
           "preemption at opcode": 250, "two keys at once": 1200, "set preempted": 120,
           "hash preempted": 600, "curve preempted": 300}
ASSUME = ["switches happen at line boundaries of the library's own Python code (inside "
          "the curve arithmetic only in operations of a curve, and seldom inside GCM)",
          "hashing a key without key id changes it, as documented, and is left out; with one, the "
          "hash is the same whatever else goes on",
          "each thread uses its own signing, verifying, encrypting or decrypting object"]


def no_hash(f):
    def g(rng, entries, junk):
        while True:
            r = f(rng, entries, junk)
            if r[0] != "hash" or r[4][1].meta.get("kid"):
                return r
    return g


CHOICE = [no_hash(f) for f in c19.CHOICE]
TYPED = [gen.R1024, gen.ECK["P-256"], gen.OCT]
POOL = gen.R1024 + gen.ECK["P-256"] * 3 + gen.OCT[:8] + gen.ECK["P-384"][:2]


class Keys(list):
    """the list of keys and the set of the same keys"""

    def __init__(self, keys):
        list.__init__(self, keys)
        self.set = KEYS()
        for k in keys:
            self.set.append(k)


def op_lookup(rng, entries, junk):
    kid = rng.choice(["k1", "k2", "k3", "zz"])
    kty = rng.choice(["RSA", "rsa", "EC", "oct", "XX"])
    k = rng.choice(["by_kid", "kty", "kids", "dump", "as_dict", "iter", "types", "len", "nested",
                    "two iterators", "iter"])

    def run(keys):
        s = keys.set
        at = dict((id(x), n) for n, x in enumerate(keys))
        if k == "by_kid":
            return [at[id(x)] for x in s.by_kid(kid)]
        if k == "kty":
            return [at[id(x)] for x in s[kty]]
        if k == "kids":
            return s.kids()
        if k == "dump":
            return json.loads(s.dump_jwks())
        if k == "as_dict":
            return sorted((t, [at[id(x)] for x in v]) for t, v in s.as_dict().items())
        if k == "iter":
            return [at[id(x)] for x in s]
        if k == "nested":
            return [(at[id(x)], at[id(y)]) for x in s for y in s]
        if k == "two iterators":
            return [(at[id(x)], at[id(y)]) for x, y in zip(s, s)]
        if k == "types":
            return sorted(s.key_types())
        return len(s)

    def judge(ctx, v, ents):
        r = range(len(ents))
        want = {"iter": list(r), "nested": [(a, b) for a in r for b in r], "len": len(ents),
                "two iterators": [(a, a) for a in r],
                "by_kid": [n for n in r if ents[n].meta.get("kid", "") == kid],
                "kids": [e.meta["kid"] for e in ents if e.meta.get("kid")],
                "types": sorted(set(e.key["kty"] for e in ents)),
                "kty": [n for n in r if ents[n].key["kty"].lower() == kty.lower()]}
        if k in want and v != want[k]:
            return "the set holds %r" % (want[k],), repr(v)
        return None, repr(v)
    return "set." + k, run, [], judge, (k, kid, kty)


def with_set(op):
    """the same operation, but with the key set itself as the collection of keys"""
    name, run, args, judge, info = op

    def run2(keys):
        return run(keys.set)
    return name + " (set)", run2, args, judge, info


def make_op(rng, entries):
    k = rng.random()
    if k < .18:
        return op_lookup(rng, entries, False)
    f = rng.choice(CHOICE)
    op = f(rng, entries, rng.random() < .25)
    if op[0] in ("sign", "sign_json", "encrypt", "decrypt", "verify_json") and \
            rng.random() < .3:
        return with_set(op)
    return op


def entries_for(rng, n):
    r = []
    for _ in range(n):
        meta = {"kid": rng.choice(["k1", "k2", "k3"])} if rng.random() < .5 else {}
        r.append(c19.Entry(rng, rng.choice(POOL), rng.random() < .85, meta))
    return r


def alone(ctx, op, entries):
    name, run, args, judge, info = op
    return ctx.call(name.split()[0] + " alone", run, Keys([e.fresh() for e in entries]))


def decide(ctx, op, got, want, entries, where):
    name, run, args, judge, info = op
    detail = dict(op="%s %s" % (name, info), where=where)
    if c19.norm(got) != c19.norm(want):
        ctx.check(False, "an operation has another outcome than alone",
                  mechanism="outcome " + name, concurrent=repr(got), alone=repr(want), **detail)
    elif got.ok:
        ctx.event("concurrent ok")
        w1, n1 = judge(ctx, got.value, entries)
        w2, n2 = judge(ctx, want.value, entries)
        ctx.check(w1 is None, "a result that the reference does not confirm",
                  mechanism="result " + name, why=w1, got=got.value, **detail)
        ctx.check(n1 == n2, "an operation gives another result than alone",
                  mechanism="value " + name, concurrent=n1, alone=n2, **detail)


def finish_keys(ctx, entries, where):
    for e in entries:
        c19.compare_key(ctx, e, "end", where)
        c19.compare_export(ctx, e, where)


def plan_for(rng, est):
    k = rng.randrange(4)
    if k == 0:
        return ("points", set(rng.randrange(1, max(2, est)) for _ in range(rng.choice(
            [1, 2, 3]))))
    if k == 1:
        return ("points", set(rng.randrange(1, max(2, est)) for _ in range(rng.choice(
            [5, 10, 20]))))
    return ("prob", rng.choice([.02, .1, .3, .5, 1]))


def controlled(ctx, rng, ops, entries, warm, what):
    """ops: one list per thread"""
    want = [[alone(ctx, op, entries) for op in l] for l in ops]
    keys = Keys([e.lib for e in entries])
    if warm:
        for k in keys:
            ctx.call("warm", k.serialize)
    est = rng.choice([40, 120, 120, 500]) * sum(len(l) for l in ops)
    s = sched.Sched(rng, plan_for(rng, est),
                    skip=("elliptic.py",) if rng.random() < .1 else ("elliptic.py", "aes_gcm.py"))
    jobs = [[(op[0], lambda op=op: op[1](keys)) for op in l] for l in ops]
    ok = s.run(jobs)
    ctx.event("schedule")
    ctx.event("switch", s.switches)
    ctx.event("traced line", s.steps)
    where = "%s plan=%s switches=%d at %s" % (what, s.plan[0], s.switches, s.sites)
    ctx.case(what, s.trail.hexdigest(), [[(op[0], op[4]) for op in l] for l in ops])
    if not ctx.check(ok, "threads that share keys came to a standstill", mechanism="deadlock",
                     where=where):
        return
    for n, l in enumerate(ops):
        ctx.check(len(s.results[n]) == len(l), "operations are missing", mechanism="missing",
                  where=where)
        for op, got, w in zip(l, s.results[n], want[n]):
            ctx.event("concurrent op")
            if op[0].startswith("set.") or op[0].endswith("(set)"):
                ctx.event("shared set op")
            decide(ctx, op, got, w, entries, where)
    finish_keys(ctx, entries, where)


def g_mixed(ctx, i):
    rng = ctx.rng
    entries = entries_for(rng, rng.randrange(2, 5))
    n = rng.choice([2, 2, 3, 4])
    ops = [[make_op(rng, entries) for _ in range(rng.choice([1, 2, 3]))] for _ in range(n)]
    controlled(ctx, rng, ops, entries, rng.random() < .3, "mixed")


def g_same(ctx, i):
    """every thread does the same kind of thing with the same key: nothing but the payloads
    tells the operations apart"""
    rng = ctx.rng
    e = c19.Entry(rng, rng.choice(POOL), True, {})
    f = CHOICE_BY_NAME[i % len(CHOICE_BY_NAME)]
    n = rng.choice([2, 3])
    ops = []
    for _ in range(n):
        ops.append([no_hash(f)(rng, [e], rng.random() < .1) for _ in range(rng.choice([1, 2]))])
    ctx.event("first use together")
    ctx.event("same signer")
    controlled(ctx, rng, ops, [e], False, "same")


CHOICE_BY_NAME = [c19.op_sign, c19.op_verify, c19.op_encrypt, c19.op_decrypt, c19.op_sign_json,
                  c19.op_verify_json, c19.op_key]


def g_preempt(ctx, i):
    """all single preemptions: one operation is interrupted at every place of the library that
    it passes, in turn, and another one of the same kind is done meanwhile"""
    rng = ctx.rng
    f = no_hash(CHOICE_BY_NAME[i % len(CHOICE_BY_NAME)])
    n = rng.choice([1, 1, 2])
    pool = TYPED[i // len(CHOICE_BY_NAME) % 3]
    entries = [c19.Entry(rng, rng.choice(pool), True, {}) for _ in range(n)]
    a = f(rng, entries, False)
    for _ in range(12):
        b = f(rng, entries, rng.random() < .15)
        if b[4] == a[4] or isinstance(a[4], tuple) and a[4][0] == b[4][0]:
            break
    if rng.random() < .15:
        b = make_op(rng, entries)
    if (a[0] + b[0]).count("crypt") and "GCM" in repr((a[4], b[4])) and rng.random() < .8:
        a, b = op_lookup(rng, entries, False), c19.op_sign(rng, entries, False)
    opcodes = rng.random() < .25
    want = [alone(ctx, a, entries), alone(ctx, b, entries)]
    at = sched.places(lambda: a[1](Keys([e.fresh() for e in entries])), opcodes)
    most = 80 if ctx.tier == "quick" else 400
    if "GCM" in repr((a[4], b[4])):
        most //= 6
    if len(at) > most:
        at = rng.sample(at, most)
    again = rng.random() < .3       # keys that have been used before
    for p in at:
        libs = [e.lib if again else e.fresh() for e in entries]
        keys = Keys(libs)
        s = sched.Sched(rng, ("site", p), opcodes=opcodes)
        ok = s.run([[(a[0], lambda: a[1](keys))], [(b[0], lambda: b[1](keys))]])
        ctx.event("schedule")
        ctx.event("preemption at opcode" if opcodes else "preemption at line", s.switches)
        ctx.event("switch", s.switches)
        ctx.event("traced line", s.steps)
        ctx.case("preempt", p, a[0], a[4], b[0], b[4])
        if not ctx.check(ok, "threads that share keys came to a standstill",
                         mechanism="deadlock", where=p):
            return
        for n, (op, w) in enumerate(zip((a, b), want)):
            ctx.event("concurrent op")
            if ctx.check(len(s.results[n]) == 1, "an operation is missing", mechanism="missing",
                         where=p):
                decide(ctx, op, s.results[n][0], w, entries, "preempted at %s" % (p,))
        if ctx.violations:
            return
    finish_keys(ctx, entries, "preempt")


def one_key_op(rng, kind, alg, enc, n, e):
    """an operation that names its algorithm and its one key"""
    msg = gen.claims(rng)
    octs = json.dumps(msg).encode()
    name = "%s %s" % (kind, alg)
    if kind == "sign":
        def judge(ctx, v, ents):
            h, p = gen.parse(v)
            good = h["alg"] == alg and ref.verify(alg, v.rpartition(".")[0].encode(), p[2], e.key)
            return None if good and gen.same(json.loads(p[1].decode()), msg) else "not mine", 1
        return name, lambda keys: JWS(msg, alg=alg).sign_compact([keys[n]]), [], judge, (alg, e)
    if kind == "verify":
        tok = ref.jws({"alg": alg}, octs, e.key, rng)
        if rng.random() < .2:
            p = tok.split(".")
            p[2] = ref.b64e(gen.mut_octets(rng, ref.b64d(p[2]))[1])
            tok = ".".join(p)
        return name, lambda keys: JWS().verify_compact(tok, [keys[n]]), [], \
            lambda ctx, v, ents: (None if gen.same(v, msg) else "other payload", 1), (alg, e)
    if kind == "encrypt":
        def judge(ctx, v, ents):
            try:
                return (None if ref.jwe_open(v, e.key) == octs else "other text"), 1
            except (ref.Bad, ValueError) as err:
                return "not mine: %r" % err, 1
        return name, lambda keys: JWE(octs, alg=alg, enc=enc).encrypt([keys[n]]), [], judge, \
            (alg, enc, e)
    tok = ref.jwe({"alg": alg, "enc": enc}, octs, e.key, rng)
    return name, lambda keys: JWE().decrypt(tok, [keys[n]]), [], \
        lambda ctx, v, ents: (None if v == octs else "other text", 1), (alg, enc, e)


SIG = [(k, a) for a in ref.SIG_ALGS for k in ("sign", "verify")]
ENC = [(k, a) for a in ref.ENC_ALGS for k in ("encrypt", "decrypt")]
JOBS = SIG + ENC
KTY = {"RS": "RSA", "PS": "RSA", "HS": "oct", "ES": "EC", "A1": "oct", "A2": "oct", "EC": "EC"}


def two_keys(rng, alg):
    kty = KTY[alg[:2]] if not alg.startswith("ECDH") else "EC"
    if kty == "EC":
        pool = gen.ECK[ref.ES_CURVE.get(alg, "P-256")]
    elif kty == "RSA":
        pool = [k for k in gen.R1024 + gen.R2048 if k["n"].bit_length() > 1000]
        if alg.endswith("512") or alg == "RSA-OAEP-256":
            pool = [k for k in pool if k["n"].bit_length() > 1100]
    else:
        pool = gen.OCT
    return [c19.Entry(rng, k, True, {}) for k in rng.sample(pool, 2)]


def g_pairs(ctx, i):
    """two operations with the same algorithm and different keys, in all single preemptions;
    both must come out as if the other one were not there"""
    rng = ctx.rng
    kind, alg = JOBS[i % len(JOBS)]
    try:
        entries = two_keys(rng, alg)
    except ValueError:
        return
    encs = ref.ENCS[:3] if ctx.tier == "quick" or rng.random() < .8 else ref.ENCS[3:]
    enc = rng.choice(encs)
    other = kind if rng.random() < .85 else \
        {"sign": "verify", "verify": "sign", "encrypt": "decrypt", "decrypt": "encrypt"}[kind]
    if rng.random() < .5:
        enc2 = enc
    else:
        enc2 = rng.choice(encs)
    a = one_key_op(rng, kind, alg, enc, 0, entries[0])
    b = one_key_op(rng, other, alg, enc2, 1, entries[1])
    opcodes = rng.random() < .15
    used = rng.random() < .7
    libs = [e.lib if used else e.fresh() for e in entries]
    keys = Keys(libs)
    want = [alone(ctx, op, entries) for op in (a, b)]
    for op in ((a, b) if used else ()):
        ctx.call("warm", op[1], keys)
    at = sched.places(lambda: a[1](Keys([e.fresh() for e in entries])), opcodes)
    most = (70 if ctx.tier == "quick" else 300) // (8 if "GCM" in enc + enc2 else 1)
    if alg in ("RS512", "PS512", "RSA-OAEP-256") or alg[:2] in ("ES", "EC"):
        most //= 2
    # three cases in a row share the places between them, so that none is left out
    third = at[i // len(JOBS) % 3::3]
    if len(third) > most:
        third = sorted(rng.sample(third, most), key=third.index)
    for p in third:
        if not used:
            keys = Keys([e.fresh() for e in entries])
        s = sched.Sched(rng, ("site", p), opcodes=opcodes)
        ok = s.run([[(a[0], lambda: a[1](keys))], [(b[0], lambda: b[1](keys))]])
        ctx.event("schedule")
        ctx.event("two keys at once", s.switches)
        ctx.event("switch", s.switches)
        ctx.event("traced line", s.steps)
        ctx.case("pairs", p, a[0], b[0], enc)
        if not ctx.check(ok, "threads came to a standstill", mechanism="deadlock", where=p):
            return
        for n, (op, w) in enumerate(zip((a, b), want)):
            ctx.event("concurrent op")
            if ctx.check(len(s.results[n]) == 1, "an operation is missing", mechanism="missing",
                         where=p):
                decide(ctx, op, s.results[n][0], w, entries, "preempted at %s" % (p,))
        if ctx.violations:
            return


def g_sets(ctx, i):
    """one lookup in a key set, interrupted at every place of the library by another one"""
    rng = ctx.rng
    entries = entries_for(rng, rng.randrange(1, 6))
    a, b = op_lookup(rng, entries, False), op_lookup(rng, entries, False)
    while a[0] in ("set.len", "set.types") or (i % 2 and a[0] != "set.iter"):
        a = op_lookup(rng, entries, False)
    while i % 4 == 1 and b[0] not in ("set.iter", "set.nested", "set.two iterators"):
        b = op_lookup(rng, entries, False)
    keys = Keys([e.lib for e in entries])
    want = [alone(ctx, op, entries) for op in (a, b)]
    at = sched.places(lambda: a[1](keys), False)
    for p in at[:60]:
        s = sched.Sched(rng, ("site", p))
        ok = s.run([[(a[0], lambda: a[1](keys))], [(b[0], lambda: b[1](keys))]])
        ctx.event("schedule")
        ctx.event("shared set op", 2)
        ctx.event("set preempted", s.switches)
        ctx.event("traced line", s.steps)
        ctx.case("sets", p, a[0], a[4], b[0], b[4])
        if not ctx.check(ok, "threads came to a standstill", mechanism="deadlock", where=p):
            return
        for n, (op, w) in enumerate(zip((a, b), want)):
            ctx.event("concurrent op")
            if ctx.check(len(s.results[n]) == 1, "an operation is missing", mechanism="missing",
                         where=p):
                decide(ctx, op, s.results[n][0], w, entries, "preempted at %s" % (p,))
        if ctx.violations:
            return


def g_free(ctx, i):
    rng = ctx.rng
    entries = entries_for(rng, rng.randrange(1, 4))
    n = rng.choice([2, 3, 4])
    ops = [[make_op(rng, entries) for _ in range(12)] for _ in range(n)]
    want = [[alone(ctx, op, entries) for op in l] for l in ops]
    keys = Keys([e.lib for e in entries])
    res = sched.free([[(op[0], lambda op=op: op[1](keys)) for op in l] for l in ops])
    ctx.event("schedule")
    ctx.case("free", i, [[(op[0], op[4]) for op in l] for l in ops])
    if not ctx.check(res is not None, "threads that share keys do not come to an end",
                     mechanism="free hang"):
        return
    for t, l in enumerate(ops):
        for op, got, w in zip(l, res[t], want[t]):
            ctx.event("free op")
            decide(ctx, op, got, w, entries, "free")
    finish_keys(ctx, entries, "free")


HASH_OPS = {
    "hash": hash,
    "in a set": lambda k: len({k, k}),
    "in a dict": lambda k: {k: 5}[k],
    "get_hash": lambda k: k.get_hash(),
    "get_hash 256": lambda k: k.get_hash("SHA-256"),
    "get_hash 384": lambda k: k.get_hash("SHA-384"),
    "get_hash 512": lambda k: k.get_hash("SHA-512"),
    "thumbprint 256": lambda k: k.thumbprint("SHA-256"),
    "thumbprint 512": lambda k: k.thumbprint("SHA-512"),
    "thumbprint kid": lambda k: k.thumbprint("SHA-256", ["kid", "kty"]),
    "eq": lambda k: (k == k, k == 5),
    "public": lambda k: k.serialize(),
    "private": lambda k: k.serialize(True),
    "dict": lambda k: k.to_dict(),
    "str": lambda k: "kty" in str(k),
    "copy": lambda k: make_public_copy(k).kid,
}


def g_hashes(ctx, i):
    """a key with key id and what can be asked of it, one thing interrupted by another one
    everywhere"""
    rng = ctx.rng
    e = c19.Entry(rng, rng.choice(POOL), rng.random() < .7, {"kid": rng.choice(["k1", "k2"])})
    names = sorted(HASH_OPS)
    a, b = names[i % len(names)], rng.choice(names)
    if i % 2:
        b = rng.choice([n for n in names if n.startswith("get_hash ")])
    want = [ctx.call("alone " + n, HASH_OPS[n], e.fresh()) for n in (a, b)]
    opcodes = rng.random() < .3
    at = sched.places(lambda: HASH_OPS[a](e.fresh()), opcodes)
    most = 50 if ctx.tier == "quick" else 300
    if len(at) > most:
        at = rng.sample(at, most)
    x = e.fresh()
    for p in at:
        if rng.random() < .3:
            x = e.fresh()
        s = sched.Sched(rng, ("site", p), opcodes=opcodes)
        ok = s.run([[(n, lambda n=n: HASH_OPS[n](x))] for n in (a, b)])
        ctx.event("schedule")
        ctx.event("hash preempted", s.switches)
        ctx.event("traced line", s.steps)
        ctx.case("hashes", p, a, b, e)
        if not ctx.check(ok, "threads came to a standstill", mechanism="deadlock", where=p):
            return
        for n, w, got in zip((a, b), want, (s.results[0], s.results[1])):
            ctx.event("concurrent op")
            ctx.check(len(got) == 1 and c19.norm(got[0]) == c19.norm(w) and w.ok and
                      got[0].value == w.value, "what a key says of itself depends on another thread",
                      mechanism="hashes " + n.split()[0], op=n, other=(a, b), got=got, alone=w,
                      where=p)
        if ctx.violations:
            return


def curve_op(rng, kind, bits):
    """an operation of a curve, most of them with small multipliers, so that they are short"""
    c = CURVES[bits]
    k = rng.choice([rng.randrange(2, 40), rng.randrange(2, 5000), rng.randrange(1, c.N)]) \
        if rng.random() < .9 else rng.choice([1, 2, 3, c.N - 1])
    key = rng.choice(gen.ECK["P-%d" % bits])
    pub = key["x"], key["y"]
    h = rng.getrandbits(bits)
    if kind == "sign":
        return lambda: c.sign(h, key["d"], k)
    if kind == "verify":
        sig = c.sign(h, key["d"], k)
        bad = rng.random() < .2
        return lambda: c.verify(h ^ bad, sig, pub)
    if kind == "dh":
        return lambda: c.dh_z(k, pub)
    if kind == "public":
        return lambda: c.public_key_for(k)
    if kind == "uncompress":
        return lambda: c.uncompress((pub[0], pub[1] & 1))
    if kind == "add":
        return lambda: elliptic.add(c.a, c.b, c.p, pub, c.G)
    if kind == "neg":
        return lambda: (elliptic.neg(pub, c.p), elliptic.mul(c.a, c.b, c.p, pub, k % 64))
    n = rng.choice([c.p, c.N])
    a = rng.randrange(1, n)
    return lambda: elliptic.inv(a, n)


CURVES = dict((b, NISTEllipticCurve(b)) for b in (256, 384, 521))
CURVE_OPS = ["sign", "verify", "dh", "public", "uncompress", "add", "neg", "inv", "inv"]


def g_curve(ctx, i):
    """curve arithmetic interrupted everywhere by other curve arithmetic"""
    rng = ctx.rng
    kind = CURVE_OPS[i % len(CURVE_OPS)]
    other = kind if rng.random() < .6 else rng.choice(CURVE_OPS)
    bits = rng.choice([256, 256, 384, 521])
    bits2 = bits if rng.random() < .7 else rng.choice([256, 384, 521])
    a, b = curve_op(rng, kind, bits), curve_op(rng, other, bits2)
    want = [ctx.call("alone", f) for f in (a, b)]
    at = sched.visits(a)
    names = sorted(at)
    most = (22 if kind == "verify" else 40) if ctx.tier == "quick" else 200
    if len(names) > most:
        names = rng.sample(names, most)
    for p in names:
        n = rng.choice([1, at[p], rng.randrange(1, at[p] + 1)])
        s = sched.Sched(rng, ("visit", p, n), skip=())
        ok = s.run([[(kind, a)], [(other, b)]])
        ctx.event("schedule")
        ctx.event("curve preempted", s.switches)
        ctx.event("switch", s.switches)
        ctx.event("traced line", s.steps)
        ctx.case("curve", p, n, kind, other, i)
        if not ctx.check(ok, "threads came to a standstill", mechanism="deadlock", where=p):
            return
        for k, w in enumerate(want):
            ctx.event("concurrent op")
            got = s.results[k]
            ctx.check(len(got) == 1 and got[0].ok == w.ok and
                      (not w.ok or got[0].value == w.value),
                      "curve arithmetic gives something else than alone",
                      mechanism="curve " + (kind, other)[k], ops=(kind, other), got=got,
                      alone=w, where=(p, n))
        if ctx.violations:
            return


def g_grow(ctx, i):
    """a key set that grows while others look things up"""
    rng = ctx.rng
    s = KEYS()
    n = rng.choice([2, 3])
    mine = []
    for t in range(n):
        l = []
        for j in range(rng.randrange(2, 5)):
            key = rng.choice(POOL)
            l.append((key, "t%d-%d" % (t, j)))
        mine.append(l)
    seen = []

    def adder(t):
        def step(j):
            key, kid = mine[t][j]
            how = rng2.randrange(3)
            d = ref.jwk(key, False, kid=kid)
            if how == 0:
                s.append(keyrep(d))
            elif how == 1:
                s.add(d)
            else:
                s.load_dict({"keys": [d]})
            got = s.by_kid(kid)
            kids = s.kids()
            dump = [k["kid"] for k in json.loads(s.dump_jwks())["keys"]]
            return ([k.kid for k in got], [k for k in kids if k.startswith("t%d-" % t)],
                    [k for k in dump if k.startswith("t%d-" % t)], len(s) >= j + 1,
                    sorted(x.kid for x in s[key["kty"]] if x.kid.startswith("t%d-" % t)))
        return [("grow", lambda j=j: step(j)) for j in range(len(mine[t]))]
    rng2 = __import__("random").Random(rng.random())
    sc = sched.Sched(rng, plan_for(rng, 300))
    ok = sc.run([adder(t) for t in range(n)])
    ctx.event("schedule")
    ctx.event("switch", sc.switches)
    ctx.event("traced line", sc.steps)
    ctx.case("grow", sc.trail.hexdigest(), mine)
    if not ctx.check(ok, "threads that share a key set came to a standstill",
                     mechanism="deadlock"):
        return
    for t in range(n):
        for j, out in enumerate(sc.results[t]):
            ctx.event("concurrent op")
            ctx.event("shared set op")
            if not ctx.check(out.ok, "a shared key set failed", mechanism="grow failed",
                             out=repr(out)):
                continue
            v = out.value
            upto = [k for _, k in mine[t][:j + 1]]
            kty = mine[t][j][0]["kty"]
            ctx.check(v[0] == [upto[-1]] and v[1] == upto and v[2] == upto and v[3] and
                      v[4] == sorted(k for x, k in mine[t][:j + 1] if x["kty"] == kty),
                      "what a thread added is not what it finds", mechanism="grow", got=v,
                      expected=upto)
    kids = s.kids()
    ctx.check(sorted(kids) == sorted(k for l in mine for _, k in l),
              "a shared key set lost or invented keys", mechanism="grow final", got=kids)


GROUPS = [Group("mixed", g_mixed, 70, 1800), Group("same", g_same, 84, 1000),
          Group("preempt", g_preempt, 84, 800), Group("free", g_free, 30, 400),
          Group("grow", g_grow, 40, 800), Group("pairs", g_pairs, 126, 840),
          Group("sets", g_sets, 90, 1500), Group("hashes", g_hashes, 96, 1600),
          Group("curve", g_curve, 36, 900)]
