#!/usr/bin/env python3
"""Generate fixtures/keys.json once (committed): key material with rare shapes."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, root)
import random
from Cryptodome.PublicKey import RSA, ECC
from vmon.ref import CURVES
rng = random.Random(20240117)
out = {"rsa": [], "ec": {}, "oct": []}
for bits, e in [(1024, 65537), (1024, 65537), (1024, 3), (1031, 65537), (1096, 65537),
                (2048, 65537), (2048, 65537), (2048, 17), (2047, 65537), (3072, 65537), (4096, 65537), (3072, 3)]:
    k = RSA.generate(bits, e=e)
    out["rsa"].append({m: hex(int(getattr(k, m))) for m in "nedpq"})
for name, c in CURVES.items():
    L = []
    def put(tag, d):
        x, y = c.mul(d)
        L.append({"tag": tag, "d": hex(d), "x": hex(x), "y": hex(y)})
    for i in range(5):
        while 1:
            d = rng.randrange(1, c.n); q = c.mul(d)
            if all(v.bit_length() > 8 * (c.size - 1) for v in q + (d,)): break
        put("full", d)
    lim = 8 * (c.size - 1) - (8 if name == "P-521" else 0)
    def search(pred, tag):
        while 1:
            d = rng.randrange(1, c.n); q = c.mul(d)
            if pred(d, q): put(tag, d); return
    search(lambda d, q: q[0].bit_length() <= lim, "short x")
    search(lambda d, q: q[1].bit_length() <= lim, "short y")
    put("short d", rng.randrange(1, 1 << lim))
    put("tiny d", 2)
    put("d = 1", 1)
    put("d = n-1", c.n - 1)
    search(lambda d, q: q[0] % 256 == 0, "x ends in zero octet")
    if name == "P-256":
        search(lambda d, q: q[0].bit_length() <= lim - 8, "x two octets short")
    out["ec"][name] = L
for n in (1, 5, 8, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 200):
    out["oct"].append(rng.randbytes(n).hex())
for h in ("00" * 4 + "41" * 28, "41" * 28 + "00" * 4, "00" * 32, "ff" * 32, b"My hollow key, in ASCII only".hex(),
          "räksmörgås och lite till".encode().hex(), "c3" * 24, b"0123456789abcdef0123456789abcdef".hex()):
    out["oct"].append(h)
with open(os.path.join(root, "fixtures/keys.json"), "w") as f:
    json.dump(out, f, indent=0); f.write("\n")
