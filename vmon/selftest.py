"""setup: does the machinery itself work? Known-answer tests of the reference."""
import random

from vmon import core, ref, gen


def main():
    rng = random.Random(1)
    # RFC 7518 appendix C
    z = bytes([158, 86, 217, 29, 129, 113, 53, 211, 114, 131, 66, 131, 191, 132,
               38, 156, 251, 49, 110, 163, 218, 128, 106, 72, 246, 218, 167, 121,
               140, 254, 144, 196])
    dk = ref.concat_kdf(z, "A128GCM", b"Alice", b"Bob", 128)
    assert ref.b64e(dk) == "VqqN6vgjbSBcIijNcacQGg"
    # RFC 3394 4.1
    assert ref.kw_wrap(bytes(range(16)), bytes.fromhex(
        "00112233445566778899AABBCCDDEEFF")).hex() == \
        "1fa68b0a8112b447aef34bd8fb5a7b829d3e862371d2cfe5"
    # RFC 7638 3.1
    n = ("0vx7agoebGcQSuuPiLJXZptN9nndrQmbXEps2aiAFbWhM78LhWx4cbbfAAtVT86zwu1RK7aP"
         "FFxuhDR1L6tSoc_BJECPebWKRXjBZCiFV4n3oknjhMstn64tZ_2W-5JsGY4Hc5n9yBXArwl93"
         "lqt7_RN5w6Cf0h4QyQ5v-65YGjQR0_FDW2QvzqY368QQMicAtaSqzs8KJZgnYb9c7d0zgdAZH"
         "zu6qMQvRL5hajrn1n91CbOpbISD08qNLyrdkt-bFTWhAI4vMQFh6WeZu0fM4lFd2NcRwr3XPk"
         "sINHaQ-G_xBniIqbw0Ls1jF44-csFCur-kEgU8awapJzKnqDKgw")
    k = {"kty": "RSA", "n": ref.o2i(ref.b64d(n)), "e": 65537}
    assert ref.b64e(ref.thumbprint(k)) == \
        "NzbLsXh8uDCcd-6MNwXF4W_7noWXFZAfHkxZsRGC9Xs"
    # RFC 7515 A.1
    key = {"kty": "oct", "k": ref.b64d(
        "AyM1SysPpbyDfgZld3umj1qzKObwVMkoqQ-EstJQLr_T-1qS0gZH75aKtMN3Yj0iPS4hcgUu"
        "TwjAzZr1Z9CAow")}
    inp = (b"eyJ0eXAiOiJKV1QiLA0KICJhbGciOiJIUzI1NiJ9.eyJpc3MiOiJqb2UiLA0KICJleHAiO"
           b"jEzMDA4MTkzODAsDQogImh0dHA6Ly9leGFtcGxlLmNvbS9pc19yb290Ijp0cnVlfQ")
    assert ref.b64e(ref.sign("HS256", inp, key, rng)) == \
        "dBjftJeZ4CVP-mB92K27uhbUJU1p1r_wW1gFWFOEjXk"
    # RFC 7515 A.3
    ec = {"kty": "EC", "crv": "P-256",
          "x": ref.o2i(ref.b64d("f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU")),
          "y": ref.o2i(ref.b64d("x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0"))}
    inp = (b"eyJhbGciOiJFUzI1NiJ9.eyJpc3MiOiJqb2UiLA0KICJleHAiOjEzMDA4MTkzODAsDQogIm"
           b"h0dHA6Ly9leGFtcGxlLmNvbS9pc19yb290Ijp0cnVlfQ")
    assert ref.verify("ES256", inp, ref.b64d(
        "DtEhU3ljbEg8L38VWAfUAqOyKAM6-Xx-F4GawxaepmXFCgfTjDxw5djxLa8ISlSApmWQxfKT"
        "UJqPP3-Kg6NU1Q"), ec)
    # RFC 7518 B.1
    ct, tag = ref.cbc_encrypt(bytes(range(32)), bytes.fromhex(
        "1af38c2dc2b96ffdd86694092341bc04"),
        b"The second principle of Auguste Kerckhoffs",
        b"A cipher system must not be required to be secret, and it must be able "
        b"to fall into the hands of the enemy without inconvenience")
    assert tag.hex() == "652c3fa36b0a7c5b3219fab3a30bc1c4"
    # round trips of the reference with itself
    for alg in ref.SIG_ALGS:
        k = gen.sig_key(rng, alg)
        t = ref.jws({"alg": alg}, b"x", k, rng)
        h, o = gen.parse(t)
        assert ref.verify(alg, t.rpartition(".")[0].encode(), o[2], gen.public(k))
    for alg in ref.ENC_ALGS:
        for enc in ref.ENCS:
            k = gen.enc_key(rng, alg, enc)
            assert ref.jwe_open(ref.jwe({"alg": alg, "enc": enc}, b"hello",
                                        gen.public(k), rng), k) == b"hello"
    for c, ks in gen.ECK.items():
        for k in ks:
            assert ref.CURVES[c].on((k["x"], k["y"]))
    # the monitor must be able to say no
    ctx = core.Ctx("C00", "selftest", 0, 1, "quick")
    ctx.check(False, "must be recorded")
    assert len(ctx.violations) == 1
    import jwkest
    assert jwkest.__file__.startswith(core.REPO), jwkest.__file__
    print("selftest ok")
    return 0
