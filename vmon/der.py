"""A small DER encoder: RSA keys and X.509 certificates with chosen content."""
import base64
import datetime
import textwrap

from vmon import ref


def tlv(tag, body):
    n = len(body)
    if n < 128:
        ln = bytes([n])
    else:
        b = ref.i2o(n)
        ln = bytes([0x80 | len(b)]) + b
    return bytes([tag]) + ln + body


def integer(n):
    b = ref.i2o(n) if n else b"\0"
    return tlv(2, b"\0" + b if b[0] & 0x80 else b)


def seq(*parts):
    return tlv(0x30, b"".join(parts))


def oid(s):
    a = [int(x) for x in s.split(".")]
    out = [40 * a[0] + a[1]]
    for v in a[2:]:
        c = [v & 0x7f]
        while v > 127:
            v >>= 7
            c.insert(0, 0x80 | v & 0x7f)
        out += c
    return tlv(6, bytes(out))


NULL = tlv(5, b"")
RSA_OID = oid("1.2.840.113549.1.1.1")
SIG_OID = {"256": oid("1.2.840.113549.1.1.11"), "384": oid("1.2.840.113549.1.1.12"),
           "512": oid("1.2.840.113549.1.1.13")}


def bits(b):
    return tlv(3, b"\0" + b)


def octets(b):
    return tlv(4, b)


def pkcs1_public(key):
    return seq(integer(key["n"]), integer(key["e"]))


def pkcs1_private(key):
    p, q, d = key["p"], key["q"], key["d"]
    return seq(integer(0), integer(key["n"]), integer(key["e"]), integer(d), integer(p),
               integer(q), integer(d % (p - 1)), integer(d % (q - 1)), integer(pow(q, -1, p)))


def spki(key):
    return seq(seq(RSA_OID, NULL), bits(pkcs1_public(key)))


def pkcs8(key):
    return seq(integer(0), seq(RSA_OID, NULL), octets(pkcs1_private(key)))


def name(cn):
    return seq(tlv(0x31, seq(oid("2.5.4.3"), tlv(12, cn.encode("utf-8"))))) if cn else seq()


def when(t):
    return tlv(0x17, t.strftime("%y%m%d%H%M%SZ").encode()) if t.year < 2050 else \
        tlv(0x18, t.strftime("%Y%m%d%H%M%SZ").encode())


def cert(key, signer, rng, serial=None, cn="localhost", issuer=None, v3=True, h="256",
         first=None, last=None, hosts=(), ips=(), ca=True, extra=()):
    """an X.509 certificate for key, signed by signer (self-signed if the same)"""
    first = first or datetime.datetime(2020, 1, 1)
    last = last or datetime.datetime(2049, 1, 1)
    alg = seq(SIG_OID[h], NULL)
    ext = []
    if v3:
        if ca:
            ext.append(seq(oid("2.5.29.19"), tlv(1, b"\xff"), octets(seq(tlv(1, b"\xff")))))
        if hosts or ips:
            gn = [tlv(0x82, x.encode()) for x in hosts] + \
                [tlv(0x87, bytes(int(o) for o in x.split("."))) for x in ips]
            ext.append(seq(oid("2.5.29.17"), octets(seq(*gn))))
        for n in extra:
            ext.append(seq(oid("1.3.6.1.4.1.55555." + str(n)), octets(rng.randbytes(n))))
    tbs = [tlv(0xa0, integer(2))] if v3 else []
    tbs += [integer(rng.randrange(1, 2**rng.choice([8, 63, 159])) if serial is None else serial),
            alg, name(cn if issuer is None else issuer), seq(when(first), when(last)), name(cn),
            spki(key)]
    if ext:
        tbs.append(tlv(0xa3, seq(*ext)))
    tbs = seq(*tbs)
    return seq(tbs, alg, bits(ref.rsa_sign("RS" + h, tbs, signer, rng)))


def pem(label, der):
    b = base64.b64encode(der).decode()
    return "-----BEGIN %s-----\n%s\n-----END %s-----\n" % (
        label, "\n".join(textwrap.wrap(b, 64)), label)
