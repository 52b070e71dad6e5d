"""C22: remote keys are loaded only from a proper, verified response."""
import base64
import json
import os

import requests.adapters
import requests.exceptions
import requests.models

from vmon import der, gen, httpd, ref
from vmon.core import Group
from vmon.httpd import answer
from vmon.props.c14 import same_material, view
from vmon.props.c17 import bad_spec, good_spec, observe
from jwkest.jwk import KEYS, load_jwks_from_url, load_x509_cert

RULE = ("A case is one load by URL from a loopback server that answers as planned: status, "
        "redirects, body, encoding, truncation, reset, stall, refused port, certificate. After "
        "each load the key set is compared with a list model: the keys of a proper 200 response "
        "are appended, in order; anything else is an error and changes nothing. Every request "
        "that leaves the library is watched for the certificate verification in effect. "
        "Non-trivial: distinct planned answer and history.")
MINIMUM = {"loaded": 500, "long documents": 20, "refused load": 900, "status swept": 350, "redirect followed": 80,
           "redirect refused": 60, "truncated": 80, "malformed": 250, "fault": 80,
           "tls refused": 150, "tls accepted": 80, "tls off": 40, "verify seen on": 500,
           "x509 key": 120, "x509 empty": 150, "state compared": 1000}
ASSUME = ["the HTTP client is requests (its defaults for redirects and certificate stores)",
          "a document without a charset is UTF-8 (RFC 8259, RFC 7517)",
          "time-outs are the caller's (timeout= is passed through)"]

sent = []
pretend = []        # what to do instead of sending, if anything
_orig = requests.adapters.HTTPAdapter.send


def _send(self, request, *a, **kw):
    v = kw.get("verify", a[2] if len(a) > 2 else True)
    sent.append((request.url, v))
    if pretend:
        return pretend[0](request)
    return _orig(self, request, *a, **kw)


requests.adapters.HTTPAdapter.send = _send


class Watched(object):
    """the verification in effect for each request of one load"""

    def __init__(self, ctx, off):
        self.ctx, self.off = ctx, off

    def __enter__(self):
        del sent[:]

    def __exit__(self, et, ev, tb):
        for url, v in sent:
            if self.off:
                self.ctx.event("verify seen off")
                continue
            self.ctx.event("verify seen on")
            self.ctx.check(v is True or isinstance(v, (str, bytes)) and v,
                           "certificate verification was off although the caller did not turn "
                           "it off", mechanism="verify", url=url, verify=v)


LETTERS = "\u00e9\u00e5\u00e4\u00f6\u00f1\u00e7\u00df\u0153\u20ac\u201c\u201d\u00a3\u00b0\u00b5" \
    "\u9375\u043f\u0440\u0438\ud55c\u05e2\u0628\U0001f600\u00c5\u00bd\u00d7\u0406\u0142 a1-"


def specs(rng, n=None):
    r = [good_spec(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]) if n is None else n)]
    for jwk, e in r:
        if rng.random() < .25:
            jwk["kid"] = e.meta["kid"] = "".join(rng.choice(LETTERS)
                                                 for _ in range(rng.randrange(1, 7)))
    return r


def doc_of(rng, sp):
    d = {"keys": [s[0] for s in sp]}
    if rng.random() < .2:
        d["extra"] = rng.choice([1, "x", None, []])
    return d


def good(rng, sp):
    """a proper answer with these keys"""
    d = doc_of(rng, sp)
    k = rng.randrange(9)
    kw = {}
    txt = json.dumps(d, indent=rng.choice([None, None, 1]), ensure_ascii=rng.random() < .5)
    body = txt.encode()
    if k == 0:
        body, kw["ctype"] = json.dumps(d, ensure_ascii=False).encode(), \
            "application/json; charset=utf-8"
    elif k == 1:
        kw["coding"] = "gzip"
    elif k == 2:
        kw["length"] = "chunked"
    elif k == 3:
        kw["length"] = "close"
    elif k == 4:
        kw["ctype"] = rng.choice(["text/plain", "application/jwk-set+json", None,
                                  "application/octet-stream", "text/html; charset=utf-8"])
    elif k == 5:
        body, kw["ctype"] = txt.encode("utf-16"), "application/json; charset=utf-16"
    elif k == 6:
        kw["length"], kw["coding"] = "chunked", "gzip"
    elif k == 8:
        body = json.dumps(d).encode("iso-8859-1")
        kw["ctype"] = "application/json; charset=" + rng.choice(["iso-8859-1", "us-ascii",
                                                                 "\"utf-8\"", "UTF-8"])
    elif k == 7:
        kw["headers"] = [("Set-Cookie", "a=b"), ("X-Status", "500"),
                         ("Location", "http://127.0.0.1:9/")]
    return [answer(200, body, **kw)]


STATUSES = [s for s in range(201, 600) if s not in (301, 302, 303, 307, 308)]


def bad_status(rng, sp):
    s = rng.choice([201, 202, 203, 206, 226, 300, 304, 400, 401, 403, 404, 410, 418, 429, 500,
                    502, 503, 504, 599] + STATUSES[::40])
    return [answer(s, json.dumps(doc_of(rng, sp)).encode(), reason=rng.choice(["OK", "X", ""]))]


def malformed(rng, sp):
    """a complete 200 answer whose body is not a JWKS"""
    d = doc_of(rng, sp)
    t = json.dumps(d)
    k = rng.randrange(13)
    if k == 0:
        b = b""
    elif k == 1:
        b = t[:rng.randrange(len(t) - 1) or 1]
    elif k == 2:
        b = json.dumps(rng.choice([None, 1, "keys", [], [d], True, 1.5]))
    elif k == 3:
        b = json.dumps(rng.choice([{}, {"Keys": d["keys"]}, {"key": d["keys"]},
                                   {"jwks": d}]))
    elif k == 4:
        b = json.dumps({"keys": rng.choice([None, 5, "abc", {"a": 1}, True])})
    elif k in (5, 6, 7, 8):
        L = list(d["keys"]) or [good_spec(rng)[0]]
        L.insert(rng.randrange(len(L) + 1), bad_spec(rng))
        b = json.dumps({"keys": L})
    elif k == 9:
        b = "<html><body>" + t + "</body></html>"
    elif k == 10:
        b = t + rng.choice(["x", "}", t, ","])
    elif k == 11:
        b = "callback(%s)" % t
    else:
        b = t.replace('"', "'") if '"' in t else "{"
    b = b if isinstance(b, bytes) else b.encode()
    return [answer(200, b, length=rng.choice(["exact", "exact", "chunked", "close"]))]


def truncated(rng, sp):
    """a 200 answer whose body does not arrive in full, although what arrives may be JSON"""
    t = json.dumps(doc_of(rng, sp)).encode()
    k = rng.randrange(5)
    if k == 0:
        return [answer(200, t, length=rng.choice([1, 2, 100, 4096])), "close"]
    if k == 1:
        return [answer(200, t, length="chunked-cut"), "close"]
    if k == 2:
        return [answer(200, t, length="chunked-open"), "close"]
    if k == 3:
        a = answer(200, t)
        return [a[:rng.randrange(a.index(b"\r\n\r\n") + 4, len(a) - 1)], "close"]
    return [answer(200, t, coding=rng.choice(["badgzip", "cutgzip"]))]


def fault(rng, sp):
    t = json.dumps(doc_of(rng, sp)).encode()
    a = answer(200, t)
    k = rng.randrange(6)
    if k == 0:
        return ["reset"]
    if k == 1:
        return ["close"]
    if k == 2:
        return [a[:rng.randrange(1, len(a) - 1)], "reset"]
    if k == 3:
        return [rng.choice([b"\r\n\r\n", b"garbage\r\n\r\n", b"HTTP/1.1 abc OK\r\n\r\n", b"\0\1",
                            b"SSH-2.0-x\r\n", b"HTTP/1.1 \r\n\r\n"])]
    if k == 4:
        return ["stall"]
    return [a[:rng.randrange(1, len(a) - 1)], "stall"]


BAD = [("status", bad_status), ("malformed", malformed), ("malformed", malformed),
       ("truncated", truncated), ("fault", fault)]


class Load(object):
    """one planned load: url, whether it must succeed, and the entries it then adds"""

    def __init__(self, ctx, w, good_share=.4):
        rng = ctx.rng
        self.path = "/%s%d" % (rng.choice(["jwks", "jwks.json", "a/b", "k?x=1&y="]),
                               rng.randrange(10**9))
        sp = specs(rng)
        r = rng.random()
        self.kw = {}
        if r < good_share:
            self.kind, self.ok = "good", True
            steps = good(rng, sp)
        elif r > .97:
            self.kind, self.ok, steps = "refused port", False, None
        else:
            sp = sp or specs(rng, 1)
            self.kind, f = rng.choice(BAD)
            steps = f(rng, sp)
            self.ok = False
        self.entries = [s[1] for s in sp] if self.ok else []
        self.plan = [steps]
        self.hops = 0
        if steps is None:
            self.url = w.refused + self.path
        else:
            self.url = w.plain.put(self.path, steps)
            if "stall" in steps or rng.random() < .1:
                self.kw["timeout"] = .3 if "stall" in steps else 20
        if rng.random() < .25:
            self.redirect(rng, w)
        self.stalls = steps is not None and "stall" in steps

    def redirect(self, rng, w):
        n = rng.choice([1, 1, 2, 3])
        decoy = json.dumps(doc_of(rng, specs(rng, 1))).encode()
        for k in range(n):
            p = "/r%d" % rng.randrange(10**9)
            loc = self.url
            if loc.startswith(w.plain.base) and rng.random() < .4:
                loc = loc[len(w.plain.base):]
            h = [("Location", loc)]
            if k == n - 1 and rng.random() < .15:      # no or a broken target, or a loop
                self.ok, self.entries = False, []
                self.kind = "bad redirect"
                h = rng.choice([[], [("Location", p)], [("Location", "ftp://127.0.0.1/x")],
                                [("Location", "http://")], [("Location", "file:///etc/hosts")]])
            a = answer(rng.choice([301, 302, 303, 307, 308]), decoy, headers=h)
            self.plan.append([a])
            self.url = w.plain.put(p, [a])
        self.hops = n


def perform(ctx, ks, ld, model, where, how="load_from_url"):
    """the load and its oracle"""
    with Watched(ctx, False):
        if how == "load_jwks_from_url":
            out = ctx.call(how, load_jwks_from_url, ld.url)
        elif ctx.rng.random() < .2:
            out = ctx.call(how, ks.load_from_url, ld.url, verify=True, **ld.kw)
        else:
            out = ctx.call(how, ks.load_from_url, ld.url, **ld.kw)
    ctx.case(where, ld.kind, ld.plan)
    if ld.ok:
        ctx.need(out.ok, "a proper response was not loaded", mechanism="good refused",
                 plan=ld.plan, got=out)
        ctx.event("loaded")
        if ld.hops:
            ctx.event("redirect followed")
    else:
        ctx.event("refused load")
        ctx.event("redirect refused" if ld.hops else ld.kind)
        ctx.check(not out.ok, "a response that is not a proper success was accepted",
                  mechanism="bad accepted:" + ld.kind, plan=ld.plan, url=ld.url, got=out)
    if ks is not None:
        model.extend(ld.entries)
        observe(ctx, ks, model, where)
    elif out.ok:
        res = out.value
        ctx.need(isinstance(res, list) and len(res) == len(ld.entries) and all(
            e.key["kty"] not in ("RSA", "EC", "oct") or
            same_material(view(k, e.private), e.key, e.private)
            for k, e in zip(res, ld.entries)),
            "load_jwks_from_url does not return the keys of the response",
            mechanism="content", got=res, expected=ld.entries)
    return out


def history(ctx, i):
    """loads by URL and other operations over one key set"""
    rng, w = ctx.rng, httpd.world()
    ks, model, trail = KEYS(), [], []
    for _ in range(rng.randrange(4, 10)):
        r = rng.random()
        if r < .75:
            ld = Load(ctx, w)
            trail.append(ld.kind)
            perform(ctx, ks, ld, model, list(trail))
        elif r < .85:
            s, e = good_spec(rng)
            trail.append("add")
            ctx.must("add", ks.add, dict(s))
            model.append(e)
        elif r < .93:
            sp = specs(rng)
            trail.append("load_dict")
            ctx.must("load_dict", ks.load_dict, {"keys": [s[0] for s in sp]})
            model.extend(s[1] for s in sp)
        else:
            trail.append("bad add")
            ctx.call("bad add", ks.add, bad_spec(rng))
        observe(ctx, ks, model, list(trail))
    for s in w.sites():
        s.take()


def rotating(ctx, i):
    """the same URL, whose answer changes from one load to the next"""
    rng, w = ctx.rng, httpd.world()
    ks, model, trail = KEYS(), [], []
    path = "/rot%d" % rng.randrange(10**9)
    for _ in range(rng.randrange(3, 7)):
        sp = specs(rng, rng.choice([1, 1, 2]))
        ld = Load.__new__(Load)
        ld.ok = rng.random() < .5
        if ld.ok:
            ld.kind, steps = "good", good(rng, sp)
        else:
            ld.kind, f = rng.choice(BAD)
            steps = f(rng, sp)
        ld.plan, ld.hops, ld.entries = [steps], 0, [s[1] for s in sp] if ld.ok else []
        ld.kw = {"timeout": .3} if "stall" in steps else {}
        ld.url = w.plain.put(path, steps)
        trail.append(ld.kind)
        if rng.random() < .2 and not ld.kw:
            perform(ctx, None, ld, None, list(trail), "load_jwks_from_url")
        else:
            perform(ctx, ks, ld, model, list(trail))
    w.plain.take()


def sweep(ctx, i):
    """every status code, with a body that is a proper key set"""
    rng, w = ctx.rng, httpd.world()
    s = STATUSES[i % len(STATUSES)]
    ks, model = KEYS(), []
    sp = specs(rng, 1)
    ks.add(dict(sp[0][0]))
    model.append(sp[0][1])
    sp = specs(rng, 2)
    body = json.dumps({"keys": [x[0] for x in sp]}).encode()
    h = [] if i < len(STATUSES) else rng.choice(
        [[("Location", w.plain.put("/loc", good(rng, specs(rng, 1))))], [("Retry-After", "0")]])
    url = w.plain.put("/sweep%d" % s, [answer(s, body, headers=h)])
    with Watched(ctx, False):
        out = ctx.call("load_from_url", ks.load_from_url, url)
    ctx.case("sweep", s, h)
    ctx.event("status swept")
    ctx.check(not out.ok, "a response with another status than 200 was accepted",
              mechanism="bad accepted:status", status=s, headers=h)
    observe(ctx, ks, model, s)
    if i % 3 == 0:
        out = ctx.call("load_jwks_from_url", load_jwks_from_url, url)
        ctx.check(not out.ok, "load_jwks_from_url accepted another status than 200",
                  mechanism="bad accepted:status", status=s)
    c = {}
    k = rng.choice(gen.R1024)
    url = w.plain.put("/cert%d" % s, [answer(s, der.pem(
        "PUBLIC KEY", der.spki(k)).encode(), headers=h)])
    r = ctx.must("load_x509_cert", load_x509_cert, url, c)
    ctx.check(r == [] and c == {}, "a certificate was taken from a response with another status "
              "than 200", mechanism="x509 status", status=s, got=r, cache=c)


class Env(object):
    def __init__(self, **kw):
        self.kw = kw

    def __enter__(self):
        self.old = dict((k, os.environ.get(k)) for k in self.kw)
        for k, v in self.kw.items():
            os.environ[k] = v

    def __exit__(self, *a):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def tls(ctx, i):
    """certificates and verification options in sequence over one key set"""
    rng, w = ctx.rng, httpd.world()
    ks, model, trail = KEYS(), [], []
    for _ in range(rng.randrange(4, 8)):
        which = rng.choice(["good", "good"] + sorted(w.bad))
        site = w.good if which == "good" else w.bad[which]
        sp = specs(rng, rng.choice([1, 2]))
        url = site.put("/t%d" % rng.randrange(10**9), good(rng, sp))
        if rng.random() < .2:
            url = w.plain.put("/tr%d" % rng.randrange(10**9),
                              [answer(rng.choice([301, 302, 307]), headers=[("Location", url)])])
        opt = rng.choice(["default", "default", "True", "env", "ca", "otherca", "False", "False"])
        kw, env = {}, {}
        if opt == "True":
            kw["verify"] = True
        elif opt == "env":
            env["REQUESTS_CA_BUNDLE"] = w.ca
        elif opt == "ca":
            kw["verify"] = w.ca
        elif opt == "otherca":
            kw["verify"] = w.otherca
        elif opt == "False":
            kw["verify"] = False
        ok = opt == "False" or which == "good" and opt in ("env", "ca") or \
            which == "other CA" and opt == "otherca"
        trail.append((which, opt))
        fn = rng.choice(["load_from_url", "load_from_url", "load_jwks_from_url", "load_x509_cert"])
        ctx.case("tls", list(trail), fn)
        with Env(**env), Watched(ctx, opt == "False"):
            if fn == "load_from_url":
                out = ctx.call(fn, ks.load_from_url, url, **kw)
                done = out.ok
                if ok:
                    model.extend(s[1] for s in sp)
            elif fn == "load_jwks_from_url":
                out = ctx.call(fn, load_jwks_from_url, url, *kw.values())
                done = out.ok
                ctx.check(not out.ok or len(out.value) == len(sp),
                          "load_jwks_from_url does not return the keys", mechanism="content")
            else:
                k = rng.choice(gen.R1024)
                site.put("/cert", [answer(200, der.pem("PUBLIC KEY", der.spki(k)).encode())])
                out = ctx.call(fn, load_x509_cert, site.base + "/cert", {}, **kw)
                done = out.ok and out.value != []
                ctx.check(out.ok, "load_x509_cert raised", mechanism="x509 raise", got=out)
        if ok:
            ctx.event("tls accepted")
            ctx.check(done, "a response over TLS with a trusted certificate, or with "
                      "verification off, was not loaded", mechanism="tls good refused",
                      trail=trail, fn=fn, got=out)
        else:
            ctx.event("tls refused")
            ctx.check(not done, "keys were loaded from a server whose certificate does not "
                      "verify", mechanism="tls", trail=trail, fn=fn, got=out)
        if opt == "False":
            ctx.event("tls off")
        observe(ctx, ks, model, list(trail))
    for s in w.sites():
        s.take()


EC_OID = {"P-256": "1.2.840.10045.3.1.7", "P-384": "1.3.132.0.34", "P-521": "1.3.132.0.35"}


def x509(ctx, i):
    """certificates by URL, with one cache over a sequence of loads"""
    rng, w = ctx.rng, httpd.world()
    cache, seen = {}, []
    path = "/c%d" % rng.randrange(10**9)
    for _ in range(rng.randrange(3, 8)):
        k = rng.choice(gen.R1024 + gen.R2048)
        signer = rng.choice([k] + gen.R1024)
        if seen and rng.random() < .25:
            k, text = rng.choice(seen)
        elif rng.random() < .6:
            text = der.pem("CERTIFICATE", der.cert(k, signer, rng))
        else:
            text = der.pem("PUBLIC KEY", der.spki(k))
        kind = rng.choice(["good", "good", "good", "truncated", "garbage", "ec", "status", "cut",
                           "fault", "refused", "empty", "jwks"])
        url, kw = w.plain.base + path, {}
        body = text.encode()
        if kind == "good":
            steps = [answer(200, body, ctype=rng.choice(["application/x-pem-file", "text/plain",
                                                         "application/pkix-cert"]),
                            length=rng.choice(["exact", "chunked", "close"]),
                            coding=rng.choice([None, None, "gzip"]))]
        elif kind == "truncated":
            raw = base64.b64decode("".join(text.split("\n")[1:-2]))
            raw = raw[:rng.randrange(len(raw))]
            steps = [answer(200, der.pem("CERTIFICATE", raw).encode())]
        elif kind == "garbage":
            steps = [answer(200, rng.choice([b"hello", b"-----BEGIN CERTIFICATE-----\n", b"\xff",
                                             b"-----BEGIN CERTIFICATE-----\nAAAA\n"
                                             b"-----END CERTIFICATE-----\n"]))]
        elif kind == "ec":
            crv = rng.choice(gen.CRVS)
            e = rng.choice(gen.ECK[crv])
            n = (int(crv[2:]) + 7) // 8
            pt = b"\4" + e["x"].to_bytes(n, "big") + e["y"].to_bytes(n, "big")
            steps = [answer(200, der.pem("PUBLIC KEY", der.seq(der.seq(
                der.oid("1.2.840.10045.2.1"), der.oid(EC_OID[crv])), der.bits(pt))).encode())]
        elif kind == "status":
            steps = [answer(rng.choice(STATUSES), body)]
        elif kind == "cut":
            steps = [answer(200, body, length=rng.choice([1, 50])), "close"]
        elif kind == "fault":
            steps = rng.choice([["reset"], ["close"], [b"x\r\n\r\n"], ["stall"]])
            if steps == ["stall"]:
                kw["timeout"] = .3
        elif kind == "empty":
            steps = [answer(200, b"")]
        elif kind == "jwks":
            steps = [answer(200, json.dumps({"keys": [ref.jwk(k, False)]}).encode())]
        if kind == "refused":
            url = w.refused + path
        else:
            w.plain.put(path, steps)
            if rng.random() < .2:
                url = w.plain.put(path + "r", [answer(302, body,
                                                      headers=[("Location", path)])])
        before = dict(cache)
        with Watched(ctx, False):
            res = ctx.must("load_x509_cert", load_x509_cert, url, cache, **kw)
        ctx.case("x509", kind, text, len(cache))
        if kind == "good":
            ctx.event("x509 key")
            ctx.need(isinstance(res, list) and len(res) == 1 and res[0][0] == "rsa" and
                     (res[0][1].n, res[0][1].e) == (k["n"], k["e"]),
                     "the key of a certificate loaded by URL is not the one in it",
                     mechanism="x509 key", got=res, n=k["n"], text=text)
            seen.append((k, text))
            for b in before:
                ctx.check(b in cache and cache[b] is before[b],
                          "a load changed what was cached for another certificate",
                          mechanism="x509 cache")
        else:
            ctx.event("x509 empty")
            ctx.check(res == [], "a load that did not succeed gave a key",
                      mechanism="x509 bad:" + kind, got=res)
            ctx.check(cache == before, "a load that did not succeed changed the cache",
                      mechanism="x509 cache", kind=kind)
    w.plain.take()


HOSTS = ["localhost", "LOCALHOST", "127.0.0.1", "127.0.0.2", "[::1]", "0.0.0.0", "10.0.0.1",
         "192.168.1.2", "172.16.0.9", "169.254.169.254", "example.com", "www.example.com.",
         "op.example.org", "test", "dev.local", "a.test", "b.invalid", "c.internal",
         "xn--bcher-kva.example", "localhost.localdomain", "self-signed.badssl.com", "h" * 60]


def answered(request, body, status=200):
    r = requests.models.Response()
    r.status_code, r.url, r.request = status, request.url, request
    r._content, r._content_consumed = body, True
    r.headers["content-type"] = "application/json"
    r.encoding = "utf-8"
    return r


def options(ctx, i):
    """whatever the address and the other options, verification is on unless turned off; nothing
    is sent here"""
    rng = ctx.rng
    host = HOSTS[i % len(HOSTS)]
    ks, model = KEYS(), []
    k = rng.choice(gen.R1024)
    for _ in range(6):
        sp = specs(rng, 1)
        scheme = rng.choice(["https", "https", "https", "HTTPS", "http"])
        url = scheme + "://" + rng.choice(["", "", "", "user:pw@", "verify=false@"]) + host + \
            rng.choice(["", "", ":443", ":8443", ":80"]) + \
            rng.choice(["/", "/jwks.json", "/insecure/jwks", "/k?verify=0&insecure=1", "",
                        "/.well-known/jwks.json", "/%d" % rng.randrange(10**6), "/k#frag"])
        kw = {}
        for name, v in (("timeout", 5), ("headers", {"Accept": "*/*"}), ("cert", "/nowhere.pem"),
                        ("auth", ("a", "b")), ("stream", False),
                        ("proxies", {})):
            if rng.random() < .15:
                kw[name] = v
        off = rng.random() < .15
        if off:
            kw["verify"] = False
        elif rng.random() < .3:
            kw["verify"] = rng.choice([True, None, "/etc/ssl/cert.pem"])
        fn = rng.choice(["load_from_url", "load_from_url", "load_jwks_from_url",
                         "load_x509_cert"])
        out_kind = rng.choice(["ok", "ok", "down", "404"])

        def reply(request):
            if out_kind == "down":
                raise requests.exceptions.SSLError("nothing there")
            if fn == "load_x509_cert":
                body = der.pem("PUBLIC KEY", der.spki(k)).encode()
            else:
                body = json.dumps({"keys": [s[0] for s in sp]}).encode()
            return answered(request, body, 404 if out_kind == "404" else 200)
        ctx.case("options", url, sorted(kw), off, fn, out_kind)
        pretend.append(reply)
        try:
            with Watched(ctx, off):
                if fn == "load_from_url":
                    out = ctx.call(fn, ks.load_from_url, url, **kw)
                    good_ = out.ok
                elif fn == "load_jwks_from_url":
                    if off or "verify" in kw:
                        out = ctx.call(fn, load_jwks_from_url, url, kw["verify"])
                    else:
                        out = ctx.call(fn, load_jwks_from_url, url)
                    good_ = out.ok
                else:
                    out = ctx.call(fn, load_x509_cert, url, {}, **kw)
                    good_ = out.ok and out.value != []
                n_sent = len(sent)
                ctx.check(not off or all(v is False for _, v in sent), "verification was on "
                          "although the caller turned it off", mechanism="verify off", url=url)
        finally:
            del pretend[:]
        ctx.check(good_ == (out_kind == "ok"), "the outcome does not follow the answer",
                  mechanism="pretended", url=url, kw=kw, fn=fn, kind=out_kind, got=out)
        ctx.check(n_sent == 1 or out_kind != "ok", "more or fewer requests than one",
                  mechanism="pretended sent", n=n_sent, url=url)
        if fn == "load_from_url" and out_kind == "ok":
            model.extend(s[1] for s in sp)
        observe(ctx, ks, model, url)


def large(ctx, i):
    """long documents, good ones and ones that are bad only far behind"""
    rng, w = ctx.rng, httpd.world()
    ks, model, trail = KEYS(), [], []
    for kind in (["good", "good", "malformed", "malformed"] if i % 2 else
                 ["good", "truncated", "truncated", "status"]):
        sp = specs(rng, rng.choice([17, 70, 130, 400, 900]))
        ld = Load.__new__(Load)
        ld.kind, ld.ok = kind, kind == "good"
        if kind == "good":
            steps = good(rng, sp)
        elif kind == "malformed":
            L = [s[0] for s in sp]
            L.insert(len(L) - rng.choice([0, 0, 1, 5]), bad_spec(rng))
            b = json.dumps({"keys": L})
            if rng.random() < .3:
                b = json.dumps({"keys": [s[0] for s in sp]}) + rng.choice(["}", "x", "]", "{}"])
            steps = [answer(200, b.encode(), length=rng.choice(["exact", "chunked", "close"]))]
        else:
            steps = dict(BAD)[kind](rng, sp)
        ld.plan, ld.hops, ld.entries = [steps], 0, [s[1] for s in sp] if ld.ok else []
        ld.kw = {}
        ld.url = w.plain.put("/large%d" % rng.randrange(10**9), steps)
        trail.append(kind)
        ctx.event("long documents")
        perform(ctx, ks, ld, model, list(trail))
    w.plain.take()


GROUPS = [Group("large", large, 12, 300), Group("options", options, 110, 3000), Group("history", history, 220, 5000), Group("rotating", rotating, 150, 4000),
          Group("sweep", sweep, len(STATUSES), 4 * len(STATUSES)),
          Group("tls", tls, 110, 3000), Group("x509", x509, 120, 3000)]
