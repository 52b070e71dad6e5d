"""Loopback HTTP(S) servers that answer as told: the fault injector of C22.

A Site answers on 127.0.0.1; every path holds a queue of raw answers (the last one stays).
An answer is a list of steps: bytes to send, or one of the strings "reset" (RST), "close",
"stall" (hold the connection until the client gives up).
"""
import datetime
import gzip
import os
import random
import socket
import ssl
import struct
import tempfile
import threading
import warnings

from vmon import der, gen

STALL = 3.0


class Site(object):
    def __init__(self, context=None, host="127.0.0.1"):
        self.context = context
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(64)
        self.port = self.sock.getsockname()[1]
        self.base = "%s://%s:%d" % ("https" if context else "http", host, self.port)
        self.plan, self.seen = {}, []
        self.lock = threading.Lock()
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(STALL)
            if self.context:
                c = self.context.wrap_socket(c, server_side=True)
            buf = b""
            while b"\r\n\r\n" not in buf:
                d = c.recv(65536)
                if not d:
                    return
                buf += d
            head = buf.split(b"\r\n\r\n")[0].decode("latin-1")
            method, path = head.split(" ")[:2]
            with self.lock:
                self.seen.append((method, path, head))
                q = self.plan.get(path) or [[answer(404, b"gone")]]
                steps = q.pop(0) if len(q) > 1 else q[0]
                if method != "GET":
                    steps = [answer(405, b"only GET")]
            for s in steps:
                if s == "reset":
                    c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    break
                if s == "close":
                    break
                if s == "stall":
                    c.recv(1)
                    break
                c.sendall(s)
        except (OSError, ValueError, ssl.SSLError):
            pass
        finally:
            try:
                c.close()
            except OSError:
                pass

    def put(self, path, *answers):
        with self.lock:
            self.plan[path] = list(answers)
        return self.base + path

    def take(self):
        with self.lock:
            s, self.seen = self.seen, []
        return s


def answer(status, body=b"", headers=(), ctype="application/json", length="exact", reason="X",
           coding=None):
    """one raw HTTP/1.1 answer; length: exact, chunked, close, or a number of missing octets"""
    h = ["HTTP/1.1 %d %s" % (status, reason), "Connection: close"]
    if ctype:
        h.append("Content-Type: " + ctype)
    if coding == "gzip":
        body = gzip.compress(body, mtime=0)
        h.append("Content-Encoding: gzip")
    elif coding == "badgzip":
        b = bytearray(gzip.compress(body, mtime=0))
        b[len(b) // 2] ^= 0x55
        body = bytes(b[:-4])
        h.append("Content-Encoding: gzip")
    elif coding == "cutgzip":
        b = gzip.compress(body, mtime=0)
        body = b[:len(b) // 2]
        h.append("Content-Encoding: gzip")
    h.extend("%s: %s" % kv for kv in headers)
    if length == "exact":
        h.append("Content-Length: %d" % len(body))
    elif isinstance(length, int):
        h.append("Content-Length: %d" % (len(body) + length))
    elif length.startswith("chunked"):
        h.append("Transfer-Encoding: chunked")
        out = b""
        n = max(1, len(body) // 3)
        for a in range(0, len(body), n):
            p = body[a:a + n]
            out += b"%x\r\n%s\r\n" % (len(p), p)
        if length == "chunked":
            out += b"0\r\n\r\n"
        elif length == "chunked-cut":           # the last chunk is announced longer
            out += b"40\r\n  "
        body = out
    return ("\r\n".join(h) + "\r\n\r\n").encode("latin-1") + body


def context(key, cert_der, where, name):
    fn = os.path.join(where, name + ".pem")
    with open(fn, "w") as f:
        f.write(der.pem("RSA PRIVATE KEY", der.pkcs1_private(key)) +
                der.pem("CERTIFICATE", cert_der))
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_SERVER)
    c.load_cert_chain(fn)
    return c


class World(object):
    """the servers and certificates of one worker process"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vmon-c22-")
        rng = random.Random(22)
        k = gen.R2048
        ca, other, host = k[0], k[1 % len(k)], k[2 % len(k)]
        cader = der.cert(ca, ca, rng, cn="Test CA", serial=1)
        self.ca = os.path.join(self.dir, "ca.pem")
        self.otherca = os.path.join(self.dir, "otherca.pem")
        for fn, d in [(self.ca, cader),
                      (self.otherca, der.cert(other, other, rng, cn="Other CA", serial=2))]:
            with open(fn, "w") as f:
                f.write(der.pem("CERTIFICATE", d))
        old = dict(first=datetime.datetime(2001, 1, 1), last=datetime.datetime(2002, 1, 1))
        here = dict(ips=["127.0.0.1"], hosts=["localhost"])

        def c(name, signer, issuer, **kw):
            return context(host, der.cert(host, signer, rng, serial=rng.randrange(9, 2**60),
                                          cn="localhost", issuer=issuer, ca=False, **kw),
                           self.dir, name)
        self.plain = Site()
        self.good = Site(c("good", ca, "Test CA", **here))
        self.bad = {
            "wrong host": Site(c("wrong", ca, "Test CA", hosts=["example.org"], ips=["10.0.0.1"])),
            "expired": Site(c("expired", ca, "Test CA", **dict(here, **old))),
            "self-signed": Site(c("self", host, "localhost", **here)),
            "other CA": Site(c("other", other, "Other CA", **here))}
        s = socket.socket()
        s.bind(("127.0.0.1", 0))
        self.refused = "http://127.0.0.1:%d" % s.getsockname()[1]
        self.held = s                   # bound, never listening: connections are refused

    def sites(self):
        return [self.plain, self.good] + list(self.bad.values())


_world = None


def world():
    global _world
    warnings.simplefilter("ignore")
    if _world is None:
        for v in list(os.environ):
            if v.lower().endswith("_proxy") or v in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE"):
                del os.environ[v]
        os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"
        _world = World()
    return _world
