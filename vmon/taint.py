"""Taint monitor: looks for secrets in whatever the code under observation lets out."""
import io
import logging
import re
import sys
import traceback
import warnings

from vmon import ref

WIN = 12            # octets of a secret that must not show up
_SEG = re.compile(r"[A-Za-z0-9_\-+/]{16,}")


def _windows(b):
    n = len(b)
    starts = set([0, 1, 2])
    for f in (n // 3, n // 2, 2 * n // 3, n - WIN - 2):
        starts |= set([f, f + 1, f + 2])
    for a in sorted(starts):
        w = b[a:a + WIN]
        if 0 <= a and len(w) == WIN and len(set(w)) >= 8:
            yield w


class Secrets(object):
    def __init__(self):
        self.text = {}          # pattern in lower-case or exact text -> name
        self.hex = {}
        self.raw = {}
        self.ints = {}

    def add(self, name, value):
        """an integer or octets"""
        if isinstance(value, int):
            if value.bit_length() < 100:
                return
            self.ints[value] = name
            self.text[str(value)] = name
            b = ref.i2o(value)
            h = "%x" % value        # the hexadecimal text may be off by half an octet
            for a in (1, len(h) // 2, len(h) - 25):
                w = h[a:a + 24]
                if len(set(w)) >= 8:
                    self.hex[w] = name
        else:
            b = bytes(value)
            if len(b) < WIN:
                return
        for w in _windows(b):
            self.raw[w] = name
            self.raw[w[::-1]] = name
            self.hex[w.hex()] = name
            self.text[ref.b64e(w)] = name
            self.text[", ".join(str(c) for c in w[:8])] = name
            self.text[",".join(str(c) for c in w[:8])] = name
            self.text[repr(w)[2:-1]] = name

    def add_key(self, key):
        if key["kty"] == "RSA" and "d" in key:
            for m in "dpq":
                self.add("RSA " + m, key[m])
            self.add("RSA dp", key["d"] % (key["p"] - 1))
            self.add("RSA dq", key["d"] % (key["q"] - 1))
            self.add("RSA qi", pow(key["q"], -1, key["p"]))
        elif key["kty"] == "EC" and "d" in key and \
                (ref.CURVES[key["crv"]].n - key["d"]).bit_length() > 100:
            self.add("EC d", key["d"])

    def scan(self, out, depth=2):
        """-> name of a secret found in text or octets, or None"""
        if isinstance(out, bytes):
            for w, name in self.raw.items():
                if w in out:
                    return name
            out = out.decode("latin-1")
        if not out:
            return None
        url = out.replace("+", "-").replace("/", "_")
        for w, name in self.text.items():
            if w in out or w in url:
                return name
        low = out.lower()
        for w, name in self.hex.items():
            if w in low:
                return name
        try:
            raw = out.encode("latin-1")
        except UnicodeEncodeError:
            raw = out.encode("utf-8", "replace")
        for w, name in self.raw.items():
            if w in raw:
                return name
        if depth:
            for seg in _SEG.findall(url):
                for s in (seg, seg[1:], seg[2:], seg[3:]) if depth == 2 and \
                        len(seg) < 4000 else (seg,):
                    s = s[:len(s) - (len(s) % 4 == 1)]
                    try:
                        octs = ref.b64d(s)
                    except ref.Bad:
                        continue
                    r = self.scan(octs, depth - 1)
                    if r:
                        return r
        return None

    def scan_object(self, obj, seen=None, path="", depth=6):
        """-> (path, name) of a secret held anywhere inside an object"""
        seen = set() if seen is None else seen
        if id(obj) in seen or depth < 0:
            return None
        seen.add(id(obj))
        if isinstance(obj, bool) or obj is None:
            return None
        if isinstance(obj, (str, bytes)):
            r = self.scan(obj)
            return (path, r) if r else None
        if isinstance(obj, (type, type(sys))) or callable(obj):
            return None
        if isinstance(obj, dict):
            for k, v in list(obj.items()):
                r = self.scan_object(v, seen, "%s[%r]" % (path, k), depth - 1)
                if r:
                    return r
            return None
        if isinstance(obj, (list, tuple, set, frozenset)):
            for n, v in enumerate(list(obj)):
                r = self.scan_object(v, seen, "%s[%d]" % (path, n), depth - 1)
                if r:
                    return r
            return None
        try:
            i = int(obj)
        except Exception:
            i = None
        if i is not None:
            return (path, self.ints[i]) if i in self.ints else None
        return self.scan_object(getattr(obj, "__dict__", None), seen, path + ".",
                                depth - 1)


class _Handler(logging.Handler):
    def __init__(self, sink):
        logging.Handler.__init__(self, logging.DEBUG)
        self.sink = sink

    def emit(self, record):
        try:
            msg = record.getMessage()
        except Exception as err:
            msg = "unformattable %r %r" % (record.msg, err)
        if record.exc_info:
            msg += "".join(traceback.format_exception(*record.exc_info))
        self.sink.append(("log " + record.name, msg + " " + repr(record.args)))


class Capture(object):
    """with Capture() as c: ...; c.out is a list of (channel, text) of everything
    logged (at every level), warned and printed"""

    def __enter__(self):
        self.out = []
        self.root = logging.getLogger()
        self.level = self.root.level
        self.h = _Handler(self.out)
        self.root.addHandler(self.h)
        self.root.setLevel(logging.DEBUG)
        self.levels = []
        for name, lg in list(logging.root.manager.loggerDict.items()):
            if isinstance(lg, logging.Logger) and name.startswith("jwkest"):
                self.levels.append((lg, lg.level, lg.disabled, lg.propagate))
                lg.setLevel(logging.DEBUG)
                lg.disabled, lg.propagate = False, True
        self.std = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
        self.w = warnings.catch_warnings(record=True)
        self.warned = self.w.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *exc):
        self.w.__exit__(*exc)
        for n, s in enumerate((sys.stdout, sys.stderr)):
            if s.getvalue():
                self.out.append((("stdout", "stderr")[n], s.getvalue()))
        sys.stdout, sys.stderr = self.std
        self.root.removeHandler(self.h)
        self.root.setLevel(self.level)
        for lg, level, disabled, propagate in self.levels:
            lg.setLevel(level)
            lg.disabled, lg.propagate = disabled, propagate
        self.out.extend(("warning", str(x.message)) for x in self.warned)
        return False


def exception_text(err):
    """everything an exception shows: its text, the chain, and its own attributes"""
    out = "".join(traceback.format_exception(type(err), err, None))
    e, n = err, 0
    while e is not None and n < 10:
        out += "\n%s %r %s" % (type(e).__name__, e.args, e)
        if type(e).__module__.startswith("jwkest"):
            out += " %r" % (vars(e),)
        e = e.__cause__ or e.__context__
        n += 1
    return out
