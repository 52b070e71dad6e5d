"""Audit-hook monitor: what a call of the code under observation does outside its
own process memory (network, files, processes)."""
import sys

_watch = None
_installed = False
WANTED = ("socket.connect", "socket.getaddrinfo", "socket.gethostbyname", "socket.bind",
          "socket.sendto", "http.client.connect", "urllib.Request", "subprocess.Popen",
          "os.system", "os.exec", "os.posix_spawn", "ftplib.connect")


def _hook(event, args):
    w = _watch
    if w is None:
        return
    if event in WANTED:
        w.append((event, repr(args)[:200]))
    elif event == "open":
        path = args[0]
        if isinstance(path, bytes):
            path = path.decode("utf-8", "replace")
        if isinstance(path, str) and not path.endswith((".py", ".pyc", ".so")):
            w.append((event, path[:200]))


class Watch(object):
    """with Watch() as w: ...; w.seen is a list of (event, arguments)"""

    def __enter__(self):
        global _watch, _installed
        if not _installed:
            sys.addaudithook(_hook)
            _installed = True
        self.seen = _watch = []
        return self

    def __exit__(self, *exc):
        global _watch
        _watch = None
        return False
