"""Running the command line tools: as real child processes, or (faster) in a forked copy of
the worker with everything imported already."""
import os
import resource
import subprocess
import sys
import time

from vmon import core

CPU = 40


class Result(object):
    def __init__(self, argv, code, out, err):
        self.argv, self.code, self.out, self.err = argv, code, out, err

    def __repr__(self):
        return "<%s: exit %s, stdout %s, stderr %s>" % (
            self.argv, self.code, core.short(self.out, 300), core.short(self.err[-600:], 600))


def _child(script, argv, cwd, files, env):
    code = 120
    try:
        import io
        import logging
        import runpy
        import signal
        import traceback
        import warnings
        resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5))
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        for fd, f in enumerate(files):
            os.dup2(f.fileno(), fd)
        warnings.simplefilter("ignore")
        logging.getLogger().handlers[:] = []
        sys.stdin = io.TextIOWrapper(io.FileIO(0, closefd=False), encoding="utf-8")
        sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), encoding="utf-8")
        sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), encoding="utf-8",
                                      errors="backslashreplace")
        os.chdir(cwd)
        os.environ.update(env)
        sys.argv = [script] + list(argv)
        sys.path.insert(0, os.path.dirname(script))
        # whoever knows the state of the general-purpose generator learns nothing
        import random
        random.seed(7)
        try:
            runpy.run_path(script, run_name="__main__")
            code = 0
        except SystemExit as e:
            if e.code is None:
                code = 0
            elif isinstance(e.code, int):
                code = e.code & 0xff
            else:
                sys.stderr.write("%s\n" % (e.code,))
                code = 1
        except BaseException:
            traceback.print_exc()
            code = 1
        logging.shutdown()
        sys.stdout.flush()
        sys.stderr.flush()
    except BaseException:
        code = 121
    finally:
        os._exit(code)


class Bench(object):
    """a scratch directory and the tools run in it"""

    def __init__(self, ctx, cwd):
        self.ctx, self.cwd, self.n = ctx, cwd, 0

    def path(self, name):
        return os.path.join(self.cwd, name)

    def put(self, text, suffix=".txt"):
        self.n += 1
        name = "in%d%s" % (self.n, suffix)
        with open(self.path(name), "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
        return name

    def get(self, name):
        with open(self.path(name), "rb") as f:
            return f.read()

    def run(self, tool, *argv, **kw):
        ctx = self.ctx
        stdin = kw.get("stdin", b"")
        real = ctx.rng.random() < kw.get("real", .08)
        script = os.path.join(core.REPO, "script", tool + ".py")
        argv = [str(a) for a in argv]
        self.n += 1
        names = [self.path("%s%d" % (x, self.n)) for x in ("stdin", "stdout", "stderr")]
        with open(names[0], "wb") as f:
            f.write(stdin if isinstance(stdin, bytes) else stdin.encode("utf-8"))
        files = [open(names[0], "rb"), open(names[1], "wb"), open(names[2], "wb")]
        ctx.event("run %s" % tool)
        try:
            if real:
                ctx.event("separate process")
                p = subprocess.Popen(
                    [sys.executable, script] + argv, cwd=self.cwd, stdin=files[0],
                    stdout=files[1], stderr=files[2], env=dict(os.environ),
                    preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CPU, (CPU, CPU + 5)))
                try:
                    code = p.wait(200)
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    raise core.HarnessError("a tool did not end: %s %s" % (tool, argv))
            else:
                sys.stdout.flush()
                sys.stderr.flush()
                pid = os.fork()
                if pid == 0:
                    _child(script, argv, self.cwd, files, kw.get("env", {}))
                t0 = time.time()
                while True:
                    p, st = os.waitpid(pid, os.WNOHANG)
                    if p:
                        break
                    if time.time() - t0 > 200:
                        os.kill(pid, 9)
                        os.waitpid(pid, 0)
                        raise core.HarnessError("a tool did not end: %s %s" % (tool, argv))
                    time.sleep(.001)
                code = os.waitstatus_to_exitcode(st)
        finally:
            for f in files:
                f.close()
        with open(names[1], "rb") as f:
            out = f.read().decode("utf-8", "backslashreplace")
        with open(names[2], "rb") as f:
            err = f.read().decode("utf-8", "backslashreplace")
        r = Result([tool] + argv, code, out, err)
        if code in (120, 121):
            raise core.HarnessError("cannot run %r" % r)
        if ctx.verbose:
            print("  event %r" % r)
        if code in (-24, -9):
            ctx.violation("no answer from %s within %d s of CPU time" % (tool, CPU),
                          mechanism="hang:" + tool, argv=argv)
            raise core.Abort()
        ctx.event("exit 0" if code == 0 else "exit nonzero")
        return r
