"""A controlled scheduler: threads run one at a time and are switched at traced
source lines of the code under observation, following a plan that is
deterministic in the random.Random it is given.

Should the running thread block on something (a lock that another one holds),
another thread is let go after a while: no progress is not a verdict by itself.
"""
import hashlib
import os
import sys
import threading
import time

from vmon import core

TICK = 0.05
STALL = 8           # ticks without any traced event before another one is let go
DEAD = 900          # ticks without any traced event before it is called a deadlock


class Stopped(BaseException):
    pass


def place(frame, opcodes=False):
    c = frame.f_code
    return os.path.basename(c.co_filename), c.co_name, frame.f_lineno, \
        frame.f_lasti if opcodes else None


def places(fn, opcodes=False, skip=("elliptic.py",)):
    """run fn and give the places of the library that it passes, in order of first visit"""
    seen = {}
    skip = tuple(os.path.join(core.SRC, "jwkest", s) for s in skip)

    def line(frame, event, arg):
        if event == ("opcode" if opcodes else "line"):
            seen.setdefault(place(frame, opcodes), len(seen))
        return line

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(core.SRC) or f.startswith(skip):
            return None
        if opcodes:
            frame.f_trace_opcodes = True
        return line
    sys.settrace(trace)
    try:
        fn()
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return sorted(seen, key=seen.get)


def visits(fn, skip=()):
    """run fn and give {place of the library that it passes: number of visits}"""
    seen = {}
    skip = tuple(os.path.join(core.SRC, "jwkest", s) for s in skip)

    def line(frame, event, arg):
        if event == "line":
            p = place(frame)
            seen[p] = seen.get(p, 0) + 1
        return line

    def trace(frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(core.SRC) or skip and f.startswith(skip):
            return None
        return line
    sys.settrace(trace)
    try:
        fn()
    except Exception:
        pass
    finally:
        sys.settrace(None)
    return seen


class Sched(object):
    def __init__(self, rng, plan, skip=("elliptic.py",), opcodes=False):
        """plan: ("points", set of step numbers) | ("prob", p)
        | ("site", place): the first thread is preempted once, where it first reaches the
        place, and goes on when the others have come to their end
        | ("visit", place, n): the same, where it reaches the place for the n-th time"""
        self.rng, self.plan, self.opcodes = rng, plan, opcodes
        self.skip = tuple(os.path.join(core.SRC, "jwkest", s) for s in skip)
        self.steps = 0
        self.seen = 0
        self.switches = 0
        self.trail = hashlib.blake2b(digest_size=8)
        self.sites = []
        self.progress = 0
        self.lock = threading.Lock()
        self.alive, self.current = [], None
        self.results = {}
        self.done = threading.Event()
        self.stop = False
        self.broken = None

    # -- in the threads ---------------------------------------------------------

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        self.progress += 1
        if not fn.startswith(core.SRC) or fn.startswith(self.skip):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._line

    def _line(self, frame, event, arg):
        try:
            return self._step(frame, event)
        except Exception as err:        # must not look like the library's
            self.broken = err
            return None

    def _step(self, frame, event):
        self.progress += 1
        if event != ("opcode" if self.opcodes else "line"):
            return self._line
        me = threading.get_ident()
        if self.stop:
            raise Stopped()
        if self.current != me:           # was let go although it was blocked
            self._wait(me)
        self.steps += 1
        if self._now(me, frame):
            others = sorted((t for t in self.alive if t != me), key=self.names.get)
            if others:
                nxt = self.rng.choice(others)
                self.switches += 1
                self.trail.update(("%d %s:%s>%d;" % (
                    self.names[me], os.path.basename(frame.f_code.co_filename), frame.f_lineno,
                    self.names[nxt])).encode())
                if len(self.sites) < 4:
                    self.sites.append("%s:%s" % (os.path.basename(frame.f_code.co_filename),
                                                 frame.f_lineno))
                self._give(nxt)
                self._wait(me)
        return self._line

    def _now(self, me, frame):
        k = self.plan[0]
        if k == "site":
            if self.switches or self.names[me] or place(frame, self.opcodes) != self.plan[1]:
                return False
            return True
        if k == "visit":
            if self.switches or self.names[me] or place(frame, self.opcodes) != self.plan[1]:
                return False
            self.seen += 1
            return self.seen == self.plan[2]
        if k == "points":
            return self.steps in self.plan[1]
        return self.rng.random() < self.plan[1]

    def _give(self, who):
        self.current = who
        self.sems[who].release()

    def _wait(self, me):
        while True:
            self.sems[me].acquire()
            if self.stop:
                raise Stopped()
            if self.current == me:
                return

    def _body(self, n, fns):
        me = threading.get_ident()
        self.ready.acquire()
        self.names[me] = n
        self.alive.append(me)
        self.sems[me] = threading.Semaphore(0)
        self.ready.notify_all()
        self.ready.release()
        res = self.results[n] = []
        try:
            self._wait(me)
            for label, fn in fns:
                sys.settrace(self._trace)
                try:
                    out = core.Outcome(label, True, fn())
                except Exception as err:
                    out = core.Outcome(label, False, exc=err)
                finally:
                    sys.settrace(None)
                if self.current != me:
                    self._wait(me)
                res.append(out)
        except Stopped:
            pass
        finally:
            self.alive.remove(me)
            if self.alive:
                if self.current == me:
                    self._give(self.rng.choice(sorted(self.alive, key=self.names.get)))
            else:
                self.done.set()

    # -- from outside -----------------------------------------------------------

    def run(self, jobs):
        """jobs: one list of (label, function) per thread -> True, or False for a deadlock"""
        self.names, self.sems = {}, {}
        self.ready = threading.Condition()
        threads = [threading.Thread(target=self._body, args=(n, fns), daemon=True)
                   for n, fns in enumerate(jobs)]
        with self.ready:
            for n, t in enumerate(threads):
                t.start()
                while len(self.alive) < n + 1:
                    self.ready.wait(1)
        order = sorted(self.alive, key=self.names.get)
        self._give(order[0] if self.plan[0] in ("site", "visit") else self.rng.choice(order))
        last, still = -1, 0
        while not self.done.wait(TICK):
            if self.progress != last:
                last, still = self.progress, 0
                continue
            still += 1
            if still >= DEAD:
                self.stop = True
                for s in list(self.sems.values()):
                    s.release()
                self.done.wait(5)
                return False
            if still % STALL == 0:
                others = sorted((t for t in list(self.alive) if t != self.current),
                                key=self.names.get)
                if others:
                    self._give(others[(still // STALL) % len(others)])
        for t in threads:
            t.join(10)
        if self.broken:
            raise core.HarnessError("scheduler: %r" % self.broken)
        return True


def free(jobs, interval=1e-6):
    """the same without control: real preemption, as fast as the interpreter switches"""
    results = dict((n, []) for n in range(len(jobs)))
    barrier = threading.Barrier(len(jobs))

    def body(n, fns):
        barrier.wait()
        for label, fn in fns:
            try:
                out = core.Outcome(label, True, fn())
            except Exception as err:
                out = core.Outcome(label, False, exc=err)
            results[n].append(out)
    old = sys.getswitchinterval()
    sys.setswitchinterval(interval)
    try:
        threads = [threading.Thread(target=body, args=(n, fns), daemon=True)
                   for n, fns in enumerate(jobs)]
        for t in threads:
            t.start()
        end = time.process_time() + 120
        for t in threads:
            while t.is_alive():
                t.join(1)
                if time.process_time() > end:
                    return None
    finally:
        sys.setswitchinterval(old)
    return results
