"""Monitoring core: recorded events, oracles, verdicts, evidence.

A property module defines

  RULE      how cases are made and when one counts as non-trivial
  GROUPS    list of Group(name, fn, quick, thorough): fn(ctx, i) is one case,
            deterministic in (seed, property, group, i)
  MINIMUM   {event name: least count}: below it the run is inconclusive
  ASSUME    list of assumptions for the evidence file
  known(v)  optional: name of the known finding that violation v is, or None

Verdicts are three-valued: held on everything observed (exit 0), violated
(exit 1, VIOLATION line with a replay file), inconclusive (exit 2: harness
error, watchdog, or the deciding events were not reached).
"""
import collections
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

from vmon import ref

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
SRC = os.path.join(REPO, "src") + os.sep
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VMON_WORK", "/tmp")
CPU_LIMIT = 40.0        # per library call, CPU seconds (not wall)

Group = collections.namedtuple("Group", "name fn quick thorough")


def boost(groups, factor):
    """more quick cases in every group that has more to give"""
    return [g._replace(quick=min(g.thorough, g.quick * factor)) for g in groups]


class NoAnswer(BaseException):
    """A library call used up its CPU limit."""


class Abort(Exception):
    """The oracle found a violation that makes the rest of the case moot."""


class HarnessError(Exception):
    pass


UNREADABLE = (KeyError, IndexError, TypeError, AttributeError, ValueError, OverflowError,
              ref.Bad)


class Outcome(object):
    """What a call of the code under observation did."""
    __slots__ = ("ok", "value", "exc", "label")

    def __init__(self, label, ok, value=None, exc=None):
        self.label, self.ok, self.value, self.exc = label, ok, value, exc

    @property
    def kind(self):
        return "return" if self.ok else "raise:" + type(self.exc).__name__

    def __repr__(self):
        return "<%s returned %s>" % (self.label, short(self.value)) if self.ok \
            else "<%s raised %s: %s>" % (self.label, type(self.exc).__name__,
                                         short(str(self.exc)))


def short(x, n=300):
    try:
        s = x if isinstance(x, str) else repr(x)
    except Exception as err:
        s = "<unprintable %s: %r>" % (type(x).__name__, err)
    return s if len(s) <= n else "%s...[%d]" % (s[:n], len(s))


def _alarm(signum, frame):
    raise NoAnswer()


def from_library(tb):
    """Whether the innermost frames of a traceback are the code under observation
    (or something it called) rather than the harness."""
    last = None
    for frame, _ in traceback.walk_tb(tb):
        fn = os.path.realpath(frame.f_code.co_filename)
        if fn.startswith(SRC) or fn.startswith(os.path.join(REPO, "script")):
            last = "lib"
        elif fn.startswith(ROOT):
            last = "harness"
    return last == "lib"


class Ctx(object):
    def __init__(self, prop, group, index, seed, tier, verbose=False):
        self.prop, self.group, self.index = prop, group, index
        self.seed, self.tier, self.verbose = seed, tier, verbose
        self.rng = random.Random("%s:%s:%s:%s" % (seed, prop, group, index))
        self.events = collections.Counter()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.last = None

    # -- events -------------------------------------------------------------

    def event(self, name, n=1):
        self.events[name] += n

    def call(self, label, fn, *args, **kwargs):
        """Call the code under observation; record call and return."""
        self.events[label + ".call"] += 1
        signal.signal(signal.SIGVTALRM, _alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        try:
            try:
                val = fn(*args, **kwargs)
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            out = Outcome(label, True, val)
        except NoAnswer:
            self.violation("no answer from %s within %d s of CPU time" % (
                label, CPU_LIMIT), args=short(args), mechanism="hang:" + label)
            raise Abort()
        except Exception as err:
            out = Outcome(label, False, exc=err)
        except RecursionError as err:      # an Exception, listed for clarity
            out = Outcome(label, False, exc=err)
        self.events["%s.%s" % (label, out.kind)] += 1
        self.last = out
        if self.verbose:
            print("  event %s(%s) -> %r" % (label, short(args, 200), out))
        return out

    def must(self, label, fn, *args, **kwargs):
        """As call, where the specification requires a result."""
        out = self.call(label, fn, *args, **kwargs)
        if not out.ok:
            tb = "".join(traceback.format_exception(
                type(out.exc), out.exc, out.exc.__traceback__))[-1500:]
            self.violation("%s raised %s: %s" % (
                label, type(out.exc).__name__, short(str(out.exc))),
                args=short(args), trace=tb, mechanism="raise:" + label)
            raise Abort()
        return out.value

    # -- oracles ------------------------------------------------------------

    def case(self, *what):
        """Register one evaluated, non-trivial case by its content."""
        self.evaluations += 1
        h = hashlib.blake2b(repr(what).encode("utf-8", "backslashreplace"),
                            digest_size=8).digest()
        self.distinct.add(h)
        if len(self.samples) < 3:
            self.samples.append(short([short(w, 160) for w in what], 600))

    def check(self, cond, message, **detail):
        """One oracle decision."""
        self.events["oracle.decisions"] += 1
        if not cond:
            self.violation(message, **detail)
        return bool(cond)

    def need(self, cond, message, **detail):
        if not self.check(cond, message, **detail):
            raise Abort()

    def violation(self, message, mechanism=None, **detail):
        v = {"property": self.prop, "group": self.group, "index": self.index,
             "seed": self.seed, "tier": self.tier, "message": message,
             "mechanism": mechanism or message.split(":")[0][:60],
             "detail": dict((k, short(v, 2000)) for k, v in detail.items())}
        if self.verbose:
            print("  VIOLATED %s %s" % (message, v["detail"]))
        self.violations.append(v)

    def result(self):
        return dict(events=self.events, evaluations=self.evaluations,
                    distinct=self.distinct, samples=self.samples,
                    violations=self.violations)


def run_case(prop, group, index, seed, tier, verbose=False):
    """-> Ctx, harness error text or None"""
    ctx = Ctx(prop, group.name, index, seed, tier, verbose)
    try:
        group.fn(ctx, index)
    except Abort:
        pass
    except NoAnswer:
        return ctx, "stray CPU alarm"
    except Exception as err:
        tb = "".join(traceback.format_exception(type(err), err,
                                                err.__traceback__))[-3000:]
        if from_library(err.__traceback__):
            ctx.violation("unexpected %s: %s" % (type(err).__name__,
                                                 short(str(err))),
                          trace=tb, mechanism="unexpected:%s" %
                          type(err).__name__)
        elif ctx.last is not None and isinstance(err, UNREADABLE):
            # a result that the oracle cannot even take apart: on the tree it was
            # written for every result of every case has the documented shape
            ctx.violation("the oracle can not read a result (%s: %s)" % (
                type(err).__name__, short(str(err))), trace=tb, last=ctx.last,
                mechanism="unreadable:%s" % type(err).__name__)
        elif not ctx.violations:
            return ctx, tb
    return ctx, None
