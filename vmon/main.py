"""python -m vmon.main Cxx [quick|thorough] | --replay FILE | --selftest"""
import collections
import importlib
import json
import logging
import multiprocessing
import os
import random
import sys
import time

from vmon import core
from vmon.catalog import P

WALL_STOP = {"quick": 600, "thorough": 800}     # stop handing out cases
STALL = 240                                    # no unit finished: inconclusive


def load(pid):
    import jwkest
    got = os.path.realpath(jwkest.__file__)
    if not got.startswith(core.SRC):
        raise core.HarnessError("jwkest comes from %s, not %s" % (got, core.SRC))
    return importlib.import_module("vmon.props." + pid.lower())


def known_findings():
    """-> {(property, mechanism): text} of the findings that are not repaired"""
    res = {}
    with open(os.path.join(core.ROOT, "known_findings.txt")) as f:
        for line in f:
            if line.startswith("finding: "):
                fields = line[len("finding: "):].split(None, 2)
                pid = fields[0].partition("=")[2]
                mech = fields[1].partition("=")[2]
                res[(pid, mech)] = fields[2].strip()
    return res


_mod = None


def _init(pid):
    global _mod
    logging.getLogger().addHandler(logging.NullHandler())
    _mod = load(pid)
    sys.setrecursionlimit(3000)


def _unit(arg):
    pid, gi, indices, seed, tier = arg
    group = _mod.GROUPS[gi]
    tot = dict(events=collections.Counter(), evaluations=0, distinct=set(),
               samples=[], violations=[], errors=[], group=group.name,
               cases=len(indices))
    for i in indices:
        ctx, err = core.run_case(pid, group, i, seed, tier)
        r = ctx.result()
        tot["events"].update(r["events"])
        tot["evaluations"] += r["evaluations"]
        tot["distinct"] |= r["distinct"]
        if len(tot["samples"]) < 2:
            tot["samples"].extend(r["samples"][:2])
        tot["violations"].extend(r["violations"])
        if err:
            tot["errors"].append("%s/%s: %s" % (group.name, i, err))
        if any(v["mechanism"].startswith("hang:") for v in r["violations"]):
            break
    return tot


def run(pid, tier, seed):
    t0 = time.time()
    mod = load(pid)
    units = []
    for gi, g in enumerate(mod.GROUPS):
        n = g.quick if tier == "quick" else g.thorough
        size = max(1, min(getattr(mod, "CHUNK", 25), n // 16))
        for a in range(0, n, size):
            units.append((pid, gi, list(range(a, min(n, a + size))), seed, tier))
    random.Random(0).shuffle(units)
    serial = getattr(mod, "SERIAL", False)
    events, distinct, samples = collections.Counter(), set(), {}
    violations, errors, evaluations, done = [], [], 0, 0
    cases = collections.Counter()
    findings, known = known_findings(), {}
    truncated = stalled = False
    nproc = 1 if serial else min(8, max(2, os.cpu_count() or 2))
    pool = multiprocessing.get_context("fork").Pool(
        getattr(mod, "PROCESSES", nproc), _init, (pid,))
    try:
        it = pool.imap_unordered(_unit, units)
        while done < len(units):
            try:
                r = it.next(timeout=STALL)
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                stalled = True
                break
            done += 1
            events.update(r["events"])
            distinct |= r["distinct"]
            evaluations += r["evaluations"]
            cases[r["group"]] += r["cases"]
            s = samples.setdefault(r["group"], [])
            if len(s) < 2:
                s.extend(r["samples"][:2 - len(s)])
            for v in r["violations"]:
                k = (pid, v["mechanism"])
                if k in findings:
                    known[k] = known.get(k, 0) + 1
                else:
                    violations.append(v)
            errors.extend(r["errors"])
            if len(violations) > 20 or len(errors) > 20 or any(
                    v["mechanism"].startswith("hang:") for v in violations):
                break
            if time.time() - t0 > WALL_STOP[tier]:
                truncated = True
                break
    finally:
        pool.terminate()
        pool.join()
    if hasattr(mod, "finish"):
        mod.finish(events)

    fresh = violations
    missing = ["%s=%d<%d" % (k, events[k], n)
               for k, n in getattr(mod, "MINIMUM", {}).items() if events[k] < n]

    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": evaluations, "distinct_nontrivial": len(distinct),
              "rule": mod.RULE,
              "samples": [{"group": g, "case": c} for g in sorted(samples)
                          for c in samples[g]],
              "cases_per_group": dict(cases),
              "events_observed": dict(sorted(events.items())),
              "explanation": "events_observed counts calls, returns and "
              "exceptions of the real code as seen by the monitor, and oracle "
              "decisions made on them",
              "units_done": done, "units_planned": len(units),
              "truncated_by_clock": truncated,
              "known_findings_seen": dict(("%s" % k[1], n)
                                          for k, n in known.items())},
          "assumptions": list(getattr(mod, "ASSUME", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(core.ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(core.ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    for k in sorted(known):
        print("KNOWN-FINDING: property=%s mechanism=%s %s" % (
            pid, k[1], findings[k]))
    if fresh:
        os.makedirs(os.path.join(core.ROOT, "replays"), exist_ok=True)
        seen = set()
        fresh.sort(key=lambda v: (v["group"], v["index"], v["message"]))
        for v in fresh:
            if v["mechanism"] in seen:
                continue
            seen.add(v["mechanism"])
            if len(seen) > 5:
                break
            path = os.path.join(core.ROOT, "replays", "%s-%s-%s.json" % (
                pid, v["group"], v["index"]))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("%s: %s [%s %s]" % (pid, v["message"], v["group"], v["index"]))
            for k, d in sorted(v["detail"].items()):
                print("    %s: %s" % (k, core.short(d, 600)))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        print("INCONCLUSIVE property=%s harness error: %s" % (pid, errors[0]))
        return 2
    if stalled:
        print("INCONCLUSIVE property=%s no progress for %d s" % (pid, STALL))
        return 2
    if missing:
        print("INCONCLUSIVE property=%s too few events: %s" % (
            pid, ", ".join(missing)))
        return 2
    print("held property=%s tier=%s seed=%s cases=%d distinct=%d decisions=%d "
          "wall=%.1fs" % (pid, tier, seed, evaluations, len(distinct),
                          events["oracle.decisions"], time.time() - t0))
    return 0


def replay(path):
    with open(path) as f:
        v = json.load(f)
    mod = load(v["property"])
    group = [g for g in mod.GROUPS if g.name == v["group"]][0]
    ctx, err = core.run_case(v["property"], group, v["index"], v["seed"],
                             v["tier"], verbose=True)
    if err:
        print(err)
        return 2
    for x in ctx.violations:
        print("VIOLATION property=%s replay=%s %s" % (v["property"], path,
                                                      x["message"]))
    return 1 if ctx.violations else 0


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    if argv[:1] == ["--selftest"]:
        from vmon import selftest
        return selftest.main()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return run(pid, tier, seed)
    except core.HarnessError as err:
        print("INCONCLUSIVE property=%s %s" % (pid, err))
        return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
