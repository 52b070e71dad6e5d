#!/usr/bin/env python3
"""Validate planted bugs under seeded/ and run checks against them, in a scratch copy of /repo.

    python3 tools/seedcheck.py [--no-checks] [--tier quick] [--all-checks] ID...
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PY = "/opt/venv/bin/python"
BASE = "4e8a077"


def run(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def tests(copy):
    """Stable tests that do not pass in the scratch copy."""
    xml = os.path.join(copy, "..", "o.xml")
    res = os.path.join(copy, "..", "o.json")
    run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors",
         "-o", "junit_family=xunit2", "--junitxml=" + xml, "tests"], copy,
        {"PYTHONPATH": copy + "/src", "PYTHONHASHSEED": "0",
         "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1", "PYTHONDONTWRITEBYTECODE": "1"})
    run(["/usr/bin/python3", "/opt/vp/results.py", res, "junit:" + xml], copy)
    got = json.load(open(res))
    base = json.load(open("/opt/vp/BASELINE.json"))

    def names(x):
        for k in ("stable", "passed", "pass", "tests"):
            if k in x:
                return set(x[k])
        return set(x)
    return sorted(names(base) - names(got))


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    flags = [a for a in sys.argv[1:] if a.startswith("--")]
    tier = "thorough" if "--thorough" in flags else "quick"
    ids = args or sorted(os.listdir(os.path.join(HERE, "seeded")))
    for i in ids:
        d = os.path.join(HERE, "seeded", i)
        meta = json.load(open(os.path.join(d, "meta.json")))
        tmp = tempfile.mkdtemp(prefix="seed-")
        copy = os.path.join(tmp, "repo")
        lay = os.path.join(tmp, "demo")
        try:
            subprocess.check_call(["cp", "-a", REPO, copy])
            shutil.copytree(d, lay, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
            msgs = []
            if "--no-valid" not in flags:
                rc, out = run(["sh", lay + "/demo.sh"], copy)
                if rc:
                    msgs.append("demo fails unpatched: " + out[-600:])
            rc, out = run(["git", "apply", d + "/patch.diff"], copy)
            if rc:
                print(i, "PATCH DOES NOT APPLY", out)
                continue
            if "--no-valid" not in flags:
                bad = tests(copy)
                if bad:
                    msgs.append("tests fail: %s" % bad[:3])
                rc, out = run(["sh", lay + "/demo.sh"], copy)
                if not rc:
                    msgs.append("demo passes patched")
                last = (out.strip().splitlines() or [""])[-1][:110]
                # are the removed lines those of the base commit?
                n_orig = 0
                for f in subprocess.check_output(["git", "diff", "--name-only"], cwd=copy,
                                                 text=True).split():
                    diff = subprocess.check_output(["git", "diff", "-U0", f], cwd=copy,
                                                   text=True)
                    bl = subprocess.check_output(["git", "blame", "-s", "HEAD", "--", f],
                                                 cwd=REPO, text=True).splitlines()
                    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", diff, re.M):
                        a, c = int(m.group(1)), int(m.group(2) or 1)
                        for k in range(a, a + c):
                            if bl[k - 1].startswith("^"):
                                n_orig += 1
                            else:
                                msgs.append("changes own line %s:%d" % (f, k))
                if not n_orig:
                    msgs.append("no original line changed")
            else:
                last = ""
            print(i, "VALID" if not msgs else "INVALID " + "; ".join(msgs), "|", last,
                  flush=True)
            if "--no-checks" in flags:
                continue
            props = [meta["property"]]
            if "--all-checks" in flags:
                props = ["C%02d" % k for k in range(1, 27)]
            for p in props:
                rc, out = run(["sh", HERE + "/run.sh", p, tier], HERE, {"VERIF_REPO": copy},
                              1000)
                line = [x for x in out.splitlines() if re.match(r"C\d\d: |held|INCON", x)]
                if "--all-checks" in flags and rc == 0:
                    continue
                print("   ", p, {0: "MISSED", 1: "caught"}.get(rc, "exit %d" % rc),
                      (line or [""])[0][:150], flush=True)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
