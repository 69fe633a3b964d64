"""Planting bugs: seed.py make SRC.py | seed.py try ID… | seed.py all

`make` reads definitions (a list SEEDS of dicts id, property, file, edits
[(old, new)…], needs, breaks, demo) and writes seeded/<id>/ after confirming in a
scratch copy of /repo that the tests pass with the change and that the
demonstration tells the changed code from the unchanged.  `try` runs the
property's quick check against a scratch copy with the change.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
ENV = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
ENV.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1", TZ="UTC")
BASE = "09add75"


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    shutil.rmtree(d)
    shutil.copytree("/repo", d, ignore=shutil.ignore_patterns("__pycache__"))
    return d


def run(cmd, cwd, **env):
    return subprocess.run(cmd, cwd=cwd, env=dict(ENV, **env), capture_output=True, text=True, timeout=900)


def tests(d):
    x = os.path.join(d, "junit.xml")
    run([PY, "-W", "ignore", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "--timeout=120",
         "-o", "junit_family=xunit2", "--junitxml=" + x, "test"], d)
    out = x + ".json"
    run(["/usr/bin/python3", "/opt/vp/results.py", out, "junit:" + x], d)
    got = json.load(open(out))
    base = json.load(open("/opt/vp/BASELINE.json"))

    def names(o):
        for k in ("stable", "passed", "pass", "tests"):
            if isinstance(o.get(k), list):
                return set(map(str, o[k]))
    return sorted(names(base) - names(got))


def demo(d, folder):
    return run(["bash", os.path.join(folder, "demo.sh")], d).returncode


DEMO_SH = """#!/bin/bash
# run with cwd at the repository: 0 when the behaviour is right
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def original_lines(f, edits):
    """the lines taken away must be lines of the original repository"""
    orig = subprocess.run(["git", "-C", "/repo", "show", f"{BASE}:{f}"], capture_output=True, text=True).stdout.splitlines()
    orig = {line.strip() for line in orig}
    bad = []
    for old, new in edits:
        new_l = new.splitlines()
        for line in old.splitlines():
            if line not in new_l and line.strip() and line.strip() not in orig:
                bad.append(line)
    return bad


def make(s):
    folder = os.path.join(SEEDED, s["id"])
    d = copy()
    try:
        files = s["edits"] if isinstance(s["edits"], dict) else {s["file"]: s["edits"]}
        for f, edits in files.items():
            f = "curvepy/" + f
            bad = original_lines(f, edits)
            if bad:
                print(s["id"], "changes a line that is not original:", bad)
            p = os.path.join(d, f)
            src = open(p).read()
            for old, new in edits:
                assert src.count(old) == 1, (s["id"], src.count(old), old)
                src = src.replace(old, new)
            open(p, "w").write(src)
        diff = run(["git", "diff", "--", "curvepy"], d).stdout
        tmp = tempfile.mkdtemp()
        open(tmp + "/demo.sh", "w").write(DEMO_SH)
        open(tmp + "/demo.py", "w").write(s["demo"].lstrip())
        miss = tests(d)
        bad = demo(d, tmp)
        good = demo("/repo", tmp)
        ok = not miss and bad != 0 and good == 0
        print(s["id"], "OK" if ok else f"NOT KEPT: tests missing {miss[:4]} demo changed={bad} unchanged={good}")
        if ok:
            shutil.rmtree(folder, ignore_errors=True)
            os.makedirs(folder)
            open(folder + "/patch.diff", "w").write(diff)
            for n in ("demo.sh", "demo.py"):
                shutil.copy(tmp + "/" + n, folder)
            json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                      open(folder + "/meta.json", "w"), indent=1)
        elif not good == 0 or bad == 0:
            print(run([PY, "-W", "ignore", tmp + "/demo.py"], "/repo", PYTHONPATH="/repo").stderr[-600:])
        shutil.rmtree(tmp)
        return ok
    finally:
        shutil.rmtree(d)


def attempt(sid, props=None, seed=None):
    folder = os.path.join(SEEDED, sid)
    meta = json.load(open(folder + "/meta.json"))
    d = copy()
    try:
        r = run(["git", "apply", folder + "/patch.diff"], d)
        if r.returncode:
            print(sid, "patch does not apply", r.stderr[:200])
            return
        for p in props or [meta["property"]]:
            r = run([ROOT + "/check", p, "quick"] + (["--seed", seed] if seed else []), ROOT, CURVEPY_REPO=d)
            v = [line for line in r.stdout.splitlines() if line.startswith(("VIOLATION", "  "))]
            print(sid, p, "CAUGHT" if r.returncode == 1 else f"missed (exit {r.returncode})", (v[-1] if v else r.stderr[-200:])[:200], flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "make":
        ns = {}
        exec(open(args[0]).read(), ns)
        kept = [s["id"] for s in ns["SEEDS"] if (len(args) < 2 or s["id"] in args[1:]) and make(s)]
        print("kept", " ".join(kept))
    elif cmd == "try":
        for a in args:
            attempt(a)
    elif cmd == "cross":
        attempt(args[0], args[1:])
    elif cmd == "all":
        for a in sorted(os.listdir(SEEDED)):
            attempt(a)
