"""Running TLC: on recorded traces, and on the exhaustive models."""
import json
import os
import re
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]


class TlcError(Exception):
    pass


def tlc(module, cfg, env=None, workers=8, heap="6g", extra=(), timeout=800):
    """run TLC; returns its output"""
    meta = tempfile.mkdtemp(prefix="tlc-")
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss64m", "-cp", ":".join(JARS), "tlc2.TLC",
           "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg, *extra, module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env={**os.environ, **(env or {})}, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    finally:
        shutil.rmtree(meta, ignore_errors=True)


STATES = re.compile(r"(\d+) states generated.*?(\d+) distinct states found", re.S)


def check_traces(traces, workers=8, timeout=800, module="Trace"):
    """check recorded traces; returns dict(viols, generated, distinct)"""
    d = tempfile.mkdtemp(prefix="traces-")
    try:
        path = os.path.join(d, "t.ndjson")
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(t) + "\n")
        rc, out = tlc(module + ".tla", module + ".cfg", {"TRACE": path}, workers=workers, timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    viols = []
    for m in re.finditer(r'^"VIOL <<(.*)>>"$', out, re.M):
        body = m.group(1).replace('\\"', '"')
        mm = re.match(r'"([^"]*)", (\d+), (.*)', body)
        viols.append((mm.group(1), int(mm.group(2)), mm.group(3)))
    m = None
    for m in STATES.finditer(out):
        pass
    done = "Model checking completed" in out
    if not done or rc != 0 or m is None:
        return {"viols": viols, "generated": 0, "distinct": 0, "error": out[-6000:]}
    res = {"viols": viols, "generated": int(m.group(1)), "distinct": int(m.group(2)), "error": None,
           "weak": out.count('\n"WEAK ')}
    if not viols:
        want = sum(len(t["ev"]) + 1 for t in traces)
        if res["distinct"] != want:
            res["error"] = f"TLC visited {res['distinct']} states, expected {want}\n" + out[-3000:]
    return res


def find_error(traces, workers=8, module="Trace"):
    """TLC could not evaluate some trace: find one"""
    ts = list(traces)
    while len(ts) > 1:
        a, b = ts[:len(ts) // 2], ts[len(ts) // 2:]
        r = check_traces(a, workers, module=module)
        ts = a if r["error"] else b
    return ts[0], check_traces(ts, workers, module=module)
