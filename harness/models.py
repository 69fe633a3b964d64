"""Models which TLC explores; every behaviour it finds is replayed on the code.

A model is a module of spec/ which checks its own invariants and prints each
finished history (HIST ...) with the answers the specification gives.  A driver
here performs the operations on the code and compares.
"""
import functools
import json
import multiprocessing
import os
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ProcessPoolExecutor

import tlc

HIST = re.compile(r'^"HIST (.*)"$')
MEAN = re.compile(r'^"MEAN (.*)"$')
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")
SIM = re.compile(r"Progress: ([\d,]+) states checked|The number of states generated: ([\d,]+)")


def explore(module, constants, invariants, workers=8, sim=None, seed=1, timeout=800, heap="8g", env=None, properties=(), spec="Spec", pattern=HIST):
    """run TLC on a model: (histories, states generated, distinct states)"""
    d = tempfile.mkdtemp(prefix="model-")
    try:
        cfg = os.path.join(d, "m.cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION {spec}\n" + ("CONSTANTS\n" if constants else ""))
            for k, v in constants.items():
                f.write(f"  {k} = {v}\n")
            f.write("INVARIANTS " + " ".join(invariants) + "\nCHECK_DEADLOCK FALSE\n")
            if properties:
                f.write("PROPERTIES " + " ".join(properties) + "\n")
        out = os.path.join(d, "out")
        cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-Xss64m", "-cp", ":".join(tlc.JARS), "tlc2.TLC",
               "-metadir", os.path.join(d, "meta"), "-workers", str(workers), "-noGenerateSpecTE", "-config", cfg]
        if sim:
            cmd += ["-simulate", f"num={sim[0]}", "-depth", str(sim[1]), "-seed", str(seed)]
        cmd.append(module + ".tla")
        with open(out, "w") as f:
            p = subprocess.run(cmd, cwd=tlc.SPEC, stdout=f, stderr=subprocess.STDOUT, timeout=timeout,
                               env={**os.environ, **(env or {})})
        hists, rest = [], []
        with open(out) as f:
            for line in f:
                m = pattern.match(line)
                if m:
                    hists.append(m.group(1).replace('\\"', '"'))
                else:
                    rest.append(line)
        text = "".join(rest)
        if p.returncode != 0 or "Error:" in text:
            raise RuntimeError(f"TLC on {module}:\n" + text[-3000:])
        m = STATES.search(text)
        if m:
            gen, dis = int(m.group(1)), int(m.group(2))
        else:
            gen = dis = max([int((a or b).replace(",", "")) for a, b in SIM.findall(text)] or [0])
        return hists, gen, dis
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _drive(args):
    name, lines = args
    bad = []
    for line in lines:
        h = json.loads(line)
        what = DRIVERS[name](h)
        if what:
            bad.append((what, h))
            if len(bad) > 5:
                break
    return bad, len(lines)


def replay_all(c, name, hists, workers=8):
    """run every history on the code"""
    step = max(50, min(2000, len(hists) // (workers * 4) + 1))
    jobs = [(name, hists[i:i + step]) for i in range(0, len(hists), step)]
    ctx = multiprocessing.get_context("fork")
    n = 0
    with ProcessPoolExecutor(workers, mp_context=ctx) as ex:
        for bad, k in ex.map(_drive, jobs):
            n += k
            for what, h in bad:
                c.violations.append((what, {"model": name, "history": h}))
    c.traces += n
    c.count(f"{name}_histories_replayed", n)
    if hists:
        c.samples.append({"model": name, "history": json.loads(hists[len(hists) // 2])})


def run_model(c, name, module, constants, invariants, **kw):
    hists, gen, dis = explore(module, constants, invariants, **kw)
    if not hists:
        raise RuntimeError(f"{module} found no histories")
    hists = sorted(set(hists))
    c.states += dis
    c.transitions += max(gen - 1, 0)
    c.count(f"{name}_model_states", dis)
    replay_all(c, name, hists)


# ---------------------------------------------------------------- observer registry
class _Callable:
    def __init__(self, f):
        self.f = f


class _Takes(_Callable):
    def __call__(self, domain):
        self.f(domain)

    def tell(self, domain):
        self.f(domain)


class _TakesNone(_Callable):
    def __call__(self):
        self.f(None)

    def tell(self):
        self.f(None)


class _Obj:
    """something observers can be registered for"""


def callback(f, how, form):
    """f(interval or None) in one of the ways a callback can be written"""
    if how == "":
        return None
    if how == "i":
        return [lambda d: f(d), lambda d, *, x=1: f(d), _Takes(f), _Takes(f).tell, functools.partial(lambda a, d: f(d), 1)][form % 5]
    return [lambda: f(None), lambda *, x=1: f(None), _TakesNone(f), _TakesNone(f).tell, functools.partial(lambda a: f(None), 1)][form % 5]


def registry(hist):
    import world    # noqa: F401  (finds the code)
    from curvepy import Points
    from curvepy import Curve
    from intervalpy import Interval
    where = {"A": Interval(0, 2), "B": Interval(5, 7), "AB": Interval(0, 7), "none": Interval.empty()}
    c = Curve() if len(hist) % 2 else Points([(0, 1), (9, 2)])
    other = Points([(0, 1)])
    objs = {1: _Obj(), 2: _Obj()}
    tokens = {}
    log = []
    S = {"made": 0, "tell": None}
    plain = {}

    def add(r, during=False):
        i = S["made"] + 1
        eff = [r["eff"]]

        def act(w):
            e, eff[0] = eff[0], None
            if e is None or e["at"] != w:
                eff[0] = e
                return
            if e["do"] == "tok":
                if e["arg"] in tokens:
                    c.remove_observer(tokens[e["arg"]])
            elif e["do"] == "self":
                c.remove_observer(tokens[i])
            elif e["do"] == "obj":
                if e["arg"] in objs:
                    c.remove_observer(objs[e["arg"]])
            elif e["do"] == "drop":
                objs.pop(e["arg"], None)
            elif e["do"] == "add":
                add({"obj": 0, "auto": 0, "prio": e["arg"], "b": "i", "e": "i", "d": "all",
                     "eff": {"at": "", "do": "", "arg": 0}}, during=True)

        def note(w, how):
            def f(d):
                if how == "i" and d != where[S["tell"]] or how == "-" and d is not None:
                    log.append([i, w, "wrong"])
                log.append([i, w, how])
                act(w)
            return f
        kw = {}
        rec = None
        if i % 7 == 3 and r["eff"]["do"] == "" and r["b"] != "-" and r["e"] != "-":
            # a built-in function
            rec = ([], [])
            if r["b"]:
                kw["begin"] = rec[0].append
            if r["e"]:
                kw["end"] = rec[1].append
        else:
            b, e = callback(note("b", r["b"]), r["b"], i), callback(note("e", r["e"]), r["e"], i + 1)
            if b is not None or i % 2:
                kw["begin"] = b
            if e is not None or i % 2:
                kw["end"] = e
        if r["d"] != "all":
            kw["domain"] = where[r["d"]]
        elif i % 3 == 0:
            kw["domain"] = Interval.infinite()
        if r["auto"] or i % 2:
            kw["autoremove"] = bool(r["auto"])
        if r["prio"] or i % 2:
            kw["prioritize"] = bool(r["prio"])
        t = c.add_observer(*([objs[r["obj"]]] if r["obj"] else []), **kw)
        if t == 0:
            return "zero"
        if t in tokens.values() or not isinstance(t, int):
            return "reused"
        S["made"] = i
        tokens[i] = t
        if rec:
            plain[i] = rec
        if during:
            S["new"].add(i)
        # tokens are not shared between curves either
        if other.add_observer(begin=lambda: None) in tokens.values():
            return "reused"
        return "token"

    for n, op in enumerate(hist, 1):
        del log[:]
        S["new"] = set()
        at = f"operation {n} ({op['op']})"
        try:
            if op["op"] == "add":
                try:
                    r = add(op["reg"])
                except Exception:
                    r = "raise"
                if r != op["r"]:
                    return f"{at}: {r}, specified {op['r']}"
            elif op["op"] == "tok":
                c.remove_observer(tokens[op["arg"]])
            elif op["op"] == "obj":
                c.remove_observer(objs[op["arg"]])
            elif op["op"] == "drop":
                objs.pop(op["arg"])
            elif op["op"] == "tell":
                S["tell"] = op["span"]
                before = {i: (len(b), len(e)) for i, (b, e) in plain.items()}
                
                c.begin_update(where[op["span"]])
                if not c.is_updating:
                    return f"{at}: not updating"
                c.end_update(where[op["span"]])
                if c.is_updating:
                    return f"{at}: still updating"
        except Exception as ex:
            return f"{at}: {type(ex).__name__} {ex}"
        want = [k for k in op["calls"] if k[0] not in S["new"]]
        got = [k for k in log if k[0] not in S["new"]]
        if plain and op["op"] == "tell":
            for i, (b, e) in plain.items():
                if i in S["new"]:
                    continue
                k = (len(b) - before[i][0], len(e) - before[i][1])
                wk = tuple(sum(1 for z in want if z[0] == i and z[1] == w) for w in "be")
                if k != wk or any(d != where[S["tell"]] for d in b[before[i][0]:] + e[before[i][1]:]):
                    return f"{at}: built-in callbacks of {i} called {k}, specified {wk}"
            want = [k for k in want if k[0] not in plain]
        if got != want:
            return f"{at}: called {got}, specified {want}"
    return None


def c09(c):
    deep = c.tier == "thorough"
    inv = ["OnceEach", "Distinct", "NoDeadAuto", "EndsFollow", "Emit"]
    run_model(c, "registry", "Registry", {"Depth": 6 if deep else 5, "Wide": "FALSE"}, inv)
    run_model(c, "registry", "Registry", {"Depth": 16, "Wide": "TRUE"}, inv,
              sim=(40000 if deep else 4000, 17), seed=c.seed)


DRIVERS = {"registry": registry}
MODELS = {"C09": [c09]}


def small(prop):
    def go(c):
        import small as sm
        sm.run_systems(c, sm.SYSTEMS[prop](c.tier == "thorough"))
    return go


for _p in ("C02", "C05", "C06", "C07", "C08", "C10"):
    MODELS.setdefault(_p, []).append(small(_p))


def c24(c):
    import describe
    describe.c24(c)


MODELS["C24"] = [c24]


def trend(c):
    import trends
    trends.check(c)


MODELS["C27"] = MODELS["C28"] = [trend]


def replay(d):
    what = DRIVERS[d["model"]](d["history"])
    for op in d["history"]:
        print(json.dumps(op))
    if what:
        print("VIOLATION", what)
    return 1 if what else 0
