"""The checks: check.py --property C05 [--tier quick|thorough] [--replay FILE]

Exit 0: the property held on everything explored; 1: it does not, with a line
VIOLATION property=<id> replay=<path>; 2: the check could not be carried out.
"""
import argparse
import json
import os
import resource
import sys
import tempfile
import time
from concurrent.futures import ProcessPoolExecutor
import multiprocessing

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.pycache_prefix = tempfile.gettempdir() + "/no-cache-%d" % os.getpid()   # never read stale byte code

import tlc                      # noqa: E402
import levels                   # noqa: E402

KNOWN = os.path.join(ROOT, "known_findings.jsonl")
WORKERS = min(8, os.cpu_count() or 1)
CHUNK = 8000


# ---------------------------------------------------------------- workers
_hangs = 0
_deadline = None


def _init(deadline):
    global _deadline
    _deadline = deadline
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _run(args):
    """scenarios lo..hi-1 of a property, run on the code"""
    global _hangs
    prop, seed, lo, hi = args
    import props
    import world
    out = []
    for i in range(lo, hi):
        if _hangs >= 3 or time.time() > _deadline:
            break
        sc = props.scenario(prop, seed, i)
        t = world.run(sc)
        if t.get("hung"):
            _hangs += 1
        out.append((sc, t))
    return out


def _rerun(scs):
    global _hangs
    out = []
    for sc in scs:
        if _hangs >= 2:
            break
        t = run(sc)
        _hangs += bool(t.get("hung"))
        out.append((sc, t))
    return out


def run(sc):
    """perform a scenario on the code"""
    if "kw" in sc:
        import trends
        return trends.run(sc)
    import world
    return world.run(sc)


def module(traces):
    """the module which judges them"""
    return "TrendTrace" if "g" not in traces[0] else "Trace"


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.violations = []        # (what, replay dict)
        self.samples = []
        self.extra = {}
        self.notes = []
        self.known_lines = []

    # ------------------------------------------------------------ traces
    def explore(self, n, base=0, budget=150):
        deadline = time.time() + budget
        step = 50
        jobs = [(self.prop, self.seed, i, min(i + step, base + n)) for i in range(base, base + n, step)]
        ctx = multiprocessing.get_context("fork")
        with ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_init, initargs=(deadline,)) as ex:
            pairs = [p for chunk in ex.map(_run, jobs) for p in chunk]
        self.judge(pairs)
        return len(pairs)

    def perform(self, scs):
        """perform scenarios on the code and judge what it did"""
        ctx = multiprocessing.get_context("fork")
        jobs = [scs[i:i + 100] for i in range(0, len(scs), 100)]
        with ProcessPoolExecutor(WORKERS, mp_context=ctx, initializer=_init, initargs=(0,)) as ex:
            pairs = [p for chunk in ex.map(_rerun, jobs) for p in chunk]
        for i in range(0, len(pairs), CHUNK):
            self.judge(pairs[i:i + CHUNK])

    def judge(self, pairs, sample=True):
        if not pairs:
            return
        traces = [t for _, t in pairs]
        by = {t["id"]: (sc, t) for sc, t in pairs}
        r = tlc.check_traces(traces, workers=WORKERS, module=module(traces))
        if r["error"]:
            if not self.viol(r["viols"], by):
                bad, rr = tlc.find_error(traces, module=module(traces))
                if not rr["error"]:
                    raise RuntimeError("TLC failed:\n" + r["error"][-1500:])
                self.violations.append(("the specification cannot evaluate what the code answered",
                                        {"scenario": by[bad["id"]][0]}))
            return
        self.viol(r["viols"], by)
        self.states += r["distinct"]
        self.transitions += r["distinct"] - len(traces)
        self.traces += len(traces)
        if r.get("weak"):
            self.count("traces_left_unjudged_where_rounding_decides", r["weak"])
        self.count("events", sum(len(t["ev"]) for t in traces))
        self.count("queries", sum(len(e.get("q", [])) for t in traces for e in t["ev"]))
        self.count("callbacks", sum(len(e.get("cb", [])) for t in traces for e in t["ev"]))
        if sample and len(self.samples) < 2:
            for sc, t in pairs[:400]:
                if len(t["ev"]) >= 2 and len(json.dumps(t)) < 2500:
                    if "g" in t:
                        self.samples.append({"id": t["id"], "graph": [[n["t"], n["a"], n["k"]] for n in t["g"]],
                                             "initial": t["st"], "events": t["ev"]})
                    else:
                        self.samples.append(t)
                    break

    def count(self, k, n):
        self.extra[k] = self.extra.get(k, 0) + n

    def viol(self, viols, by):
        for id_, line, what in viols:
            sc, t = by[id_]
            e = t["ev"][line - 1]
            cut = dict(sc, ev=sc["ev"][:line])
            self.violations.append((f"event {line} ({e.get('e', e.get('op'))}): {what}", {"scenario": cut}))
        return bool(viols)

    # ------------------------------------------------------------ replay
    def shrink(self, sc, rounds=6):
        """drop events which the violation does not need"""
        end = time.time() + 40
        for _ in range(rounds):
            ev = sc["ev"]
            cands = []
            for j in range(len(ev) - 1):
                if ev[j].get("e") == "mk":
                    continue
                cands.append(dict(sc, id=f"s{j}", ev=ev[:j] + ev[j + 1:]))
            last = ev[-1]
            if (last.get("e") == "q" or "op" in last) and len(last["q"]) > 1:
                for j in range(len(last["q"])):
                    cands.append(dict(sc, id=f"q{j}", ev=ev[:-1] + [dict(last, q=[last["q"][j]])]))
            if not cands or time.time() > end:
                break
            ts = [run(c) for c in cands]
            r = tlc.check_traces(ts, workers=WORKERS, module=module(ts))
            ok = {v[0] for v in r["viols"]}
            best = [c for c in cands if c["id"] in ok]
            if not best:
                break
            # a single query says more than a missing event
            sc = next((c for c in best if c["id"][0] == "q"), best[0])
        return dict(sc, id="replay")

    # ------------------------------------------------------------ findings
    def known(self):
        """histories on which the code is known to break the property"""
        if not os.path.exists(KNOWN):
            return
        items = [json.loads(line) for line in open(KNOWN) if line.startswith("{")]
        items = [k for k in items if k.get("status") == "known" and k["property"] == self.prop]
        if not items:
            return
        pairs = [(dict(k["scenario"], id=f"known-{j}"), run(dict(k["scenario"], id=f"known-{j}")))
                 for j, k in enumerate(items)]
        by = {t["id"]: (sc, t) for sc, t in pairs}
        r = tlc.check_traces([t for _, t in pairs], workers=2, module=module([t for _, t in pairs]))
        if r["error"]:
            raise RuntimeError("TLC failed on the known findings:\n" + r["error"][-1500:])
        found = {v[0]: v for v in r["viols"]}
        for j, k in enumerate(items):
            v = found.get(f"known-{j}")
            if v is None:
                continue
            if [v[1], v[2]] == k["fails"]:
                self.known_lines.append(f"KNOWN-FINDING: property={self.prop} {k['what']}")
            else:
                self.viol([v], by)
        self.count("known_findings_replayed", len(items))

    # ------------------------------------------------------------ result
    def finish(self):
        for line in self.known_lines:
            print(line)
        seen = set()
        out = []
        rdir = os.path.join(ROOT, "evidence", "replay")
        for what, rep in self.violations[:200]:
            if len(out) >= 3:
                break
            key = what.split("<<")[-1][:40] if not out else what.split(":")[-1][:12]
            if key in seen:
                continue
            seen.add(key)
            if not out and "scenario" in rep:
                try:
                    rep = dict(rep, scenario=self.shrink(rep["scenario"]))
                except Exception as ex:     # the unshrunk history will do
                    rep = dict(rep, shrink=repr(ex))
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{self.prop}-{len(out)}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, **rep}, f, indent=1)
            out.append(path)
            print(what[:800])
            print(f"VIOLATION property={self.prop} replay={path}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples, **self.extra}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": levels.ASSUMPTIONS + levels.NOTES.get(self.prop, []),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not self.violations:
            print(f"{self.prop} {self.tier}: held on {self.traces} traces of the implementation, "
                  f"{self.states} states, {ev['wall_s']} s")
        return 1 if self.violations else 0


def replay(path):
    d = json.load(open(path))
    if "scenario" in d:
        t = run(d["scenario"])
        r = tlc.check_traces([t], module=module([t]))
        for n, e in enumerate(t["ev"], 1):
            print(n, json.dumps(e))
        for v in r["viols"]:
            print("VIOLATION", v)
        return 1 if r["viols"] or r["error"] else 0
    import models
    return models.replay(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    import props
    import models
    c = Check(a.property, a.tier, a.seed)
    for m in models.MODELS.get(a.property, []):
        m(c)
    if a.property in props.FAMILIES:
        n = levels.SIZE.get(a.property, CHUNK)
        c.explore(n)
        if a.tier == "thorough":
            end = time.time() + levels.THOROUGH_S
            base = n
            while time.time() < end and not c.violations:
                c.explore(n, base)
                base += n
    c.known()
    return c.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
