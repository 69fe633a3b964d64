"""Writes known_findings.jsonl: runs each known finding and records how it fails."""
import json, os, sys, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/harness")
import tlc, world
from gen import I, R, ALL, node
from fractions import Fraction as F
P = lambda *ps: [[R(x), R(y)] for x, y in ps]
op = lambda n, o, *ps, **k: {"e": "op", "n": n, "op": o, "p": P(*ps), "f": 0, "d": [], **k}
q = lambda *qs: {"e": "q", "q": list(qs)}
y = lambda n, x: {"n": n, "k": "y", "x": R(x)}
pts = lambda kind="lin": node("pts", k=kind, i=[0], v="")
K = []
K.append(("C07", "an observer of a curve which a change reaches along several paths is told one begin and several ends",
  {"strict": 1, "g": [pts(), node("map", [1], "neg", i=[0, 0], v=""), node("agg", [1, 2], "add", r=[None], i=[0], v="")],
   "st": [P((0, 1), (1, 2)), [], []],
   "ev": [{"e": "reg", "o": 1, "n": 3, "d": [], "hd": 0, "kind": "both", "cq": []}, op(1, "append", (2, 5))]}))
K.append(("C05", "an accumulated curve over a forward differential keeps the slope before the changed point",
  {"g": [pts(), node("dmap", [1], i=[1]), node("ema", [2], "lin", r=[0, F(1, 2)], i=[0], v="")],
   "st": [P((0, 1), (1, 2), (2, 4), (3, 7)), [], []],
   "ev": [q(y(3, 1), y(3, 2)), op(1, "replace", (3, 5)), q(y(3, 1), y(3, 2))]}))
K.append(("C08", "a smoothed moving average read by its own observer at the end of a change starts from the old average",
  {"g": [pts(), {**node("sma", [1], r=[0, 0], i=[2]), "h": 1},
         node("ema", [1, 2], "lin", r=[0, F(1, 2)], i=[0], v="smma", deg=2)],
   "st": [P((0, 1), (1, 2), (2, 4), (3, 7)), [], []],
   "ev": [q(y(3, 3)), {"e": "reg", "o": 1, "n": 3, "d": [], "hd": 0, "kind": "end", "cq": [y(3, 1), y(3, 3)]},
          {"e": "reg", "o": 2, "n": 1, "d": [], "hd": 0, "kind": "begin", "cq": [y(3, 3)]},
          op(1, "replace", (1, 8)), q(y(3, 1), y(3, 3))]}))
K.append(("C06", "an integral over a function curve steps up to the place asked, so that its values depend on which places were asked before",
  {"g": [node("gen", r=[F(0), F(0), F(1), F(1)], d=I(0, 4), v=""), node("integral", [1], "lin", "lin", r=[1, F(0)], v="")],
   "st": [[], []],
   "ev": [q(y(2, F(1, 2)), y(2, F(3, 2)), y(2, 4))]}))
out = []
trs = []
for j, (prop, what, sc) in enumerate(K):
    sc["id"] = f"k{j}"
    trs.append(world.run(sc))
r = tlc.check_traces(trs, workers=2)
assert not r["error"], r["error"][:2000]
found = {v[0]: v for v in r["viols"]}
for j, (prop, what, sc) in enumerate(K):
    v = found.get(f"k{j}")
    print(prop, v and v[1:])
    if v:
        out.append(json.dumps({"status": "known", "property": prop, "what": what, "fails": [v[1], v[2]], "scenario": sc}))
FIX = json.load(open(ROOT + "/tools/fixes.json"))
log = {l.split(" ", 1)[1]: l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()}
for msg, prop, what in FIX:
    out.append(f"fixed: property={prop} {log['fix: ' + msg]} {what}")
left = [m for m in log if m.startswith("fix: ") and m[5:] not in [f[0] for f in FIX]]
assert not left, left
open(ROOT + "/known_findings.jsonl", "w").write("\n".join(out) + "\n")
