"""Small systems whose every history is explored (spec/Explore.tla).

A system is a graph, its moves and how long its histories are.  TLC visits all
of them and checks the specification on the way; each history it finds is then
performed on the code and the recorded trace is judged by spec/Trace.tla.
"""
import json
import os
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction as F

import gen
import models
from gen import I, R, ALL, NONE, ZERO, node, H

Q4 = F(1, 4)


def P(*ps):
    return [[R(x), R(y)] for x, y in ps]


def op(n, what, *ps, f=0, d=None, **kw):
    return {"e": "op", "n": n, "op": what, "p": P(*ps), "f": f, "d": d or [], **kw}


def pr(n, w, d):
    return {"e": "pr", "n": n, "w": w, "d": d}


def y(n, x):
    return {"n": n, "k": "y", "x": R(x)}


def q(n, k, x=None, m=0, **kw):
    out = {"n": n, "k": k}
    if x is not None:
        out["x"] = R(x)
    if k in ("nx", "pv", "np", "pp", "dym", "hop"):
        out["m"] = R(m)
    if k in ("nx", "pv"):
        out["l"] = list(NONE)
    if k in ("dy", "dym"):
        out["f"] = kw.get("f", 0)
    if k == "smp":
        out.update(d=kw.get("d", I(-50, 50)), m=R(m), s=list(NONE))
    return out


def ask(*qs):
    return {"e": "q", "q": list(qs)}


class System:
    def __init__(self, name, g, st, moves, depth, places, after=(), last=(), first=(), pre=(), cover=True):
        self.name, self.g, self.st, self.moves, self.depth = name, g, st, moves, depth
        self.places = [R(x) for x in places]
        self.after, self.last, self.first, self.pre, self.cover = list(after), list(last), list(first), list(pre), cover

    def scenario(self, hist, no):
        ev = list(self.pre)
        if self.first:
            ev.append(ask(*self.first))
        for k in hist:
            ev.append(self.moves[k - 1])
            if self.after:
                ev.append(ask(*self.after))
        if self.last:
            ev.append(ask(*self.last))
        return {"id": f"{self.name}-{no}", "g": self.g, "st": self.st, "ev": ev}


def _histories(s):
    d = tempfile.mkdtemp(prefix="small-")
    try:
        path = os.path.join(d, "m.json")
        with open(path, "w") as f:
            json.dump({"g": s.g, "st": s.st, "moves": s.moves, "depth": s.depth, "places": s.places}, f)
        return models.explore("Explore", {}, ["StoresSorted", "Pending", "Emit"], workers=1, heap="2g", env={"MODEL": path},
                              properties=["ChangesAnnounced"] if s.cover else [])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_systems(c, systems, workers=8):
    scs = []
    with ThreadPoolExecutor(workers) as ex:
        for s, (hists, gen_, dis) in zip(systems, ex.map(_histories, systems)):
            c.states += dis
            c.transitions += gen_ - 1
            c.count("small_system_states", dis)
            scs += [s.scenario(json.loads(h), j) for j, h in enumerate(sorted(set(hists)))]
    c.count("small_systems", len(systems))
    c.count("small_system_histories", len(scs))
    c.perform(scs)


# ---------------------------------------------------------------- C02: the point store
def store_moves(ys=(0, 1), xs=(0, 1, 2, 3)):
    m = [op(1, "append", (x, ys[1]), list=0) for x in xs]
    m += [op(1, "append", (1, ys[0]), (2, ys[1]), list=1), op(1, "append", (2, ys[1]), (3, ys[0]), list=1),
          op(1, "append", list=1)]
    m += [op(1, "replace", (x, ys[0]), f=f) for x in (0, 1, H, 3) for f in (0, 1)]
    m += [op(1, "reset"), op(1, "reset", f=1, d=I(1, 2)), op(1, "reset", f=1, d=I(-1, 0)), op(1, "reset", f=1, d=I(0, 2, 1, 1)),
          op(1, "reset", f=1, d=I(2, 9))]
    m += [op(1, "set"), op(1, "set", (1, ys[1])), op(1, "set", (0, ys[0]), (1, ys[1]), (2, ys[0])), op(1, "set", (0, 0), (1, 1), (3, 2))]
    return m


def c02(deep):
    out = []
    for kind in ("lin", "prev", "next"):
        for forced in (0, 1):
            st = P() if kind == "prev" else P((0, 2), (1, 3), (2, 5))
            after = [q(1, "smp"), q(1, "dom"), q(1, "y", F(3, 2)), q(1, "nx", Q4), q(1, "pv", 2), q(1, "upd")]
            out.append(System(f"store-{kind}-{forced}", [node("pts", k=kind, i=[forced], v="")], [st], store_moves(),
                              3 if deep else 2, [F(j, 2) for j in range(-2, 9)], after=after,
                              pre=[{"e": "reg", "o": 1, "n": 1, "d": [], "hd": 0, "kind": "both", "cq": [q(1, "smp"), q(1, "dom")]}]))
    return out


# ---------------------------------------------------------------- C05, C06: derived curves
def derived(kind="lin"):
    """name, nodes on top of node 1"""
    pts = node("pts", k=kind, i=[0], v="")
    one = lambda n: [pts, n]
    yield "map", one(node("map", [1], "affine", r=[F(2), F(1)], i=[1, 0], v=""))
    yield "off", one(node("off", [1], r=[F(1)]))
    yield "agg", [pts, node("map", [1], "abs", i=[0, 0], v=""), node("agg", [1, 2], "add", r=[None], i=[0], v="")]
    yield "min", [pts, node("off", [1], r=[F(1)]), node("agg", [1, 2], "min", r=[None], i=[1], v="")]
    yield "pw", [pts, node("map", [1], "neg", i=[0, 0], v=""), node("pw", [1, 2], ds=[I(-1, 1), I(1, 9, 1, 0)])]
    yield "ext", one(node("ext", [1], "tangent", i=[1, 1, 0], r=[None], v=""))
    yield "cext", one(node("ext", [1], "constant", i=[0, 1, 0], r=[None], v=""))
    yield "integral", one(node("integral", [1], "lin", "lin", r=[0, F(1)], v=""))
    yield "ema", one(node("ema", [1], "lin", r=[0, H], i=[0], v=""))
    yield "sma", one(node("sma", [1], r=[0, F(1)], i=[2], v=""))
    yield "smma", [pts, {**node("sma", [1], r=[0, 0], i=[2]), "h": 1}, node("ema", [1, 2], "lin", r=[0, H], i=[0], v="smma", deg=2)]
    yield "tmax", one(node("amap", [1], "prev", "max", r=[0, F(1)], i=[2], v=""))
    yield "tmin", one(node("amap", [1], "lin", "min", r=[0, F(1)], i=[0], v="trailing"))
    yield "accum", one(node("accum", [1], "lin", "sum", r=[0]))
    yield "intema", [pts, node("ema", [1], "lin", r=[0, H], i=[0], v=""), node("integral", [2], "lin", "lin", r=[0, F(0)], v="")]


def changes():
    return [op(1, "append", (4, 3)), op(1, "replace", (0, 4)), op(1, "replace", (2, 0)), op(1, "replace", (F(3, 2), 6)),
            op(1, "reset", f=1, d=I(2, 9)), op(1, "set", (1, 1), (2, 5))]


def c05(deep, only=None):
    out = []
    for name, g in derived():
        n = len(g)
        st = [P((0, 1), (1, 3), (2, 2))] + [[] for _ in g[1:]]
        last = [y(n, x) for x in (0, H, 1, F(3, 2), 2, 3, 4, 5)] + [q(n, "dom")]
        moves = changes() + [ask(y(n, H)), ask(y(n, 2), y(n, 4)), ask(q(n, "dom"))]
        out.append(System(f"fresh-{name}", g, st, moves, 4 if deep else 3, [F(j, 2) for j in range(-1, 10)], last=last))
    return out


def c06(deep):
    out = []
    for name, g in derived("prev" if deep else "lin"):
        if name not in ("integral", "ema", "sma", "smma", "tmax", "tmin", "accum", "intema"):
            continue
        n = len(g)
        st = [P((0, 1), (1, 3), (2, 2), (4, 5))] + [[] for _ in g[1:]]
        # one place at a time, in every order, around a change
        moves = [ask(y(n, x)) for x in (0, 1, F(3, 2), 4, 5)] + [op(1, "append", (5, 2)), op(1, "replace", (1, 0)), op(1, "reset", f=1, d=I(2, 9))]
        out.append(System(f"scan-{name}", g, st, moves, 4 if deep else 3, [F(j, 2) for j in range(-1, 10)],
                          last=[y(n, x) for x in (5, 4, F(1, 2), 2, 1, 3, 0)]))
        if name == "smma" and True:
            continue
        cq = [y(n, 1), y(n, 4)]
        out.append(System(f"scancb-{name}", g, st, moves[1:], 3 if deep else 2, [F(j, 2) for j in range(-1, 10)],
                          pre=[{"e": "reg", "o": 1, "n": 1, "d": [], "hd": 0, "kind": "both", "cq": cq}],
                          last=[y(n, x) for x in (5, 4, F(1, 2), 2, 1, 3, 0)]))
    return out


# ---------------------------------------------------------------- C07, C08: announcements of changes
def c07(deep):
    out = []
    for name, g in derived():
        n = len(g)
        st = [P((0, 1), (1, 3), (2, 2))] + [[] for _ in g[1:]]
        reg = lambda o, n, d=None, kind="both": {"e": "reg", "o": o, "n": n, "d": d or [], "hd": 1 if d else 0, "kind": kind, "cq": []}
        moves = changes() + [{"e": "unreg", "o": 2}] if False else changes() + [op(1, "append", list=1), op(1, "append", (1, 1)), op(1, "replace", (9, 1)), op(1, "reset")]
        pre = [reg(1, n), reg(2, 1), reg(3, n, I(3, 6)), reg(4, n, I(-3, 0, 0, 1)), reg(5, n, I(F(1, 4), H), "noarg")]
        out.append(System(f"told-{name}", g, st, moves, 3 if deep else 2, [F(j, 2) for j in range(-1, 10)], pre=pre,
                          after=[q(n, "upd"), q(n, "ui"), q(1, "upd")]))
    return out


def c08(deep):
    out = []
    for name, g in derived():
        n = len(g)
        if name in ("agg", "min", "pw", "smma"):
            continue        # reached along several paths
        st = [P((0, 1), (1, 3), (2, 2))] + [[] for _ in g[1:]]
        cq = [y(n, x) for x in (H, 2, 4)] + [y(1, 2), q(n, "dom")]
        reg = lambda o, k: {"e": "reg", "o": o, "n": k, "d": [], "hd": 0, "kind": "both", "cq": cq}
        out.append(System(f"seen-{name}", g, st, changes() + [ask(y(n, 1))], 3 if deep else 2, [F(j, 2) for j in range(-1, 10)],
                          pre=[reg(1, n), reg(2, 1)], last=[y(n, x) for x in (0, H, 1, 2, 4)]))
    return out


# ---------------------------------------------------------------- C10: overlapping announcements
def c10(deep):
    out = []
    ivs = [I(0, 1), I(1, 2, 1, 0), I(0, 2, 1, 1), I(3, 4), I(0, 4)]
    reg = lambda o, n, d=None, kind="both": {"e": "reg", "o": o, "n": n, "d": d or [], "hd": 1 if d else 0, "kind": kind, "cq": []}
    pts = node("pts", k="lin", i=[0], v="")
    for name, g in [("pts", [pts]), ("off", [pts, node("off", [1], r=[F(1)])]),
                    ("int", [pts, node("map", [1], "neg", i=[0, 0], v=""), node("ema", [2], "lin", r=[0, H], i=[0], v="")])]:
        n = len(g)
        moves = [pr(1, w, d) for d in ivs for w in "be"] + [pr(1, "b", []), pr(1, "e", [])]
        if n > 1:
            moves = moves[:6] + [op(1, "append", (5, 1))]
        out.append(System(f"nested-{name}", g, [P((0, 1), (1, 3), (2, 2))] + [[] for _ in g[1:]], moves,
                          5 if deep and n > 1 else 4, [0], pre=[reg(1, 1), reg(2, n), reg(3, n, I(2, 3), "noarg")],
                          after=[q(1, "upd"), q(1, "ui"), q(n, "ui")], cover=False))
    return out


SYSTEMS = {"C02": c02, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C10": c10}
