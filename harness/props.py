"""Scenario families, one or more per property.

family(s, g, rng) fills the scenario s.  FAMILIES maps a property to a list of
(weight, family).  Scenario i of a property under a seed is a deterministic
function of (property, seed, i).
"""
import random
from fractions import Fraction as F

import gen
import graphs
from gen import I, R, ALL, NINF, PINF, NONE, ZERO, node, H

Q4 = F(1, 4)
STEPPY = ("nx", "pv", "np", "pp", "hop", "dy", "dym", "ext", "fit", "rng", "smp")
NEEDS_VALUES = ("ext", "rng", "fit", "dy", "dym")


def ask(s, g, kinds, count=8, nodes=None, cur=0.8):
    """a batch of queries, mostly on the last nodes"""
    r = s.rng
    vis = [n for n in (nodes or s.visible()) if not s.g[n - 1].get("raw")]
    out = []
    for _ in range(count):
        n = r.choice(vis[-3:] if r.random() < cur else vis)
        k = r.choice(kinds)
        f = g.f[n]
        if k in STEPPY and not f["knots"]:
            continue
        if k in NEEDS_VALUES and f["gaps"]:
            continue
        out.append(s.q(n, k, s.somex(r.choice([0, 0, 0, 0, 1, -1, H, Q4]))))
    s.ask(out)
    return out


def history(s, g, kinds, rounds, op=None, before=0.7, count=8, nodes=None, cur=0.8):
    r = s.rng
    for _ in range(rounds):
        if r.random() < before:
            ask(s, g, kinds, count, nodes, cur)
        e = op() if op else s.op()
        if e:
            s.ev.append(e)
    ask(s, g, kinds, count, nodes, cur)


def repeat(s, g, n=8, nodes=None):
    """the same questions asked twice and in another order: answers are not to depend on it"""
    qs = []
    r = s.rng
    for _ in range(n):
        qs.append(s.q(r.choice(nodes), "y", s.somex(r.choice([0, 0, 0, 1, -1, H, Q4]))))
    order = list(qs)
    r.shuffle(order)
    s.ask([dict(q) for q in qs])
    s.ask([dict(q) for q in order])


VALUES = ["y", "y", "y", "dom", "ys", "ye", "fp", "lp"]
STEPS = ["nx", "pv", "nx", "pv", "np", "pp", "hop"]


# ------------------------------------------------------------------ points
def points_values(s, g, rng):
    g.pts(none=rng.choice([0, 0, 0.2]), forced=rng.random() < .3)
    g.f[1]["gaps"] = False
    history(s, g, VALUES, rng.randint(0, 4), count=12)


def points_histories(s, g, rng):
    """valid and invalid operations; the whole store is read back after each"""
    k = g.pts(forced=rng.random() < .5, n=rng.choice([0, 1, 2, 3, 5]))
    for _ in range(rng.randint(3, 9)):
        e = s.mutate(k, bad=0.35)
        s.ev.append(e)
        qs = [s.q(k, "smp", d=I(-100, 100)), s.q(k, "dom")]
        qs += [s.q(k, rng.choice(["y", "nx", "pv", "fp", "lp"])) for _ in range(3)]
        s.ask(qs)


def points_updating(s, g, rng):
    """operations with an observer which reads the points while they change"""
    k = g.pts(forced=rng.random() < .4)
    cq = [s.q(k, "smp", d=I(-100, 100)), s.q(k, "dom"), s.q(k, "y"), s.q(k, "nx")]
    s.observe(k, kind="both", cq=cq)
    for _ in range(rng.randint(2, 7)):
        s.ev.append(s.mutate(k, bad=0.3))
        s.ask([s.q(k, "y"), s.q(k, "dom"), s.q(k, "upd"), s.q(k, "ui"), s.q(k, "smp", d=I(-100, 100))])


# ------------------------------------------------------------------ steps and samples
def derive(s, g, rng, types=None, n=None, sources=None, const=0.2, lo=-8, **kw):
    for _ in range(sources or rng.choice([1, 1, 2])):
        g.pts(forced=rng.random() < .25, lo=lo, **kw)
    if rng.random() < const:
        g.const()
    if types is not None and not types:
        return
    for _ in range(n or rng.choice([1, 1, 2, 3])):
        g.any(types)


def stepping(s, g, rng):
    derive(s, g, rng, rng.choice([None, ["agg"], ["off", "agg"], ["pw"], ["ext"], ["map", "pw", "off"], []]))
    history(s, g, STEPS, rng.randint(0, 3), count=12)


def stepping_limits(s, g, rng):
    """curves which step by a minimum step or up to a limit"""
    kinds = rng.choice(["gen", "const", "line", "mix"])
    if kinds != "gen" or rng.random() < .3:
        g.pts()
    n = g.gen(fin=rng.random() < .7) if kinds in ("gen", "mix") else g.const() if kinds == "const" else g.line()
    if rng.random() < .4:
        for _ in range(rng.choice([1, 1, 2])):
            n = g.any(["agg", "agg", "pw", "ext", "map", "off", "diff", "blend"]) or n
    elif rng.random() < .5:
        n = g.off(n) if rng.random() < .5 else g.map(n, k="affine")
    qs = []
    f = g.f[n]
    for _ in range(12):
        x = s.somex(rng.choice([0, 1, -1, 3, -3, H]))
        k = rng.choice(["nx", "pv"])
        lim = None
        if rng.random() < .6:
            lim = x + rng.choice([H, 1, 2, 5]) * (1 if k == "nx" else -1)
        qs.append(s.q(n, k, x, m=rng.choice([H, 1, 2, F(3, 2)]), l=lim))
    s.ask(qs)


def sampling(s, g, rng):
    derive(s, g, rng, rng.choice([None, None, ["agg"], ["off", "agg"], ["pw"], ["ext"], ["map"], ["integral", "ema"], []]))
    vis = s.visible()

    def more():
        out = []
        for _ in range(8):
            n = rng.choice(vis[-2:])
            if not g.f[n]["knots"]:
                continue
            k = rng.choice(["smp", "smp", "smp", "rng", "hop"])
            if k == "rng" and g.f[n]["gaps"]:
                continue
            if k == "hop":
                out.append(s.q(n, k))
                continue
            kw = {}
            z = rng.random()
            regular = s.g[n - 1]["t"] != "pts"
            if z < .25:
                kw["s"] = rng.choice([H, F(1), F(3, 2), Q4])
            elif z < .4 and regular:
                kw["m"] = rng.choice([F(1), F(2), H])
            q = s.q(n, k, **kw)
            if rng.random() < .2 and g.f[n]["fin"]:
                q["d"] = list(ALL)
                q["nodom"] = 1
            out.append(q)
        s.ask(out)
    for _ in range(rng.randint(0, 3)):
        if rng.random() < .6:
            more()
        s.ev.append(s.op())
    more()


def sampling_plain(s, g, rng):
    """curves without points, sampled at a minimum or fixed step"""
    g.pts(n=3)
    n = g.gen(fin=rng.random() < .5)
    if rng.random() < .4:
        n = g.map(n, k=rng.choice(["affine", "neg", "abs", "sq"]))
    if rng.random() < .3:
        n = g.off(n)
    qs = []
    for _ in range(6):
        a = rng.randint(-4, 4)
        kw = {"d": I(a, a + rng.choice([1, 2, 3, H]), rng.randrange(2), rng.randrange(2))}
        if rng.random() < .5:
            kw["s"] = rng.choice([H, F(1), F(3, 2), Q4])
        else:
            kw["m"] = rng.choice([F(1), H])
        qs.append(s.q(n, rng.choice(["smp", "smp", "rng"]), **kw))
    s.ask(qs)


# ------------------------------------------------------------------ freshness, caches
def late(s, g, rng, p=0.3):
    """build some derived curves only in the middle of the history"""
    out = []
    for j in range(len(s.g), 0, -1):
        n = s.g[j - 1]
        if n["t"] in ("pts", "const", "line", "qt") or n.get("h") or n["t"] == "sub":
            continue
        used = any(j in m["a"] or m.get("src") == j for m in s.g[j:] if not m.get("late"))
        if not used and rng.random() < p:
            n["late"] = 1
            out.append(j)
    return sorted(out)


def freshness(s, g, rng, types=None, kinds=("y", "y", "dom"), rounds=(1, 5), lo=-8, p_late=0.25, op=None, **kw):
    derive(s, g, rng, types, lo=lo, **kw)
    todo = late(s, g, rng, p_late) if p_late else []
    lates = set(todo)
    op = op or (lambda: s.op(lo=lo))
    for _ in range(rng.randint(*rounds)):
        if rng.random() < .75:
            ask(s, g, list(kinds), 8, [n for n in s.visible() if n not in lates])
        s.ev.append(op())
        while todo and rng.random() < .5:
            n = todo.pop(0)
            if all(a not in lates for a in s.g[n - 1]["a"]):
                s.ev.append({"e": "mk", "n": n})
                lates.discard(n)
    for n in sorted(lates):
        s.ev.append({"e": "mk", "n": n})
    ask(s, g, list(kinds), 10)


def fresh_any(s, g, rng):
    freshness(s, g, rng)


def fresh_deep(s, g, rng):
    """chains: every derived curve is built on the previous one"""
    g.pts(forced=rng.random() < .3)
    if rng.random() < .3:
        g.const()
    for _ in range(rng.choice([3, 4, 5])):
        last = max(g.f)
        if g.scannable(last) and rng.random() < .5:
            n = g.any(["integral", "ema", "amap", "accum", "sma"], cur=[last])
        else:
            n = g.any(["map", "off", "agg", "diff", "pw"], cur=[last] + [k for k in g.f if s.g[k - 1]["t"] in ("pts", "const")])
    history(s, g, ["y", "y", "dom"], rng.randint(1, 5))


def fresh_const(s, g, rng):
    """aggregates of points with constants and lines which change"""
    k = g.pts()
    src = [g.const()]
    if rng.random() < .5:
        src.append(g.line())
    if rng.random() < .5:
        # accumulated over both
        n = g.agg([k, rng.choice(src[-1:] * 2 + src)], k=rng.choice(["add", "sub", "mul", "max"]))
        g.any(SCANS + ["ext"], cur=[n])
    for _ in range(rng.choice([0, 1, 2, 3])):
        g.any(["agg", "agg", "integral", "ema", "map", "off", "amap"])
    history(s, g, ["y", "y", "dom"], rng.randint(2, 5), op=lambda: s.op() if rng.random() < .5 else s.setval(rng.choice(
        [k for k in g.f if s.g[k - 1]["t"] in ("const", "line")])))


SCANS = ["integral", "ema", "sma", "amap", "accum", "smma"]


def scan_orders(s, g, rng):
    g.pts(forced=rng.random() < .3, n=rng.choice([3, 4, 5, 6, 8]))
    for _ in range(rng.choice([1, 1, 2])):
        g.any(SCANS)
    vis = [n for n in s.visible() if s.g[n - 1]["t"] != "pts"] or s.visible()
    for _ in range(rng.randint(1, 4)):
        repeat(s, g, rng.choice([2, 4, 6]), vis)
        s.ev.append(s.op())
    repeat(s, g, 8, vis)


def scan_callbacks(s, g, rng):
    """derived curves read by observers before and after each change"""
    k = g.pts(forced=rng.random() < .3, n=rng.choice([2, 3, 4, 5, 6]))
    for _ in range(rng.choice([1, 1, 2])):
        g.any(SCANS + ["map", "off"])
    vis = [n for n in s.visible() if not g.f[n]["multi"]]
    for _ in range(rng.choice([1, 2])):
        on = rng.choice([k, k, rng.choice(vis)])
        pool = vis if on == k else sorted({on, k})
        cq = [s.q(rng.choice(pool), "y", s.somex(rng.choice([0, 0, 1, -1]))) for _ in range(rng.choice([1, 2, 4]))]
        s.observe(on, kind=rng.choice(["both", "begin", "end"]), cq=cq)
    history(s, g, ["y", "y", "y", "dom"], rng.randint(2, 5), nodes=vis)


# ------------------------------------------------------------------ notification
NOTIFY = ["map", "diff", "agg", "off", "ext", "pw", "integral", "ema", "sma", "amap", "accum"]


def observers(s, g, rng):
    derive(s, g, rng, NOTIFY, n=rng.choice([1, 2, 2, 3]))
    vis = s.visible()
    live = []

    def watch():
        n = rng.choice(vis)
        d = None
        if rng.random() < .5:
            d = s.interval()
        live.append(s.observe(n, d, kind=rng.choice(["both", "both", "begin", "end", "noarg"])))
    for _ in range(rng.randint(1, 4)):
        watch()
    for _ in range(rng.randint(2, 6)):
        z = rng.random()
        if z < .15:
            watch()
        elif z < .3 and live:
            s.ev.append({"e": "unreg", "o": live.pop(rng.randrange(len(live)))})
        elif z < .5:
            ask(s, g, ["y", "dom", "upd", "ui"], 5)
        s.ev.append(s.op(bad=.15))
    ask(s, g, ["y", "dom", "upd", "ui"], 5)


def callbacks(s, g, rng):
    """what observers see while they are called"""
    k = g.pts(forced=rng.random() < .3, none=0)
    if rng.random() < .2:
        g.const()
    for _ in range(rng.choice([1, 2, 3])):
        g.any(NOTIFY)
    vis = [n for n in s.visible() if not g.f[n]["multi"]]

    def chain(n):
        out, todo = set(), [n]
        while todo:
            m = todo.pop()
            if m not in out:
                out.add(m)
                todo += s.g[m - 1]["a"]
        return sorted(m for m in out if not s.g[m - 1].get("h") and not g.f[m]["multi"])
    # observers may be there before the curves they read when they are called
    todo = late(s, g, rng, .6) if rng.random() < .4 else []

    def make():
        while todo:
            s.ev.append({"e": "mk", "n": todo.pop(0)})
    many = rng.choice([1, 2, 3])
    early = rng.randint(1, many)
    for i in range(many):
        if i == early:
            make()
        on = rng.choice([k, rng.choice(vis), rng.choice(vis)])
        if on in todo:
            on = k
        pool = vis if on == k else chain(on)
        cq = [s.q(rng.choice(pool), rng.choice(["y", "y", "y", "dom"]), s.somex()) for _ in range(rng.choice([2, 4]))]
        d = s.interval() if rng.random() < .3 else None
        s.observe(on, d, kind=rng.choice(["both", "both", "begin", "end"]), cq=cq)
    make()
    history(s, g, ["y", "y", "dom"], rng.randint(2, 5), nodes=vis)


def protocol(s, g, rng):
    """announcements made directly, overlapping and nested, mixed with changes"""
    k = g.pts(forced=rng.random() < .2)
    for _ in range(rng.choice([0, 1, 1, 2])):
        g.any(["map", "agg", "off", "pw", "integral", "ema"])
    vis = [n for n in s.visible() if not g.f[n]["multi"]]
    for _ in range(rng.randint(1, 3)):
        n = rng.choice([k] + vis)
        d = s.interval() if rng.random() < .4 else None
        s.observe(n, d, kind=rng.choice(["both", "both", "begin", "end", "noarg"]))
    opened = []
    for _ in range(rng.randint(3, 9)):
        z = rng.random()
        if z < .45 or not opened:
            d = s.interval() if rng.random() < .9 else list(ALL)
            s.ev.append({"e": "pr", "n": k, "w": "b", "d": d})
            opened.append(d)
        elif z < .85:
            d = opened.pop(rng.randrange(len(opened)))
            s.ev.append({"e": "pr", "n": k, "w": "e", "d": d})
        else:
            s.ev.append({"e": "pr", "n": k, "w": rng.choice("be"), "d": []})
        qs = [s.q(k, "upd"), s.q(k, "ui"), s.q(rng.choice(vis), "upd"), s.q(rng.choice(vis), "ui")]
        if not opened and rng.random() < .4:
            # everything announced has ended or is a part of what has
            s.ev.append(s.op())
        s.ask(qs)
    while opened:
        s.ev.append({"e": "pr", "n": k, "w": "e", "d": opened.pop()})
    s.ask([s.q(k, "upd"), s.q(k, "ui"), s.q(vis[-1], "upd")])
    s.ev.append(s.op())
    s.ask([s.q(k, "upd"), s.q(rng.choice(vis), "y"), s.q(rng.choice(vis), "y"), s.q(k, "dom")])


# ------------------------------------------------------------------ combinations
MOST = ["y", "y", "y", "dom", "nx", "pv", "smp"]


def operands(s, g, rng, n=2, lo=-8):
    for _ in range(n):
        z = rng.random()
        if z < .6:
            g.pts(none=rng.choice([0, 0, .15]), lo=lo, forced=rng.random() < .2)
        elif z < .75:
            g.const(y=F(rng.randint(max(lo, -4), 6)) if rng.random() < .8 else F(rng.randint(1, 5), 2))
        elif z < .85:
            g.gen()
        elif z < .92:
            g.const(raw=True)
        else:
            g.line()
    if not any(f["fin"] for f in g.f.values()):
        g.pts(lo=lo)


def arithmetic(s, g, rng):
    operands(s, g, rng, rng.choice([1, 2, 2, 3]))
    ks = list(g.f)
    for _ in range(rng.choice([1, 2])):
        m = rng.choice([2, 2, 2, 3])
        ops = [rng.choice(ks) for _ in range(m)]
        if all(s.g[o - 1].get("raw") for o in ops):
            ops[0] = next(o for o in ks if not s.g[o - 1].get("raw"))
        g.agg(ops, k=rng.choice(["add", "sub", "mul", "div"] if m == 2 else ["add", "sub", "mul"]))
        ks.append(max(g.f))
    history(s, g, MOST, rng.randint(0, 3))


def powers(s, g, rng):
    """powers with small integer exponents, and logarithms of powers of two"""
    if rng.random() < .5:
        a = g.pts(lo=1, forced=rng.random() < .2)
        e = g.const(raw=rng.random() < .5, y=F(rng.choice([0, 1, 2, 3, -1, -2])))
        ops = [a, e] if rng.random() < .7 else [e, a]
        if ops[0] == e:
            # number ** curve: the exponents have to be small integers
            s.sh[a] = [(x, F(rng.choice([0, 1, 2, 3, -1]))) for x, _ in s.sh[a]]
            s.st[a - 1] = [[R(x), R(y)] for x, y in s.sh[a]]
            s.g[e - 1]["r"] = []
            s.st[e - 1] = [R(rng.choice([2, 3, 4]))]
        g.agg(ops, k="pow")
    else:
        a = g.pts(lo=1, kind="prev")
        s.sh[a] = [(x, F(2) ** rng.randint(-3, 5)) for x, _ in s.sh[a]]
        s.st[a - 1] = [[R(x), R(y)] for x, y in s.sh[a]]
        if s.g[a - 1].get("v") == "parse":
            s.g[a - 1]["v"] = ""
        b = g.const(raw=rng.random() < .5, y=F(rng.choice([2, 4, 8])))
        g.agg([a, b], k="log")
    ask(s, g, ["y", "y", "y", "dom"], 12)


def selections(s, g, rng):
    operands(s, g, rng, rng.choice([2, 2, 3]))
    ks = [k for k in g.f if not s.g[k - 1].get("raw")] or [g.pts()]
    for _ in range(rng.choice([1, 2])):
        m = rng.choice([1, 2, 2, 3])
        ops = [rng.choice(ks) for _ in range(m)]
        g.agg(ops, k=rng.choice(["min", "max", "min", "max", "first", "count", "wsum"]))
        ks.append(max(g.f))
    history(s, g, MOST, rng.randint(0, 3))


def maps(s, g, rng):
    n = g.pts(none=rng.choice([0, 0, .2]), forced=rng.random() < .2) if rng.random() < .8 else g.gen()
    for _ in range(rng.choice([1, 2, 3])):
        z = rng.random()
        if z < .1:
            n = g.any(["sub"], cur=[n])
        elif z < .25:
            f = g.f[n]
            m = s.add(node("map", [n], "inv", i=[0, 0], v=rng.choice(["", "m"])))
            n = g.merge(m, [n])
        else:
            n = g.map(n)
    if not s.sh:
        g.pts()
    history(s, g, MOST, rng.randint(0, 3))


def offsets(s, g, rng):
    n = g.pts(none=rng.choice([0, 0, .2]), forced=rng.random() < .2) if rng.random() < .8 else g.gen()
    for _ in range(rng.choice([1, 1, 2, 3])):
        n = g.off(n) if rng.random() < .7 else g.any(["map", "agg", "ema", "integral"])
    if not s.sh:
        g.pts()
    history(s, g, MOST + ["dy", "hop", "np", "pp", "ys", "ye"], rng.randint(0, 3))


def durations(s, g, rng):
    """offsets by a number of durations of curves which step by whole durations"""
    dur = rng.choice(list(gen.DURATIONS))
    d = gen.DURATIONS[dur]
    n = rng.choice([0, 1, 2, 3, 4, 6])
    k = g.pts(forced=True, n=n, start=d * rng.randint(-4, 4), step=d, none=rng.choice([0, 0, .2]))
    a = k
    if rng.random() < .4:
        a = g.any(["map", "agg", "ema", "integral", "sma"], cur=[k])
    n = g.offdur(a, dur)
    z = rng.random()
    if z < .2:
        g.offdur(n, dur)
    elif z < .3:
        g.off(n, x=d * rng.choice([1, -2]))
    elif z < .5:
        g.any(["map", "agg"], cur=[n, k])
    vis = s.visible()

    def more():
        qs = []
        P = s.sh[k]
        for _ in range(10):
            j = rng.choice(vis[-2:])
            x0 = rng.choice(P)[0] if P else F(0)
            x = x0 + d * rng.randint(-3, 6)
            kind = rng.choice(["y", "y", "y", "dom", "nx", "pv", "smp", "fp", "lp", "dy", "ys"])
            if kind == "dy" and g.f[j]["gaps"]:
                kind = "y"
            if kind in ("y", "nx", "pv"):
                x += d * rng.choice([0, 0, 0, H, Q4])
            if kind == "smp":
                qs.append(s.q(j, kind, d=list(ALL)))
            else:
                qs.append(s.q(j, kind, x, m=rng.choice([0, 0, d / 2])))
        s.ask(qs)
    if rng.random() < .5:
        s.observe(rng.choice(vis), s.interval() if rng.random() < .3 else None)
    for _ in range(rng.randint(0, 4)):
        if rng.random() < .7:
            more()
        # stay on the grid
        P = s.sh[k]
        if len(P) == 1:
            y = s.yval()
            e = {"e": "op", "n": k, "op": "append", "p": [[R(P[0][0] + d), R(y)]], "f": 0, "d": []}
            s.sh[k] = P + [(P[0][0] + d, y)]
        elif not P:
            x = d * rng.randint(-4, 4)
            new = [(x + d * j, s.yval()) for j in range(rng.choice([1, 2, 3]))]
            e = {"e": "op", "n": k, "op": "set", "p": [[R(a_), R(b_)] for a_, b_ in new], "f": 0, "d": []}
            s.sh[k] = new
        else:
            e = s.mutate(k, rng.choice(["append", "append", "replace", "reset"]), bad=0)
            if any((p[0] / d).denominator != 1 for p in s.sh[k]):
                break
        s.ev.append(e)
    more()


def pieces(s, g, rng):
    for _ in range(rng.choice([1, 2, 3])):
        if rng.random() < .8:
            g.pts(none=rng.choice([0, 0, .1]))
        elif s.sh:
            n = g.gen(fin=True)
            g.f[n]["knots"] = False
    if not s.sh:
        g.pts()
    m = rng.choice([1, 2, 2, 3])
    knots = [k for k in g.f if g.f[k]["knots"]]
    ops = [rng.choice(list(g.f)) for _ in range(m)]
    n = g.pw(ops)
    if rng.random() < .4 and g.f[n]["knots"]:
        g.any(["map", "off", "agg"])
    kinds = MOST if g.f[n]["knots"] else ["y", "y", "y", "dom"]
    history(s, g, kinds, rng.randint(0, 3))


def blends(s, g, rng):
    """one curve blended into another: pieces fixed when the blend is made"""
    a = g.pts(n=rng.choice([3, 4, 6]), regular=True)
    P = s.sh[a]
    b = g.pts(n=len(P) + 4, start=P[0][0] - 2, step=P[1][0] - P[0][0]) if rng.random() < .5 else \
        g.gen(fin=False) if rng.random() < .5 else g.line()
    lo, hi = P[0][0], P[-1][0]
    x0 = lo + (hi - lo) / 4
    x1 = hi - (hi - lo) / 4
    c = s.add({**node("agg", [a, b], "blend", r=[None, x0, x1], i=[0]), "h": 1})
    g.merge(c, [a, b], gaps=True)
    # the domain of the first curve, cut at both ends of the blend
    ds = [I(lo, x0, 0, 1), I(x0, x1, 0, 1), I(x1, hi)]
    n = s.add(node("pw", [a, c, b], ds=ds, v="blend", r=[x0, x1]))
    g.merge(n, [a, c, b], fin=True, gaps=True, knots=False)
    kinds = ["y", "y", "y", "dom"]
    xs = [lo, x0, x1, hi, (lo + x0) / 2, (x0 + x1) / 2, (x1 + hi) / 2, lo - 1, hi + 1, x0 + (x1 - x0) / 4]
    s.ask([s.q(n, "y", x) for x in xs] + [s.q(n, "dom")])
    for _ in range(rng.randint(0, 2)):
        k = rng.choice([k for k in s.sh])
        s.ev.append(s.mutate(k, "replace", bad=0))
        s.ask([s.q(n, "y", x) for x in xs])


def extensions(s, g, rng):
    z = rng.random()
    if z < .75:
        g.pts(forced=rng.random() < .3, n=rng.choice([0, 1, 2, 3, 4, 6]))
    else:
        derive(s, g, rng, ["map", "off", "integral", "ema"], n=1, sources=1, const=0)
    base = max(g.f)
    if not (g.f[base]["fin"] and g.f[base]["knots"]) or g.f[base]["gaps"]:
        base = 1
    n = g.ext(base)
    if rng.random() < .3:
        g.any(["map", "off"], cur=[n])
    history(s, g, ["y", "y", "y", "dom", "nx", "pv", "hop", "smp", "dy"], rng.randint(0, 4))


def strict_extensions(s, g, rng):
    """extensions which are to refuse answers where they cannot be"""
    g.pts(forced=rng.random() < .3, n=rng.choice([0, 0, 1, 1, 2, 3]))
    n = g.ext(1, strict=True)
    history(s, g, ["y", "y", "dom", "nx", "pv"], rng.randint(1, 5), nodes=[n])


def sine_extensions(s, g, rng):
    k = g.pts(forced=rng.random() < .3, n=rng.choice([1, 2, 2, 3, 4]), lo=-3, hi=3)
    if rng.random() < .2:
        k = g.any(["map", "off"], cur=[k])
    n = g.sinext(k)
    per = F(*s.g[n - 1]["r"][1])

    def more():
        qs = []
        for _ in range(10):
            P = s.sh[1]
            x = s.somex()
            if P and rng.random() < .8:
                # a whole or quarter turn past an end
                u = per * rng.choice([Q4, H, H, F(3, 4), 1, 1, F(5, 4), 2, 3])
                x = P[-1][0] + u if rng.random() < .5 else P[0][0] - u
                if s.g[n - 1]["a"][0] != 1:
                    x += rng.choice([0, 0, H, 1, -1])
            qs.append(s.q(n, rng.choice(["y", "y", "y", "y", "ypi", "dom", "nx", "pv"]), x))
        s.ask([q for q in qs if not (q["k"] == "ypi" and not s.sh[1])])
    more()
    for _ in range(rng.randint(0, 3)):
        e = s.mutate(1, lo=-3, hi=3)
        if rng.random() < .4 and s.sh[1]:
            # an end of value zero
            x = s.sh[1][rng.choice([0, -1])][0]
            e = {"e": "op", "n": 1, "op": "replace", "p": [[R(x), R(0)]], "f": 0, "d": []}
        s.ev.append(e)
        more()


# ------------------------------------------------------------------ scans
def _scan(types, lo=-8, extra=None):
    def fam(s, g, rng):
        g.pts(forced=rng.random() < .3, lo=lo, none=0)
        if rng.random() < .3:
            g.any(["map", "off", "agg"] if lo < 1 else ["off"])
        for _ in range(rng.choice([1, 1, 2])):
            n = g.any(types)
        if rng.random() < .2:
            g.any(["map", "off", "agg"])
        history(s, g, ["y", "y", "y", "y", "dom", "smp", "nx", "pv"], rng.randint(0, 4), op=lambda: s.op(lo=lo))
    return fam


def scan_gaps(types):
    """curves with gaps: the accumulated value is carried over them"""
    def fam(s, g, rng):
        k = g.pts(none=.3, n=rng.choice([3, 4, 6, 8]))
        if rng.random() < .3:
            g.map(k, k="default")
        for _ in range(rng.choice([1, 1, 2])):
            g.any(types)
        history(s, g, ["y", "y", "y", "y", "dom"], rng.randint(0, 4), op=lambda: s.op(none=.25))
    return fam


def smas(s, g, rng):
    regular = rng.random() < .5
    k = g.pts(forced=regular and rng.random() < .5, regular=regular, n=rng.choice([1, 2, 3, 4, 6, 8]))
    if rng.random() < .3:
        g.any(["map", "off", "agg"])
        k = max(g.f)
    if not g.scannable(k) or g.f[k]["gaps"]:
        k = 1
    # windows given as a period need a regular spacing
    if regular and rng.random() < .5:
        xs = [p[0] for p in s.sh[1]]
        step = xs[1] - xs[0] if len(xs) > 1 else F(1)
        n = s.add(node("sma", [k], r=[0, step * rng.choice([2, 3, 4, 1])], i=[0], v=rng.choice(["", "cls"])))
        g.merge(n, [k])
        keep = True
    else:
        g.sma(k)
        keep = False

    def op():
        e = s.mutate(1, bad=.05)
        return e
    if keep:
        # stay regular: values change, points are appended at the same step
        def op():
            P = s.sh[1]
            if len(P) >= 2 and rng.random() < .6:
                st = P[1][0] - P[0][0]
                p = (P[-1][0] + st, s.yval())
                s.sh[1] = P + [p]
                return {"e": "op", "n": 1, "op": "append", "p": [[R(p[0]), R(p[1])]], "f": 0, "d": []}
            if P:
                x = rng.choice(P)[0]
                p = (x, s.yval())
                s.sh[1] = [p if q[0] == x else q for q in P]
                return {"e": "op", "n": 1, "op": "replace", "p": [[R(p[0]), R(p[1])]], "f": 0, "d": []}
            return None
    history(s, g, ["y", "y", "y", "y", "dom", "smp", "nx", "pv"], rng.randint(0, 4), op=op)


def rsis(s, g, rng):
    g.pts(forced=rng.random() < .3, n=rng.choice([3, 4, 6, 8]))
    g.rsi(1)
    history(s, g, ["y", "y", "y", "dom"], rng.randint(0, 3))


def smmas(s, g, rng):
    g.pts(forced=rng.random() < .3, n=rng.choice([3, 4, 6, 8]))
    g.smma(1)
    history(s, g, ["y", "y", "y", "dom", "nx"], rng.randint(0, 4))


def emas_init(s, g, rng):
    """an EMA which starts from another curve"""
    k = g.pts(forced=rng.random() < .3, n=rng.choice([2, 3, 4, 6]), none=rng.choice([0, .2]))
    c = rng.choice([g.map(k, k="affine"), g.off(k, x=F(0))]) if rng.random() < .6 else g.gen(fin=False)
    g.ema(k, init=c)
    history(s, g, ["y", "y", "y", "dom"], rng.randint(0, 4))


def extremas(s, g, rng):
    # all above zero, or on both sides of it
    lo = rng.choice([1, -8])
    k = g.pts(forced=rng.random() < .3, n=rng.choice([2, 3, 4, 5, 6, 8]), lo=lo, none=rng.choice([0, 0, .1]))
    g.f[k]["gaps"] = False
    if rng.random() < .5:
        ref = s.add(node("ema", [k], "lin", r=[0, rng.choice([H, Q4])], i=[0], v=""))
        g.merge(ref, [k])
    elif rng.random() < .5:
        ref = g.const(y=F(rng.randint(2, 6) if lo == 1 else rng.choice([0, 0, -1, -2, -4, 1, 3])), raw=rng.random() < .2)
        g.f[ref].update(knots=True, fin=True)
    else:
        ref = g.pts(lo=lo)
    n = g.extr(k, ref)
    history(s, g, ["y", "y", "y", "smp"], rng.randint(0, 4), op=lambda: s.op(lo=lo), nodes=[n])


# ------------------------------------------------------------------ plain curves
def plain_curves(s, g, rng):
    g.pts(n=3)
    ns = []
    for _ in range(rng.choice([1, 2, 3])):
        z = rng.random()
        if z < .35:
            ns.append(g.const())
        elif z < .45:
            n = s.const(d=I(rng.randint(-3, 0), rng.randint(1, 4), rng.randrange(2), rng.randrange(2)))
            ns.append(g.fact(n, fin=True, knots=False, gaps=False, pos=False, src={n}, multi=False))
        elif z < .7:
            ns.append(g.line())
        else:
            ns.append(g.gen())

    def more():
        qs = []
        for _ in range(8):
            n = rng.choice(ns)
            t = s.g[n - 1]["t"]
            k = rng.choice(["y", "y", "y", "dom", "dy", "dy", "nx", "pv", "inv", "area"])
            x = s.somex(rng.choice([0, 1, -1, H]))
            if k == "area" and t == "line":
                s2 = s.somex(rng.choice([0, 1, -3, H]))
                qs.append(s.q(n, k, x, s=s2))
                continue
            if k == "inv" and t in ("line", "const"):
                v = s.st[n - 1]
                qs.append(s.q(n, k, F(*v[0]) if rng.random() < .5 else x))
                continue
            if k in ("inv", "area"):
                k = "y"
            if t == "const" and s.g[n - 1]["d"] != ALL and k in ("y", "nx", "pv"):
                continue
            if k in ("nx", "pv"):
                qs.append(s.q(n, k, x, m=rng.choice([H, 1, 2]), l=None if rng.random() < .5 else x + (1 if k == "nx" else -1)))
            elif t == "gen" and k == "dy":
                qs.append(s.q(n, "dym", x, m=rng.choice([H, 1, 2])))
            else:
                qs.append(s.q(n, k, x))
        s.ask(qs)
    more()
    for _ in range(rng.randint(0, 3)):
        m = [n for n in ns if s.g[n - 1]["t"] in ("const", "line")]
        if m:
            k = rng.choice(m)
            if s.g[k - 1]["t"] == "const" and rng.random() < .3:
                # the value it has already
                e = {"e": "op", "n": k, "op": "val", "p": [[s.st[k - 1][0], ZERO]], "f": 0, "d": []}
            else:
                e = s.setval(k)
            s.ev.append(e)
        more()


def slopes(s, g, rng):
    derive(s, g, rng, rng.choice([[], [], ["map"], ["off"], ["agg"], ["diff"], ["diff", "map", "off"], ["integral"]]), const=0)
    history(s, g, ["dy", "dy", "dym", "dy", "y"], rng.randint(0, 3), count=10)


def diffs(s, g, rng):
    g.pts(none=rng.choice([0, .2]))
    n = g.diff(1)
    if rng.random() < .5:
        n = g.any(["diff", "map", "off", "agg"], cur=[n])
    history(s, g, ["y", "y", "y", "dom", "nx", "pv"], rng.randint(0, 3))


def regressions(s, g, rng):
    derive(s, g, rng, rng.choice([[], [], ["map"], ["off", "map"], ["agg"]]), const=0)
    history(s, g, ["fit", "fit", "fit", "smp"], rng.randint(0, 3))


def searches(s, g, rng):
    n = g.pts(n=rng.choice([1, 2, 3, 4, 5, 6, 8]), none=rng.choice([0, 0, .1]))
    g.f[n]["gaps"] = False
    if rng.random() < .4:
        g.any(["map", "off"])
    for k in g.f.values():
        k["gaps"] = False
    history(s, g, ["ext"], rng.randint(0, 2), count=7, cur=.5)
    # searches by a step of their own, and given up early
    vis = s.visible()
    s.ask([s.q(rng.choice(vis), "ext", s=rng.choice([None, H, F(1), F(3, 2)]), mi=rng.choice([0, 0, 1, 2, 3, 5]),
               **rng.choice([{}, {}, {"m": F(1)}, {"m": F(2)}])) for _ in range(5)])


# ------------------------------------------------------------------ sines and empty curves
def sines(s, g, rng):
    g.pts(n=2, start=F(-1))
    ns = []
    for _ in range(rng.choice([1, 1, 2])):
        n = s.sin()
        ns.append(g.fact(n, fin=False, knots=False, gaps=False, pos=False, src={n}, multi=False))
    derived = []
    if rng.random() < .5:
        derived.append(g.map(rng.choice(ns), k=rng.choice(["affine", "neg", "abs"])))
    if rng.random() < .3:
        derived.append(g.agg([rng.choice(ns), 1], k=rng.choice(["add", "mul", "sub"])))
    if rng.random() < .3:
        derived.append(g.off(rng.choice(ns)))

    def more():
        qs = []
        for _ in range(10):
            n = rng.choice(ns)
            a, f, px = (F(*z) for z in s.st[n - 1])
            # multiples of a twelfth of a turn
            x = F(rng.randint(-30, 30), 12) / f - px
            k = rng.choice(["y", "y", "y", "dypi", "dypi", "dsc", "dom", "nx", "pv"])
            if derived and rng.random() < .4:
                n = rng.choice(derived)
                k = rng.choice(["y", "y", "dom"])
            if k in ("nx", "pv"):
                qs.append(s.q(n, k, x, m=rng.choice([H, 1, 2]), l=None if rng.random() < .5 else x + (1 if k == "nx" else -1)))
            else:
                qs.append(s.q(n, k, x))
        s.ask(qs)
    if rng.random() < .4:
        s.observe(rng.choice(ns + derived), s.interval() if rng.random() < .4 else None)
    more()
    for _ in range(rng.randint(0, 3)):
        n = rng.choice(ns)
        if rng.random() < .2:
            e = {"e": "op", "n": n, "op": "bad", "p": [], "f": rng.randrange(3), "d": []}
        else:
            e = s.setval(n)
        s.ev.append(e)
        more()


def empties(s, g, rng):
    """combinations with a curve without any points"""
    n = s.add(node("empty", d=[]))
    g.fact(n, fin=True, knots=True, gaps=True, pos=False, src=set(), multi=False)
    g.pts(none=rng.choice([0, .2]))
    for _ in range(rng.choice([1, 2, 3])):
        z = rng.random()
        if z < .5:
            ops = [n, rng.choice(list(g.f))]
            rng.shuffle(ops)
            g.agg(ops)
        else:
            g.any(["map", "off", "agg", "integral", "ema", "accum"], cur=[n] if z < .8 else None)
    history(s, g, ["y", "y", "y", "dom", "smp", "nx", "pv", "fp", "lp"], rng.randint(0, 2), cur=.7)


# ------------------------------------------------------------------ quotes
def quotes(s, g, rng):
    q = g.quotes()
    ns = [q]
    for _ in range(rng.choice([1, 2, 3])):
        z = rng.random()
        if z < .6:
            ns.append(g.field(q))
        else:
            k2 = rng.choice(["min", "max"])
            h = g.field(q, "high" if k2 == "max" else "low")
            d = gen.DURATIONS[s.g[q - 1]["dur"]]
            per = rng.random() < .4
            n = s.add(node("amap", [h], "prev", k2, r=[0, d * rng.choice([1, 2, 3])],
                           i=[0 if per else rng.choice([1, 2, 3, 5])], v="quotes", q=q))
            g.merge(n, [h])
            ns += [h, n]
    if rng.random() < .3:
        ns.append(g.any(["map", "agg", "integral", "ema", "sma", "off"], cur=ns[1:]))
    vis = list(ns)

    def ask_quotes():
        qs = []
        P = s.sh[q]
        d = gen.DURATIONS[s.g[q - 1]["dur"]]
        for _ in range(10):
            x = (rng.choice(P)[0] if P else F(0)) + d * rng.choice([0, 0, 0, H, Q4, -H, 1, -1, 3])
            if rng.random() < .5:
                k = rng.choice(["yv", "yv", "fq", "lq", "qdom", "dom", "nx", "pv", "smpq", "smpq", "rng", "rng"])
                a = s.q(q, k, x, m=rng.choice([0, 0, 0, d * H, d * 2]) if k in ("nx", "pv") else 0)
                if k == "smpq":
                    a["flat"] = rng.randrange(2)
                if k in ("smpq", "rng"):
                    if rng.random() < .2:
                        a["d"], a["nodom"] = list(ALL), 1
                qs.append(a)
            else:
                n = rng.choice(vis[1:])
                k = rng.choice(["y", "y", "y", "dom", "nx", "pv", "smp", "ys", "ye"])
                if k == "smp":
                    qs.append(s.q(n, k, d=list(ALL)))
                else:
                    qs.append(s.q(n, k, x, m=0))
        s.ask(qs)
    if rng.random() < .4:
        n = rng.choice(vis)
        s.observe(n, s.interval() if rng.random() < .3 else None,
                  cq=[] if n == q or g.f[n]["multi"] or rng.random() < .5 else [s.q(n, "y") for _ in range(2)])
    for _ in range(rng.randint(1, 5)):
        if rng.random() < .7:
            ask_quotes()
        s.ev.append(s.trade(q))
    ask_quotes()


def indicators(s, g, rng):
    """the oscillator and the alligator of quotes, spelled out"""
    q = g.quotes(n=rng.choice([0, 1, 3, 6, 10, 14, 36]))
    d = gen.DURATIONS[s.g[q - 1]["dur"]]
    h = lambda n, ops: g.merge(s.add({**n, "h": 1}), ops)
    m = h(node("qmap", [q], "hl2"), [q])
    if rng.random() < .5:
        a = h(node("sma", [m], r=[0, 0], i=[5]), [m])
        b = h(node("sma", [m], r=[0, 0], i=[34]), [m])
        out = g.merge(s.add(node("agg", [a, b], "sub", r=[None], i=[0], v="ao", src=q)), [a, b])
    else:
        ix = rng.randrange(3)
        deg, off = [(13, 8), (8, 5), (5, 3)][ix]
        a = h(node("sma", [m], r=[0, 0], i=[deg]), [m])
        out = g.merge(s.add(node("off", [a], "dur", r=[off, d], dur=s.g[q - 1]["dur"], v="alligator", src=q, ix=ix)), [a])

    def more():
        P = s.sh[q]
        qs = []
        for _ in range(8):
            x = (rng.choice(P)[0] if P else F(0)) + d * rng.choice([0, 1, 2, 3, 5, 8, H])
            qs.append(s.q(out, rng.choice(["y", "y", "y", "dom", "nx", "pv"]), x, m=0))
        s.ask(qs)
    for _ in range(rng.randint(0, 3)):
        if rng.random() < .7:
            more()
        s.ev.append(s.trade(q))
    more()


FAMILIES = {
    "C01": [(1, points_values)],
    "C02": [(2, points_histories), (1, points_updating)],
    "C03": [(4, stepping), (1, stepping_limits)],
    "C04": [(4, sampling), (1, sampling_plain)],
    "C05": [(4, fresh_any), (2, fresh_deep), (1, fresh_const)],
    "C06": [(1, scan_orders), (1, scan_callbacks)],
    "C07": [(1, observers)],
    "C08": [(1, callbacks)],
    "C10": [(1, protocol)],
    "C11": [(4, arithmetic), (1, powers)],
    "C12": [(1, selections)],
    "C13": [(1, maps)],
    "C14": [(2, offsets), (1, durations)],
    "C15": [(3, pieces), (1, blends)],
    "C16": [(6, extensions), (2, sine_extensions), (1, strict_extensions)],
    "C17": [(2, _scan(["integral"])), (1, scan_gaps(["integral"]))],
    "C18": [(2, _scan(["ema"])), (1, scan_gaps(["ema"])), (1, smmas), (1, rsis), (1, emas_init)],
    "C19": [(1, smas)],
    "C20": [(2, _scan(["amap", "accum"])), (1, scan_gaps(["accum"]))],
    "C21": [(1, extremas)],
    "C22": [(5, quotes), (1, indicators)],
    "C23": [(3, plain_curves), (2, sines), (1, empties)],
    "C25": [(1, regressions)],
    "C26": [(1, searches)],
    "C29": [(1, slopes), (1, diffs)],
}


def scenario(prop, seed, i):
    rng = random.Random(f"{prop}-{seed}-{i}")
    fams = FAMILIES[prop]
    f = rng.choices([f for _, f in fams], [w for w, _ in fams])[0]
    s = gen.Sc(f"{prop}-{seed}-{i}", rng)
    f(s, graphs.G(s), rng)
    sc = s.out()
    # A third of the histories happens at timestamps: the code sees every
    # place moved by whole days, its answers are moved back.
    if rng.random() < 0.33 and not any(n["t"] == "sin" or n["k"] == "sin" for n in sc["g"]):
        sc["far"] = rng.choice((1598400000, 1598400000, -631152000, 86400))
    else:
        # Others are told in another unit of places: the code sees every place
        # (and every distance) multiplied by it.
        h = rng.choice((1, 1, 1, 1, 60, 3600, .25, .1, .7, 1 / 3, .01))
        if h != 1 and unit_fits(sc, h):
            sc["unit"] = h
    return sc


EXACT = set("pts const line gen map agg pw sub off ext sma ema amap accum extr".split())
TAME = set("pts const line map agg pw sub extr".split())


def unit_fits(sc, h):
    """whether the answers are those of the scenario, read in unit h

    A unit which floats do not hold exactly is only for graphs which never
    calculate places: at an edge, rounding decides.
    """
    exact = float(h).is_integer() or h == .25
    for n in sc["g"]:
        if n["t"] not in (EXACT if exact else TAME) or n["k"] in ("sin", "dur"):
            return False
        if not exact and (n["k"] in ("div", "pow", "log", "inv") or n["t"] == "extr" and n["r"][0] != [0, 1]):
            return False
    for e in sc["ev"]:
        for q in e.get("q", []) + e.get("cq", []):
            if q["k"] in ("ypi", "dypi", "area", "ext"):
                return False
            if not exact and (q.get("m", [0, 1]) != [0, 1] or q.get("s", [0, 0]) != [0, 0]):
                return False
    return True
