"""C27, C28: trend scans of the code, recorded for TrendTrace.tla."""
import copy
import itertools
import math
import multiprocessing
import random
import signal
import time
from concurrent.futures import ProcessPoolExecutor

import world
from world import snap, num, Points, Curve
from curvepy.trend import Trend


FAR = 0     # what a scenario calls place x is place x + FAR on the code


def at(x):
    return num(x) + FAR if FAR else num(x)


def place(x):
    return snap(x) if x is None or not FAR else snap(x - FAR, FAR)


def pt(p):
    return [] if p is None else [place(p[0]), snap(p[1])]


def pts(ps):
    return [] if ps is None else [pt(p) for p in ps]


def itv(d):
    return [] if d.is_empty else [place(d.start), place(d.end), int(d.start_open), int(d.end_open)]


def thou(v):
    if v is None:
        return [0, 0]
    if abs(v) > 1e5 or math.isnan(v):
        return [0, -9]
    return [round(v * 1000), 1]


def thoux(x):
    return thou(x if x is None else x - FAR)


def arg(a):
    return [0, 0] if a is None else list(a)


def line(o, probes):
    """what a line says of itself"""
    r = {"up": int(o.is_upper_trend), "tp": pts(o.trend_points), "ln": pts(o), "w": snap(o.width),
         "si": itv(o.search_interval), "ins": pts(o.intersections), "ta": pts(o.tangent_points),
         "ex": pts(o.extremas), "ph": o.prediction_phase, "f": int(o.prediction_failed),
         "s": int(o.prediction_succeeded), "ok": int(o.prediction_valid), "po": pt(o.prediction_origin),
         "pi": pt(o.prediction_intersection), "pe": pt(o.prediction_extrema), "pr": pt(o.prediction_retest_point),
         "ps": pt(o.prediction_success_point), "pc": pts(o.prediction_confirmation_line),
         "px": place(o.prediction_x_min),
         "g": [thoux(o.prediction_retest_x_max), thou(o.prediction_y), thou(o.prediction_y_min),
               thou(o.prediction_y_max), thoux(o.prediction_x_max)],
         "gl": [[thoux(a), thou(b)] for a, b in o.prediction_line or []],
         "gt": [[thoux(a), thou(b)] for a, b in o.prediction_trend_line or []]}
    if o.is_upper_trend == o.is_lower_trend or not o.is_valid or not o.is_ready or o.is_empty:
        r["up"] = -1
    r["fy"] = [[x, snap(o.y(at(x)))] for x in probes["fy"]]
    r["fx"] = [[y, place(o.x(num(y)))] for y in probes["fx"]]
    r["on"] = [[p, int(bool(o.is_point_on_trend((at(p[0]), num(p[1])))))] for p in probes["on"]]
    r["le"] = [[arg(m), arg(w), arg(k),
                pts(o.line_extended(width_mult=m and num(m), width_max=w and num(w),
                                    intersection_index=None if k is None else k[0]))]
               for m, w, k in probes["le"]]
    return r


def ask(t, q, probes, keep=None):
    x = None if q["x"] == [0, 0] else at(q["x"])
    try:
        if q["k"] == "lines":
            r = t.lines
        elif q["k"] == "y":
            r = t(x) if q.get("v") else t.y(x)
        else:
            r = getattr(t, q["k"])(x)
        if r is None:
            return "no answer", []
        if q.get("cp"):
            r = [copy.copy(o) if q["cp"] == 2 else o.copy() for o in r]
        if keep is not None:
            keep[:] = r
        return "", [line(o, probes) for o in r]
    except Exception as ex:
        return f"raised {type(ex).__name__}", []


def coarse(v):
    """is there an answer which is only nearly a small rational?"""
    if isinstance(v, dict):
        return any(coarse(w) for w in v.values())
    return isinstance(v, list) and (len(v) == 2 and v[1] == -9 or any(coarse(w) for w in v))


def run(sc):
    """perform a scenario: {p, via, ev: [{op, …, q}]}"""
    old = signal.signal(signal.SIGALRM, world._alarm)
    signal.setitimer(signal.ITIMER_REAL, 20)
    t = {"id": sc["id"], "p": sc["p"], "ev": []}
    try:
        _run(sc, t)
        if sc.get("far") and coarse(t["ev"]):
            # at timestamps the code cannot name this place; take a nearer one
            t["ev"] = []
            _run(dict(sc, far=0), t)
    except world.Hang:
        t["hung"] = True
        t["ev"].append({"op": "none", "pts": t["ev"][-1]["pts"] if t["ev"] else [], "q": [{"k": "y", "x": [0, 1], "e": "did not return", "r": [], "of": [0, 0]}]})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return t


def _run(sc, t):
    global FAR
    FAR = sc.get("far", 0)
    p = sc["p"]
    kw = {"min_points": p["mp"]}
    if "mpd" in sc["kw"]:
        kw["min_point_distance"] = num(p["mpd"])
    if "slr" in sc["kw"]:
        kw["search_length_rel"] = num(p["slr"])
    if "tr" in sc["kw"]:
        kw["y_tol_rel"] = num(p["tr"])
    if "ta" in sc["kw"]:
        kw["y_tol_abs"] = num(p["ta"])
    now = [list(q) for q in sc["pts"]]
    curve = Points([(at(x), num(y)) for x, y in now], uniform=False)
    trend = Trend(curve, num(p["mw"]), **kw)
    kept = []
    for e in sc["ev"]:
        a = e.get("pts", [])
        py = [(at(x), num(y)) for x, y in a]
        if e["op"] == "append":
            for q in py:
                curve.append(q)
            now = now + a
        elif e["op"] == "append_list":
            curve.append_list(py)
            now = now + a
        elif e["op"] == "set":
            curve.set(py)
            now = a
        elif e["op"] == "last":
            curve.replace(py[0])
            now = now[:-1] + a
        elif e["op"] == "new":
            trend = Trend(curve, num(p["mw"]), **kw)
        q = []
        for j, v in enumerate(e["q"]):
            keep = [] if v.get("cp") else None
            a = ask(trend, v, sc["probes"], keep)
            q.append({"k": v["k"], "x": v["x"], "e": a[0], "r": a[1], "of": [0, 0]})
            if keep and not a[0]:
                kept.append(([len(t["ev"]) + 1, j + 1], keep))
        t["ev"].append({"op": e["op"], "pts": [list(v) for v in now], "q": q})
    # copies stay as they were
    if kept and t["ev"]:
        for of, ls in kept:
            try:
                r, err = [line(o, sc["probes"]) for o in ls], ""
            except Exception as ex:
                r, err = [], f"raised {type(ex).__name__}"
            t["ev"][-1]["q"].append({"k": "kept", "x": [0, 0], "e": err, "r": r, "of": of})


# ------------------------------------------------------------ scenarios
TOLS = [({"tr": [1, 20]}), ({"tr": [3, 50]}), ({"ta": [3, 10]}), ({"ta": [1, 7]}), ({"tr": [7, 50], "ta": [2, 5]}), ({})]


def params(r):
    p = {"mw": [r.choice([1, 2, 2, 3, 4, 6]), 1], "mp": r.choice([2, 2, 3, 3, 3, 4]), "mpd": [0, 1],
         "slr": [10, 1], "ta": [0, 0], "tr": [0, 0]}
    kw = []
    if r.random() < .4:
        p["mpd"] = [r.choice([1, 2, 3]), 1]
        kw.append("mpd")
    if r.random() < .5:
        p["slr"] = r.choice([[2, 1], [3, 2], [4, 1], [1, 1], [0, 1]])
        kw.append("slr")
    tol = r.choice(TOLS)
    p.update(tol)
    kw += list(tol)
    if not tol:
        p["tr"] = [1, 100]
    return p, kw


def walk(r, x, n, base):
    """points: noise, trends, channels"""
    kind = r.choice(["noise", "zigzag", "channel", "flat", "walk"])
    out = []
    slope = r.choice([0, 0, 1, 1, -1, 2])
    amp = r.choice([1, 2, 3])
    y = base
    for i in range(n):
        if kind == "noise":
            y = r.randint(1, 9)
        elif kind == "zigzag":
            y = base + slope * (i // 2) + amp * (i % 2)
        elif kind == "channel":
            y = base + slope * (i // 3) + r.choice([0, amp])
        elif kind == "flat":
            y = base if r.random() < .7 else base + r.choice([-1, 1]) * amp
        else:
            y = max(1, y + r.choice([-2, -1, 0, 1, 2]))
        out.append([list(x), [int(y), 1]])
        x = [x[0] + (r.choice([1, 1, 1, 2, 3]) if n > 0 and r.random() < .3 else 1), 1]
    return out, x, int(y)


def pattern(r, x):
    """a channel which is crossed, retested and left"""
    lo = r.randint(2, 6)
    hi = lo + r.choice([1, 2, 3])
    s = 1
    ys = []
    for _ in range(r.randint(2, 4)):
        ys += [hi, lo] if r.random() < .5 else [hi, lo, lo]
    up = r.random() < .5
    d = 1 if up else -1
    edge = hi if up else lo
    jump = r.choice([1, 2, 3])
    if up:
        ys += [hi]
    ys += [edge + d * jump]
    if r.random() < .8:
        ys += [edge + (0 if r.random() < .8 else d)]
    if r.random() < .5:
        ys += [edge + d * (jump + r.choice([-1, 0, 1]))]
    if r.random() < .4:
        ys += [edge]
    ys += [edge + d * r.choice([1, 3, 5, 6, 8, -1])]
    slope = r.choice([0, 0, 0, 1, -1])
    out = []
    for i, y in enumerate(ys):
        out.append([list(x), [max(1, y) * s + slope * (i // 2) + (8 if slope < 0 else 0), 1]])
        x = [x[0] + (2 if r.random() < .1 else 1), 1]
    return out, x, ys[-1]


def series(r, x, n):
    out = []
    base = r.randint(2, 6)
    while len(out) < n:
        if r.random() < .45:
            a, x, base = pattern(r, x)
        else:
            a, x, base = walk(r, x, r.randint(2, 8), max(1, base))
        out += a
    out = out[:n]
    if r.random() < .15:
        d = r.choice([-3, -6, -12])     # values about and below zero
        out = [[x, [y[0] + d, 1]] for x, y in out]
    return out


def queries(r, ps, n):
    out = []
    xs = [p[0] for p in ps]
    for _ in range(n):
        k = r.choice(["upper", "lower", "y", "y"])
        u = r.random()
        if u < .55:
            x = r.choice(xs)
        elif u < .8:
            x = [2 * r.choice(xs)[0] + 1, 2]
        else:
            x = [xs[-1][0] + r.choice([1, 3, 8]), 1]
        q = {"k": k, "x": x}
        if k == "y" and r.random() < .3:
            q["v"] = 1
        if r.random() < .15:
            q["cp"] = r.choice([1, 2])
        out.append(q)
    out.append({"k": "lines", "x": [0, 0]})
    return out


def scenario(prop, seed, i):
    r = random.Random(f"trend-{prop}-{seed}-{i}")
    p, kw = params(r)
    n = r.randint(4, 14)
    x0 = [r.choice([0, 0, -3, 5]), 1]
    ps = series(r, x0, n)
    if r.random() < .35:
        # a channel which is crossed, retested and left, and little more
        p.update({"mw": [r.choice([1, 2, 3]), 1], "mp": r.choice([2, 2, 3]), "mpd": [0, 1], "slr": [10, 1]})
        kw = [k for k in kw if k not in ("mpd", "slr")]
        ps = pattern(r, x0)[0]
    if r.random() < .1:
        ps[r.randrange(1, len(ps))][1] = [0, 0]
    probes = {"fy": [r.choice(ps)[0], [x0[0] + 5, 2]], "fx": [[r.randint(1, 8), 1]],
              "on": [[v[0], v[1] if v[1][1] else [1, 1]] for v in (r.choice(ps), r.choice(ps))],
              "le": [[r.choice([None, [2, 1], [3, 2]]), r.choice([None, None, [4, 1]]),
                      r.choice([None, [0], [0], [-1], [1], [-5]])] for _ in range(2)]}
    sc = {"id": f"{prop}-{i}", "p": p, "kw": kw, "probes": probes, "pts": ps, "ev": []}
    if r.random() < .25:
        sc["far"] = r.choice((1598400000, -631152000))
    if prop == "C27" and r.random() < .7:
        sc["ev"] = [{"op": "none", "q": queries(r, ps, 3)}]
        return sc
    # a history: start with some of the points, more come
    k = r.randint(1, len(ps))
    sc["pts"], rest = ps[:k], ps[k:]
    now = list(sc["pts"])
    ev = []
    if r.random() < .7:
        ev.append({"op": "none", "q": queries(r, now, r.randint(1, 2))})
    while rest and len(ev) < 6:
        u = r.random()
        j = r.choice([1, 1, 2, len(rest)])
        if u < .45:
            ev.append({"op": "append", "pts": rest[:j]})
        elif u < .7:
            ev.append({"op": "append_list", "pts": rest[:j]})
        elif u < .82:
            j = 0
            ev.append({"op": "last", "pts": [[now[-1][0], [r.randint(1, 9), 1]]]})
            now = now[:-1]
        elif u < .92:
            j = 0
            a = series(r, x0, r.randint(3, 10))
            ev.append({"op": "set", "pts": a})
            now = []
            rest = [[[a[-1][0][0] + 1 + m, 1], v[1]] for m, v in enumerate(rest)]
        else:
            j = 0
            ev.append({"op": "new"})
        now = now + ev[-1].get("pts", [])
        rest = rest[j:]
        ev[-1]["q"] = queries(r, now, r.randint(1, 2)) if r.random() < .75 else []
    if not ev or not ev[-1]["q"]:
        ev.append({"op": "none", "q": queries(r, now, 2)})
    sc["ev"] = ev
    return sc


def small(prop, deep):
    """every course of a few points, under some parameters"""
    base = {"mw": [2, 1], "mp": 2, "mpd": [0, 1], "slr": [10, 1], "ta": [0, 0], "tr": [0, 0]}
    sets = [(dict(base, ta=[3, 10]), ["ta"]), (dict(base, tr=[1, 20], mp=3), ["tr"])]
    if deep:
        sets += [(dict(base, tr=[7, 50], ta=[2, 5], mw=[1, 1]), ["tr", "ta"]),
                 (dict(base, ta=[1, 7], mpd=[2, 1], slr=[2, 1]), ["ta", "mpd", "slr"])]
    tops, n = ((1, 2, 3), 6) if prop == "C28" else ((1, 2, 3, 5), 5)
    if deep:
        n += 1
    for k, (p, kw) in enumerate(sets):
        for ys in itertools.product(tops, repeat=n):
            ps = [[[x, 1], [y, 1]] for x, y in enumerate(ys)]
            probes = {"fy": [[5, 2]], "fx": [], "on": [[[n - 1, 1], [2, 1]]], "le": []}
            sc = {"id": f"{prop}-small-{k}-{''.join(map(str, ys))}", "p": p, "kw": kw, "probes": probes}
            q = [{"k": "lines", "x": [0, 0]}]
            if prop == "C27":
                yield dict(sc, pts=ps, ev=[{"op": "none", "q": [{"k": "y", "x": [2, 1]}] + q}])
            else:
                yield dict(sc, pts=ps[:1], ev=[{"op": "append", "pts": ps[i:i + 1],
                                                "q": [{"k": "y", "x": [i - 1, 1]}] + q} for i in range(1, n)])


def record(args):
    prop, seed, lo, hi = args
    out = []
    for i in range(lo, hi):
        sc = scenario(prop, seed, i)
        out.append((sc, run(sc)))
        if out[-1][1].get("hung"):
            break
    return out


def check(c):
    import levels
    deep = c.tier == "thorough"
    c.perform(list(small(c.prop, deep)))
    n = levels.SIZE[c.prop]
    end = time.time() + (levels.THOROUGH_S - 120 if deep else 0)
    base = 0
    while True:
        ctx = multiprocessing.get_context("fork")
        jobs = [(c.prop, c.seed, i, min(i + 25, base + n)) for i in range(base, base + n, 25)]
        with ProcessPoolExecutor(8, mp_context=ctx) as ex:
            pairs = [p for chunk in ex.map(record, jobs) for p in chunk]
        c.judge(pairs)
        base += n
        if c.violations or time.time() > end:
            break
