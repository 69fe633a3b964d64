"""Descriptions (C24): what spec/Describe.tla says they mean, built by the code.

Descriptions are generated, TLC gives each its meaning (a term of calls, or
that it is refused) and checks the laws of the language on it, the term is
turned into nodes of a graph, and the curve the code parses is judged against
those nodes by spec/Trace.tla, before and after changes to the curves in it.
"""
import json
import os
import random
import shutil
import tempfile
from fractions import Fraction as F

import models
from gen import Sc, R, ALL, NONE, DURATIONS, node, H
from graphs import G

LOGS = ("log", "log2", "log10")


# ---------------------------------------------------------------- descriptions
def num(x):
    return {"k": "num", "v": R(x)}


def flag(b):
    return {"k": "num", "v": [int(b), 1], "b": 1}


def text(t, v=None):
    return {"k": "str", "s": t, "v": R(v)}


def lst(*e):
    return {"k": "list", "e": list(e)}


def mp(*e):
    return {"k": "map", "e": list(e)}


def ent(c, s, v):
    return {"c": c, "s": s, "v": v}


def leaf(i):
    return {"k": "cur", "t": {"f": "leaf", "a": [], "p": {"i": i}}}


def date(t):
    """seconds since the epoch as a text"""
    h, m, z = t // 3600, t // 60 % 60, t % 60
    return f"1970-01-01 {h:02}:{m:02}:{z:02}"


class Writer:
    """random descriptions"""

    def __init__(self, rng, leaves, steps):
        self.rng = rng
        self.leaves = leaves        # leaf curves
        self.steps = steps          # those of them which can be stepped along, without gaps
        self.log = None

    def lit(self):
        r = self.rng
        if self.log == "log10":
            return F(r.choice([1, 10, 100]))
        if self.log:
            return F(r.choice([1, 2, 4, 8, 2, H, 16]))
        return F(r.randint(-6, 6), r.choice([1, 1, 1, 2]))

    def place(self):
        return F(self.rng.randint(-4, 6), self.rng.choice([1, 1, 2]))

    def points(self, n=None):
        r = self.rng
        n = r.choice([2, 3, 3, 4]) if n is None else n
        x = F(r.randint(-3, 2))
        out = []
        step = r.choice([1, 1, 2, H])
        dated = r.random() < .15 and not self.log
        for _ in range(n):
            y = num(self.lit())
            if dated:
                t = int(abs(x) if not out else x)
                x = F(t)
                out.append(lst(mp(ent("@", "date", text(date(t), t))), y))
            else:
                out.append(lst(num(x), y))
            x = x + (step if r.random() < .97 and not dated else 1)
        return lst(*out)

    def parsed(self, pts):
        """points as a curve which can be continued"""
        return mp(ent("$", self.rng.choice(["first", "add", "max"]), lst(lst(pts))))

    def args(self, pos, kw=(), names=()):
        """arguments written in one of the possible ways"""
        r = self.rng
        pos, kw = list(pos), list(kw)
        # trailing arguments by keyword (literals in log space are not the same there)
        while pos and len(names) >= len(pos) and names[len(pos) - 1] and r.random() < .4 and \
                not (self.log and pos[-1]["k"] == "num"):
            kw.insert(0, (names[len(pos) - 1], pos.pop()))
        if kw:
            r.shuffle(kw)
            es = [ent("", a, b) for a, b in kw]
            if pos:
                es.insert(r.randint(0, len(es)), ent("@", "args", lst(*pos)))
            return mp(*es)
        if len(pos) == 1 and pos[0]["k"] != "list" and r.random() < .4:
            return pos[0]
        if r.random() < .2:
            return mp(ent("@", "args", lst(*pos)))
        return lst(*pos)

    def curve(self, depth, steps=False):
        """something a curve is wanted for"""
        r = self.rng
        z = r.random()
        if depth <= 0 or z < .25:
            c = []
            if self.log != "log" and self.leaves:
                c += ["leaf"] * 3
            if not steps:
                c += ["num"]
            c += ["pts"]
            w = r.choice(c)
            if w == "leaf" and (self.steps or not steps):
                return leaf(r.choice(self.steps if steps else self.leaves))
            if w == "num":
                return num(self.lit())
            if self.log == "log":
                return num(self.lit())
            return self.parsed(self.points()) if r.random() < .7 else self.points()
        return self.chain(depth, steps)

    def head(self, depth, steps):
        r = self.rng
        if steps or r.random() < .1 and self.log != "log":
            c = self.curve(0, steps=True)
            if c["k"] == "cur":
                if r.random() < .5:
                    return self.own(c, depth, steps)
                return ent("$", r.choice(["add", "max", "min"]), self.args([c, num(self.lit())]))
            if c["k"] == "map":
                return c["e"][0]
            return self.parsed(c)["e"][0] if c["k"] == "list" else ent("$", "const", c)
        z = r.random()
        if z < .15:
            return ent("$", r.choice(["const", "constant"]), self.args([num(self.lit())], names=["y"]))
        if z < .3 and self.log != "log":
            return self.line()
        if z < .4 and not self.log:
            self.log = w = r.choice(LOGS)
            v = self.chain(depth - 1)
            self.log = None
            return ent("@", w, v)
        if z < .45:
            if self.log == "log":
                return ent("$", "const", num(self.lit()))
            return ent("@", r.choice(["date", "args"]), self.chain(depth - 1)) if not self.log and r.random() < .3 else \
                self.parsed(self.points())["e"][0]
        if z < .75:
            return self.many(None, depth, steps)
        return self.own(None, depth, steps)

    def line(self):
        r = self.rng
        p = lambda x: lst(num(x), num(self.lit()))
        x = self.place()
        w = r.randrange(5) if not self.log else 4
        if w == 0:
            return ent("$", "line", self.args([num(self.lit()), num(self.lit())], names=["const", "slope"]))
        if w == 1:
            return ent("$", "line", mp(ent("", "p1", p(x)), ent("", "slope", num(self.lit()))))
        if w == 2:
            return ent("$", "line", mp(ent("", "p2", p(x + 2)), ent("", "p1", p(x))))
        if w == 3:
            return ent("$", "line", mp(ent("", "points", lst(p(x), p(x + r.choice([1, 2, -2]))))))
        t = r.randint(0, 5)
        d = lambda t: mp(ent("@", "date", text(date(t), t)))
        return ent("$", "line", mp(ent("", "points", lst(lst(d(t), num(self.lit())), lst(d(t + 2), num(self.lit()))))))

    def many(self, cur, depth, steps):
        r = self.rng
        if self.log == "log":
            f = r.choice(["add", "subtract", "min", "max", "first"])
        elif steps:
            f = r.choice(["add", "subtract", "max", "min"])
        else:
            f = r.choice(["add", "subtract", "multiply", "divide", "min", "max", "first", "pow"])
        m = r.choice([1, 1, 2]) if cur else r.choice([1, 2, 2, 3])
        if f == "pow":
            m = 1 if cur else 2
        if f == "divide" and not cur:
            m = 2
        ops = [self.curve(depth - 1) for _ in range(m)]
        if f == "pow":
            ops[-1] = num(F(r.randint(0, 3))) if not self.log else num(self.lit())
        if steps:
            ops = [num(self.lit()) for _ in ops]
        kw = []
        if f in ("min", "max") and r.random() < .4 and not self.log:
            kw = [("ignore_empty", flag(r.random() < .5 and not steps))]
        if r.random() < .25:
            if not cur and r.random() < .3:
                return ent("$", f, mp(*[ent("", a, b) for a, b in [("funcs", lst(*ops))] + kw]))
            return ent("$", f, self.args([lst(*ops)], kw))
        if ops[0]["k"] == "list" and len(ops) > 1 and r.random() < .8:
            ops[0] = self.parsed(ops[0])
        return ent("$", f, self.args(ops, kw))

    def own(self, cur, depth, steps):
        r = self.rng
        c = ["abs", "abs", "additive_inverse", "offset"]
        if self.log == "log":
            c = ["abs"]
        elif not steps and not self.log:
            c += ["raised", "log2", "log", "multiplicative_inverse", "blend"]
        if not self.log:
            c += ["ema", "sma", "integral", "trailing_max", "trailing_min", "smma", "differential", "extension", "rsi"]
        f = r.choice(c)
        need = f in ("ema", "sma", "integral", "trailing_max", "trailing_min", "smma", "rsi", "differential", "extension")
        if steps and f in ("differential", "extension", "rsi", "smma"):
            f, need = "ema", True
        if need and cur is False:
            f, need = "abs", False
        self_ = [] if cur else [self.curve(depth - 1, steps=steps or need)]
        sn = [None] if self_ else []
        A = lambda pos=(), names=(), kw=(): ent("$", f, self.args(self_ + list(pos), kw, sn + list(names)))
        uni = ("uniform", flag(False))
        if f in ("abs", "additive_inverse", "multiplicative_inverse", "log2"):
            return A()
        if f == "raised":
            return A([num(F(r.choice([1, 2, 2, 3])))], ["base"])
        if f == "log":
            return A([num(F(r.choice([2, 4, 10])))], ["base"])
        if f == "offset":
            if r.random() < .25 and not self.log:
                return A([num(F(r.choice([1, -1, 2])))], ["x"], [("duration", text(r.choice(["1s", "2s"])))])
            x = r.choice([F(1), F(-1), F(2), H]) if not self.log else F(0)
            return ent("$", f, self.args(self_ + [num(x)], (), sn + ["x"])) if not self.log else ent("$", "abs", self.args(self_))
        if f == "integral":
            w = r.randrange(3)
            if w == 0:
                return A([num(self.lit())], ["const"], [uni])
            return A([], [], [uni] + ([("const", num(self.lit()))] if w == 1 else []))
        if f == "differential":
            return A([flag(r.random() < .5)] if r.random() < .7 else [], ["forward"])
        if f == "ema":
            if r.random() < .3:
                return A([num(F(r.choice([4, 8]))), flag(True)], ["degree", "is_period"], [uni])
            return A([num(r.choice([H, F(1, 4), F(1)]))], ["degree"], [uni])
        if f == "sma":
            return A([num(F(r.choice([1, 2, 3])))], ["degree"], [uni] + ([("is_period", flag(False))] if r.random() < .3 else []))
        if f in ("smma", "rsi"):
            return A([num(F(r.choice([1, 2, 4])))], ["degree"], [uni])
        if f in ("trailing_min", "trailing_max"):
            return A([num(F(r.choice([1, 2, 3]))), flag(r.random() < .3)], ["degree", "is_period"], [uni])
        if f == "blend":
            x = self.place()
            return A([self.curve(depth - 1), num(x), num(x + r.choice([1, 2, H]))], ["func", "x_blend_start", "x_blend_stop"])
        if f == "extension":
            n = r.choice(["constant", "tangent"])
            kw = []
            if n == "tangent" and r.random() < .4:
                kw = [("regression_degree", num(F(r.choice([1, 2, 3]))))]
            s = r.random() < .5
            e = True if not s else r.random() < .5
            return A([text(n), flag(s), flag(e)] if not e or s or r.random() < .5 else [text(n)], ["name", "start", "end"], kw)
        raise KeyError(f)

    def chain(self, depth, steps=False):
        r = self.rng
        es = [self.head(depth, steps)]
        used = {es[0]["c"] + es[0]["s"]}
        for _ in range(r.choice([0, 0, 0, 1, 1, 2, 3]) if depth > 0 else 0):
            z = r.random()
            if z < .12 and not self.log and not steps:
                # a decorated function which continues the curve
                self.log = w = r.choice(["log2", "log10"])
                e = ent("@", w, mp(self.many(True, depth - 1, False)))
                self.log = None
            elif z < .6:
                e = self.many(True, depth - 1, steps)
            else:
                e = self.own(True if steps else (True if r.random() < .4 else False) or True, depth - 1, steps)
            if e["c"] + e["s"] in used:
                continue
            used.add(e["c"] + e["s"])
            es.append(e)
        return mp(*es)

    # ------------------------------------------------------------ broken ones
    def maps(self, d, out):
        if d["k"] == "map":
            out.append(d)
            for e in d["e"]:
                self.maps(e["v"], out)
        elif d["k"] == "list":
            for e in d["e"]:
                self.maps(e, out)
        return out

    def spoil(self, d):
        """the same with something wrong, mostly"""
        r = self.rng
        d = json.loads(json.dumps(d))
        ms = self.maps(d, [])
        m = r.choice(ms)
        fs = [e for x in ms for e in x["e"] if e["c"] == "$"]
        w = r.choice(["sibling", "sibling", "key", "key", "name", "name", "text", "extra", "extra", "missing", "keyword", "keyword", "top", "args", "pair"])
        if w == "sibling":
            j = r.randrange(len(m["e"]) + 1)
            m["e"].insert(j, ent("@", r.choice(["log2", "date", "log10"]), r.choice([num(F(2)), lst(num(F(1))), text(date(5), 5)])))
        elif w == "key":
            m["e"].append(ent("", r.choice(["x", "const", "points", "y"]), r.choice([num(F(1)), lst(num(F(1)), num(F(2))), mp(ent("", "a", num(F(1))))])))
        elif w == "name" and fs:
            r.choice(fs)["s"] = r.choice(["none_such", "Add", "ad", "points", "y2", "", "domain", "min_step", "emaa", "add_"])
        elif w == "text" and fs:
            r.choice(fs)["v"] = text("abc")
        elif w == "extra" and fs:
            e = r.choice(fs)
            if e["v"]["k"] == "list":
                e["v"]["e"].append(r.choice([num(F(3)), text("abc"), num(F(0)), lst()]))
            elif e["v"]["k"] == "map":
                e["v"]["e"].append(ent("", "extra", num(F(3))))
        elif w == "missing" and fs:
            e = r.choice(fs)
            if e["v"]["k"] == "list" and e["v"]["e"]:
                e["v"]["e"].pop()
            elif e["v"]["k"] == "map" and e["v"]["e"] and e["v"]["e"][0]["c"] != "$":
                e["v"]["e"].pop()
        elif w == "keyword" and fs:
            e = r.choice(fs)
            k = ent("", r.choice(["degree", "x", "base", "func", "y", "unform"]), num(F(2)))
            if e["v"]["k"] == "list":
                e["v"] = mp(ent("@", "args", e["v"]), k)
            elif e["v"]["k"] == "num":
                e["v"] = mp(ent("@", "args", lst(e["v"])), k)
        elif w == "top":
            d = r.choice([mp(ent("@", r.choice(["log2", "date"]), r.choice([num(F(2)), lst(num(F(2))), text(date(3), 3), self.points()]))),
                          mp(ent("@", "log2", mp(ent("@", "date", d)))) if d["k"] == "map" else d,
                          mp(ent("$", "add", num(F(1))), ent("@", "args", lst(num(F(2)))))])
        elif w == "args" and fs:
            r.choice(fs)["v"] = mp(ent("@", "args", r.choice([num(F(1)), text("abc"), mp()])))
        elif w == "pair" and fs:
            e = r.choice(fs)
            if e["v"]["k"] == "list" and e["v"]["e"]:
                e["v"]["e"][r.randrange(len(e["v"]["e"]))] = r.choice([lst(num(F(1)), num(F(2))), lst(lst(num(F(1)))), lst(lst(num(F(1)), num(F(2)), num(F(3)))),
                                                                        lst(text("abc")), text("abc")])
        return d


def duplicate(d):
    """a mapping with one key twice is not a mapping"""
    if d["k"] == "map":
        ks = [e["c"] + e["s"] for e in d["e"]]
        return len(set(ks)) < len(ks) or any(duplicate(e["v"]) for e in d["e"])
    return d["k"] == "list" and any(duplicate(e) for e in d["e"])


# ---------------------------------------------------------------- meanings
def meanings(items):
    d = tempfile.mkdtemp(prefix="desc-")
    try:
        path = os.path.join(d, "i.ndjson")
        with open(path, "w") as f:
            for it in items:
                f.write(json.dumps({"id": it["id"], "d": it["d"]}) + "\n")
        lines, gen, dis = models.explore("Describe", {}, ["ArgsLaw", "ChainLaw", "DecoratorLaw", "Emit"],
                                         env={"ITEMS": path}, pattern=models.MEAN)
        out = {}
        for line in lines:
            m = json.loads(line)
            out[m["id"]] = m["m"]
        return out, gen, dis
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Unsupported(Exception):
    """nothing is specified about the values of the curve described"""


class Builder:
    """terms as nodes"""

    def __init__(self, g):
        self.g, self.s = g, g.s

    def add(self, n, ops, st=(), **kw):
        k = self.s.add({**n, "h": 1}, st)
        return self.g.merge(k, ops, **kw)

    def scan(self, a):
        f = self.g.f[a]
        if not self.g.scannable(a) or f["gaps"]:
            raise Unsupported

    def partial(self, t):
        """whether finding a value may fail"""
        return t["f"] in ("divide", "pow", "raised", "log", "multiplicative_inverse", "rsi") or any(map(self.partial, t["a"]))

    def everywhere(self, t):
        """whether it has a value everywhere, always"""
        if t["f"] == "leaf":
            return self.s.g[t["p"]["i"] - 1]["t"] in ("const", "line")
        return t["f"] in ("const", "line", "add", "subtract", "multiply", "abs", "additive_inverse", "min", "max", "first", "offset") and \
            all(map(self.everywhere, t["a"]))

    def build(self, t):
        f, p = t["f"], t["p"] or {}
        if f == "leaf":
            return p["i"]
        src = dict(fin=False, knots=False, gaps=False, pos=False, src=set(), multi=False)
        if f == "const":
            return self.g.fact(self.s.add({**node("const", d=ALL), "h": 1}, [p["y"]]), **src)
        if f == "line":
            return self.g.fact(self.s.add({**node("line", d=ALL), "h": 1}, [p["b"], p["m"]]), **src)
        if f == "pts":
            k = self.s.add({**node("pts", k="lin", i=[1]), "h": 1}, p["q"])
            return self.g.fact(k, **dict(src, fin=True, knots=True))
        a = [self.build(z) for z in t["a"]]
        one = a[0]
        F_ = lambda s, d=None: F(*p[s]) if s in p else d
        if f in ("abs", "additive_inverse", "multiplicative_inverse"):
            k = {"abs": "abs", "additive_inverse": "neg", "multiplicative_inverse": "inv"}[f]
            return self.add(node("map", [one], k, i=[0, 0]), [one])
        names = {"add": "add", "subtract": "sub", "multiply": "mul", "divide": "div", "pow": "pow", "min": "min", "max": "max",
                 "first": "first"}
        if f in names:
            union = int(f == "first" or F_("ignore_empty", 0) == 1)
            fin = all(self.g.f[o]["fin"] for o in a) if union else any(self.g.f[o]["fin"] for o in a)
            knots = all(self.g.f[o]["knots"] or not self.g.f[o]["fin"] for o in a)
            gaps = any(self.g.f[o]["gaps"] for o in a) or bool(union) or f in ("divide", "pow")
            return self.add(node("agg", a, names[f], r=[None], i=[union]), a, fin=fin, gaps=gaps, knots=knots)
        if f == "raised":
            return self.add(node("agg", [a[1], one], "pow", r=[None], i=[0]), a, gaps=True)
        if f == "log":
            if "base" not in p:
                raise Unsupported
            b = self.build({"f": "const", "a": [], "p": {"y": p["base"]}})
            return self.add(node("agg", [one, b], "log", r=[None], i=[0]), [one], gaps=True)
        if f == "offset":
            if "duration" in p:
                if not all(self.s.g[j]["t"] in ("const", "line") for j in range(one)):
                    raise Unsupported       # steps must lie on the duration's grid
                d = p["duration"]
                return self.add(node("off", [one], "dur", r=[F_("x"), DURATIONS[d]], dur=d), [one])
            return self.add(node("off", [one], r=[F_("x")]), [one])
        if f == "blend":
            x0, x1 = F_("x_blend_start"), F_("x_blend_stop")
            if x1 <= x0 or not all(map(self.everywhere, t["a"])):
                raise Unsupported       # pieces have the domains of when they were made
            from gen import I, NINF, PINF
            b = self.add(node("agg", a, "blend", r=[None, x0, x1], i=[0]), a, gaps=True)
            return self.add(node("pw", [a[0], b, a[1]], ds=[I(NINF, x0, 1, 1), I(x0, x1, 0, 1), I(x1, PINF, 0, 1)]), a, gaps=True, knots=False)
        if f == "differential":
            if not self.g.f[one]["knots"] or self.partial(t["a"][0]):
                raise Unsupported
            fwd = int(F_("forward", 0))
            return self.add(node("dmap", [one], i=[fwd]), [one], gaps=True, fwd=bool(fwd) or self.g.f[one].get("fwd"))
        # those below walk along the curve
        self.scan(one)
        if self.partial(t["a"][0]):
            raise Unsupported
        if "uniform" in p and F_("uniform") != 0:
            raise Unsupported
        if f == "extension":
            if "regression_period" in p:
                raise Unsupported
            return self.add(node("ext", [one], p["name"], i=[int(F_("start", 0)), int(F_("end", 1)), int(F_("regression_degree", 0))],
                                 r=[None]), [one], fin=False)
        if "uniform" not in p:
            raise Unsupported
        per = F_("is_period", 0) == 1
        if f == "integral":
            return self.add(node("integral", [one], "lin", "lin", r=[0, F_("const", F(0))]), [one])
        if f == "ema":
            return self.add(node("ema", [one], "lin", r=[0, F_("degree")], i=[int(per)]), [one])
        if f == "sma":
            if per:
                raise Unsupported
            return self.add(node("sma", [one], r=[0, F(1)], i=[int(F_("degree"))]), [one])
        if f == "smma":
            d = F_("degree")
            h = self.add(node("sma", [one], r=[0, F(0)], i=[int(d)]), [one])
            return self.add(node("ema", [one, h], "lin", r=[0, 1 / d], i=[0]), [one], gaps=True, multi=True)
        if f in ("trailing_min", "trailing_max"):
            if "interpolation" in p or "min_step" in p:
                raise Unsupported
            d = F_("degree")
            return self.add(node("amap", [one], "lin", f[9:], r=[0, d], i=[0 if per else int(d)]), [one])
        if f == "rsi":
            n = self.g.rsi(one, int(F_("degree")))
            self.s.g[n - 1].update(h=1, v="")
            return n
        raise KeyError(f)


def draft(seed, i):
    """a description over a few curves"""
    r = random.Random(f"C24-{seed}-{i}")
    s = Sc(f"C24-{i}", r)
    g = G(s)
    for _ in range(r.choice([0, 1, 1, 2, 2])):
        z = r.random()
        if z < .5:
            g.pts(n=r.choice([2, 3, 4, 5]), none=0)
        elif z < .65:
            g.const()
        elif z < .75:
            g.line()
        elif z < .85:
            g.quotes(n=r.choice([2, 3, 4]), dur="1s")
            g.field(len(s.g))
        else:
            k = g.pts(n=r.choice([3, 4]), none=0)
            r.choice([g.ema, g.map, g.off, g.ext, g.integral, g.amap, g.accum, g.sma, lambda k: g.pw([k]), lambda k: g.agg([k, k])])(k)
    ls = [k for k in s.visible() if s.g[k - 1]["t"] != "qt"]
    steps = [k for k in ls if g.scannable(k) and not g.f[k]["gaps"]]
    w = Writer(r, ls, steps)
    for _ in range(20):
        d = w.chain(r.choice([0, 1, 1, 2, 2, 3]))
        if r.random() < .3:
            d = w.spoil(d)
        if not duplicate(d):
            break
    else:
        d = mp(ent("$", "const", num(F(1))))
    return {"id": s.id, "d": d, "s": s, "g": g}


def scenario(it, m):
    """the scenario which judges how the code understood a description"""
    s, g, r = it["s"], it["g"], it["s"].rng
    how = r.choice(["parse", "parse_descriptor"])
    if m["k"] == "grey":
        return None
    if m["k"] == "bad":
        s.ev.append({"e": "desc", "n": 0, "d": it["d"], "how": how, "want": "refused"})
        return s.out()
    base = (len(s.g), len(s.st))
    try:
        n = Builder(g).build(m["t"])
    except Unsupported:
        # nothing is said about its values, which may also be refused
        del s.g[base[0]:], s.st[base[1]:]
        s.ev.append({"e": "desc", "n": 0, "d": it["d"], "how": how, "want": "any"})
        return s.out()
    if n <= base[0]:
        s.ev.append({"e": "desc", "n": 0, "d": it["d"], "how": how, "want": "ok"})
        return s.out()
    s.g[n - 1] = {k: v for k, v in s.g[n - 1].items() if k != "h"}
    s.g[n - 1]["late"] = 1
    s.ev.append({"e": "desc", "n": n, "d": it["d"], "how": how, "want": "ok"})
    import props
    xs = [F(-2), F(0), H, F(1), F(2), F(3), F(7, 2), F(5)]

    def look():
        qs = [s.q(n, "y", x) for x in r.sample(xs, 4)] + [s.q(n, "y", s.somex()) for _ in range(3)] + [s.q(n, "dom")]
        s.ask(qs)
    look()
    for _ in range(r.choice([0, 1, 2])):
        e = s.op()
        if e is None:
            break
        s.ev.append(e)
        look()
    return s.out()


# ---------------------------------------------------------------- small descriptions, all of them
def small_items():
    """every chain of two functions over small arguments, every way of writing them"""
    c2, c3 = num(F(2)), num(F(3))
    P3 = lst(lst(num(F(0)), num(F(-1))), lst(num(F(1)), num(F(4))), lst(num(F(2)), num(F(2))))
    heads = [ent("$", "const", c2), ent("$", "constant", mp(ent("", "y", c3))), ent("$", "first", lst(lst(P3))), ent("$", "first", mp(ent("", "funcs", lst(P3)))),
             ent("$", "line", mp(ent("", "const", c2), ent("", "slope", num(F(1))))),
             ent("$", "line", lst(c2, c3)), ent("$", "line", mp(ent("", "points", lst(*P3["e"][:2])))),
             ent("@", "log2", mp(ent("$", "add", lst(num(F(4)), num(F(8)))))),
             ent("@", "log10", mp(ent("$", "const", num(F(100))))), ent("@", "log", mp(ent("$", "const", num(F(4))))),
             ent("@", "log2", num(F(4))), ent("@", "date", mp(ent("$", "line", mp(ent("", "points", lst(lst(text(date(2), 2), c2), lst(text(date(4), 4), c3)))))))]
    for f in ("add", "subtract", "multiply", "divide", "min", "max", "first", "pow"):
        for v in (lst(c2, c3), lst(lst(c2, c3)), c2, lst(), mp(ent("@", "args", lst(c2, c3))), mp(ent("", "funcs", lst(c2, c3))), P3, lst(c3, P3),
                  mp(ent("", "ignore_empty", flag(True)), ent("@", "args", lst(c2, mp(ent("$", "first", lst(lst(P3)))))))):
            heads.append(ent("$", f, v))
    par = mp(ent("$", "first", lst(lst(P3))))
    un = ent("", "uniform", flag(False))
    for f, name, v in (("raised", "base", c2), ("log", "base", c2), ("offset", "x", num(F(1))), ("ema", "degree", num(H)), ("sma", "degree", c2),
                       ("smma", "degree", c2), ("rsi", "degree", c2), ("trailing_min", "degree", c2), ("trailing_max", "degree", c2),
                       ("integral", "const", c2), ("differential", "forward", flag(True)), ("extension", "name", text("constant"))):
        kw = [] if f in ("raised", "log", "offset", "differential", "extension") else [un]
        heads.append(ent("$", f, mp(ent("@", "args", lst(par, v)), *kw)))
        heads.append(ent("$", f, mp(*kw, ent("@", "args", lst(par)), ent("", name, v))))
        heads.append(ent("$", f, mp(*kw, ent("", name, v))))
        heads.append(ent("$", f, lst(P3, v)))
    for f in ("abs", "additive_inverse", "multiplicative_inverse", "log2", "log10"):
        heads += [ent("$", f, v) for v in (lst(), c2, lst(c2), lst(lst(c2)), lst(P3), par, mp(ent("@", "args", lst(par))), lst(c2, c3))]
    heads += [ent("$", "none_such", lst(c2)), ent("", "x", c2), ent("$", "abs", text("abc"))]
    out = []

    def put(d):
        if not duplicate(d):
            out.append(d)
    for a in heads:
        put(mp(a))
        for b in heads:
            put(mp(a, b))
        for dec in ("log2", "date"):
            put(mp(ent("@", dec, mp(a))))
            put(mp(ent("@", dec, mp(a)), ent("$", "max", c3)))
            put(mp(ent("$", "const", c3), ent("@", dec, mp(a))))
        put(mp(ent("$", "add", lst(mp(a), c3))))
        put(mp(ent("$", "add", lst(mp(a))), ent("", "x", c2)))
    items = []
    for j, d in enumerate(out):
        s = Sc(f"C24-small-{j}", random.Random(j))
        items.append({"id": s.id, "d": d, "s": s, "g": G(s)})
    return items


def c24(c):
    deep = c.tier == "thorough"
    import levels
    import time
    end = time.time() + (levels.THOROUGH_S if deep else 0)

    def go(items):
        ms, gen, dis = meanings(items)
        if len(ms) != len(items):
            raise RuntimeError(f"{len(ms)} meanings of {len(items)} descriptions")
        c.states += dis
        c.count("descriptions", len(items))
        for k in ("cur", "bad", "grey"):
            c.count({"cur": "meaningful", "bad": "refused", "grey": "unspecified"}[k], sum(1 for m in ms.values() if m["k"] == k))
        scs = [scenario(it, ms[it["id"]]) for it in items]
        scs = [x for x in scs if x]
        c.count("values_specified", sum(1 for x in scs if x["ev"][0]["n"]))
        c.perform(scs)
    go(small_items())
    base = 0
    while True:
        go([draft(c.seed, i) for i in range(base, base + 6000)])
        base += 6000
        if time.time() >= end or c.violations:
            break
