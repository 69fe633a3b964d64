"""Scenario generators: graphs of curves, histories of operations, queries.

Everything is a deterministic function of (property, seed, index).  The
generator keeps a rough shadow of the source data only to aim its operations
and queries at interesting places; it decides nothing.
"""
import random
from fractions import Fraction as F

NONE, PINF, NINF = [0, 0], [1, 0], [-1, 0]
ZERO = [0, 1]
ALL = [NINF, PINF, 1, 1]
H = F(1, 2)
DURATIONS = {"1s": F(1), "2s": F(2), "5s": F(5), "1m": F(60)}


def R(x):
    if x is None:
        return list(NONE)
    if isinstance(x, list):
        return x
    x = F(x)
    return [x.numerator, x.denominator]


def I(lo, hi, lo_open=0, hi_open=0):
    return [R(lo), R(hi), lo_open, hi_open]


def node(t, a=(), k="", k2="", r=(), i=(), d=None, ds=(), **extra):
    n = {"t": t, "a": list(a), "k": k, "k2": k2, "r": [R(z) for z in r], "i": list(i),
         "d": d if d is not None else [], "ds": list(ds)}
    n.update(extra)
    return n


class Sc:
    """a scenario under construction"""

    def __init__(self, id, rng):
        self.id = id
        self.rng = rng
        self.g, self.st, self.ev = [], [], []
        self.sh = {}        # shadow of sources: node -> list of (x, y)
        self.lines = {}     # and of lines: constant, slope, how described ("" by these)
        self.no = 0

    def add(self, n, st=()):
        self.g.append(n)
        self.st.append(list(st))
        return len(self.g)

    def out(self):
        return {"id": self.id, "g": self.g, "st": self.st, "ev": self.ev}

    # ---------------------------------------------------------- sources
    def yval(self, lo=-8, hi=8, none=0.0, den=(1, 1, 1, 2)):
        if none and self.rng.random() < none:
            return None
        return F(self.rng.randint(lo, hi), self.rng.choice(den))

    def xs(self, n, regular, start=None, step=None):
        r = self.rng
        x = F(r.randint(-6, 6), 1) if start is None else start
        out = []
        s = step if step is not None else r.choice([F(1), F(1), F(2), H])
        for _ in range(n):
            out.append(x)
            x += s if regular else r.choice([H, F(1), F(1), F(2), F(3)])
        return out

    def pts(self, n=None, regular=None, kind=None, forced=None, none=0.0, lo=-8, hi=8, v=None, start=None, step=None):
        r = self.rng
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8]) if n is None else n
        forced = r.random() < 0.4 if forced is None else forced
        regular = forced or r.random() < 0.4 if regular is None else (regular or forced)
        kind = r.choice(["lin", "lin", "prev", "next"]) if kind is None else kind
        xs = self.xs(n, regular, start, step)
        P = [(x, self.yval(lo, hi, none)) for x in xs]
        if v is None:
            v = r.choice(["", "", "", "empty_then_set", "appended"])
            if forced and kind == "lin" and r.random() < 0.3:
                v = r.choice(["parse", "defaults"])
        k = self.add(node("pts", k=kind, i=[1 if forced else 0], v=v), [[R(x), R(y)] for x, y in P])
        self.sh[k] = P
        return k

    def const(self, y=None, raw=False, d=None):
        v = "" if d else self.rng.choice(["", "const", "parse"])
        y = self.yval() if y is None else y
        k = self.add(node("const", d=d or ALL, v=v, **({"raw": 1} if raw else {})), [R(y)])
        return k

    def line(self, c=None, m=None):
        c = self.yval() if c is None else c
        m = self.yval(-4, 4) if m is None else m
        k = self.add(node("line", d=ALL, v=self.rng.choice(["", "pp", "points", "pslope"])), [R(c), R(m)])
        self.lines[k] = (c, m, "?")
        return k

    def gen(self, d=None, ms=None, quad=True):
        r = self.rng
        a, b, c = self.yval(-4, 4), self.yval(-3, 3), (self.yval(-2, 2) if quad else F(0))
        v = r.choice(["", "", "parse"])
        if v == "parse" and not d:
            ms = 0      # a parsed function steps by the smallest step
        return self.add(node("gen", r=[a, b, c, ms or 0], d=d or ALL, v=v))

    def sin(self):
        r = self.rng
        a = self.yval(-5, 5)
        f = r.choice([F(1), H, F(1, 4), F(1, 12), F(1, 6), F(2), F(1, 3)])
        px = r.choice([F(0), F(0), F(1, 4), H, F(1), F(-1), F(-3, 2), F(3)])
        return self.add(node("sin", d=ALL, v=r.choice(["", "period", "phase", "pphase"])), [R(a), R(f), R(px)])

    def quotes(self, n=None, dur=None):
        """quotes without gaps, open high low close volume"""
        r = self.rng
        dur = dur or r.choice(list(DURATIONS))
        d = DURATIONS[dur]
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8]) if n is None else n
        x = d * r.randint(-3, 3)
        P = [(x + d * j, self.quote()) for j in range(n)]
        k = self.add(node("qt", r=[d / 100, d], i=[1], v=r.choice(["", "", "enc"]), dur=dur),
                     [[R(a), [R(z) for z in b]] for a, b in P])
        self.sh[k] = P
        return k

    def quote(self):
        r = self.rng
        v = sorted(self.yval(0, 9) for _ in range(4))
        o, c = v[1:3] if r.random() < .5 else v[2:0:-1]
        return [o, v[3], v[0], c, F(r.randint(0, 9))]

    def trade(self, k, bad=0.1):
        """append to quotes or replace them all"""
        r = self.rng
        P = self.sh[k]
        d = DURATIONS[self.g[k - 1]["dur"]]
        what = "append" if r.random() < .75 else "set"
        m = r.choice([1, 1, 1, 2, 3, 0])
        oops = r.random() < bad
        x = P[-1][0] + d if P and what == "append" else d * r.randint(-3, 3)
        if oops and m:
            x += d * r.choice([-1, 1, -2])
        new = [(x + d * j, self.quote()) for j in range(m)]
        if oops and m > 1 and P and what == "append":
            new.reverse()
        full = (P if what == "append" else []) + new
        xs = [p[0] for p in full]
        if all(b - a == d for a, b in zip(xs, xs[1:])):
            self.sh[k] = full
        e = {"e": "op", "n": k, "op": what, "p": [[R(a), [R(z) for z in b]] for a, b in new], "f": 0, "d": []}
        if what == "append":
            e["list"] = int(m != 1 or r.random() < .5)
        return e

    # ---------------------------------------------------------- places
    def near(self, ns=None):
        """interesting places: knots, between them, just outside"""
        out = set()
        for k, P in self.sh.items():
            if ns and k not in ns:
                continue
            xs = [p[0] for p in P]
            out.update(xs)
            out.update((a + b) / 2 for a, b in zip(xs, xs[1:]))
            out.update((3 * a + b) / 4 for a, b in zip(xs, xs[1:]))
            if xs:
                out.update([xs[0] - H, xs[0] - 2, xs[-1] + H, xs[-1] + 2])
        return sorted(out) or [F(0), F(1)]

    def span(self):
        xs = [p[0] for P in self.sh.values() for p in P]
        return (min(xs), max(xs)) if xs else (F(0), F(4))

    def somex(self, shift=F(0)):
        return self.rng.choice(self.near()) + shift

    def interval(self, fin=True):
        r = self.rng
        lo, hi = self.span()
        c = self.near()
        a, b = sorted([r.choice(c + [lo, hi]), r.choice(c + [lo, hi])])
        if r.random() < 0.3:
            a, b = lo - r.choice([0, 1]), hi + r.choice([0, 1])
        if a == b:
            return I(a, b)
        return I(a, b, int(r.random() < 0.3), int(r.random() < 0.3))

    # ---------------------------------------------------------- operations
    def mutate(self, k, what=None, bad=0.08, none=0.0, lo=-8, hi=8):
        """one operation on point source k, mostly a valid one"""
        r = self.rng
        P = self.sh[k]
        n = self.g[k - 1]
        forced = n["i"][0] == 1
        xs = [p[0] for p in P]
        step = xs[1] - xs[0] if len(xs) > 1 else F(1)
        what = what or r.choice(["append", "append", "append", "replace", "replace", "reset", "set", "append"])
        e = {"e": "op", "n": k, "op": what, "p": [], "f": 0, "d": []}
        oops = r.random() < bad
        y = lambda: self.yval(lo, hi, none)
        if what == "append":
            m = r.choice([1, 1, 1, 2, 3, 0]) if not oops else r.choice([1, 2])
            x = xs[-1] if xs else F(r.randint(-4, 4))
            new = []
            for j in range(m):
                x = x + (step if forced or r.random() < 0.4 else r.choice([H, F(1), F(2)]))
                new.append((x, y()))
            if not xs and new:
                d = new[0][0]
                new = [(p - step, q) for p, q in new]
            if oops and new:
                sh = r.choice([-F(step), -2 * step, H])
                new = [(p + sh, q) for p, q in new]
            e["p"] = [[R(a), R(b)] for a, b in new]
            e["list"] = 1 if r.random() < 0.5 else 0
            if not new or len(new) > 1:
                e["list"] = 1
            ok = not new or not xs or (new[0][0] > xs[-1])
            full = P + new
            if forced and len(full) > 2:
                fx = [p[0] for p in full]
                ok = ok and all(b - a == fx[1] - fx[0] for a, b in zip(fx, fx[1:]))
            if ok:
                self.sh[k] = full
        elif what == "replace":
            e["f"] = int(r.random() < 0.3)
            if not xs or oops:
                x = (xs[-1] + r.choice([step, H, -H])) if xs else F(0)
            elif forced or r.random() < 0.6:
                x = r.choice(xs)
            else:
                x = r.choice(self.near([k]))
            p = (x, y())
            e["p"] = [[R(p[0]), R(p[1])]]
            if xs and xs[0] <= x <= xs[-1]:
                if x in xs:
                    self.sh[k] = [p if q[0] == x else q for q in P]
                elif not forced:
                    self.sh[k] = sorted(P + [p], key=lambda q: q[0])
            elif e["f"] and (not xs or x > xs[-1]) and (not forced or len(xs) < 2 or x == xs[-1] + step):
                self.sh[k] = P + [p]
        elif what == "reset":
            if not xs or r.random() < 0.12:
                e["f"] = 0
                self.sh[k] = []
            else:
                e["f"] = 1
                if forced and not oops:
                    # keep what is left regular: cut off an end
                    j = r.randrange(len(xs))
                    e["d"] = I(xs[0] - 1, xs[j], 0, int(r.random() < .3)) if r.random() < 0.5 else \
                        I(xs[j], xs[-1] + 1, int(r.random() < .3), 0)
                else:
                    c = self.near([k])
                    a, b = sorted([r.choice(c), r.choice(c)])
                    e["d"] = I(a, b, int(r.random() < .3 and a < b), int(r.random() < .3 and a < b))
                lo_, hi_, lo_o, hi_o = e["d"]
                a, b = F(*lo_), F(*hi_)
                inside = lambda x: (x > a or (x == a and not lo_o)) and (x < b or (x == b and not hi_o))
                keep = [p for p in P if not inside(p[0])]
                kx = [p[0] for p in keep]
                if not forced or len(keep) == len(P) or all(v - u == step for u, v in zip(kx, kx[1:])):
                    self.sh[k] = keep
        elif what == "set":
            m = r.choice([0, 1, 2, 3, 4, 5])
            regular = forced and not oops
            nx = self.xs(m, regular or r.random() < 0.3)
            if xs and nx and r.random() < 0.6:
                off = r.choice(xs) - nx[0]
                nx = [x + off for x in nx]
            new = [(x, y()) for x in nx]
            e["p"] = [[R(a), R(b)] for a, b in new]
            if not forced or all(v - u == nx[1] - nx[0] for u, v in zip(nx, nx[1:])):
                self.sh[k] = new
        return e

    def setval(self, k):
        if self.g[k - 1]["t"] == "const":
            return {"e": "op", "n": k, "op": "val", "p": [[R(self.yval()), ZERO]], "f": 0, "d": []}
        if self.g[k - 1]["t"] == "sin":
            r = self.rng
            return {"e": "op", "n": k, "op": "sin", "f": 0, "d": [],
                    "p": [[R(self.yval(-5, 5)), R(r.choice([F(1), H, F(1, 4), F(1, 12), F(2)]))],
                          [R(r.choice([F(0), F(1), H, F(-3, 2)])), ZERO]],
                    "v": r.choice(["", "period", "phase", "pphase"])}
        return self.setline(k)

    def setline(self, k):
        """another line, described in one of several ways; often the slope or the constant stays"""
        r = self.rng
        old = self.lines.get(k)
        b, m, v, at = self.yval(), self.yval(-4, 4), r.choice(["", "pp", "ps", "points"]), r.choice([-2, -1, 1, 2, 3])
        z = r.random()
        if old and z < .3:
            m = old[1]
        elif old and z < .4:
            b = old[0]
        if old and (b, m) == old[:2] and (v or old[2]):
            b += 1          # the same line through another point is announced, or not
        self.lines[k] = (b, m, v)
        return {"e": "op", "n": k, "op": "line", "p": [[R(b), R(m)]], "f": at, "d": [], "v": v}

    def op(self, **kw):
        """one operation on any source"""
        ks = [k for k in range(1, len(self.g) + 1) if self.g[k - 1]["t"] in ("pts", "const", "line") and
              not self.g[k - 1].get("h") and not self.g[k - 1].get("raw")]
        pk = [k for k in ks if self.g[k - 1]["t"] == "pts" and k in self.sh]
        ks = [k for k in ks if self.g[k - 1]["t"] != "pts" or k in self.sh]
        if not ks:
            return None
        if pk and self.rng.random() < 0.85 or len(pk) == len(ks):
            return self.mutate(self.rng.choice(pk), **kw)
        return self.setval(self.rng.choice([k for k in ks if k not in pk]))

    # ---------------------------------------------------------- queries
    MS = [0, 0, 0, H, 1, F(3, 2), 2, 3]

    def q(self, n, k, x=None, **kw):
        r = self.rng
        q = {"n": n, "k": k}
        if k in ("y", "yv", "ypi", "dypi", "nx", "pv", "np", "pp", "dy", "dym", "hop", "ext", "inv", "area"):
            q["x"] = R(self.somex() if x is None else x)
        if k in ("nx", "pv", "np", "pp", "dym", "hop"):
            q["m"] = R(kw.get("m", r.choice(self.MS)))
        if k in ("nx", "pv"):
            if "l" not in kw and q["x"][1] > 0 and r.random() < .12:
                kw["l"] = F(*q["x"]) + r.choice([H, 1, 2, 5, 9]) * (1 if k == "nx" else -1)
            q["l"] = R(kw.get("l"))
        if k in ("dy", "dym", "dypi"):
            q["f"] = kw.get("f", r.randrange(2))
        if k in ("smp", "smpq", "rng", "fit"):
            q["d"] = kw["d"] if "d" in kw else self.interval()
            q["m"] = R(kw.get("m", 0))
            q["s"] = R(kw.get("s"))
        if k == "hop":
            q["c"] = kw.get("c", r.choice([1, 2, 3, 5]))
            q["f"] = kw.get("f", r.randrange(2))
            q["i"] = kw.get("i", r.randrange(2))
            q["neg"] = int(r.random() < .2)
        if k == "ext":
            q["sg"] = kw.get("sg", r.choice([1, -1]))
            q["s"] = R(kw.get("s"))
            q["mi"] = kw.get("mi", 0)
            if "m" in kw:
                q["m"] = R(kw["m"])
        if k == "area":
            q["s"] = R(kw["s"])
        if k == "y" and r.random() < 0.2:
            q["call"] = 1
        return q

    def ask(self, qs):
        if qs:
            self.ev.append({"e": "q", "q": qs})

    def observe(self, n, d=None, kind=None, cq=()):
        self.no += 1
        kind = kind or self.rng.choice(["both", "both", "both", "begin", "end", "noarg"])
        self.ev.append({"e": "reg", "o": self.no, "n": n, "d": d or [], "hd": 1 if d else 0, "kind": kind, "cq": list(cq)})
        return self.no

    def visible(self):
        return [j + 1 for j, n in enumerate(self.g) if not n.get("h")]
