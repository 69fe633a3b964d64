"""Random derived curves on top of sources, within what the specification covers.

For every node a few facts are tracked:
  fin   the domain is finite          knots  it can be stepped along
  gaps  it may have no value inside its domain     src  sources it depends on
  multi some source reaches it along several paths
"""
from fractions import Fraction as F
from gen import DURATIONS, I, R, ALL, NINF, PINF, NONE, node, H


class G:
    def __init__(self, s):
        self.s, self.rng = s, s.rng
        self.f = {}

    def fact(self, n, **kw):
        self.f[n] = kw
        return n

    def merge(self, n, ops, **kw):
        fs = [self.f[o] for o in ops]
        src = set()
        multi = any(f["multi"] for f in fs)
        seen = []
        for f in fs:
            for x in f["src"]:
                if x in seen:
                    multi = True
                seen.append(x)
            src |= f["src"]
        d = dict(fin=any(f["fin"] for f in fs), knots=all(f["knots"] for f in fs), gaps=any(f["gaps"] for f in fs),
                 pos=False, src=src, multi=multi, fwd=any(f.get("fwd") for f in fs), plain=any(f.get("plain") for f in fs))
        d.update(kw)
        self.f[n] = d
        return n

    # ------------------------------------------------------------ sources
    def pts(self, none=0.0, lo=-8, hi=8, **kw):
        n = self.s.pts(none=none, lo=lo, hi=hi, **kw)
        return self.fact(n, fin=True, knots=True, gaps=none > 0, pos=lo > 0, src={n}, multi=False)

    def const(self, raw=False, y=None):
        n = self.s.const(y=y, raw=raw)
        return self.fact(n, fin=False, knots=False, gaps=False, pos=False, src={n}, multi=False)

    def line(self):
        n = self.s.line()
        return self.fact(n, fin=False, knots=False, gaps=False, pos=False, src={n}, multi=False)

    def gen(self, fin=None):
        r = self.rng
        fin = r.random() < 0.5 if fin is None else fin
        d = None
        if fin:
            a, b = self.s.span()
            a, b = a - r.choice([0, 1, H]), b + r.choice([0, 1, H])
            d = I(a, b, int(r.random() < .3 and a < b), int(r.random() < .3 and a < b))
        n = self.s.gen(d=d, ms=r.choice([F(1, 4), H, 1]))
        return self.fact(n, fin=fin, knots=fin, gaps=False, pos=False, src=set(), multi=False, plain=True)

    # ------------------------------------------------------------ derived
    def map(self, a, k=None):
        r = self.rng
        gaps = self.f[a]["gaps"]
        k = k or r.choice(["affine", "affine", "neg", "abs", "xplus", "sq", "default", "isnone"])
        skip = 1 if k in ("affine", "xplus", "sq") or r.random() < 0.4 else 0
        if k in ("default", "isnone"):
            skip = int(r.random() < 0.3)
        v = r.choice(["", "Map", "m"])
        n = self.s.add(node("map", [a], k, r=[F(r.randint(-3, 3)), F(r.randint(-3, 3))], i=[skip, r.randrange(2)], v=v))
        return self.merge(n, [a], gaps=gaps, pos=k == "abs" and self.f[a]["pos"])

    def diff(self, a):
        fwd = self.rng.randrange(2)
        n = self.s.add(node("dmap", [a], i=[fwd]))
        # known finding: curves which scan a forward differential are not told
        # that the slope before a changed point changes
        return self.merge(n, [a], gaps=True, fwd=bool(fwd) or self.f[a].get("fwd"))

    def agg(self, ops, k=None, v=None, i=None):
        r = self.rng
        k = k or r.choice(["add", "add", "sub", "mul", "div", "min", "max", "min", "max", "first", "count", "wsum"])
        if len(ops) > 2 and k in ("div",):
            k = "add"
        union = i if i is not None else (1 if k == "first" else 0 if k in ("add", "sub", "mul", "div", "pow", "log") else r.randrange(2))
        two = len(ops) == 2
        opts = {"add": ["op", "meth", "args", ""], "sub": ["op", "meth", "args", ""], "mul": ["op", "meth", "args", ""],
                "div": ["op", "meth", "args", ""], "pow": ["op", "meth", "raised", "args", ""]}.get(k, ["", "args"])
        if not two:
            opts = [o for o in opts if o in ("", "args")]
        if k == "log":
            opts = ["", "args", "meth"] if two else ["", "args"]
        rr = [None]
        if k in ("count", "wsum"):
            rr = [self.rng.choice([None, F(0), F(-1)])]
        if k == "wsum":
            rr += [F(r.randint(-3, 3)) for _ in ops]
        v = v if v is not None else r.choice(opts)
        if v in ("meth",) and self.s.g[ops[0] - 1].get("raw"):
            v = "op"
        if v == "raised" and self.s.g[ops[1] - 1].get("raw"):
            v = "op"
        if v == "op" and all(self.s.g[o - 1].get("raw") for o in ops):
            v = ""
        n = self.s.add(node("agg", ops, k, r=rr, i=[union], v=v))
        fs = [self.f[o] for o in ops]
        fin = all(f["fin"] for f in fs) if union else any(f["fin"] for f in fs)
        gaps = any(f["gaps"] for f in fs) or bool(union)
        return self.merge(n, ops, fin=fin, gaps=gaps)

    def off(self, a, x=None):
        n = self.s.add(node("off", [a], r=[self.rng.choice([F(1), F(-1), F(2), H, F(-5, 2), F(0)]) if x is None else x]))
        return self.merge(n, [a])

    def offdur(self, a, dur, count=None):
        """moved by a number of durations"""
        r = self.rng
        c = r.choice([1, -1, 2, 3, -2, 0, 5]) if count is None else count
        n = self.s.add(node("off", [a], "dur", r=[c, DURATIONS[dur]], dur=dur, v=r.choice(["", "cls"])))
        return self.merge(n, [a])

    def sinext(self, a):
        r = self.rng
        start = r.randrange(2)
        end = 1 if not start else r.randrange(2)
        deg, per = 0, None
        c = r.choice(["", "", "deg", "per"])
        if c == "deg":
            deg = r.choice([1, 2, 3])
        elif c == "per":
            per = r.choice([F(1), F(2), F(3)])
        n = self.s.add(node("ext", [a], "sin", i=[start, end, deg], r=[per, r.choice([F(4), F(8), F(2), F(12), F(3), F(1)])],
                            v=r.choice(["", "cls"])))
        return self.merge(n, [a], fin=False)

    def quotes(self, **kw):
        n = self.s.quotes(**kw)
        return self.fact(n, fin=True, knots=True, gaps=False, pos=False, src={n}, multi=False)

    def field(self, q, k=None):
        n = self.s.add(node("qmap", [q], k or self.rng.choice(["open", "high", "low", "close", "volume", "hl2"])))
        return self.merge(n, [q])

    def ext(self, a, k=None, start=None, end=None, reg=None, strict=False):
        r = self.rng
        k = k or r.choice(["constant", "tangent"])
        start = r.randrange(2) if start is None else start
        end = (1 if not start else r.randrange(2)) if end is None else end
        deg, per = 0, None
        if k == "tangent":
            c = reg or r.choice(["", "deg", "per"])
            if c == "deg":
                deg = r.choice([1, 2, 3])
            elif c == "per":
                per = r.choice([F(1), F(2), F(3), F(3, 2)])
        n = self.s.add(node("ext", [a], k, i=[start, end, deg] + [1] * strict, r=[per], v=r.choice(["", "cls"])))
        return self.merge(n, [a], fin=False)

    def pw(self, ops, cuts=None):
        r = self.rng
        lo, hi = self.s.span()
        c = sorted(set(self.s.near()))
        cuts = sorted(r.sample(c, min(len(c), len(ops) - 1))) if cuts is None else cuts
        while len(cuts) < len(ops) - 1:
            cuts.append((cuts[-1] if cuts else hi) + 1)
        a = r.choice([lo - 1, lo, lo + H, NINF])
        b = r.choice([hi + 1, hi, hi - H, PINF])
        if a != NINF and cuts and a >= cuts[0]:
            a = cuts[0] - 1
        if b != PINF and cuts and b <= cuts[-1]:
            b = cuts[-1] + 1
        if a != NINF and b != PINF and a >= b:
            b = a + 1
        edges = [a] + list(cuts) + [b]
        ds = []
        prev_closed = False
        gap = r.random() < 0.15
        for j in range(len(ops)):
            lo_, hi_ = edges[j], edges[j + 1]
            lo_open = 1 if lo_ == NINF else (1 if j > 0 and prev_closed else 0)
            hi_open = 1 if hi_ == PINF else r.randrange(2)
            if gap and j > 0:
                lo_open = 1
            prev_closed = not hi_open
            if lo_ == hi_:
                hi_ = hi_ + 1
                edges[j + 1] = hi_
            ds.append(I(lo_, hi_, lo_open, hi_open))
        n = self.s.add(node("pw", ops, ds=ds))
        fin = a != NINF and b != PINF
        return self.merge(n, ops, fin=fin, gaps=True, knots=fin and all(self.f[o]["knots"] for o in ops))

    def sms(self):
        return self.rng.choice([0, 0, 0, 0, 1, H])

    def scannable(self, a):
        return self.f[a]["fin"] and self.f[a]["knots"] and not self.f[a].get("fwd") and not self.f[a].get("plain")

    def integral(self, a, k2=None, ms=None):
        r = self.rng
        ms = self.sms() if ms is None else ms
        n = self.s.add(node("integral", [a], "lin", k2 or r.choice(["lin", "lin", "prev", "next"]),
                            r=[ms, F(r.randint(-2, 3))], v=r.choice(["", "interp"])))
        return self.merge(n, [a], gaps=self.f[a]["gaps"] or ms != 0)

    def ema(self, a, period=None, init=None, ms=None):
        r = self.rng
        per = r.random() < 0.3 if period is None else period
        deg = r.choice([F(4), F(8), F(16)]) if per else r.choice([H, F(1, 4), F(1)])
        ms = self.sms() if ms is None else ms
        n = self.s.add(node("ema", [a] + ([init] if init else []), "lin", r=[ms, deg],
                            i=[1 if per else 0], v=r.choice(["", "cls"])))
        return self.merge(n, [a], gaps=self.f[a]["gaps"] or ms != 0, multi=self.f[a]["multi"] or bool(init))

    def smma(self, a, deg=None, ms=None):
        r = self.rng
        ms = 0 if ms is None else ms    # windows of skipped steps are not aligned
        deg = deg or r.choice([1, 2, 3, 4])
        h = self.s.add(node("sma", [a], r=[ms, 0], i=[deg], h=1))
        self.merge(h, [a])
        n = self.s.add(node("ema", [a, h], "lin", r=[ms, F(1, deg)], i=[0], v="smma", deg=deg))
        # reads its source and its first value: two paths
        return self.merge(n, [a], gaps=True, multi=True)

    def sma(self, a, deg=None, ms=None):
        r = self.rng
        per = r.choice([F(2), F(3), F(5, 2), F(1)])
        i = [r.choice([1, 2, 3, 4])] if deg is None else [deg]
        if deg is None and r.random() < .15:
            # one of many, whose degrees grow by golden sections
            base, stride, count = r.choice([1, 1, 2]), r.choice([0, 0, 1]), r.choice([1, 2, 3])
            j = r.randrange(count)
            ix = r.choice([j, j - count])
            n = self.s.add(node("sma", [a], r=[0 if ms is None else ms, per], i=[base * [1, 2, 3, 4, 7][j * (stride + 1)]],
                                v="harmonic", many=[base, count, stride, ix]))
            if r.random() < .4:     # the largest first
                self.s.g[n - 1].update(v="centered", many=[base, count, stride, -1 - ix])
            return self.merge(n, [a])
        n = self.s.add(node("sma", [a], r=[0 if ms is None else ms, per], i=i, v=r.choice(["", "cls"])))
        return self.merge(n, [a])

    def amap(self, a, k2=None, per=None, ms=None):
        r = self.rng
        k2 = k2 or r.choice(["min", "max", "sum", "len", "xlast"])
        per = r.random() < 0.4 if per is None else per
        # whether a sample skips steps depends on the average step of all points
        ms = 0 if per else self.sms() if ms is None else ms
        n = self.s.add(node("amap", [a], r.choice(["lin", "prev", "next"]), k2,
                            r=[ms, r.choice([F(1), F(2), F(3), F(5, 2)])],
                            i=[0 if per else r.choice([1, 2, 3, 5])], v=r.choice(["", "trailing"])))
        return self.merge(n, [a], gaps=self.f[a]["gaps"] or ms != 0)

    def accum(self, a):
        r = self.rng
        ms = self.sms()
        n = self.s.add(node("accum", [a], r.choice(["lin", "prev", "next"]), r.choice(["sum", "count", "max"]), r=[ms]))
        return self.merge(n, [a], gaps=self.f[a]["gaps"] or ms != 0)

    def extr(self, a, ref, ms=None):
        r = self.rng
        n = self.s.add(node("extr", [a, ref], "lin", r=[self.sms() if ms is None else ms, r.choice([F(0), F(0), F(1, 4)])]))
        return self.merge(n, [a, ref], gaps=True)

    def rsi(self, a, deg=None):
        """the relative strength index, spelled out"""
        r = self.rng
        deg = deg or r.choice([1, 2, 4])
        s = self.s
        h = lambda n, ops, st=(), **kw: self.merge(s.add({**n, "h": 1}, st), ops, **kw)

        def c(y):
            return self.fact(s.add({**node("const", d=ALL), "h": 1}, [R(y)]), fin=False, knots=False, gaps=False, pos=False, src=set(), multi=False)
        d = h(node("dmap", [a], i=[0]), [a], gaps=True)
        z1 = c(0)
        du = h(node("agg", [d, z1], "max", r=[None], i=[0]), [d])
        neg = h(node("map", [d], "neg", i=[0, 0]), [d])
        dd = h(node("agg", [neg, z1], "max", r=[None], i=[0]), [neg])
        eu = h(node("ema", [du], "lin", r=[0, F(1, deg)], i=[0]), [du])
        ed = h(node("ema", [dd], "lin", r=[0, F(1, deg)], i=[0]), [dd])
        rs = h(node("agg", [eu, ed], "div", r=[None], i=[0]), [eu, ed])
        one = c(1)
        p = h(node("agg", [one, rs], "add", r=[None], i=[0]), [rs])
        hun = c(100)
        q = h(node("agg", [hun, p], "div", r=[None], i=[0]), [p])
        n = s.add(node("agg", [hun, q], "sub", r=[None], i=[0], v="rsi", src=a, deg=deg))
        return self.merge(n, [q], gaps=True)

    def blend(self, a, b):
        r = self.rng
        lo, hi = self.s.span()
        x0 = lo + r.choice([F(1), H, F(0), F(1, 4)])
        x1 = x0 + r.choice([F(1), F(2), H])
        n = self.s.add(node("agg", [a, b], "blend", r=[None, x0, x1], i=[0], h=1))
        self.merge(n, [a, b], gaps=True)
        # pieces: the domain of the first curve, cut at both ends of the blend
        return n, x0, x1

    # ------------------------------------------------------------ whole graphs
    def any(self, types=None, cur=None):
        """one random derived node"""
        r = self.rng
        nodes = cur or list(self.f)
        for _ in range(60):
            a = r.choice(nodes[-3:] if r.random() < 0.5 else nodes)
            if self.s.g[a - 1].get("h") or self.s.g[a - 1].get("raw"):
                continue
            t = r.choice(types or ["map", "diff", "agg", "agg", "off", "ext", "pw", "sub", "integral", "ema", "sma", "amap", "accum", "smma", "extr"])
            if t == "map":
                return self.map(a)
            if t == "diff" and self.f[a]["knots"]:
                return self.diff(a)
            if t == "agg":
                m = r.choice([1, 2, 2, 2, 3])
                ops = [a] + [r.choice(nodes) for _ in range(m - 1)]
                if any(self.s.g[o - 1].get("h") for o in ops):
                    continue
                r.shuffle(ops)
                if len(ops) == 1:
                    return self.agg(ops, k=r.choice(["count", "wsum", "min", "first", "add"]))
                return self.agg(ops)
            if t == "off":
                return self.off(a)
            if t == "ext" and self.f[a]["fin"] and self.f[a]["knots"] and not self.f[a]["gaps"]:
                return self.ext(a)
            if t == "pw" and all(f["knots"] for f in self.f.values()):
                m = r.choice([1, 2, 3])
                ops = [r.choice(nodes) for _ in range(m)]
                if any(self.s.g[o - 1].get("h") for o in ops):
                    continue
                return self.pw(ops)
            if t == "sub":
                d = self.s.interval()
                n = self.s.add(node("sub", [a], d=d))
                # does not pass changes on
                return self.merge(n, [a], fin=True, gaps=True, knots=False, src=set(), multi=False)
            if not self.scannable(a):
                continue
            gaps = self.f[a]["gaps"]
            if t == "integral":
                return self.integral(a)
            if t == "ema":
                return self.ema(a)
            if t == "sma" and not gaps:
                return self.sma(a)
            if t == "smma" and not gaps:
                return self.smma(a)
            if t == "amap" and not gaps:
                return self.amap(a)
            if t == "accum":
                return self.accum(a)
            if t == "extr":
                refs = [b for b in nodes if self.scannable(b) and not self.s.g[b - 1].get("h")]
                if refs:
                    return self.extr(a, r.choice(refs))
        return self.map(nodes[0])
