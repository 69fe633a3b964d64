"""Builds the curve graph a scenario describes from the real curvepy, runs the
scenario against it, and records what the code did as a trace for Trace.tla.

A scenario is plain JSON:
  g   node records in topological order (see spec/Curves.tla), plus "v": which
      public construct to build the node with, "h": 1 for nodes which only exist
      inside a composite (no object to query)
  st  initial data per node
  ev  events without their answers
Only curvepy's public interface is used.
"""
import math
import os
import signal
import sys
import weakref
from fractions import Fraction

REPO = os.environ.get("CURVEPY_REPO", "/repo")
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

# objects whose construction was refused are deleted with a complaint
sys.unraisablehook = lambda *_: None

import warnings
warnings.filterwarnings("ignore")

import curvepy                                      # noqa: E402
from curvepy import (Curve, Points, Quotes, Constant, Line, Generic, Map, Aggregate, Offset,   # noqa: E402
                     Piecewise, Integral, EMA, SMA, AccumulatorMap, Accumulator, Extremas,
                     ConstantExtension, TangentExtension, Sin)
from curvepy.extension import SinExtension
from intervalpy import Interval                     # noqa: E402

NONE, PINF, NINF = [0, 0], [1, 0], [-1, 0]
RAISE, HANG = [0, -1], [0, -2]
MAXDEN = 20000
LIM = 2 ** 29


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def num(r):
    """[n, d] -> python number"""
    n, d = r
    if d == 0:
        return None if n == 0 else math.inf * n
    if d == 1:
        return n
    return n / d


def snap(y, far=0):
    """python number -> [n, d], the small rational it stands for"""
    if y is None:
        return list(NONE)
    if isinstance(y, bool):
        return [int(y), 1]
    try:
        y = float(y)
    except Exception:
        return [0, -8]
    if math.isnan(y):
        return [0, -9]
    if math.isinf(y):
        return list(PINF if y > 0 else NINF)
    f = Fraction(y).limit_denominator(99 if far else MAXDEN)
    if abs(float(f) - y) <= (1e-15 * abs(far) + 1e-9) * max(1.0, abs(y)) and abs(f.numerator) < LIM:
        return [f.numerator, f.denominator]
    return [max(-LIM, min(LIM, round(y * 1000))), -9]


def itv(d):
    """[lo, hi, lo_open, hi_open] -> Interval"""
    if not d:
        return Interval.empty()
    lo, hi = num(d[0]), num(d[1])
    return Interval(lo, hi, start_open=bool(d[2]), end_open=bool(d[3]))


def unitv(i):
    if i.is_empty:
        return []
    return [snap(i.start), snap(i.end), int(bool(i.start_open)), int(bool(i.end_open))]


KIND = {"prev": -1, "lin": 0, "next": 1}


def affine(r):
    a, b = num(r[0]), num(r[1])
    return lambda y: a * y + b


def tfm_of(n, far=0, h=1):
    k, r = n["k"], n["r"]
    if k == "affine":
        a, b = num(r[0]), num(r[1])
        if n["i"][1]:
            return lambda x, y: a * y + b
        return lambda y: a * y + b
    if k == "xplus":
        a = num(r[0])
        return lambda x, y: (x - far) / h + a * y
    if k == "sq":
        return lambda y: y * y
    if k == "default":
        d = num(r[0])
        return lambda y: d if y is None else y
    if k == "isnone":
        return lambda y: 1 if y is None else 0
    raise KeyError(k)


def win_of(k, far=0, h=1):
    return {
        "min": min, "max": max, "sum": lambda ys: sum(ys), "len": lambda ys: len(ys),
        "xlast": lambda x, ys: (x - far) / h + ys[-1],
    }[k]


def acc_of(k):
    def _sum(x, y, last):
        return last if y is None else (y if last is None else last + y)

    def _count(x, y, last):
        return 1 if last is None else last + 1

    def _max(x, y, last):
        return last if y is None else (y if last is None else max(last, y))
    return {"sum": _sum, "count": _count, "max": _max}[k]


# slot positions of OHLCV in the "close first" encoding used for encoder tests
def enc_quote(p):
    """what an encoder has to undo: {"t":, "q": [v, c, l, h, o]}"""
    return {"t": p[0], "q": list(reversed(p[1]))}


def dec_quote(d):
    return (d["t"], list(reversed(d["q"])))


class World:
    """What a scenario calls place x is place x * unit + far on the code."""

    def __init__(self, sc):
        self.sc = sc
        self.far = sc.get("far", 0)
        self.unit = sc.get("unit", 1)
        self.obj = []
        self.tokens = {}
        self.holders = {}
        self.cb = None
        self.hung = False
        for i, n in enumerate(sc["g"]):
            self.obj.append(None)
            if not n.get("h") and not n.get("late"):
                self.obj[i] = self.build(i, n, sc["st"][i])

    def at(self, r):
        """[n, d] -> place"""
        x = num(r)
        return x if x is None or self.plain else x * self.unit + self.far

    @property
    def plain(self):
        return not self.far and self.unit == 1

    def width(self, r):
        """[n, d] -> distance between places"""
        w = num(r)
        return w if w is None or self.unit == 1 else w * self.unit

    def itv(self, d):
        if not d or self.plain:
            return itv(d)
        return Interval(self.at(d[0]), self.at(d[1]), start_open=bool(d[2]), end_open=bool(d[3]))

    def place(self, x):
        """place -> [n, d]"""
        return snap(x) if x is None or self.plain else snap((x - self.far) / self.unit, self.far or 1)

    def unitv(self, i):
        if i.is_empty:
            return []
        return [self.place(i.start), self.place(i.end), int(bool(i.start_open)), int(bool(i.end_open))]

    # ------------------------------------------------------------ building
    def build(self, i, n, st):
        t, k, v, r = n["t"], n["k"], n.get("v", ""), n["r"]
        ops = [self.obj[j - 1] for j in n["a"]]
        c = ops[0] if ops else None
        ms = {}
        if t in ("integral", "ema", "sma", "amap", "accum", "extr") and num(r[0]) != 0:
            ms = {"min_step": self.width(r[0])}
        if t == "pts":
            pts = [(self.at(p[0]), num(p[1])) for p in st]
            if v == "parse":
                return Curve.parse(pts)
            if v == "empty_then_set":
                o = Points([], interpolation=KIND[k], uniform=bool(n["i"][0]))
                o.set(pts)
                return o
            if v == "appended":
                o = Points(pts[:1], interpolation=KIND[k], uniform=bool(n["i"][0]))
                for p in pts[1:]:
                    o.append(p)
                return o
            if v == "defaults":
                return Points(pts)
            return Points(pts, interpolation=KIND[k], uniform=bool(n["i"][0]))
        if t == "qt":
            pts = [(self.at(p[0]), [num(z) for z in p[1]]) for p in st]
            if v == "enc":
                return Quotes(n["dur"], [enc_quote(p) for p in pts], encoder=dec_quote)
            return Quotes(n["dur"], pts)
        if t == "const":
            val = num(st[0])
            if v == "const":
                return Curve.const(val)
            if v == "parse":
                return Curve.parse(val)
            return Constant(val) if n["d"] == [NINF, PINF, 1, 1] else Constant(val, domain=self.itv(n["d"]))
        if t == "line":
            b, m = num(st[0]), num(st[1])
            far, h = self.far, self.unit
            if v == "pp":
                return Line(p1=(far + h, b + m), p2=(far + 3 * h, b + 3 * m))
            if v == "points":
                return Line(points=[(far - 2 * h, b - 2 * m), (far + 2 * h, b + 2 * m)])
            if v == "pslope" or not self.plain:
                return Line(p1=(far + 4 * h, b + 4 * m), slope=m / h)
            return Line(const=b, slope=m)
        if t == "sin":
            a, f, px = (num(z) for z in st)
            return Sin(**self.sin_args(a, f, px, v))
        if t == "empty":
            return Curve.empty()
        if t == "gen":
            p, q, s = (num(z) for z in r[:3])
            kw = {}
            if num(r[3]) != 0:
                kw["min_step"] = self.width(r[3])
            if n["d"] != [NINF, PINF, 1, 1]:
                kw["domain"] = self.itv(n["d"])
            far, h = self.far, self.unit
            if self.plain:
                def f(x): return p + x * (q + x * s)
            else:
                def f(x):
                    x = (x - far) / h
                    return p + x * (q + x * s)
            if v == "parse" and "domain" not in kw:
                return Curve.parse(f)
            return Generic(f, **kw)
        if t == "sub":
            return c.subset(self.itv(n["d"]))
        if t == "map":
            if k == "neg":
                return c.additive_inverse() if v == "m" else -c
            if k == "abs":
                return c.abs() if v == "m" else abs(c)
            if k == "inv":
                return c.multiplicative_inverse()
            if v == "Map":
                return Map(c, tfm_of(n, self.far, self.unit), skip_none=bool(n["i"][0]))
            return c.map(tfm_of(n, self.far, self.unit), skip_none=bool(n["i"][0]))
        if t == "dmap":
            return c.differential(forward=bool(n["i"][0]))
        if t == "qmap":
            return getattr(c, k)
        if t == "agg":
            return self.build_agg(n, ops)
        if t == "off" and v == "alligator":
            return self.obj[n["src"] - 1].alligator()[n["ix"]]
        if t == "off" and k == "dur":
            if v == "cls":
                return Offset(c, int(num(r[0])), duration=n["dur"])
            return c.offset(int(num(r[0])), duration=n["dur"])
        if t == "off":
            return c.offset(self.width(r[0]))
        if t == "ext":
            kw = {"raise_on_empty": True} if n["i"][3:] == [1] else {}
            if n["i"][2] > 0:
                kw["regression_degree"] = n["i"][2]
            elif r[0] != NONE:
                kw["regression_period"] = self.width(r[0])
            if k == "sin":
                kw["period"] = num(r[1])
                if v == "cls":
                    return SinExtension(c, start=bool(n["i"][0]), end=bool(n["i"][1]), **kw)
            elif v == "cls":
                cl = ConstantExtension if k == "constant" else TangentExtension
                return cl(c, start=bool(n["i"][0]), end=bool(n["i"][1]), **kw)
            return c.extension(k, start=bool(n["i"][0]), end=bool(n["i"][1]), **kw)
        if t == "pw":
            if v == "blend":
                return ops[0].blend(ops[-1], self.at(n["r"][0]), self.at(n["r"][1]))
            return Piecewise(ops, [self.itv(d) for d in n["ds"]])
        if t == "integral":
            kw = dict(const=num(r[1]), uniform=False)
            if n["k2"] != "lin" or v == "interp":
                kw["interpolation"] = KIND[n["k2"]]
            if ms:
                return Integral(c, **kw, **ms)
            return c.integral(**kw)
        if t == "ema":
            if v == "smma":
                return self.obj[n["a"][0] - 1].smma(n["deg"], uniform=False, **ms)
            init = {}
            if len(n["a"]) > 1:
                init["init"] = self.obj[n["a"][1] - 1]
            if v == "cls":
                return EMA(c, (self.width if n["i"][0] else num)(r[1]), is_period=bool(n["i"][0]), uniform=False, **init, **ms)
            return c.ema((self.width if n["i"][0] else num)(r[1]), is_period=bool(n["i"][0]), uniform=False, **init, **ms)
        if t == "sma":
            per = n["i"][0] == 0
            deg = self.width(r[1]) if per else n["i"][0]
            if v in ("harmonic", "centered"):
                base, count, stride, ix = n["many"]
                f = c.harmonic_smas if v == "harmonic" else c.centered_macs
                return f(base, count, stride, is_period=per, uniform=False, **ms)[ix]
            if v == "cls":
                return SMA(c, deg, is_period=per, uniform=False, **ms)
            return c.sma(deg, is_period=per, uniform=False, **ms)
        if t == "amap":
            per = n["i"][0] == 0
            deg = self.width(r[1]) if per else n["i"][0]
            kw = dict(is_period=per, interpolation=KIND[k], uniform=False, **ms)
            if v == "trailing" and n["k2"] == "min":
                return c.trailing_min(deg, **kw)
            if v == "trailing" and n["k2"] == "max":
                return c.trailing_max(deg, **kw)
            if v == "quotes":
                q = self.obj[n["q"] - 1]
                return (q.trailing_high if n["k2"] == "max" else q.trailing_low)(deg, is_period=per)
            return c.accumulator_map(win_of(n["k2"], self.far, self.unit), deg, **kw)
        if t == "accum":
            return Accumulator(c, acc_of(n["k2"]), interpolation=KIND[k], uniform=False, **ms)
        if t == "extr":
            return Extremas(c, ops[1], min_deviation=num(r[1]), **ms)
        raise KeyError(t)

    @staticmethod
    def sin_args(a, f, px, v):
        kw = {"amplitude": a}
        if v in ("period", "pphase"):
            kw["period"] = 1 / f
        else:
            kw["frequency"] = f
        if v in ("", "period"):
            kw["phase_x"] = px
        elif px:
            kw["phase"] = 2 * math.pi * f * px
        return kw

    def build_agg(self, n, ops):
        k, v, r = n["k"], n.get("v", ""), n["r"]
        # operands which are plain numbers in the expression
        raw = [num(self.sc["st"][j - 1][0]) if self.sc["g"][j - 1].get("raw") else o
               for j, o in zip(n["a"], ops)]
        binop = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b,
                 "div": lambda a, b: a / b, "pow": lambda a, b: a ** b}
        many = {"add": Curve.add_many, "sub": Curve.subtract_many, "mul": Curve.multiply_many,
                "div": Curve.divide_many, "pow": Curve.pow_many, "log": Curve.log_many}
        meth = {"add": "add", "sub": "subtract", "mul": "multiply", "div": "divide", "pow": "pow", "log": "log"}
        if v == "ao":
            return self.obj[n["src"] - 1].ao()
        if v == "rsi":
            return self.obj[n["src"] - 1].rsi(n["deg"], uniform=False)
        if k in many:
            if v == "op":
                return binop[k](raw[0], raw[1])
            if v == "meth":
                return getattr(raw[0], meth[k])(raw[1])
            if v == "raised":
                return raw[1].raised(raw[0])
            if v == "args":
                return many[k](raw[0], *raw[1:])
            return many[k](raw)
        if k in ("min", "max"):
            f = Curve.min if k == "min" else Curve.max
            if v == "args":
                return f(raw[0], *raw[1:], ignore_empty=bool(n["i"][0]))
            return f(raw, ignore_empty=bool(n["i"][0]))
        if k == "first":
            return Curve.first(raw[0], *raw[1:]) if v == "args" else Curve.first(raw)
        if k == "count":
            return Aggregate(ops, tfm=lambda x, ys: sum(1 for y in ys if y is not None),
                             union=bool(n["i"][0]), default=num(r[0]))
        if k == "wsum":
            w = [num(z) for z in r[1:]]
            return Aggregate(ops, tfm=lambda x, ys: None if any(y is None for y in ys)
                             else sum(a * y for a, y in zip(w, ys)),
                             union=bool(n["i"][0]), default=num(r[0]))
        raise KeyError(k)

    # ------------------------------------------------------------ queries
    def pt(self, p):
        return [] if p is None else [self.place(p[0]), self.val(p[1])]

    def val(self, y):
        if isinstance(y, (list, tuple)):
            return [snap(z) for z in y]
        return snap(y)

    def rise(self, y):
        """slope -> [n, d]"""
        return snap(y if y is None or self.unit == 1 else y * self.unit)

    def pts(self, ps):
        return [[self.place(p[0]), self.val(p[1])] for p in ps]

    def ask(self, q):
        c = self.obj[q["n"] - 1]
        k = q["k"]
        kw = {}
        if "m" in q and k not in ("smp", "smpq", "rng", "fit"):
            if q["m"] == NONE:
                kw["min_step"] = None
            elif q["m"] != [0, 1]:
                kw["min_step"] = self.width(q["m"])
        if k in ("nx", "pv") and q["l"] != NONE:
            kw["limit"] = self.at(q["l"])
        if k in ("smp", "smpq", "rng", "fit"):
            if q["m"] == NONE:
                kw["min_step"] = None
            elif q["m"] != [0, 1]:
                kw["min_step"] = self.width(q["m"])
            if q["s"] != NONE:
                kw["step"] = self.width(q["s"])
            if q.get("nodom"):
                pass
            else:
                kw["domain"] = self.itv(q["d"])
        x = self.at(q["x"]) if "x" in q else None
        if k == "y":
            return snap(c(x) if q.get("call") else c.y(x))
        if k == "yv":
            y = c.y(x)
            return list(NONE) if y is None else self.val(y)
        if k == "dypi":
            return snap(c.d_y(x, forward=bool(q["f"])) / math.pi)
        if k == "ypi":
            return snap(c.y(x) * 2 * math.pi)
        if k == "dsc":
            return [snap(c.frequency), snap(c.period)]
        if k == "fq":
            y = c.first_quote()
            return list(NONE) if y is None else self.val(y)
        if k == "lq":
            y = c.last_quote()
            return list(NONE) if y is None else self.val(y)
        if k == "qdom":
            return self.unitv(c.get_quote_domain())
        if k == "ys":
            return snap(c.y_start())
        if k == "ye":
            return snap(c.y_end())
        if k == "dom":
            return self.unitv(c.domain)
        if k == "nx":
            return self.place(c.x_next(x, **kw))
        if k == "pv":
            return self.place(c.x_previous(x, **kw))
        if k == "np":
            return self.pt(c.next_point(x, **kw))
        if k == "pp":
            return self.pt(c.previous_point(x, **kw))
        if k == "fp":
            return self.pt(c.first_point())
        if k == "lp":
            return self.pt(c.last_point())
        if k in ("dy", "dym"):
            return self.rise(c.d_y(x, forward=bool(q["f"]), **kw))
        if k == "smpq" and q.get("flat"):
            # the quotes alone: put back their places
            ys = c.sample(**kw)
            xs = [p[0] for p in c.sample_points(**kw)]
            return [[self.place(x), self.val(y)] for x, y in zip(xs, ys)] + [[[0, -7], [0, -7]]] * abs(len(xs) - len(ys))
        if k in ("smp", "smpq"):
            return self.pts(c.sample_points(**kw))
        if k == "hop":
            # -n steps back are n steps on
            count = -q["c"] if q.get("neg") else q["c"]
            a = {"backward": True} if bool(q["f"]) != (count < 0) else {}
            if not q["i"]:
                a["open"] = True
            return self.pts(c.sample_points_from_x(x, count, **a, **kw))
        if k == "rng":
            return unitv(c.get_range(**kw))
        if k == "upd":
            return int(bool(c.is_updating))
        if k == "ui":
            return self.unitv(c.update_interval)
        if k == "fit":
            line = c.regression(**kw)
            return [] if line is None else [snap(line.y(self.far)), snap(line.slope * self.unit)]
        if k == "ext":
            if q.get("s", NONE) != NONE:
                kw["step"] = self.width(q["s"])
            if q.get("mi"):
                kw["max_iterations"] = q["mi"]
            return self.place((c.minimise if q["sg"] == 1 else c.maximise)(x, **kw))
        if k == "inv":
            r = c.x(num(q["x"]))
            # every place will do for a constant; the code always names 0
            return snap(r) if self.sc["g"][q["n"] - 1]["t"] == "const" else self.place(r)
        if k == "area":
            return snap(c.partial_integration(x, self.at(q["s"])))
        raise KeyError(k)

    SHAPE = {"ui": 4, "dom": 4, "rng": 4, "np": 2, "pp": 2, "fp": 2, "lp": 2, "fit": 2, "dsc": 2, "qdom": 4, "smpq": 1, "smp": 1, "hop": 1}

    def guarded(self, q):
        """answer of a query; exceptions and endless loops are answers too"""
        old = signal.getsignal(signal.SIGALRM)
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 3, 1)
        try:
            return self.ask(q)
        except (Hang, MemoryError):
            self.hung = True
            bad = HANG
        except Exception as e:
            if os.environ.get("WORLD_DEBUG"):
                import traceback
                traceback.print_exc()
            bad = RAISE
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        shape = self.SHAPE.get(q["k"], 0)
        if shape == 4:
            return [bad, bad, 0, 0]
        if shape == 2:
            return [bad, bad]
        if shape == 1:
            return [[bad, bad]]
        return list(bad)

    def answer(self, q):
        q = dict(q)
        q["r"] = self.guarded(q)
        return q

    # ------------------------------------------------------------ events
    def register(self, e):
        c = self.obj[e["n"] - 1]
        cq = e.get("cq", [])

        def note(w, i):
            if self.cb is None:
                return
            entry = {"o": e["o"], "w": w, "i": self.unitv(i) if i is not None else [], "q": []}
            self.cb.append(entry)
            entry["q"] = [self.answer(q) for q in cq]

        kw = {}
        kind = e["kind"]
        if kind == "noarg":
            kw = dict(begin=lambda: note("b", None), end=lambda: note("e", None))
        else:
            if kind in ("both", "begin"):
                kw["begin"] = lambda d: note("b", d)
            if kind in ("both", "end"):
                kw["end"] = lambda d: note("e", d)
        if e["hd"]:
            kw["domain"] = self.itv(e["d"])
        self.tokens[e["o"]] = (e["n"], c.add_observer(**kw))

    def operate(self, e):
        c = self.obj[e["n"] - 1]
        n = self.sc["g"][e["n"] - 1]
        op = e["op"]
        if n["t"] == "qt":
            p = [(self.at(a[0]), [num(z) for z in a[1]]) for a in e["p"]]
            if n.get("v") == "enc":
                p = [enc_quote(a) for a in p]
        elif n["t"] == "pts":
            p = [(self.at(a[0]), num(a[1])) for a in e["p"]]
        else:
            p = [(num(a[0]), num(a[1])) for a in e["p"]]
        if op == "append":
            if len(p) == 1 and not e.get("list"):
                c.append(p[0])
            else:
                c.append_list(p)
        elif op == "replace":
            c.replace(p[0], or_append=bool(e["f"]))
        elif op == "reset":
            c.reset(self.itv(e["d"])) if e["f"] else c.reset()
        elif op == "set":
            c.set(p)
        elif op == "val":
            c.value = p[0][0]
        elif op == "sin":
            (a, f), (px, _) = p
            c.set(**self.sin_args(a, f, px, e.get("v", "")))
        elif op == "bad":
            if n["t"] == "sin":
                c.set(**[dict(amplitude=1), dict(frequency=1), dict(period=2, phase_x=1)][e["f"]])
            else:
                c.set(**[dict(const=1), dict(slope=1), dict(p1=(0, 1))][e["f"]])
        elif op == "line":
            b, m = p[0]
            v = e.get("v", "")
            far, h = self.far, self.unit
            s = e["f"]
            if v == "pp":
                c.set(p1=(far, b), p2=(far + 2 * h, b + 2 * m))
            elif v == "points":
                c.set(points=[(far + s * h, b + s * m), (far + 5 * h, b + 5 * m)])
            elif v == "ps":
                c.set(p1=(far + s * h, b + s * m), slope=m / h)
            elif not self.plain:
                c.set(p1=(far, b), slope=m / h)
            else:
                c.set(const=b, slope=m)
        else:
            raise KeyError(op)

    def described(self, d):
        """the description as the JSON (and curves) it stands for"""
        k = d["k"]
        if k == "num":
            return bool(d["v"][0]) if d.get("b") else num(d["v"])
        if k == "str":
            return d["s"]
        if k == "cur":
            return self.obj[d["t"]["p"]["i"] - 1]
        if k == "list":
            return [self.described(e) for e in d["e"]]
        return {e["c"] + e["s"]: self.described(e["v"]) for e in d["e"]}

    def describe(self, e):
        """parse a description: (outcome, whether it is as it was)"""
        d, was = self.described(e["d"]), self.described(e["d"])
        try:
            c = getattr(Curve, e["how"])(d)
            r = "ok" if isinstance(c, Curve) else "no curve"
        except Exception:
            if os.environ.get("WORLD_DEBUG"):
                import traceback
                traceback.print_exc()
            r = "refused"
        if r == "ok" and e["n"]:
            self.obj[e["n"] - 1] = c
        return r, int(self.alike(d, was))

    def alike(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, dict):
            return list(a) == list(b) and all(self.alike(a[k], b[k]) for k in a)
        if isinstance(a, list):
            return len(a) == len(b) and all(self.alike(x, y) for x, y in zip(a, b))
        return a is b if isinstance(a, Curve) else a == b

    def run_op(self, f):
        self.cb = []
        old = signal.getsignal(signal.SIGALRM)
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 20, 1)
        try:
            f()
            r = "ok"
        except (Hang, MemoryError):
            self.hung = True
            r = "hang"
        except Exception:
            if os.environ.get("WORLD_DEBUG"):
                import traceback
                traceback.print_exc()
            r = "raise"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        cb, self.cb = self.cb, None
        return r, cb

    def step(self, e):
        e = dict(e)
        k = e["e"]
        if k == "op":
            e["r"], e["cb"] = self.run_op(lambda: self.operate(e))
        elif k == "pr":
            c = self.obj[e["n"] - 1]
            e["r"], e["cb"] = self.run_op(
                lambda: (c.begin_update if e["w"] == "b" else c.end_update)(self.itv(e["d"])))
        elif k == "q":
            e["q"] = [self.answer(q) for q in e["q"]]
        elif k == "reg":
            self.register(e)
        elif k == "desc":
            e["r"], e["same"] = self.describe(e)
            del e["d"]
        elif k == "mk":
            i = e["n"] - 1
            # a source built late is built from the data it starts with
            self.obj[i] = self.build(i, self.sc["g"][i], self.sc["st"][i])
        elif k == "unreg":
            n, token = self.tokens[e["o"]]
            self.obj[n - 1].remove_observer(token)
        else:
            raise KeyError(k)
        return e


def run(sc):
    """scenario -> trace"""
    try:
        w = World(sc)
    except Exception as ex:
        if os.environ.get("WORLD_DEBUG"):
            raise
        return {"id": sc["id"], "g": sc["g"], "st": sc["st"], "built": 0, "ev": [{"e": "built", "r": 0}]}
    ev = []
    for e in sc["ev"]:
        try:
            ev.append(w.step(e))
        except Exception as ex:
            if os.environ.get("WORLD_DEBUG"):
                raise
            ev.append({"e": "crash", "what": e["e"]})
            break
        if w.hung:
            break
    t = {"id": sc["id"], "g": sc["g"], "st": sc["st"], "ev": ev, "hung": int(w.hung)}
    if sc.get("strict"):
        t["strict"] = 1
    return t
