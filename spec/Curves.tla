------------------------------- MODULE Curves -------------------------------
(***************************************************************************)
(* What every curve of a graph of curves answers, as a function of the     *)
(* source data alone: domain, value, next / previous step, samples, slope. *)
(* No caches, no history: this is the meaning the implementation's lazy    *)
(* and incremental machinery has to agree with at all times.               *)
(*                                                                         *)
(* A graph g is a sequence of node records in topological order            *)
(*   t  type        a  operands (node numbers)    k  variant               *)
(*   r  rationals   i  integers   d  interval     ds intervals             *)
(* and st[n] the data of source node n.  A context C = [g, st, env] adds   *)
(* env[n] = [dom, acc]: the domain and accumulated points of node n.       *)
(***************************************************************************)
EXTENDS PointStore

Ty(C, n) == C.g[n].t
Op1(C, n) == C.g[n].a[1]
DomOf(C, n) == C.env[n].dom

RMax(a, b) == IF a = NONE THEN b ELSE IF b = NONE THEN a ELSE Max2(a, b)

ScanTypes == {"integral", "ema", "sma", "amap", "accum", "extr"}

(* the curve's own minimum step; NONE when it has none, 0 for the smallest *)
RECURSIVE MsOf(_, _)
MsOf(C, n) ==
    LET N == C.g[n] IN
    CASE N.t \in {"pts", "agg", "off", "pw", "sin"} -> NONE
      [] N.t \in {"const", "line", "empty"} -> PINF
      [] N.t = "gen" -> N.r[4]
      [] N.t \in {"map", "dmap", "qmap"} -> LET m == MsOf(C, N.a[1]) IN IF m = NONE THEN Zero ELSE m
      [] N.t = "sub" -> MsOf(C, N.a[1])
      [] N.t = "qt" -> N.r[1]
      [] N.t \in ScanTypes -> N.r[1]
      [] OTHER -> Zero
ResMs(C, n, ms) == RMax(ms, MsOf(C, n))

(* a place before it was moved by a number of durations *)
MoveBy(N, x, floor, sg) ==
    IF IsInf(x) \/ N.r[1] = Zero THEN x
    ELSE Add(IF floor THEN FloorD(x, N.r[2]) ELSE CeilD(x, N.r[2]), Mul(R(sg), Mul(N.r[1], N.r[2])))
Unoff(N, x, floor) == MoveBy(N, x, floor, -1)
Moved(N, D) ==      \* an interval moved by an offset
    IF D = EMPTY THEN EMPTY
    ELSE IF N.k = "dur" THEN Mk(MoveBy(N, D[1], FALSE, 1), MoveBy(N, D[2], FALSE, 1), D[3], D[4])
    ELSE <<IF IsInf(D[1]) THEN D[1] ELSE Add(D[1], N.r[1]),
           IF IsInf(D[2]) THEN D[2] ELSE Add(D[2], N.r[1]), D[3], D[4]>>
(* the whole durations d which meet D *)
SpanOf(D, d) ==
    IF D = EMPTY THEN EMPTY
    ELSE Mk(IF IsInf(D[1]) THEN D[1] ELSE FloorD(D[1], d),
            IF IsInf(D[2]) THEN D[2] ELSE IF D[4] = 1 THEN CeilD(D[2], d) ELSE Add(FloorD(D[2], d), d),
            0, 1)

RECURSIVE Y(_, _, _), Nx(_, _, _, _, _), Pv(_, _, _, _, _), DY(_, _, _, _)

---------------------------------------------------------------------------
(* value transforms of maps and aggregates *)

Tfm(k, r, x, y) ==
    IF y = UNK THEN UNK
    ELSE IF k = "isnone" THEN (IF y = NONE THEN One ELSE Zero)
    ELSE IF k = "default" THEN (IF y = NONE THEN r[1] ELSE y)
    ELSE IF y = NONE THEN (IF k \in {"neg", "abs", "inv"} THEN NONE ELSE UNK)
    ELSE CASE k = "affine" -> Add(Mul(r[1], y), r[2])
           [] k = "neg" -> Neg(y)
           [] k = "abs" -> RAbs(y)
           [] k = "inv" -> IF y = Zero THEN UNK ELSE Inv(y)
           [] k = "xplus" -> Add(x, Mul(r[1], y))
           [] k = "sq" -> Mul(y, y)

RECURSIVE FoldBin(_, _, _, _)
FoldBin(f(_, _), acc, s, i) == IF i > Len(s) THEN acc ELSE FoldBin(f, f(acc, s[i]), s, i + 1)

AnyNone(v) == \E i \in 1..Len(v) : v[i] = NONE
AnyUnk(v) == \E i \in 1..Len(v) : v[i] = UNK
NotNone(v) == SelectSeq(v, LAMBDA z : z # NONE)

(* a / 0 is infinite with the sign of a, 0 / 0 as well *)
DivInf(a, b) == IF b = Zero THEN (IF a = UNK THEN UNK ELSE IF Sgn(a) >= 0 THEN PINF ELSE NINF) ELSE Div(a, b)

RECURSIVE Log2(_)
Log2(n) == IF n = 1 THEN 0 ELSE 1 + Log2(n \div 2)
RECURSIVE IsPow2(_)
IsPow2(n) == n = 1 \/ (n % 2 = 0 /\ n > 0 /\ IsPow2(n \div 2))
(* logarithms of powers of two to a base which is a power of two *)
LogR(a, b) ==
    LET L(z) == IF z[1] = 1 /\ IsPow2(z[2]) THEN -Log2(z[2])
                ELSE IF z[2] = 1 /\ z[1] > 0 /\ IsPow2(z[1]) THEN Log2(z[1]) ELSE -1000
    IN IF ~IsFin(a) \/ ~IsFin(b) \/ b[1] <= 0 THEN UNK
       ELSE IF a[1] <= 0 THEN UNK
       ELSE IF L(a) = -1000 \/ L(b) \in {-1000, 0} THEN UNK
       ELSE Norm(L(a), L(b))
PowR(a, b) == IF IsFin(a) /\ IsFin(b) /\ b[2] = 1 /\ Abs(b[1]) <= 8 THEN Pow(a, b[1]) ELSE UNK

AggFn(k, r, x, v) ==
    IF AnyUnk(v) THEN UNK
    ELSE IF k = "first" THEN (IF NotNone(v) = <<>> THEN NONE ELSE NotNone(v)[1])
    ELSE IF k = "min" THEN (IF NotNone(v) = <<>> THEN NONE ELSE FoldBin(Min2, NotNone(v)[1], NotNone(v), 2))
    ELSE IF k = "max" THEN (IF NotNone(v) = <<>> THEN NONE ELSE FoldBin(Max2, NotNone(v)[1], NotNone(v), 2))
    ELSE IF k = "count" THEN R(Len(NotNone(v)))
    ELSE IF AnyNone(v) THEN NONE
    ELSE CASE k = "add" -> FoldBin(Add, v[1], v, 2)
           [] k = "sub" -> FoldBin(Sub, v[1], v, 2)
           [] k = "mul" -> FoldBin(Mul, v[1], v, 2)
           [] k = "div" -> FoldBin(DivInf, v[1], v, 2)
           [] k = "pow" -> FoldBin(PowR, v[1], v, 2)
           [] k = "log" -> FoldBin(LogR, v[1], v, 2)
           [] k = "wsum" -> FoldBin(Add, Zero, [j \in 1..Len(v) |-> Mul(r[j + 1], v[j])], 1)
           [] k = "blend" -> LET u == Div(Sub(x, r[2]), Sub(r[3], r[2]))
                             IN Add(Mul(Sub(One, u), v[1]), Mul(u, v[2]))

RECURSIVE HullAll(_, _), InterAll(_, _)
HullAll(s, i) == IF i = Len(s) THEN s[i] ELSE Hull(s[i], HullAll(s, i + 1))
InterAll(s, i) == IF i = Len(s) THEN s[i] ELSE Inter(s[i], InterAll(s, i + 1))

---------------------------------------------------------------------------
(* values *)

(* a piece is looked for from the left: the first one not entirely before x *)
RECURSIVE PieceOf(_, _, _)
PieceOf(ds, x, i) ==
    IF i > Len(ds) THEN 0
    ELSE IF ~HasUpTo(ds[i], x) THEN PieceOf(ds, x, i + 1)
    ELSE IF ~HasFrom(ds[i], x) THEN 0 ELSE i

LsqLine(P) ==   \* least squares line through points P, as <<const, slope>>
    LET n == R(Len(P))
        SX == FoldBin(LAMBDA a, p : Add(a, p[1]), Zero, P, 1)
        SY == FoldBin(LAMBDA a, p : Add(a, p[2]), Zero, P, 1)
        SXX == FoldBin(LAMBDA a, p : Add(a, Mul(p[1], p[1])), Zero, P, 1)
        SXY == FoldBin(LAMBDA a, p : Add(a, Mul(p[1], p[2])), Zero, P, 1)
        den == Sub(Mul(n, SXX), Mul(SX, SX))
        m == Div(Sub(Mul(n, SXY), Mul(SX, SY)), den)
    IN <<Div(Sub(SY, Mul(m, SX)), n), m>>

(* knots of curve n: its steps from the start of its domain *)
RECURSIVE ChainFrom(_, _, _, _)
ChainFrom(C, n, x, ms) ==
    IF x = NONE \/ x = UNK \/ ~Has(DomOf(C, n), x) THEN <<>>
    ELSE <<x>> \o ChainFrom(C, n, Nx(C, n, x, ms, NONE), ms)
Chain(C, n, ms) ==
    LET D == DomOf(C, n) IN
    IF D = EMPTY \/ D[1] = NINF \/ D[2] = PINF THEN <<>>
    ELSE IF D[3] = 0 THEN ChainFrom(C, n, D[1], ms) ELSE ChainFrom(C, n, Nx(C, n, D[1], ms, NONE), ms)

(* the steps of n depend on extremas this specification cannot tell *)
RECURSIVE Lost(_, _)
Lost(C, n) == LET N == C.g[n] IN
    (N.t = "extr" /\ C.env[n].bad) \/ \E j \in 1..Len(N.a) : Lost(C, N.a[j])
Unscannable(C, n) == LET D == DomOf(C, n) IN D # EMPTY /\ (D[1] = NINF \/ D[2] = PINF \/ Lost(C, n))

(* curve n is exactly 0 at x, not only up to rounding *)
Exactly0(C, n, x) ==
    LET N == C.g[n] IN
    CASE N.t \in {"const", "gen"} -> TRUE
      [] N.t = "pts" -> LET P == C.st[n]
                            i == FloorIx(P, x, Len(P))
                        IN N.k # "lin" \/ i = Len(P) \/ (i > 0 /\ P[i][1] = x)
                           \/ (i > 0 /\ IsPow2(Sub(P[i + 1][1], P[i][1])[1]))
      [] OTHER -> FALSE

Y(C, n, x) ==
    LET N == C.g[n]
        D == DomOf(C, n)
    IN
    CASE N.t = "pts" -> StoreY(C.st[n], N.k, x)
      [] N.t = "qt" -> StoreY(C.st[n], "prev", x)
      [] N.t = "const" -> C.st[n][1]
      [] N.t = "line" -> IF IsInf(x) THEN UNK ELSE Add(C.st[n][1], Mul(C.st[n][2], x))
      [] N.t = "empty" -> NONE
      [] N.t = "sin" -> Mul(C.st[n][1], SinT(Mul(C.st[n][2], Add(x, C.st[n][3]))))
      [] N.t = "gen" -> IF ~Has(D, x) THEN NONE ELSE IF IsInf(x) THEN UNK
                        ELSE Add(N.r[1], Mul(x, Add(N.r[2], Mul(x, N.r[3]))))
      [] N.t = "sub" -> IF ~Has(D, x) THEN NONE ELSE Y(C, N.a[1], x)
      [] N.t = "map" -> LET y == Y(C, N.a[1], x) IN
                        IF y = NONE /\ N.i[1] = 1 THEN NONE ELSE Tfm(N.k, N.r, x, y)
      [] N.t = "dmap" -> DY(C, N.a[1], x, N.i[1] = 1)
      [] N.t = "qmap" -> LET q == Y(C, N.a[1], x) IN
                         IF q = NONE THEN NONE
                         ELSE (CASE N.k = "open" -> q[1] [] N.k = "high" -> q[2]
                                [] N.k = "low" -> q[3] [] N.k = "close" -> q[4]
                                [] N.k = "volume" -> q[5]
                                [] N.k = "hl2" -> Div(Add(q[2], q[3]), R(2)))
      [] N.t = "agg" -> IF ~Has(D, x) THEN N.r[1]
                        ELSE LET v == [m \in 1..Len(N.a) |-> Y(C, N.a[m], x)] IN
                             IF N.k = "div" /\ (\A j \in 1..Len(v) : v[j] \notin {NONE, UNK})
                                /\ (\E j \in 2..Len(v), i \in 1..Len(v) :
                                       /\ i < j /\ v[i] = Zero /\ v[j] = Zero
                                       /\ ~(Exactly0(C, N.a[i], x) /\ Exactly0(C, N.a[j], x)))
                             THEN UNK ELSE AggFn(N.k, N.r, x, v)
      [] N.t = "off" /\ N.k = "dur" ->
            \* the places at whole durations are moved; values between them are interpolated
            LET z0 == Unoff(N, x, TRUE)
                z1 == Unoff(N, x, FALSE)
                y0 == Y(C, N.a[1], z0)
                y1 == Y(C, N.a[1], z1)
                B == DomOf(C, N.a[1])
            IN IF ~Has(B, z0) \/ ~Has(B, z1) THEN NONE
               ELSE IF z0 = z1 THEN y0
               ELSE IF y0 = NONE \/ y1 = NONE THEN NONE
               ELSE Lerp(<<FloorD(x, N.r[2]), y0>>, <<CeilD(x, N.r[2]), y1>>, x)
      [] N.t = "off" -> LET z == IF IsInf(x) THEN x ELSE Sub(x, N.r[1]) IN
                        IF ~Has(DomOf(C, N.a[1]), z) THEN NONE ELSE Y(C, N.a[1], z)
      [] N.t = "pw" -> LET j == PieceOf(N.ds, x, 1) IN IF j = 0 THEN NONE ELSE Y(C, N.a[j], x)
      [] N.t = "ext" -> LET B == DomOf(C, N.a[1]) IN
                        IF Has(B, x) THEN Y(C, N.a[1], x)
                        ELSE IF ~Has(D, x) THEN NONE
                        ELSE LET line == IF N.i[1] = 1 /\ Le(x, B[1]) THEN C.env[n].acc[1] ELSE C.env[n].acc[2]
                             IN IF N.k = "sin" THEN
                                    \* y cos + dy / (2 pi / period) sin
                                    LET t == Div(Sub(x, line[3]), N.r[2]) IN
                                    IF SinT(t) = Zero \/ line[2] = Zero THEN Mul(line[1], CosT(t)) ELSE UNK
                                ELSE IF line[2] = Zero THEN (IF IsInf(x) /\ N.k = "tangent" THEN UNK ELSE line[1]) ELSE Add(line[1], Mul(line[2], x))
      [] N.t \in {"integral", "ema", "amap", "accum"} ->
                        IF Unscannable(C, N.a[1]) THEN UNK
                        ELSE LET v == StoreY(C.env[n].acc, N.k, x) IN
                             IF v = NONE \/ N.t # "integral" THEN v ELSE Add(v, N.r[2])
      [] N.t = "sma" -> IF Unscannable(C, N.a[1]) THEN UNK
                        ELSE IF ~Has(D, x) THEN NONE
                        ELSE LET P == C.env[n].sma IN
                             IF P = <<>> THEN UNK
                             ELSE IF C.env[n].same THEN Y(C, N.a[1], x)
                             ELSE StoreY(P, "lin", x)
      [] N.t = "extr" -> IF Unscannable(C, N.a[1]) THEN UNK
                         ELSE IF C.env[n].bad THEN UNK
                         ELSE IF C.env[n].acc = <<>> THEN NONE ELSE StoreY(C.env[n].acc, "lin", x)

---------------------------------------------------------------------------
(* steps *)

RECURSIVE MinGt(_, _, _), MaxLt(_, _, _)
MinGt(s, x, i) == IF i > Len(s) THEN NONE
                  ELSE LET rest == MinGt(s, x, i + 1) IN
                       IF s[i] = NONE \/ (s[i] # UNK /\ ~Gt(s[i], x)) THEN rest
                       ELSE IF rest = NONE THEN s[i] ELSE Min2(s[i], rest)
MaxLt(s, x, i) == IF i > Len(s) THEN NONE
                  ELSE LET rest == MaxLt(s, x, i + 1) IN
                       IF s[i] = NONE \/ (s[i] # UNK /\ ~Lt(s[i], x)) THEN rest
                       ELSE IF rest = NONE THEN s[i] ELSE Max2(s[i], rest)

(* curves without points of their own: step by ms, or to the end *)
NxPlain(D, x, ms, lim) ==
    IF D = EMPTY THEN NONE
    ELSE IF ms = Zero /\ lim = NONE THEN (IF IsFin(x) /\ Ge(x, D[2]) THEN NONE ELSE UNK)
    ELSE LET t == IF ms = PINF THEN D[2] ELSE Add(x, ms)
             x1 == IF lim # NONE /\ Gt(t, lim) THEN lim ELSE t
         IN IF ms = Zero THEN UNK ELSE IF HasUpTo(D, x1) THEN x1 ELSE NONE
PvPlain(D, x, ms, lim) ==
    IF D = EMPTY THEN NONE
    ELSE IF ms = Zero /\ lim = NONE THEN (IF IsFin(x) /\ Le(x, D[1]) THEN NONE ELSE UNK)
    ELSE LET t == IF ms = PINF THEN D[1] ELSE Sub(x, ms)
             x1 == IF lim # NONE /\ Lt(t, lim) THEN lim ELSE t
         IN IF ms = Zero THEN UNK ELSE IF HasFrom(D, x1) THEN x1 ELSE NONE

UnkOr(x, e) == IF x = UNK THEN UNK ELSE e

Nx(C, n, x, ms0, lim) ==
    LET N == C.g[n]
        D == DomOf(C, n)
        ms == ResMs(C, n, ms0)
    IN
    CASE N.t = "pts" -> NextPt(C.st[n], x, ms)
      [] N.t = "qt" -> NextPt(C.st[n], x, ms0)
      [] N.t \in {"const", "line", "gen", "sub", "sin", "empty"} -> NxPlain(D, x, ms, lim)
      [] N.t \in {"map", "dmap", "qmap"} \/ (N.t \in ScanTypes /\ N.t # "extr") -> Nx(C, N.a[1], x, ms, lim)
      [] N.t = "agg" ->
            LET c == MinGt([j \in 1..Len(N.a) |-> Nx(C, N.a[j], x, ms0, NONE)], x, 1) IN
            IF lim # NONE /\ (c = NONE \/ IsInf(c))
            THEN MinGt([j \in 1..Len(N.a) |-> Nx(C, N.a[j], x, ms0, lim)], x, 1) ELSE c
      [] N.t = "off" /\ N.k = "dur" ->
            IF IsInf(x) THEN UNK
            ELSE LET z == Unoff(N, x, TRUE)
                     c == Add(FloorD(z, N.r[2]), N.r[2])
                 IN IF Has(DomOf(C, N.a[1]), c) THEN MoveBy(N, c, TRUE, 1) ELSE NONE
      [] N.t = "off" ->
            LET z == IF IsInf(x) THEN x ELSE Sub(x, N.r[1])
                l == IF lim = NONE \/ IsInf(lim) THEN lim ELSE Sub(lim, N.r[1])
                c == Nx(C, N.a[1], z, ms0, l)
            IN IF c = UNK THEN UNK
               ELSE IF c = NONE \/ ~Has(DomOf(C, N.a[1]), c) THEN NONE
               ELSE IF IsInf(c) THEN c ELSE Add(c, N.r[1])
      [] N.t = "ext" ->
            LET c == Nx(C, N.a[1], x, ms0, lim) IN
            IF c # NONE \/ N.i[2] = 0 THEN c
            ELSE LET B == DomOf(C, N.a[1]) IN
                 IF B = EMPTY THEN NONE
                 ELSE LET b == Pv(C, N.a[1], B[2], ms0, NONE) IN
                      IF b = NONE THEN NONE ELSE UnkOr(b, Add(x, Sub(B[2], b)))
      [] N.t = "pw" ->
            IF ~HasUpTo(D, IF ms = PINF THEN PINF ELSE Add(x, ms)) \/ (ms = Zero /\ Ge(x, D[2])) THEN NONE
            ELSE LET cs == [j \in 1..Len(N.a) |->
                              LET c == Nx(C, N.a[j], x, ms, lim) IN
                              IF c = UNK \/ Has(N.ds[j], c) THEN c ELSE NONE]
                     es == FlattenSeq([j \in 1..Len(N.ds) |-> <<N.ds[j][1], N.ds[j][2]>>])
                     edges == SelectSeq(es, LAMBDA e : IsFin(e) /\ (IF ms = Zero THEN Gt(e, x) ELSE Ge(e, Add(x, ms))))
                 IN MinGt(cs \o edges, x, 1)
      [] N.t = "extr" -> IF C.env[n].bad THEN UNK ELSE
            LET P == C.env[n].acc
                E == StoreDom(P)
            IN IF (IF ms = Zero THEN (E # EMPTY /\ Ge(x, E[1]) /\ Lt(x, E[2])) ELSE Has(E, Add(x, ms)))
               THEN NextPt(P, x, ms)
               ELSE Nx(C, N.a[1], x, ms, lim)

Pv(C, n, x, ms0, lim) ==
    LET N == C.g[n]
        D == DomOf(C, n)
        ms == ResMs(C, n, ms0)
    IN
    CASE N.t = "pts" -> PrevPt(C.st[n], x, ms)
      [] N.t = "qt" -> PrevPt(C.st[n], x, ms0)
      [] N.t \in {"const", "line", "gen", "sub", "sin", "empty"} -> PvPlain(D, x, ms, lim)
      [] N.t \in {"map", "dmap", "qmap"} \/ (N.t \in ScanTypes /\ N.t # "extr") -> Pv(C, N.a[1], x, ms, lim)
      [] N.t = "agg" ->
            LET c == MaxLt([j \in 1..Len(N.a) |-> Pv(C, N.a[j], x, ms0, NONE)], x, 1) IN
            IF lim # NONE /\ (c = NONE \/ IsInf(c))
            THEN MaxLt([j \in 1..Len(N.a) |-> Pv(C, N.a[j], x, ms0, lim)], x, 1) ELSE c
      [] N.t = "off" /\ N.k = "dur" ->
            IF IsInf(x) THEN UNK
            ELSE LET z == Unoff(N, x, FALSE)
                     c == Sub(CeilD(z, N.r[2]), N.r[2])
                 IN IF Has(DomOf(C, N.a[1]), c) THEN MoveBy(N, c, FALSE, 1) ELSE NONE
      [] N.t = "off" ->
            LET z == IF IsInf(x) THEN x ELSE Sub(x, N.r[1])
                l == IF lim = NONE \/ IsInf(lim) THEN lim ELSE Sub(lim, N.r[1])
                c == Pv(C, N.a[1], z, ms0, l)
            IN IF c = UNK THEN UNK
               ELSE IF c = NONE \/ ~Has(DomOf(C, N.a[1]), c) THEN NONE
               ELSE IF IsInf(c) THEN c ELSE Add(c, N.r[1])
      [] N.t = "ext" ->
            LET c == Pv(C, N.a[1], x, ms0, lim) IN
            IF c # NONE \/ N.i[1] = 0 THEN c
            ELSE LET B == DomOf(C, N.a[1]) IN
                 IF B = EMPTY THEN NONE
                 ELSE LET b == Nx(C, N.a[1], B[1], ms0, NONE) IN
                      IF b = NONE THEN NONE ELSE UnkOr(b, Sub(x, Sub(b, B[1])))
      [] N.t = "pw" ->
            IF ~HasFrom(D, IF ms = PINF THEN NINF ELSE Sub(x, ms)) \/ (ms = Zero /\ Le(x, D[1])) THEN NONE
            ELSE LET cs == [j \in 1..Len(N.a) |->
                              LET c == Pv(C, N.a[j], x, ms, lim) IN
                              IF c = UNK \/ Has(N.ds[j], c) THEN c ELSE NONE]
                     es == FlattenSeq([j \in 1..Len(N.ds) |-> <<N.ds[j][1], N.ds[j][2]>>])
                     edges == SelectSeq(es, LAMBDA e : IsFin(e) /\ (IF ms = Zero THEN Lt(e, x) ELSE Le(e, Sub(x, ms))))
                 IN MaxLt(cs \o edges, x, 1)
      [] N.t = "extr" -> IF C.env[n].bad THEN UNK ELSE
            LET P == C.env[n].acc
                E == StoreDom(P)
            IN IF (IF ms = Zero THEN (E # EMPTY /\ Gt(x, E[1]) /\ Le(x, E[2])) ELSE Has(E, Sub(x, ms)))
               THEN PrevPt(P, x, ms)
               ELSE Pv(C, N.a[1], x, ms, lim)

---------------------------------------------------------------------------
(* slopes: towards the next (fwd) or the previous step *)

DYms(C, n, x, fwd, ms) ==
    LET x1 == IF fwd THEN Nx(C, n, x, ResMs(C, n, ms), NONE) ELSE Pv(C, n, x, ResMs(C, n, ms), NONE) IN
    IF x1 = NONE THEN NONE
    ELSE IF x1 = UNK THEN UNK
    ELSE LET y1 == Y(C, n, x1)
             y == Y(C, n, x)
         IN IF y1 = NONE \/ y = NONE THEN NONE
            ELSE Div(Sub(y1, y), Sub(x1, x))

DY(C, n, x, fwd) ==
    LET N == C.g[n] IN
    CASE N.t = "const" -> Zero
      [] N.t = "line" -> C.st[n][2]
      [] N.t = "sin" -> IF CosT(Mul(C.st[n][2], Add(x, C.st[n][3]))) = Zero THEN Zero ELSE UNK
      [] N.t = "empty" -> NONE
      [] N.t = "off" /\ N.k = "dur" ->
                        LET z0 == Unoff(N, x, TRUE)
                            z1 == Unoff(N, x, FALSE)
                            B == DomOf(C, N.a[1])
                        IN IF ~Has(B, z0) \/ ~Has(B, z1) THEN NONE
                           ELSE IF z0 = z1 THEN DY(C, N.a[1], z0, fwd) ELSE UNK
      [] N.t = "off" -> LET z == Sub(x, N.r[1]) IN
                        IF ~Has(DomOf(C, N.a[1]), z) THEN NONE ELSE DY(C, N.a[1], z, fwd)
      [] OTHER -> DYms(C, n, x, fwd, Zero)

---------------------------------------------------------------------------
(* samples: <<x, y>> at the start, every step, and the end of I *)

RECURSIVE StepsUpTo(_, _, _, _, _)
StepsUpTo(C, n, I, x, ms) ==
    IF x = NONE \/ x = UNK \/ ~Has(I, x) THEN <<>>
    ELSE <<x>> \o (IF x = I[2] THEN <<>> ELSE StepsUpTo(C, n, I, Nx(C, n, x, ms, I[2]), ms))
RECURSIVE GridUpTo(_, _, _)
GridUpTo(I, x, step) == IF ~Has(I, x) THEN <<>> ELSE <<x>> \o GridUpTo(I, Add(x, step), step)

(* answers which raise, in the shape of the answer *)
RAISEXS == <<RAISE>>
RAISEPTS == <<<<RAISE, RAISE>>>>

(* sample locations; UNK stands alone if they are not determined *)
SampleXs(C, n, I0, ms0, step) ==
    LET I == Inter(DomOf(C, n), I0)
        ms == IF C.g[n].t = "qt" THEN ms0 ELSE ResMs(C, n, ms0)
        start == IF I[3] = 1 THEN <<>> ELSE <<I[1]>>
    IN IF I = EMPTY THEN <<>>
       ELSE IF ~IsFinite(I) THEN RAISEXS
       ELSE IF step # NONE THEN start \o GridUpTo(I, Add(I[1], step), step)
       ELSE IF ms = NONE THEN RAISEXS
       ELSE LET steps == IF I[1] = I[2] THEN <<>> ELSE StepsUpTo(C, n, I, Nx(C, n, I[1], ms, I[2]), ms)
                all == start \o steps
            IN IF I[4] = 0 /\ (all = <<>> \/ Last2(all) # I[2]) THEN Append(all, I[2]) ELSE all

XYs(C, n, xs) == [j \in 1..Len(xs) |-> <<xs[j], Y(C, n, xs[j])>>]

AvgStep(P) == IF Len(P) < 2 THEN NONE ELSE Div(Sub(X(Last2(P)), X(P[1])), R(Len(P) - 1))

Sample(C, n, I00, ms, step) ==
    LET N == C.g[n]
        \* quotes answer for whole durations
        I == IF N.t = "qt" THEN SpanOf(I00, N.r[2]) ELSE I00
    IN
    IF N.t \in {"pts", "qt"} THEN
        LET P == C.st[n]
            h == AvgStep(P)
        IN IF P = <<>> THEN <<>>
           ELSE IF h # NONE /\ ((ms # NONE /\ Gt(ms, h)) \/ (step # NONE /\ step # h))
           THEN LET xs == SampleXs(C, n, I, ms, step) IN IF xs = RAISEXS THEN RAISEPTS ELSE XYs(C, n, xs)
           ELSE SelectSeq(P, LAMBDA p : Has(I, X(p)))
    ELSE LET xs == SampleXs(C, n, I, ms, step) IN
         IF xs = RAISEXS THEN RAISEPTS
         ELSE IF Lost(C, n) /\ (step = NONE \/ N.t = "extr") THEN <<<<UNK, UNK>>>>
         ELSE IF N.t = "extr" THEN SelectSeq(XYs(C, n, xs), LAMBDA p : p[2] # NONE)
         ELSE XYs(C, n, xs)

RECURSIVE Hop(_, _, _, _, _, _)
Hop(C, n, x, k, back, ms) ==     \* up to k steps away from x, up to a None
    IF k = 0 THEN <<>>
    ELSE LET x1 == IF back THEN Pv(C, n, x, ms, NONE) ELSE Nx(C, n, x, ms, NONE) IN
         IF x1 = NONE THEN <<>>
         ELSE IF x1 = UNK THEN <<<<UNK, UNK>>>>
         ELSE LET y1 == Y(C, n, x1) IN
              IF y1 = NONE THEN <<>>
              ELSE IF y1 = UNK THEN <<<<UNK, UNK>>>>      \* a value, or the end
              ELSE <<<<x1, y1>>>> \o Hop(C, n, x1, k - 1, back, ms)

---------------------------------------------------------------------------
(* accumulated points *)

RECURSIVE IntegralPts(_, _, _, _, _, _)
IntegralPts(C, n, src, xs, i, kind) ==
    IF i > Len(xs) THEN <<>>
    ELSE LET go[j \in 0..Len(xs)] ==
               IF j = 0 THEN <<>>
               ELSE LET prev == go[j - 1]
                        last == IF prev = <<>> THEN NONE ELSE Last2(prev)[2]
                        y == Y(C, src, xs[j])
                        y0 == IF j = 1 THEN NONE ELSE Y(C, src, xs[j - 1])
                        base == IF last = NONE THEN Zero ELSE last
                        w == IF j = 1 THEN Zero ELSE Sub(xs[j], xs[j - 1])
                        area == IF y0 = NONE THEN Zero
                                ELSE CASE kind = "prev" -> Mul(w, y0)
                                       [] kind = "next" -> Mul(w, y)
                                       [] OTHER -> Mul(w, Div(Add(y0, y), R(2)))
                    IN Append(prev, <<xs[j], IF y = NONE THEN last ELSE IF y = UNK \/ IsInf(area) \/ IsInf(base) THEN UNK ELSE Add(base, area)>>)
         IN go[Len(xs)]

EmaPts(C, n, src, xs) ==
    LET N == C.g[n]
        go[j \in 0..Len(xs)] ==
            IF j = 0 THEN <<>>
            ELSE LET prev == go[j - 1]
                     last == IF prev = <<>> THEN NONE ELSE Last2(prev)[2]
                     y == Y(C, src, xs[j])
                     a == IF N.i[1] = 1 THEN Div(Sub(xs[j], Pv(C, src, xs[j], N.r[1], NONE)), N.r[2]) ELSE N.r[2]
                     v == IF y = NONE THEN last
                          ELSE IF last = NONE THEN (IF Len(N.a) > 1 THEN Y(C, N.a[2], xs[j]) ELSE y)
                          ELSE Add(last, Mul(a, Sub(y, last)))
                 IN Append(prev, <<xs[j], v>>)
    IN go[Len(xs)]

WinFn(k, x, ys) ==
    IF AnyUnk(ys) THEN UNK
    ELSE IF AnyNone(ys) THEN (IF Len(ys) = 1 /\ k \in {"min", "max"} THEN NONE ELSE IF k = "len" THEN R(Len(ys)) ELSE UNK)
    ELSE CASE k = "min" -> FoldBin(Min2, ys[1], ys, 2)
           [] k = "max" -> FoldBin(Max2, ys[1], ys, 2)
           [] k = "sum" -> FoldBin(Add, Zero, ys, 1)
           [] k = "len" -> R(Len(ys))
           [] k = "xlast" -> Add(x, ys[Len(ys)])

AmapPts(C, n, src, xs) ==
    LET N == C.g[n]
        ms == N.r[1]
        win(x) == IF N.i[1] > 0
                  THEN Hop(C, src, x, N.i[1] - 1, TRUE, ms)
                  ELSE LET S == Sample(C, src, Mk(Sub(x, N.r[2]), x, 0, 1), ms, NONE) IN
                       IF S = RAISEPTS THEN <<>> ELSE Reverse(S)
        v(x) == LET w == win(x) IN
                WinFn(N.k2, x, <<Y(C, src, x)>> \o [j \in 1..Len(w) |-> w[j][2]])
    IN [j \in 1..Len(xs) |-> <<xs[j], v(xs[j])>>]

(* running transforms (x, y, last) *)
AccFn(k, x, y, last) ==
    IF y = UNK \/ last = UNK THEN UNK
    ELSE CASE k = "sum" -> IF y = NONE THEN last ELSE IF last = NONE THEN y ELSE Add(last, y)
           [] k = "count" -> IF last = NONE THEN One ELSE Add(last, One)
           [] k = "max" -> IF y = NONE THEN last ELSE IF last = NONE THEN y ELSE Max2(last, y)
AccumPts(C, n, src, xs) ==
    LET go[j \in 0..Len(xs)] ==
            IF j = 0 THEN <<>>
            ELSE LET prev == go[j - 1]
                     last == IF prev = <<>> THEN NONE ELSE Last2(prev)[2]
                 IN Append(prev, <<xs[j], AccFn(C.g[n].k2, xs[j], Y(C, src, xs[j]), last)>>)
    IN go[Len(xs)]

(* Local extremes of a curve about a reference: the furthest point of every *)
(* run on one side of the reference, confirmed once the curve is seen on    *)
(* the other side; points within the deviation are ignored.                 *)
ExtrPts(C, n, src, xs) ==
    LET N == C.g[n]
        \* floating point reads these references exactly; others may miss a tie
        exact == C.g[N.a[2]].t \in {"const", "ema"}
        go[j \in 0..Len(xs)] ==
            IF j = 0 THEN [ex |-> <<>>, pos |-> <<>>, ph |-> 0, bad |-> FALSE]
            ELSE LET s == go[j - 1]
                     y == Y(C, src, xs[j])
                     y0 == Y(C, N.a[2], xs[j])
                     \* how far beside the reference, against how far that may be
                     dev == RAbs(Sub(y, y0))
                     least == Mul(N.r[2], RAbs(y0))
                     ph == Cmp(y, y0)
                     here == <<xs[j], y>>
                 IN IF y = NONE \/ y0 = NONE THEN s
                    ELSE IF y = UNK \/ y0 = UNK THEN [s EXCEPT !.bad = TRUE]
                    ELSE IF dev = UNK \/ least = UNK \/ (dev = least /\ ~exact) THEN [s EXCEPT !.bad = TRUE]
                    ELSE IF Le(dev, least) THEN s
                    ELSE IF s.pos = <<>> THEN [s EXCEPT !.pos = here, !.ph = ph]
                    ELSE IF s.ph * ph < 0 THEN [s EXCEPT !.ex = Append(@, s.pos), !.pos = here, !.ph = ph]
                    ELSE IF (ph > 0 /\ Gt(y, s.pos[2])) \/ (ph < 0 /\ Lt(y, s.pos[2]))
                    THEN [s EXCEPT !.pos = here, !.ph = ph]
                    ELSE s
    IN go[Len(xs)]

---------------------------------------------------------------------------
(* the environment: one record per node, built in order *)

SmaEnv(C, n) ==
    LET N == C.g[n]
        src == N.a[1]
        D == DomOf(C, src)
        ms == N.r[1]
        xs == Chain(C, src, ms)
        I == IntegralPts(C, n, src, xs, 1, "lin")
        len == Len(xs)
        per == N.i[1] = 0
        p == N.r[2]
        \* first point of the window which ends at point j
        from(j) == IF per THEN (CHOOSE q \in 1..j : Gt(xs[q], Sub(xs[j], p)) /\ (q = 1 \/ Le(xs[q - 1], Sub(xs[j], p))))
                   ELSE IF j - N.i[1] + 1 < 1 THEN 1 ELSE j - N.i[1] + 1
        first == IF per THEN (IF len = 0 THEN 1 ELSE CHOOSE q \in 1..len : Lt(xs[q], Add(D[1], p)) /\ (q = len \/ Ge(xs[q + 1], Add(D[1], p))))
                 ELSE N.i[1]
        same == first = 1
        avg(j) == IF from(j) = j THEN Y(C, src, xs[j])
                  ELSE IF I[j][2] = NONE \/ I[from(j)][2] = NONE THEN UNK
                  ELSE Div(Sub(I[j][2], I[from(j)][2]), Sub(xs[j], xs[from(j)]))
    IN IF D = EMPTY THEN [dom |-> EMPTY, acc |-> <<>>, sma |-> <<>>, same |-> FALSE]
       ELSE IF Unscannable(C, src) THEN [dom |-> D, acc |-> <<>>, sma |-> <<>>, same |-> FALSE]
       ELSE IF first > len THEN [dom |-> EMPTY, acc |-> <<>>, sma |-> <<>>, same |-> FALSE]
       ELSE [dom |-> Closed(xs[first], D[2]), acc |-> I, same |-> same,
             sma |-> [j \in 1..(len - first + 1) |-> <<xs[first + j - 1], avg(first + j - 1)>>]]

(* the lines <<const, slope>> that extend curve a to the left and right;   *)
(* <<>> where there is none                                                *)
ExtLines(C, n) ==
    LET N == C.g[n]
        a == N.a[1]
        B == DomOf(C, a)
        through(x, y, m) == IF y = NONE \/ m = NONE THEN <<>>
                            ELSE IF N.k = "sin" THEN <<y, m, x>>
                            ELSE IF y = UNK \/ m = UNK THEN <<UNK, UNK>> ELSE <<Sub(y, Mul(m, x)), m>>
        edge(left) ==
            LET x == IF left THEN B[1] ELSE B[2]
                deg == N.i[3]
                hop(k) == LET go[j \in 0..k] ==
                                IF j = 0 THEN x
                                ELSE LET x0 == go[j - 1]
                                         x1 == IF left THEN Nx(C, a, x0, Zero, NONE)
                                               ELSE Pv(C, a, x0, Zero, NONE)
                                     IN IF x1 = NONE THEN x0 ELSE x1
                          IN go[k]
                win == IF deg > 0 THEN (IF left THEN Closed(x, hop(deg)) ELSE Closed(hop(deg), x))
                       ELSE (IF left THEN Closed(x, Add(x, N.r[1])) ELSE Closed(Sub(x, N.r[1]), x))
                P == Sample(C, a, win, Zero, NONE)
                fit == IF P = RAISEPTS \/ Len(P) < 2 \/ (\E j \in 1..Len(P) : P[j][2] = NONE) THEN <<>>
                       ELSE LET L == LsqLine(P) IN
                            IF N.k = "sin" THEN <<Add(L[1], Mul(L[2], x)), L[2], x>> ELSE L
            IN IF N.k = "constant" THEN (LET y == Y(C, a, x) IN IF y = NONE THEN <<>> ELSE <<y, Zero>>)
               ELSE IF deg > 0 \/ N.r[1] # NONE THEN fit
               ELSE through(x, Y(C, a, x), DY(C, a, x, left))
    IN IF B = EMPTY THEN <<<<>>, <<>>>>
       ELSE << IF N.i[1] = 1 THEN edge(TRUE) ELSE <<>>, IF N.i[2] = 1 THEN edge(FALSE) ELSE <<>> >>

NodeEnv(C, n) ==
    LET N == C.g[n]
        D1 == IF N.a = <<>> THEN EMPTY ELSE DomOf(C, N.a[1])
        plain(D) == [dom |-> D, acc |-> <<>>]
        doms == [j \in 1..Len(N.a) |-> DomOf(C, N.a[j])]
    IN
    CASE N.t \in {"pts", "qt"} -> plain(StoreDom(C.st[n]))
      [] N.t \in {"const", "gen", "sub"} -> plain(N.d)
      [] N.t \in {"line", "sin"} -> plain(ALL)
      [] N.t = "empty" -> plain(EMPTY)
      [] N.t \in {"map", "dmap", "qmap"} -> plain(D1)
      [] N.t = "agg" -> plain(IF N.i[1] = 1 THEN HullAll(doms, 1) ELSE InterAll(doms, 1))
      [] N.t = "off" -> plain(Moved(N, D1))
      [] N.t = "pw" -> plain(HullAll(N.ds, 1))
      [] N.t = "integral" -> [dom |-> D1, acc |-> IntegralPts(C, n, N.a[1], Chain(C, N.a[1], N.r[1]), 1, N.k2)]
      [] N.t = "ema" -> [dom |-> D1, acc |-> EmaPts(C, n, N.a[1], Chain(C, N.a[1], N.r[1]))]
      [] N.t = "amap" -> [dom |-> D1, acc |-> AmapPts(C, n, N.a[1], Chain(C, N.a[1], N.r[1]))]
      [] N.t = "accum" -> [dom |-> D1, acc |-> AccumPts(C, n, N.a[1], Chain(C, N.a[1], N.r[1]))]
      [] N.t = "extr" -> LET s == ExtrPts(C, n, N.a[1], Chain(C, N.a[1], N.r[1]))
                         IN [dom |-> D1, acc |-> s.ex, bad |-> s.bad \/ Lost(C, N.a[1])]
      [] N.t = "sma" -> SmaEnv(C, n)
      [] N.t = "ext" -> LET L == ExtLines(C, n)
                            lo == IF L[1] # <<>> THEN LtI(D1) ELSE EMPTY
                            hi == IF L[2] # <<>> THEN GtI(D1) ELSE EMPTY
                        IN [dom |-> Hull(D1, Hull(lo, hi)), acc |-> L]

RECURSIVE EnvUpTo(_, _, _)
EnvUpTo(g, st, n) ==
    IF n = 0 THEN <<>>
    ELSE LET env == EnvUpTo(g, st, n - 1)
             C == [g |-> g, st |-> st, env |-> env]
         IN Append(env, NodeEnv(C, n))

Ctx(g, st) == [g |-> g, st |-> st, env |-> EnvUpTo(g, st, Len(g))]
=============================================================================
