------------------------------- MODULE Trend -------------------------------
(***************************************************************************)
(* Trend lines.  A scan reads the points of a curve from left to right and *)
(* keeps, on each of its sides and at each depth, lines being formed:      *)
(* each has boundary points, from which trend points are chosen (extremes  *)
(* on the line's side and points coincident with them), a line fitted to   *)
(* the trend points, an interval in which it is searched for, places where *)
(* the curve crosses it, touches it or is farthest from it, and a          *)
(* prediction which advances as the curve crosses, retests and leaves it.  *)
(*                                                                         *)
(* The state of a scan is a function of the points read: Scanned(P, pts).  *)
(*                                                                         *)
(* P is the record of the parameters: mw (least width), mp (least number   *)
(* of points), mpd (least distance of points), slr (length searched, in    *)
(* widths), ta and tr (tolerances of values, absolute and relative, or     *)
(* NONE).                                                                  *)
(*                                                                         *)
(* Of the points of a touch the nearest is reported; which, when several   *)
(* are equally near to a fitted line, rounding decides: any of them may be *)
(* told (P.hints: the touches which are told of lines, P.now: the event).  *)
(*                                                                         *)
(* The code decides in floating point.  Where the exact numbers are equal  *)
(* and rounding decides, or TLC's integers overflow, Fragile is noted (in  *)
(* TLC's register 7) and the result is not judged.                         *)
(***************************************************************************)
EXTENDS Itv, TLC, FiniteSets

REG == 7
Fragile(why) == TLCSet(REG, why)
Note(c, why) == IF c THEN Fragile(why) ELSE TRUE

(* comparisons which count on exact results *)
CmpX(a, b) == IF a = UNK \/ b = UNK THEN (IF Fragile("size") THEN 1 ELSE 1) ELSE Cmp(a, b)
(* comparisons which rounding may decide when equal *)
CmpF(a, b) == IF a = UNK \/ b = UNK THEN (IF Fragile("size") THEN 1 ELSE 1)
              ELSE IF a = b THEN (IF Fragile("tolerance") THEN 0 ELSE 0) ELSE Cmp(a, b)

RECURSIVE Pow2(_)
Pow2(n) == n = 1 \/ (n % 2 = 0 /\ Pow2(n \div 2))
Dyadic(a) == IsFin(a) /\ Pow2(a[2])

LastOf(s) == s[Len(s)]
RECURSIVE RemoveAt(_, _)
RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

(* insert p into s, sorted by x, before what has its x; once, if once *)
Place(s, p) == Cardinality({i \in 1..Len(s) : Lt(s[i][1], p[1])})
Insort(s, p) == LET k == Place(s, p) IN SubSeq(s, 1, k) \o <<p>> \o SubSeq(s, k + 1, Len(s))
InsortOnce(s, p) ==
    LET k == Place(s, p) IN
    IF k < Len(s) /\ s[k + 1][1] = p[1] THEN s ELSE Insort(s, p)
RECURSIVE InsortAll(_, _)
InsortAll(s, ps) == IF ps = <<>> THEN s ELSE InsortAll(Insort(s, Head(ps)), Tail(ps))

(* stable sort by x *)
RECURSIVE SortX(_)
SortX(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET r == SortX(SubSeq(s, 1, Len(s) - 1))
             p == LastOf(s)
             k == Cardinality({i \in 1..Len(r) : CmpX(r[i][1], p[1]) <= 0})
         IN SubSeq(r, 1, k) \o <<p>> \o SubSeq(r, k + 1, Len(r))

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN Zero ELSE Add(Head(s), Sum(Tail(s)))
SumF(n, f(_)) == Sum([i \in 1..n |-> f(i)])

(* ------------------------------------------------------------- lines *)
Slope(p, q) == Div(Sub(q[2], p[2]), Sub(q[1], p[1]))
LineY(p, q, x) == Add(p[2], Mul(Slope(p, q), Sub(x, p[1])))
LineX(p, q, y) ==
    LET m == Slope(p, q) IN
    IF m = Zero THEN (IF p[2] = y THEN p[1] ELSE NONE) ELSE Add(p[1], Div(Sub(y, p[2]), m))

(* where the lines through p, q and r, s meet *)
Meet(p, q, r, s) ==
    LET mp == Slope(p, q)
        mr == Slope(r, s)
        x == Div(Sub(Sub(r[2], Mul(mr, r[1])), Sub(p[2], Mul(mp, p[1]))), Sub(mp, mr))
    IN IF mp = mr THEN <<>> ELSE <<x, LineY(p, q, x)>>

(* the least squares line through ps, as its places over the first and last *)
Fit(ps) ==
    IF Len(ps) < 2 THEN <<>>
    ELSE IF Len(ps) = 2 THEN ps
    ELSE LET n == R(Len(ps))
             x0 == ps[1][1]
             x1 == LastOf(ps)[1]
             dx(i) == Sub(ps[i][1], x0)
             dxx(i) == Mul(dx(i), dx(i))
             yy(i) == ps[i][2]
             dxy(i) == Mul(dx(i), ps[i][2])
             sx == SumF(Len(ps), dx)
             sxx == SumF(Len(ps), dxx)
             sy == SumF(Len(ps), yy)
             sxy == SumF(Len(ps), dxy)
             m == Div(Sub(Mul(n, sxy), Mul(sx, sy)), Sub(Mul(n, sxx), Mul(sx, sx)))
             y0 == Div(Sub(sy, Mul(m, sx)), n)
         IN <<<<x0, y0>>, <<x1, Add(y0, Mul(m, Sub(x1, x0)))>>>>

(* --------------------------------------------------------- tolerances *)
TolMin(P, y) ==
    LET a == Sub(y, P.ta)
        r == Sub(y, Mul(RAbs(y), P.tr))
    IN IF P.tr = NONE \/ y = Zero THEN (IF P.ta = NONE THEN y ELSE a)
       ELSE IF P.ta = NONE THEN r ELSE Max2(a, r)
TolMax(P, y) ==
    LET a == Add(y, P.ta)
        r == Add(y, Mul(RAbs(y), P.tr))
    IN IF P.tr = NONE \/ y = Zero THEN (IF P.ta = NONE THEN y ELSE a)
       ELSE IF P.ta = NONE THEN r ELSE Min2(a, r)

(* y is within tolerance of y0; y lies below y0 by the tolerance *)
Near(P, y, y0) ==
    /\ P.ta = NONE \/ CmpF(RAbs(Sub(y, y0)), P.ta) <= 0
    /\ P.tr = NONE \/ y = Zero \/ y0 = Zero \/ CmpF(RAbs(Sub(Div(y, y0), One)), P.tr) <= 0
Below(P, y, y0) ==
    /\ CmpX(y, y0) < 0
    /\ P.ta = NONE \/ CmpF(Sub(y0, y), P.ta) >= 0
    /\ P.tr = NONE \/ y = Zero \/ y0 = Zero \/ CmpF(Sub(y0, y), Mul(RAbs(y), P.tr)) >= 0

(* ------------------------------------ numbers a + b * (golden section) *)
GoldSign(a, b) ==   \* the sign of a + b * gold
    IF a = UNK \/ b = UNK THEN (IF Fragile("size") THEN 1 ELSE 1)
    ELSE IF b = Zero THEN Sgn(a)
    ELSE LET q == Neg(Div(a, b))    \* compare with gold: q < gold iff q < 1 or q*q < q + 1
             less == CmpX(q, One) < 0 \/ CmpX(Mul(q, q), Add(q, One)) < 0
         IN IF less THEN Sgn(b) ELSE -Sgn(b)
G(r) == <<r, Zero>>
GAdd(g, h) == <<Add(g[1], h[1]), Add(g[2], h[2])>>
GScale(g, r) == <<Mul(g[1], r), Mul(g[2], r)>>
GCmp(g, h) == GoldSign(Sub(g[1], h[1]), Sub(g[2], h[2]))
GAbs(g) == IF GCmp(g, G(Zero)) < 0 THEN GScale(g, R(-1)) ELSE g
GTol(P, g, s) ==    \* s = -1: the least value within tolerance, s = 1: the greatest
    LET a == GAdd(g, G(Mul(R(s), P.ta)))
        r == GAdd(g, GScale(GAbs(g), Mul(R(s), P.tr)))
    IN IF P.tr = NONE THEN (IF P.ta = NONE THEN g ELSE a)
       ELSE IF P.ta = NONE THEN r
       ELSE IF GCmp(a, r) = s THEN r ELSE a
(* a + b * gold to within 1/500, as logged: thousandths *)
GOLD == <<987, 610>>
GAgrees(g, n) ==
    LET v == Mul(Add(g[1], Mul(g[2], GOLD)), R(1000))
    IN IF g = <<>> \/ n = NONE THEN g = <<>> /\ n = NONE
       ELSE v = UNK \/ Cmp(RAbs(Sub(v, n)), R(2)) <= 0

(* ------------------------------------------------------------- a line *)
NoPred == [ph |-> 0, origin |-> <<>>, inter |-> <<>>, extr |-> <<>>, retest |-> <<>>,
           rmax |-> <<>>, y |-> <<>>, ymin |-> <<>>, ymax |-> <<>>, xmin |-> NONE, xmax |-> <<>>,
           conf |-> <<>>, fail |-> FALSE, succ |-> FALSE, sp |-> <<>>, ok |-> FALSE,
           seen |-> <<>>, done |-> NONE, tcount |-> 0]

NewLine(up) == [up |-> up, tp |-> <<>>, bp |-> <<>>, ln |-> <<>>, si |-> EMPTY,
                inter |-> <<>>, tang |-> <<>>, extr |-> <<>>, pred |-> NoPred]

Ready(L) == L.ln # <<>>
Width(L) == IF Len(L.tp) >= 2 THEN Sub(LastOf(L.tp)[1], L.tp[1][1]) ELSE Zero
Valid(P, L) ==
    /\ Ready(L)
    /\ CmpX(Width(L), P.mw) >= 0
    /\ Len(L.tp) >= P.mp
    /\ 1 + Cardinality({i \in 2..Len(L.tp) : CmpX(Sub(L.tp[i][1], L.tp[i - 1][1]), P.mpd) >= 0}) >= P.mp

YAt(L, x) == LineY(L.ln[1], L.ln[2], x)
YMin(P, L, x) == LineY(<<L.ln[1][1], TolMin(P, L.ln[1][2])>>, <<L.ln[2][1], TolMin(P, L.ln[2][2])>>, x)
YMax(P, L, x) == LineY(<<L.ln[1][1], TolMax(P, L.ln[1][2])>>, <<L.ln[2][1], TolMax(P, L.ln[2][2])>>, x)

(* where the search of L ends is the place of a crossing: rounding decides *)
AtCrossing(L, x) == \E i \in 1..Len(L.inter) : L.inter[i][1] = x
InSearch(L, x) ==
    IF L.si = EMPTY THEN FALSE
    ELSE IF L.si[2] = UNK \/ (x = L.si[2] /\ AtCrossing(L, x)) THEN (IF Fragile("search") THEN FALSE ELSE FALSE)
    ELSE Has(L.si, x)
OnTrend(P, L, p) ==
    /\ Ready(L)
    /\ InSearch(L, p[1])
    /\ CmpF(p[2], YMin(P, L, p[1])) >= 0
    /\ CmpF(p[2], YMax(P, L, p[1])) <= 0

(* ----------------------------------------- trend points from boundary *)
(* leave out, from the right, points between their neighbours' chord and   *)
(* the inside; ex: extremes, bp: boundary points, co: coincident points    *)
RECURSIVE Thin(_, _, _, _)
Thin(P, up, i, s) ==
    IF i <= 0 THEN s
    ELSE LET p == s.ex[i + 1]
             y0 == LineY(s.ex[i], s.ex[i + 2], p[1])
             near == Near(P, p[2], y0)
             below == Below(P, p[2], y0)
         IN IF near \/ below = up
            THEN Thin(P, up, i - 1,
                      [ex |-> RemoveAt(s.ex, i + 1),
                       bp |-> IF near THEN s.bp ELSE SelectSeq(s.bp, LAMBDA q : q # p),
                       co |-> IF near THEN Append(s.co, p) ELSE s.co,
                       did |-> TRUE])
            ELSE Thin(P, up, i - 1, s)
RECURSIVE ThinAll(_, _, _)
ThinAll(P, up, s) ==
    LET r == Thin(P, up, Len(s.ex) - 2, [s EXCEPT !.did = FALSE])
    IN IF r.did THEN ThinAll(P, up, r) ELSE r

(* points too close to a neighbour are left out, from the right *)
RECURSIVE Space(_, _, _)
Space(P, i, ex) ==
    IF i <= 0 THEN ex
    ELSE IF i + 2 <= Len(ex)
            /\ (CmpX(Sub(ex[i + 1][1], ex[i][1]), P.mpd) < 0 \/ CmpX(Sub(ex[i + 2][1], ex[i + 1][1]), P.mpd) < 0)
         THEN Space(P, i - 1, RemoveAt(ex, i + 1))
         ELSE Space(P, i - 1, ex)

SquareError(p, q, bp) ==
    LET e(i) == LET d == Sub(bp[i][2], LineY(p, q, bp[i][1])) IN Mul(d, d)
    IN SumF(Len(bp), e)

(* the pair of neighbouring extremes whose line is nearest the boundary *)
RECURSIVE Best(_, _, _, _)
Best(ex, bp, i, b) ==
    IF i >= Len(ex) THEN b
    ELSE LET e == SquareError(ex[i], ex[i + 1], bp)
             eb == SquareError(ex[b], ex[b + 1], bp)
             exact == Dyadic(Slope(ex[i], ex[i + 1])) /\ Dyadic(Slope(ex[b], ex[b + 1]))
             c == IF exact THEN CmpX(e, eb) ELSE CmpF(e, eb)
         IN Best(ex, bp, i + 1, IF c < 0 THEN i ELSE b)

RECURSIVE WithCo(_, _, _, _)
WithCo(P, ln, ps, co) ==
    IF co = <<>> THEN ps
    ELSE WithCo(P, ln, IF Near(P, Head(co)[2], LineY(ln[1], ln[2], Head(co)[1])) THEN InsortOnce(ps, Head(co)) ELSE ps,
                Tail(co))

SetTrend(P, L) ==
    LET s == ThinAll(P, L.up, [ex |-> L.bp, bp |-> L.bp, co |-> <<>>, did |-> FALSE])
        ex == Space(P, Len(s.ex) - 2, s.ex)
        b == IF Len(ex) > 2 THEN Best(ex, s.bp, 2, 1) ELSE 1
        two == IF Len(ex) > 2 THEN <<ex[b], ex[b + 1]>> ELSE ex
    IN [L EXCEPT !.bp = s.bp, !.tp = IF Len(two) < 2 THEN two ELSE WithCo(P, two, two, s.co)]

(* ---------------------------------------------------- search interval *)
UpdateInterval(P, L) ==
    LET x0 == L.ln[1][1]
        x1 == L.ln[2][1]
        first == IF L.inter # <<>> /\ CmpX(L.inter[1][1], x0) > 0 THEN L.inter[1][1] ELSE NONE
        len == IF first = NONE \/ Len(L.tp) >= P.mp THEN Mul(Sub(x1, x0), P.slr) ELSE Sub(first, x0)
    IN [L EXCEPT !.si =
          IF ~Ready(L) THEN (IF Len(L.tp) = 1 THEN Pt(L.tp[1][1]) ELSE EMPTY)
          ELSE IF Sgn(P.slr) <= 0 THEN Closed(x0, x1)
          ELSE Mk(x0, Add(x0, len), 0, 1)]

(* ------------------------------------ crossings, touches and extremes *)
Closest(P, L, ps) ==
    LET d(i) == RAbs(Sub(YAt(L, ps[i][1]), ps[i][2]))
        least == {i \in 1..Len(ps) : \A j \in 1..Len(ps) : CmpX(d(i), d(j)) <= 0}
        first == CHOOSE i \in least : \A j \in least : i <= j
        exact == Len(L.tp) = 2 /\ Dyadic(Slope(L.ln[1], L.ln[2]))
        mine == {h \in P.hints : h.tp = L.tp /\ (h.up = 1) = L.up}
        said == IF \E h \in mine : h.at = P.now THEN {h \in mine : h.at = P.now} ELSE mine
        (* of each telling, the first new touch which is one of them *)
        new(h) == {j \in Len(L.tang) + 1..Len(h.ta) : \E i \in least : ps[i] = h.ta[j]}
        told == {h.ta[CHOOSE j \in new(h) : \A k \in new(h) : j <= k] : h \in {h \in said : new(h) # {}}}
    IN IF Cardinality(least) = 1 \/ exact \/ ~Valid(P, L) \/ told = {} THEN ps[first]
       ELSE IF Note(Cardinality(told) > 1, "closest") THEN CHOOSE p \in told : TRUE ELSE ps[first]

RECURSIVE Points(_, _, _, _, _, _)
Points(P, L, U, ui, i, a) ==
    IF i = 0 \/ ~Has(ui, U[i][1]) THEN a
    ELSE LET p == U[i]
             flush == IF a.ext # <<>> THEN <<a.ext>> \o a.exts ELSE a.exts
         IN IF OnTrend(P, L, p)
            THEN Points(P, L, U, ui, i - 1, [a EXCEPT !.on = <<p>> \o a.on, !.exts = flush, !.ext = <<>>])
            ELSE LET tans == IF a.on # <<>> THEN <<Closest(P, L, a.on)>> \o a.tans ELSE a.tans
                     ph == CmpX(p[2], YAt(L, p[1]))
                     cross == a.prev # 0 /\ ph * a.prev < 0
                     m == Meet(L.ln[1], L.ln[2], a.pp, p)
                     c == IF m = <<>> \/ CmpX(m[1], L.ln[1][1]) < 0
                          THEN <<Div(Add(a.pp[1], p[1]), R(2)), Div(Add(a.pp[2], p[2]), R(2))>> ELSE m
                     exts == IF cross THEN flush ELSE a.exts
                     ext0 == IF cross THEN <<>> ELSE a.ext
                     dist == IF ph > 0 THEN p[2] ELSE Neg(p[2])
                     new == ext0 = <<>> \/ CmpX(dist, a.extd) > 0
                 IN IF Note(cross /\ \E q \in 1..Len(U) : U[q][1] = c[1], "crossing")
                    THEN Points(P, L, U, ui, i - 1,
                           [on |-> <<>>, tans |-> tans, prev |-> ph, pp |-> p, exts |-> exts,
                            ints |-> IF cross THEN <<c>> \o a.ints ELSE a.ints,
                            ext |-> IF new THEN p ELSE ext0, extd |-> IF new THEN dist ELSE a.extd])
                    ELSE a

UpdatePoints(P, L, U) ==    \* the line and whether a crossing was found
    IF ~Ready(L) \/ U = <<>> THEN <<L, FALSE>>
    ELSE LET u1 == IF L.inter # <<>> THEN Inter(L.si, <<LastOf(L.inter)[1], PINF, 0, 1>>) ELSE L.si
             ui == IF L.tang # <<>> THEN Inter(u1, <<LastOf(L.tang)[1], PINF, 1, 1>>) ELSE u1
             a == Points(P, L, U, ui, Len(U),
                         [on |-> <<>>, tans |-> <<>>, ints |-> <<>>, exts |-> <<>>, ext |-> <<>>,
                          extd |-> Zero, prev |-> 0, pp |-> <<>>])
             tans == IF a.on # <<>> THEN <<Closest(P, L, a.on)>> \o a.tans ELSE a.tans
             exts == IF a.ext # <<>> THEN <<a.ext>> \o a.exts ELSE a.exts
             old == IF exts # <<>> /\ L.extr # <<>> /\ CmpX(LastOf(L.extr)[1], ui[1]) >= 0
                    THEN SubSeq(L.extr, 1, Len(L.extr) - 1) ELSE L.extr
             M == [L EXCEPT !.inter = L.inter \o a.ints, !.tang = L.tang \o tans, !.extr = old \o exts]
         IN IF a.ints # <<>> THEN <<UpdateInterval(P, M), TRUE>> ELSE <<M, FALSE>>

(* --------------------------------------------------------- prediction *)
INTERSECTED == 1
RETESTED == 2
CONFIRMED == 3
FULFILLED == 4

(* the target a prediction aims at, once an extreme was seen *)
Aim(P, L, d) ==
    LET e == d.seen
        i == d.inter
        y == <<e[2], Sub(e[2], i[2])>>      \* i + (e - i) * gold^2
    IN [d EXCEPT !.extr = e, !.conf = <<d.origin, e>>, !.y = y,
                 !.ymin = GTol(P, y, -1), !.ymax = GTol(P, y, 1),
                 !.xmin = e[1], !.xmax = <<e[1], Sub(e[1], d.origin[1])>>,
                 !.ok = GCmp(y, G(Zero)) > 0]
Fail(d) == [d EXCEPT !.fail = TRUE]

OnExtreme(P, L, d0, p) ==
    LET d1 == [d0 EXCEPT !.seen = p]
        d2 == IF d1.ph = INTERSECTED THEN Aim(P, L, d1) ELSE d1
        cy == LineY(d2.conf[1], d2.conf[2], p[1])
        beyond == IF L.up THEN CmpF(p[2], TolMax(P, cy)) >= 0 ELSE CmpF(p[2], TolMin(P, cy)) <= 0
        d3 == IF d2.ph = RETESTED /\ beyond THEN [d2 EXCEPT !.ph = CONFIRMED] ELSE d2
        hit == IF L.up THEN GCmp(G(p[2]), d3.ymin) >= 0 ELSE GCmp(G(p[2]), d3.ymax) <= 0
    IN IF d3.ph # CONFIRMED THEN d3
       ELSE IF hit THEN [d3 EXCEPT !.ph = FULFILLED, !.succ = TRUE, !.sp = p]
       ELSE IF GCmp(G(p[1]), d3.xmax) >= 0 THEN Fail(d3) ELSE d3

OnTouch(P, L, d, p) ==
    IF GCmp(G(p[1]), d.rmax) > 0 THEN Fail(d)
    ELSE IF d.seen = <<>> THEN Fail(d)
    ELSE [Aim(P, L, d) EXCEPT !.ph = RETESTED, !.retest = p]

RECURSIVE Advance(_, _, _, _)
Advance(P, L, d, ps) ==
    IF ps = <<>> \/ d.succ \/ d.fail THEN d
    ELSE LET p == <<Head(ps)[1], Head(ps)[2]>>
             kind == Head(ps)[3]
         IN IF d.done # NONE /\ CmpX(p[1], d.done) <= 0 THEN Advance(P, L, d, Tail(ps))
            ELSE IF d.ph = 0 THEN
                IF kind = "touch" THEN Advance(P, L, [d EXCEPT !.tcount = @ + 1], Tail(ps))
                ELSE IF kind = "extreme" THEN Advance(P, L, d, Tail(ps))
                ELSE IF d.tcount < P.mp THEN [Fail(d) EXCEPT !.ok = FALSE]
                ELSE Advance(P, L, [d EXCEPT !.ph = INTERSECTED, !.inter = p,
                                             !.rmax = <<d.origin[1], Sub(p[1], d.origin[1])>>], Tail(ps))
            ELSE IF kind = "extreme" THEN Advance(P, L, OnExtreme(P, L, d, p), Tail(ps))
            ELSE IF kind = "touch" THEN Advance(P, L, OnTouch(P, L, d, p), Tail(ps))
            ELSE Fail(d)

UpdatePrediction(P, L, U) ==
    IF ~Valid(P, L) THEN L
    ELSE LET outside(p) == LET c == CmpX(p[2], YAt(L, p[1])) IN IF L.up THEN c > 0 ELSE c < 0
             tag(s, k) == [i \in 1..Len(s) |-> <<s[i][1], s[i][2], k>>]
             ps == SortX(tag(SelectSeq(L.extr, outside), "extreme") \o tag(L.tang, "touch") \o tag(L.inter, "cross"))
             d == [L.pred EXCEPT !.origin = L.ln[1]]
             r == Advance(P, L, d, ps)
             last == G(LastOf(U)[1])
             late == \/ r.ph >= RETESTED /\ GCmp(last, r.xmax) >= 0
                     \/ r.ph = INTERSECTED /\ GCmp(last, r.rmax) >= 0
         IN [L EXCEPT !.pred =
               IF ps = <<>> THEN d
               ELSE IF r.succ \/ r.fail THEN r
               ELSE [r EXCEPT !.done = LastOf(ps)[1], !.fail = late]]

(* ------------------------------------------------------ a point comes *)
UpdateTrend(P, L, U) ==
    LET L1 == IF Valid(P, L) THEN L ELSE SetTrend(P, L)
        L2 == [L1 EXCEPT !.ln = Fit(L1.tp), !.inter = <<>>, !.tang = <<>>, !.extr = <<>>, !.pred = NoPred]
        L3 == UpdatePoints(P, L2, U)[1]
    IN UpdatePrediction(P, UpdateInterval(P, L3), U)

(* the line and whether it took the point, or was crossed *)
Take(P, L, p, U) ==
    IF Ready(L) /\ ~InSearch(L, p[1]) THEN <<L, FALSE>>
    ELSE IF ~Valid(P, L) THEN <<UpdateTrend(P, [L EXCEPT !.bp = InsortOnce(@, p)], U), TRUE>>
    ELSE IF OnTrend(P, L, p)
    THEN <<UpdateTrend(P, [L EXCEPT !.bp = InsortOnce(@, p), !.tp = InsortOnce(@, p)], U), TRUE>>
    ELSE LET r == UpdatePoints(P, L, U) IN <<UpdatePrediction(P, r[1], U), r[2]>>

Coincident(P, L, M) ==  \* line M lies on line L
    OnTrend(P, L, M.ln[1]) /\ OnTrend(P, L, M.ln[2])
SearchMeets(L, M) ==
    IF (L.si # EMPTY /\ L.si[2] = UNK) \/ (M.si # EMPTY /\ M.si[2] = UNK) THEN Fragile("size") ELSE Meets(L.si, M.si)
Doubled(P, lines, L, me) ==   \* another of the lines has the course of L
    \E k \in 1..Len(lines) : k # me /\ Ready(lines[k]) /\ SearchMeets(L, lines[k])
                               /\ ((Valid(P, L) /\ lines[k].tp = L.tp) \/ Coincident(P, lines[k], L))

RECURSIVE TakeAll(_, _, _, _, _, _)
TakeAll(P, p, U, lv, j, s) ==      \* s: nest, del (indexes), new (points)
    LET lines == s.nest[lv] IN
    IF j > Len(lines) THEN s
    ELSE LET L == lines[j]
             r == Take(P, L, p, U)
             M == r[1]
             nest == [s.nest EXCEPT ![lv] = [lines EXCEPT ![j] = M]]
             t == [s EXCEPT !.nest = nest]
             u == IF ~r[2] THEN t
                  ELSE IF Valid(P, M)
                  THEN IF Valid(P, L) THEN t
                       ELSE IF \E k \in 1..Len(nest) : Doubled(P, nest[k], M, IF k = lv THEN j ELSE 0)
                       THEN [t EXCEPT !.del = @ \cup {j}]
                       ELSE [t EXCEPT !.new = InsortOnce(InsortOnce(@, M.tp[1]), LastOf(M.tp))]
                  ELSE IF Ready(M) /\ ~Ready(L) /\ Doubled(P, nest[lv], M, j)
                  THEN [t EXCEPT !.del = @ \cup {j}]
                  ELSE t
         IN TakeAll(P, p, U, lv, j + 1, u)

(* a line may start at p, when the last one is a least width away *)
Fork(P, lines, p, up, U) ==
    IF lines # <<>> /\ (~Ready(LastOf(lines)) \/ CmpX(Sub(p[1], LastOf(lines).tp[1][1]), P.mw) < 0)
    THEN lines
    ELSE Append(lines, Take(P, NewLine(up), p, U)[1])

(* level lv of the lines on a side takes p: new lines, new trend points *)
Level(P, p, U, lv, nest, up) ==
    LET s == TakeAll(P, p, U, lv, 1, [nest |-> nest, del |-> {}, new |-> <<>>])
        all == s.nest[lv]
        idx == [i \in 1..Len(all) |-> <<all[i], i>>]
        kept == SelectSeq(idx, LAMBDA v : v[2] \notin s.del)
        lines == [i \in 1..Len(kept) |-> kept[i][1]]
    IN <<[s.nest EXCEPT ![lv] = Fork(P, lines, p, up, U)], s.new>>

RECURSIVE Pass(_, _, _, _, _, _)
Pass(P, ps, U, lv, T, new) ==
    IF ps = <<>> THEN <<T, new>>
    ELSE LET u == Level(P, Head(ps), U, lv, T.upper, TRUE)
             l == Level(P, Head(ps), U, lv, T.lower, FALSE)
         IN Pass(P, Tail(ps), U, lv, [upper |-> u[1], lower |-> l[1]], InsortAll(InsortAll(new, u[2]), l[2]))

(* the ends of lines found at one depth are the points of the next *)
RECURSIVE Deepen(_, _, _, _, _)
Deepen(P, ps, U, lv, T) ==
    IF lv > Len(T.upper) THEN T
    ELSE LET r == Pass(P, ps, U, lv, T, <<>>)
             T1 == r[1]
         IN IF r[2] = <<>> THEN T1
            ELSE Deepen(P, r[2], U, lv + 1,
                        IF Len(T1.upper) = lv
                        THEN [upper |-> Append(T1.upper, <<>>), lower |-> Append(T1.lower, <<>>)] ELSE T1)

T0 == [upper |-> << <<>> >>, lower |-> << <<>> >>]

RECURSIVE Flat(_)
Flat(n) == IF n = <<>> THEN <<>> ELSE Head(n) \o Flat(Tail(n))
AllLines(T) == Flat(T.upper) \o Flat(T.lower)

Read(P, T, n, pts) ==
    IF pts[n + 1][2] = NONE THEN T
    ELSE Deepen(P, <<pts[n + 1]>>, SelectSeq(SubSeq(pts, 1, n + 1), LAMBDA q : q[2] # NONE), 1, T)
RECURSIVE ReadAll(_, _, _, _)
ReadAll(P, T, n, pts) == IF n = Len(pts) THEN T ELSE ReadAll(P, Read(P, T, n, pts), n + 1, pts)
Scanned(P, pts) == ReadAll(P, T0, 0, pts)

(* the lines reported at x, or all *)
Reported(P, nest, x) ==
    SelectSeq(Flat(nest), LAMBDA L : Valid(P, L) /\ (x = NONE \/ InSearch(L, x)))

(* ------------------------------------------------- what lines promise *)
LinePromise(P, L, U) ==
    LET inU(p) == \E i \in 1..Len(U) : U[i] = p
        rising(s) == \A i \in 2..Len(s) : Lt(s[i - 1][1], s[i][1])
    IN
    /\ \A i \in 1..Len(L.tp) : inU(L.tp[i])
    /\ rising(L.tp)
    /\ \A i \in 1..Len(L.bp) : inU(L.bp[i])
    /\ rising(L.bp)
    /\ Ready(L) =>
        /\ L.ln[1][1] = L.tp[1][1] /\ L.ln[2][1] = LastOf(L.tp)[1]
        /\ L.si # EMPTY => L.si[1] = L.ln[1][1]
        /\ rising(L.tang) /\ rising(L.inter) 
        /\ \A i \in 1..Len(L.tang) : inU(L.tang[i])
        /\ \A i \in 1..Len(L.extr) : inU(L.extr[i])
        (* crossings lie on the line, or midway, between points on either side *)
        /\ \A i \in 1..Len(L.inter) : \E a, b \in 1..Len(U) :
              /\ a < b /\ Lt(U[a][1], L.inter[i][1]) /\ Lt(L.inter[i][1], U[b][1])
              /\ (Cmp(U[a][2], YAt(L, U[a][1])) * Cmp(U[b][2], YAt(L, U[b][1]))) < 0

PredictionPromise(P, L) ==
    LET d == L.pred IN
    /\ d.ph \in 0..4
    /\ ~(d.succ /\ d.fail)
    /\ d.succ <=> d.ph = FULFILLED
    /\ d.ph >= INTERSECTED => d.inter # <<>> /\ d.tcount >= P.mp
    (* every touch counts once *)
    /\ d.tcount <= Len(L.tang)
    /\ d.ph >= RETESTED => d.retest # <<>> /\ d.extr # <<>> /\ Lt(d.inter[1], d.retest[1])
    /\ d.ph >= CONFIRMED => d.seen # <<>>
    /\ d.succ => d.sp # <<>> /\ Lt(d.retest[1], d.sp[1])
============================================================================
