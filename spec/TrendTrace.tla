----------------------------- MODULE TrendTrace -----------------------------
(***************************************************************************)
(* Conformance of trend scans: recorded histories of a curve of points and *)
(* of what a scan reports at places, checked against Trend.  A trace is    *)
(* [p: parameters, ev: events]; an event is [pts: the points of the curve, *)
(* q: answers].                                                            *)
(***************************************************************************)
EXTENDS Trend, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, T, weak
vars == <<tid, l, T, weak>>

(* what is told of lines and their touches, anywhere in a trace *)
Told(t) == UNION {UNION {LET q == Traces[t].ev[i].q[j] IN
                          IF q.e # "" \/ q.k = "kept" THEN {}
                          ELSE {[tp |-> q.r[k].tp, up |-> q.r[k].up, ta |-> q.r[k].ta, at |-> i] : k \in 1..Len(q.r)}
                          : j \in 1..Len(Traces[t].ev[i].q)} : i \in 1..Len(Traces[t].ev)}
Params == [t \in 1..Len(Traces) |-> Traces[t].p @@ [hints |-> Told(t)]]
P == Params[tid] @@ [now |-> l]
Ev == Traces[tid].ev

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ T = T0
        /\ weak = FALSE

(* ------------------------------------------------------------- answers *)
AgreesPt(e, r) == IF e = <<>> THEN r = <<>> ELSE r # <<>> /\ Agrees(e[1], r[1]) /\ Agrees(e[2], r[2])
AgreesPts(e, r) == Len(e) = Len(r) /\ \A i \in 1..Len(e) : AgreesPt(e[i], r[i])
AgreesItv(e, r) ==
    IF e = EMPTY \/ r = EMPTY THEN e = r
    ELSE Agrees(e[1], r[1]) /\ Agrees(e[2], r[2]) /\ e[3] = r[3] /\ e[4] = r[4]

(* line_extended(width_mult = m, width_max = w, intersection_index = k) *)
Extended(L, m, w, k) ==
    LET x0 == L.ln[1][1]
        n == Len(L.inter)
        use == k # NONE /\ n # 0
        i == IF k[1] < 0 THEN (IF n + k[1] < 0 THEN 0 ELSE n + k[1]) ELSE IF k[1] > n - 1 THEN n - 1 ELSE k[1]
        a == IF use THEN Max2(L.ln[2][1], L.inter[i + 1][1]) ELSE L.ln[2][1]
        b == IF m = NONE THEN a ELSE Add(x0, Mul(Sub(a, x0), m))
        c == IF w # NONE /\ CmpX(Sub(b, x0), w) > 0 THEN Add(x0, w) ELSE b
        d == IF use /\ i + 1 < n THEN Min2(c, L.inter[i + 2][1])
             ELSE c
    IN <<L.ln[1], <<d, YAt(L, d)>>>>

(* the target as a line, and the trend up to where the prediction ends *)
GPts(e, r) == Len(e) = Len(r) /\ \A i \in 1..Len(e) : GAgrees(e[i][1], r[i][1]) /\ GAgrees(e[i][2], r[i][2])
PredLine(d) == IF d.extr = <<>> THEN <<>> ELSE <<<<G(d.extr[1]), d.y>>, <<d.xmax, d.y>>>>
PredTrend(L, d) ==
    LET m == Slope(L.ln[1], L.ln[2])
        at(g) == GAdd(G(L.ln[1][2]), GScale(GAdd(g, G(Neg(L.ln[1][1]))), m))
        to(g) == <<<<G(d.origin[1]), G(d.origin[2])>>, <<g, at(g)>>>>
    IN IF d.xmax # <<>> THEN to(d.xmax) ELSE IF d.rmax # <<>> THEN to(d.rmax) ELSE <<>>

LineSays(L, r) ==      \* the first thing which r says of L and which is not so, or ""
    LET d == L.pred
        why(c, s) == IF c THEN {} ELSE {s}
        g(e, n) == GAgrees(e, n)
        bad == UNION {
            why(L.up = (r.up = 1), "side"),
            why(AgreesPts(L.tp, r.tp), "trend points"),
            why(AgreesPts(L.ln, r.ln), "line"),
            why(Agrees(Width(L), r.w), "width"),
            why(AgreesItv(L.si, r.si), "search interval"),
            why(AgreesPts(L.inter, r.ins), "crossings"),
            why(AgreesPts(L.tang, r.ta), "touches"),
            why(AgreesPts(L.extr, r.ex), "extremes"),
            why(d.ph = r.ph, "phase"),
            why(d.fail = (r.f = 1), "failed"),
            why(d.succ = (r.s = 1), "succeeded"),
            why(d.ok = (r.ok = 1), "prediction valid"),
            why(AgreesPt(d.origin, r.po), "prediction origin"),
            why(AgreesPt(d.inter, r.pi), "prediction crossing"),
            why(AgreesPt(d.extr, r.pe), "prediction extreme"),
            why(AgreesPt(d.retest, r.pr), "prediction retest"),
            why(AgreesPt(d.sp, r.ps), "prediction success"),
            why(AgreesPts(d.conf, r.pc), "prediction confirmation line"),
            why(Agrees(d.xmin, r.px), "prediction x_min"),
            why(g(d.rmax, r.g[1]), "retest x_max"),
            why(g(d.y, r.g[2]), "prediction y"),
            why(g(d.ymin, r.g[3]), "prediction y_min"),
            why(g(d.ymax, r.g[4]), "prediction y_max"),
            why(g(d.xmax, r.g[5]), "prediction x_max"),
            why(GPts(PredLine(d), r.gl), "prediction line"),
            why(GPts(PredTrend(L, d), r.gt), "prediction trend line"),
            why(\A i \in 1..Len(r.fy) : Agrees(YAt(L, r.fy[i][1]), r.fy[i][2]), "y"),
            why(\A i \in 1..Len(r.fx) : Agrees(LineX(L.ln[1], L.ln[2], r.fx[i][1]), r.fx[i][2])
                    \/ (L.ln[1][2] = L.ln[2][2] /\ Len(L.tp) > 2), "x"),
            why(\A i \in 1..Len(r.on) : OnTrend(P, L, r.on[i][1]) = (r.on[i][2] = 1), "on trend"),
            why(\A i \in 1..Len(r.le) :
                    AgreesPts(Extended(L, r.le[i][1], r.le[i][2], r.le[i][3]), r.le[i][4]), "extended")}
    IN IF bad = {} THEN "" ELSE ToString(bad)

(* the first line which the code reports otherwise *)
RECURSIVE Differ(_, _)
Differ(e, r) ==
    IF e = <<>> /\ r = <<>> THEN ""
    ELSE IF e = <<>> THEN "line too many"
    ELSE IF r = <<>> THEN "line missing"
    ELSE LET s == LineSays(Head(e), Head(r)) IN IF s # "" THEN s ELSE Differ(Tail(e), Tail(r))

Answer(U, q) ==
    IF q.k = "upper" THEN Reported(P, U.upper, q.x)
    ELSE IF q.k = "lower" THEN Reported(P, U.lower, q.x)
    ELSE Reported(P, U.lower, q.x) \o Reported(P, U.upper, q.x)     \* "y", "lines"


(* "kept": what copies of the lines of answer q.of say at the end *)
Wrong(U, q) == IF q.e # "" THEN q.e
               ELSE IF q.k = "kept"
               THEN (IF q.r = Ev[q.of[1]].q[q.of[2]].r THEN "" ELSE "copies of lines changed")
               ELSE Differ(Answer(U, q), q.r)

RECURSIVE FirstWrong(_, _, _)
FirstWrong(U, qs, i) ==    \* number and fault of the first wrong answer
    IF i > Len(qs) THEN <<0, "">>
    ELSE LET w == Wrong(U, qs[i]) IN IF w # "" THEN <<i, w>> ELSE FirstWrong(U, qs, i + 1)

(* A question makes the scan read all there is; lines found so far stand   *)
(* when points are only added.                                             *)
Next ==
    /\ l <= Len(Ev)
    /\ LET e == Ev[l]
           old == IF l = 1 THEN <<>> ELSE Ev[l - 1].pts
           keep == Len(old) <= Len(e.pts) /\ SubSeq(e.pts, 1, Len(old)) = old
       IN /\ TLCSet(REG, "")
          /\ T' = IF keep THEN ReadAll(P, T, Len(old), e.pts) ELSE Scanned(P, e.pts)
          /\ LET a == FirstWrong(T', e.q, 1)
                 w0 == keep /\ weak
             IN /\ weak' = IF a[1] >= 0 THEN w0 \/ TLCGet(REG) # "" ELSE TRUE
                /\ l' = IF weak' THEN (IF w0 THEN l + 1 ELSE IF PrintT("WEAK " \o TLCGet(REG)) THEN l + 1 ELSE 0)
                        ELSE IF a[1] = 0 THEN l + 1
                        ELSE IF PrintT("VIOL " \o ToString(<<Traces[tid].id, l, <<a[1], e.q[a[1]].k, e.q[a[1]].x, a[2]>>>>))
                             THEN Len(Ev) + 2 ELSE 0
    /\ UNCHANGED tid

Promises ==
    weak \/ l = 1 \/ l > Len(Ev) + 1
        \/ LET U == SelectSeq(Ev[l - 1].pts, LAMBDA q : q[2] # NONE)
           IN \A i \in 1..Len(AllLines(T)) : LET L == AllLines(T)[i] IN
                LinePromise(P, L, U) /\ PredictionPromise(P, L)

(* While points are only added, predictions of a line only advance. (Lines  *)
(* of the lines are found anew, from the extremes which are found then.)    *)
Onward(nest, nest2) ==
    \A i \in 1..Len(nest[1]) : \A j \in 1..Len(nest2[1]) :
        LET L == nest[1][i]
            M == nest2[1][j]
        IN L.tp = M.tp /\ L.bp = M.bp /\ Valid(P, L) =>
             /\ M.pred.ph >= L.pred.ph
             /\ L.pred.fail => M.pred.fail
             /\ L.pred.succ => M.pred.succ
             /\ Len(M.inter) >= Len(L.inter) /\ SubSeq(M.inter, 1, Len(L.inter)) = L.inter
Advancing ==
    [][LET old == IF l = 1 THEN <<>> ELSE Ev[l - 1].pts
           grown == l <= Len(Ev) /\ Len(old) <= Len(Ev[l].pts) /\ SubSeq(Ev[l].pts, 1, Len(old)) = old
       IN (grown /\ ~weak') => Onward(T.upper, T'.upper) /\ Onward(T.lower, T'.lower)]_vars

Spec == Init /\ [][Next]_vars
=============================================================================
