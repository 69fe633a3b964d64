----------------------------- MODULE PointStore -----------------------------
(***************************************************************************)
(* The point store behind a point curve: strictly ascending points, read   *)
(* by interpolation, changed by append / replace / reset / set.  Every     *)
(* operation either fails and changes nothing, or succeeds and announces   *)
(* an interval which holds everything that changed.                        *)
(* A store is a sequence of <<x, y>>; `forced` stores only accept equally  *)
(* spaced points.                                                          *)
(***************************************************************************)
EXTENDS Itv, SequencesExt

X(p) == p[1]
Last2(P) == P[Len(P)]

StoreDom(P) == IF P = <<>> THEN EMPTY ELSE Closed(X(P[1]), X(P[Len(P)]))

Ascending(P) == \A i \in 1..(Len(P) - 1) : Lt(X(P[i]), X(P[i + 1]))

(* equally spaced by h *)
SpacedBy(P, h) == \A i \in 1..(Len(P) - 1) : Sub(X(P[i + 1]), X(P[i])) = h
Regular(P) == Len(P) < 2 \/ SpacedBy(P, Sub(X(P[2]), X(P[1])))

(* index of the last point at or before x; 0 if none *)
RECURSIVE FloorIx(_, _, _)
FloorIx(P, x, i) == IF i = 0 \/ Le(X(P[i]), x) THEN i ELSE FloorIx(P, x, i - 1)

(* value of the curve through P; kind "lin", "prev", "next" *)
StoreY(P, kind, x) ==
    IF ~Has(StoreDom(P), x) THEN NONE
    ELSE LET i == FloorIx(P, x, Len(P)) IN
         IF X(P[i]) = x THEN P[i][2]
         ELSE CASE kind = "prev" -> P[i][2]
                [] kind = "next" -> P[i + 1][2]
                [] OTHER -> Lerp(P[i], P[i + 1], x)

Ok(P, ann) == [ok |-> TRUE, pts |-> P, ann |-> ann]
NoChange(P) == [ok |-> TRUE, pts |-> P, ann |-> EMPTY]
Fail(P) == [ok |-> FALSE, pts |-> P, ann |-> EMPTY]

SetOp(P, forced, new) ==
    IF forced /\ ~Regular(new) THEN Fail(P)
    ELSE Ok(new, Hull(StoreDom(P), StoreDom(new)))

AppendOp(P, forced, new) ==
    IF P = <<>> THEN SetOp(P, forced, new)
    ELSE IF new = <<>> THEN NoChange(P)
    ELSE IF Le(X(new[1]), X(Last2(P))) THEN Fail(P)
    ELSE IF forced /\ ~Regular(P \o new) THEN Fail(P)
    ELSE Ok(P \o new, Mk(X(Last2(P)), X(Last2(new)), 1, 0))

ReplaceOp(P, forced, pt, or_append) ==
    IF ~Has(StoreDom(P), X(pt))
    THEN IF or_append THEN AppendOp(P, forced, <<pt>>) ELSE Fail(P)
    ELSE LET i == FloorIx(P, X(pt), Len(P))
             hit == X(P[i]) = X(pt)
             j == IF hit THEN i + 1 ELSE i + 1      \* next point to the right
             h == IF hit THEN i - 1 ELSE i          \* next point to the left
             new == SubSeq(P, 1, h) \o <<pt>> \o SubSeq(P, j, Len(P))
             ann == Mk(IF h = 0 THEN X(pt) ELSE X(P[h]),
                       IF j > Len(P) THEN X(pt) ELSE X(P[j]),
                       IF h = 0 THEN 0 ELSE 1, IF j > Len(P) THEN 0 ELSE 1)
         IN IF forced /\ ~hit THEN Fail(P) ELSE Ok(new, ann)

(* remove the points inside D (everything when hasD is FALSE) *)
ResetOp(P, forced, hasD, D) ==
    IF P = <<>> THEN NoChange(P)
    ELSE IF ~hasD THEN Ok(<<>>, StoreDom(P))
    ELSE LET keep == SelectSeq(P, LAMBDA p : ~Has(D, X(p)))
             head == SelectSeq(keep, LAMBDA p : Le(X(p), D[1]))
             tail == SelectSeq(keep, LAMBDA p : Gt(X(p), D[1]))
             ann == Mk(IF head = <<>> THEN X(P[1]) ELSE X(Last2(head)),
                       IF tail = <<>> THEN X(Last2(P)) ELSE X(tail[1]),
                       IF head = <<>> THEN 0 ELSE 1, IF tail = <<>> THEN 0 ELSE 1)
         IN IF D = EMPTY \/ Len(keep) = Len(P) THEN NoChange(P)
            ELSE IF keep = <<>> THEN Ok(<<>>, StoreDom(P))
            \* what is left must still be spaced by the old interval
            ELSE IF forced /\ Len(P) > 1 /\ ~SpacedBy(keep, Sub(X(P[2]), X(P[1]))) THEN Fail(P)
            ELSE Ok(keep, ann)

StoreOp(P, forced, op) ==
    CASE op.op = "set"     -> SetOp(P, forced, op.p)
      [] op.op = "append"  -> AppendOp(P, forced, op.p)
      [] op.op = "replace" -> ReplaceOp(P, forced, op.p[1], op.f = 1)
      [] op.op = "reset"   -> ResetOp(P, forced, op.f = 1, op.d)

(* stepping over the points; ms = 0 stands for the smallest step *)
NextPt(P, x, ms) ==
    LET t == Add(x, ms)
        past == IF ms = Zero THEN Ge(x, X(Last2(P))) ELSE Gt(t, X(Last2(P)))
    IN IF P = <<>> THEN NONE
       ELSE IF x = PINF \/ ms = PINF THEN NONE
       ELSE IF x = NINF THEN X(P[1])
       ELSE IF past THEN NONE
       ELSE X(P[CHOOSE i \in 1..Len(P) :
                  /\ IF ms = Zero THEN Gt(X(P[i]), x) ELSE Ge(X(P[i]), t)
                  /\ i = 1 \/ ~(IF ms = Zero THEN Gt(X(P[i - 1]), x) ELSE Ge(X(P[i - 1]), t))])
PrevPt(P, x, ms) ==
    LET t == Sub(x, ms)
        past == IF ms = Zero THEN Le(x, X(P[1])) ELSE Lt(t, X(P[1]))
        n == Len(P)
    IN IF P = <<>> THEN NONE
       ELSE IF x = NINF \/ ms = PINF THEN NONE
       ELSE IF x = PINF THEN X(P[n])
       ELSE IF past THEN NONE
       ELSE X(P[CHOOSE i \in 1..n :
                  /\ IF ms = Zero THEN Lt(X(P[i]), x) ELSE Le(X(P[i]), t)
                  /\ i = n \/ ~(IF ms = Zero THEN Lt(X(P[i + 1]), x) ELSE Le(X(P[i + 1]), t))])
=============================================================================
