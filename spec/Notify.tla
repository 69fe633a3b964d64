------------------------------- MODULE Notify -------------------------------
(***************************************************************************)
(* The update protocol.  A change at a curve is announced with begin(D)    *)
(* before it happens and end(D) after it; every derived curve translates   *)
(* the interval and passes both on; observers of a curve are called when   *)
(* the interval meets the domain they asked for.  Overlapping updates of   *)
(* one curve are collected: begin is announced for everything not already  *)
(* announced, end once the ended intervals cover all begun ones.           *)
(*                                                                         *)
(* S = [ub, ue : begun / ended hull per node, log : callbacks made]        *)
(* obs = sequence of registered observers [o, n, d, hd]                    *)
(***************************************************************************)
EXTENDS Curves

Notifies(N) == N.t \notin {"sub", "gen", "const", "line", "pts", "qt", "sin", "empty"}
Feeds(N) == IF N.t = "ema" THEN <<N.a[1]>> ELSE N.a
Children(g, n) == SelectSeq([c \in 1..Len(g) |-> c],
                    LAMBDA c : Notifies(g[c]) /\ \E j \in 1..Len(Feeds(g[c])) : g[c].a[j] = n)

(* the interval child c announces when its operand announces D *)
Xf(g, c, D) ==
    LET N == g[c] IN
    IF D = EMPTY THEN EMPTY
    \* which earlier step is an extreme is decided by the ones after it
    ELSE CASE N.t = "extr" -> ALL
           \* everything from the last step before the change on
           [] N.t \in ScanTypes -> IF N.r[1] = Zero THEN Mk(D[1], PINF, D[3], 1)
                                   ELSE Mk(IF IsInf(D[1]) THEN D[1] ELSE Sub(D[1], N.r[1]), PINF, 1, 1)
           [] N.t = "off" -> Moved(N, D)
           [] N.t = "ext" -> Mk(IF N.i[1] = 1 THEN NINF ELSE D[1], IF N.i[2] = 1 THEN PINF ELSE D[2], D[3], D[4])
           [] OTHER -> D

RECURSIVE Paths(_, _, _)
Paths(g, s, n) ==      \* number of ways a change at s reaches n
    IF s = n THEN 1
    ELSE IF ~Notifies(g[n]) THEN 0
    ELSE LET ops == {Feeds(g[n])[j] : j \in 1..Len(Feeds(g[n]))}
             RECURSIVE Sum(_)
             Sum(T) == IF T = {} THEN 0 ELSE LET q == CHOOSE q \in T : TRUE IN Paths(g, s, q) + Sum(T \ {q})
         IN Sum(ops)

Wants(o, D) == o.hd = 0 \/ Meets(D, o.d)
(* the library lets intervals which merely touch count as intersecting in  *)
(* some cases: no claim is made then                                       *)
Touches(o, D) == o.hd = 1 /\ ~Meets(D, o.d) /\ D # EMPTY /\ o.d # EMPTY /\ Le(D[1], o.d[2]) /\ Le(o.d[1], D[2])

Fire(S, obs, n, D, w) ==
    LET mine == SelectSeq(obs, LAMBDA o : o.n = n)
        hits == SelectSeq(mine, LAMBDA o : Wants(o, D))
        grey == SelectSeq(mine, LAMBDA o : Touches(o, D))
    IN [S EXCEPT !.log = @ \o [j \in 1..Len(hits) |-> <<hits[j].o, w, D>>],
                 !.grey = @ \cup {grey[j].o : j \in 1..Len(grey)}]

RECURSIVE Begin(_, _, _, _, _), BeginAll(_, _, _, _, _, _), End(_, _, _, _, _), EndAll(_, _, _, _, _, _)
Begin(g, S, obs, n, D) ==
    IF D = EMPTY \/ Superset(S.ub[n], D) THEN S
    ELSE LET S1 == [S EXCEPT !.ub[n] = Hull(@, D)]
         IN Fire(BeginAll(g, S1, obs, Children(g, n), 1, D), obs, n, D, "b")
BeginAll(g, S, obs, cs, j, D) ==
    IF j > Len(cs) THEN S ELSE BeginAll(g, Begin(g, S, obs, cs[j], Xf(g, cs[j], D)), obs, cs, j + 1, D)

End(g, S, obs, n, D) ==
    IF D = EMPTY \/ Superset(S.ue[n], D) THEN S
    ELSE LET e == Hull(S.ue[n], D) IN
         IF ~(Superset(e, S.ub[n])) THEN [S EXCEPT !.ue[n] = e]
         ELSE LET S1 == [S EXCEPT !.ub[n] = EMPTY, !.ue[n] = EMPTY]
              IN Fire(EndAll(g, S1, obs, Children(g, n), 1, e), obs, n, e, "e")
EndAll(g, S, obs, cs, j, D) ==
    IF j > Len(cs) THEN S ELSE EndAll(g, End(g, S, obs, cs[j], Xf(g, cs[j], D)), obs, cs, j + 1, D)

Quiet(g) == [ub |-> [n \in 1..Len(g) |-> EMPTY], ue |-> [n \in 1..Len(g) |-> EMPTY], log |-> <<>>, grey |-> {}]
Clear(S) == [S EXCEPT !.log = <<>>, !.grey = {}]
=============================================================================
