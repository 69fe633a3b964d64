----------------------------- MODULE CurveSystem -----------------------------
(***************************************************************************)
(* The system as its users see it: a graph of curves over mutable sources, *)
(* observers, and operations which change a source, announce the change    *)
(* through the graph, and leave every curve answering from the new data.   *)
(***************************************************************************)
EXTENDS Notify

(* Effect of one source operation: [ok, data, ann] *)
Effect(g, st, ev) ==
    LET n == ev.n
        N == g[n]
    IN CASE ev.op \in {"append", "replace", "reset", "set"} ->
              LET e == StoreOp(st[n], N.i[1] = 1, ev) IN [ok |-> e.ok, data |-> e.pts, ann |-> e.ann]
         [] ev.op = "val" ->        \* a constant's value
              [ok |-> TRUE, data |-> <<ev.p[1][1]>>,
               ann |-> IF st[n][1] = ev.p[1][1] THEN EMPTY ELSE N.d]
         [] ev.op = "sin" ->        \* a sine's amplitude, frequency and phase (always announced)
              [ok |-> TRUE, data |-> <<ev.p[1][1], ev.p[1][2], ev.p[2][1]>>, ann |-> ALL]
         [] ev.op = "bad" ->        \* an incomplete description is refused
              [ok |-> FALSE, data |-> st[n], ann |-> EMPTY]
         [] ev.op = "line" ->       \* a line's constant and slope
              [ok |-> TRUE, data |-> <<ev.p[1][1], ev.p[1][2]>>,
               ann |-> IF st[n] = <<ev.p[1][1], ev.p[1][2]>> THEN EMPTY ELSE ALL]

(* begin and end of a change at n announced as D *)
Announce(g, S, obs, n, D) == End(g, Begin(g, S, obs, n, D), obs, n, D)
==============================================================================
