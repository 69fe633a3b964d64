------------------------------- MODULE Explore -------------------------------
(***************************************************************************)
(* Every history of a small system: a graph of curves, observers, and a    *)
(* list of moves (operations, announcements, questions).  TLC visits all   *)
(* of them up to a depth, checks the specification itself on the way, and  *)
(* hands the histories to the driver, which performs them on the code; the *)
(* recorded answers are judged by Trace.tla.                               *)
(***************************************************************************)
EXTENDS CurveSystem, TLC, IOUtils, Json

M == JsonDeserialize(IOEnv.MODEL)
G == M.g
Moves == M.moves
Places == M.places      \* where the specification is checked

VARIABLES st, S, hist, told
vars == <<st, S, hist, told>>

(* one observer per curve, so that the log tells what each one announced *)
Watch == [n \in 1..Len(G) |-> [o |-> n, n |-> n, d |-> EMPTY, hd |-> 0, kind |-> "both"]]

Init == st = M.st /\ S = Quiet(G) /\ hist = <<>> /\ told = <<>>

Busy == \E n \in 1..Len(G) : S.ub[n] # EMPTY
Do(k) ==
    LET e == Moves[k] IN
    /\ hist' = Append(hist, k)
    /\ CASE e.e = "op" ->
              LET f == Effect(G, st, e)
                  S1 == IF f.ann = EMPTY THEN Clear(S) ELSE Announce(G, Clear(S), Watch, e.n, f.ann)
              IN st' = [st EXCEPT ![e.n] = f.data] /\ S' = Clear(S1) /\ told' = S1.log
         [] e.e = "pr" ->
              LET S1 == IF e.w = "b" THEN Begin(G, Clear(S), Watch, e.n, e.d) ELSE End(G, Clear(S), Watch, e.n, e.d)
              IN S' = Clear(S1) /\ told' = S1.log /\ UNCHANGED st
         [] OTHER -> told' = <<>> /\ UNCHANGED <<st, S>>
Enabled(k) == Moves[k].e = "op" => ~Busy
Next == Len(hist) < M.depth /\ \E k \in 1..Len(Moves) : Enabled(k) /\ Do(k)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* the specification itself *)
Sources == {n \in 1..Len(G) : G[n].t \in {"pts", "qt"}}
StoresSorted == \A n \in Sources : Ascending(st[n]) /\ (G[n].i[1] = 1 => Regular(st[n]))

(* an update in progress is one which has not ended everywhere it began *)
Pending == \A n \in 1..Len(G) :
              IF S.ub[n] = EMPTY THEN S.ue[n] = EMPTY ELSE S.ue[n] = EMPTY \/ ~Superset(S.ue[n], S.ub[n])

(* nothing changes outside of what was announced before and after *)
Covered(n, w, x) == \E j \in 1..Len(told) : told[j][1] = n /\ told[j][2] = w /\ Has(told[j][3], x)
Differ(a, b) == a # b /\ a # UNK /\ b # UNK
AnnouncedAt(C0, C1, n, x) ==
    Differ(Y(C0, n, x), Y(C1, n, x)) => Covered(n, "b", x)' /\ Covered(n, "e", x)'
ChangesAnnounced ==
    [][ st' # st => LET C0 == Ctx(G, st)
                        C1 == Ctx(G, st')
                    IN \A n \in 1..Len(G) : Notifies(G[n]) \/ n \in Sources =>
                          \A j \in 1..Len(Places) : AnnouncedAt(C0, C1, n, Places[j]) ]_vars

Emit == Len(hist) = M.depth => PrintT("HIST " \o ToJson(hist))
==============================================================================
