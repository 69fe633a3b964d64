------------------------------- MODULE Registry -------------------------------
(***************************************************************************)
(* The observer registry of one curve: who is called, in which order, with *)
(* what, over any history of registrations, removals, dropped objects and  *)
(* announcements, including registrations and removals made by observers   *)
(* while they are being called.                                            *)
(*                                                                         *)
(* A registration is known by its number id, in the order they were made.  *)
(* The driver checks that the tokens which the code hands out for them are *)
(* numbers which were never used before.                                   *)
(*                                                                         *)
(* regs  the registrations in the order in which they are called           *)
(* gone  objects which are no longer alive                                 *)
(* made  how many were ever made                                           *)
(* hist  the operations so far, each with the calls the registry makes     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, IOUtils, Json

CONSTANTS Depth, Wide       \* length of a history; Wide: sample registrations from all kinds

Objs == {1, 2}
Regions == {"all", "A", "B", "none"}
Spans == {"A", "B", "AB"}
Hits(region, span) == region = "all" \/ (region # "none" /\ (region = span \/ span = "AB"))

(* what a callback does besides being called, once *)
Nothing == [at |-> "", do |-> "", arg |-> 0]

(* b, e: the callbacks: "" none, "i" takes the interval, "-" takes nothing *)
Reg(obj, auto, prio, b, e, d, eff) ==
    [obj |-> obj, auto |-> auto, prio |-> prio, b |-> b, e |-> e, d |-> d, eff |-> eff]

Kinds == {<<"i", "i">>, <<"-", "-">>, <<"i", "">>, <<"", "i">>, <<"-", "i">>, <<"", "-">>, <<"", "">>}
Effects == {Nothing} \cup
    [at : {"b", "e"}, do : {"tok"}, arg : 1..4] \cup
    [at : {"b", "e"}, do : {"obj", "drop"}, arg : Objs] \cup
    [at : {"b", "e"}, do : {"self"}, arg : {0}] \cup
    [at : {"b", "e"}, do : {"add"}, arg : {0, 1}]       \* 1: with priority
AllRegs == {Reg(o, a, p, k[1], k[2], d, f) : o \in Objs \cup {0}, a \in {0, 1}, p \in {0, 1},
                                             k \in Kinds, d \in Regions, f \in Effects}

(* a small set which still tells the features apart *)
FewRegs ==
    { Reg(0, 0, 0, "i", "i", "all", Nothing),
      Reg(0, 0, 1, "-", "i", "A", Nothing),
      Reg(1, 1, 0, "i", "-", "all", Nothing),
      Reg(1, 0, 1, "", "i", "B", Nothing),
      Reg(2, 1, 1, "i", "", "A", Nothing),
      Reg(0, 1, 0, "i", "i", "all", Nothing),
      Reg(0, 0, 0, "", "", "all", Nothing),
      Reg(0, 0, 1, "i", "i", "all", [at |-> "b", do |-> "tok", arg |-> 1]),
      Reg(0, 0, 0, "i", "i", "all", [at |-> "b", do |-> "self", arg |-> 0]),
      Reg(2, 0, 1, "i", "i", "all", [at |-> "e", do |-> "obj", arg |-> 1]),
      Reg(0, 0, 0, "i", "i", "all", [at |-> "b", do |-> "add", arg |-> 1]),
      Reg(0, 0, 1, "i", "i", "all", [at |-> "b", do |-> "drop", arg |-> 1]) }

VARIABLES regs, gone, made, hist
vars == <<regs, gone, made, hist>>

---------------------------------------------------------------------------
(* state of the registry *)
Remove(rs, ok(_)) == SelectSeq(rs, LAMBDA r : ~ok(r))

AddTo(S, r) ==
    LET id == S.made + 1
        full == [id |-> id, obj |-> r.obj, auto |-> r.auto, b |-> r.b, e |-> r.e, d |-> r.d, eff |-> r.eff,
                 fresh |-> S.busy]
    IN [S EXCEPT !.made = id,
                 !.regs = IF r.prio = 1 THEN <<full>> \o @ ELSE @ \o <<full>>]
Refused(S, r) == r.auto = 1 /\ r.obj = 0 /\ ~(r.b = "" /\ r.e = "")   \* nothing to wait for
Void(r) == r.b = "" /\ r.e = ""                                       \* nothing to call

DropIn(S, o) == [S EXCEPT !.gone = @ \cup {o},
                          !.regs = Remove(@, LAMBDA r : r.obj = o /\ r.auto = 1)]
(* by an object which is alive; registrations of objects which are gone    *)
(* and which nobody can name any more are cleaned up with it               *)
TakeObj(S, o) == [S EXCEPT !.regs = Remove(@, LAMBDA r : r.obj # 0 /\ (r.obj = o \/ r.obj \in S.gone))]
TakeTok(S, id) == [S EXCEPT !.regs = Remove(@, LAMBDA r : r.id = id)]

Act(S, id, f) ==
    CASE f.do = "tok" -> TakeTok(S, f.arg)
      [] f.do = "self" -> TakeTok(S, id)
      [] f.do = "obj" -> IF f.arg \in S.gone THEN S ELSE TakeObj(S, f.arg)
      [] f.do = "drop" -> IF f.arg \in S.gone THEN S ELSE DropIn(S, f.arg)
      [] f.do = "add" -> AddTo(S, Reg(0, 0, f.arg, "i", "i", "all", Nothing))

Has(S, id) == \E j \in 1..Len(S.regs) : S.regs[j].id = id

(* call everyone who was registered when the announcement was made and     *)
(* still is when their turn comes                                          *)
RECURSIVE Call(_, _, _, _)
Call(S, list, w, span) ==
    IF list = <<>> THEN S
    ELSE LET r0 == Head(list) IN
         IF ~Has(S, r0.id) THEN Call(S, Tail(list), w, span)
         ELSE LET j == CHOOSE j \in 1..Len(S.regs) : S.regs[j].id = r0.id
                  r == S.regs[j]
                  how == IF w = "b" THEN r.b ELSE r.e
              IN IF how = "" \/ ~Hits(r.d, span) THEN Call(S, Tail(list), w, span)
                 ELSE LET S1 == [S EXCEPT !.log = Append(@, <<r.id, w, how>>)] IN
                      IF r.eff.at # w THEN Call(S1, Tail(list), w, span)
                      ELSE LET S2 == [S1 EXCEPT !.regs[j].eff = Nothing]
                           IN Call(Act(S2, r.id, r.eff), Tail(list), w, span)

(* one announcement: everyone at the beginning, then everyone at the end   *)
Told(S, span) ==
    LET S1 == Call([S EXCEPT !.busy = "b"], S.regs, "b", span)
        S2 == Call([S1 EXCEPT !.busy = "e"], S1.regs, "e", span)
    IN [S2 EXCEPT !.busy = "", !.regs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.fresh = ""]]]

Now == [regs |-> regs, gone |-> gone, made |-> made, log |-> <<>>, busy |-> ""]
Become(S, op) ==
    /\ regs' = S.regs /\ gone' = S.gone /\ made' = S.made
    /\ hist' = Append(hist, op @@ [calls |-> S.log])

---------------------------------------------------------------------------
AddOp(r) ==
    /\ r.obj \notin gone
    /\ LET op == [op |-> "add", reg |-> r] IN
       IF Void(r) THEN Become(Now, op @@ [r |-> "zero"])
       ELSE IF Refused(Now, r) THEN Become(Now, op @@ [r |-> "raise"])
       ELSE Become(AddTo(Now, r), op @@ [r |-> "token"])
TokOp(id) == Become(TakeTok(Now, id), [op |-> "tok", arg |-> id])
ObjOp(o) == o \notin gone /\ Become(TakeObj(Now, o), [op |-> "obj", arg |-> o])
DropOp(o) == o \notin gone /\ Become(DropIn(Now, o), [op |-> "drop", arg |-> o])
TellOp(s) == Become(Told(Now, s), [op |-> "tell", span |-> s])

(* the last operation of a history is an announcement, which shows who is left *)
Last == Len(hist) = Depth - 1
Next ==
    /\ Len(hist) < Depth
    /\ \/ Wide /\ ~Last /\ AddOp(RandomElement(AllRegs))
       \/ Wide /\ ~Last /\ AddOp(RandomElement(AllRegs))
       \/ ~Wide /\ ~Last /\ \E r \in FewRegs : AddOp(r)
       \/ ~Last /\ \E id \in 1..made : TokOp(id)
       \/ ~Last /\ \E o \in Objs : ObjOp(o)
       \/ ~Last /\ \E o \in Objs : DropOp(o)
       \/ \E s \in Spans : (Last => s = "AB") /\ TellOp(s)

Init == regs = <<>> /\ gone = {} /\ made = 0 /\ hist = <<>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* the model itself *)
Ids == {regs[j].id : j \in 1..Len(regs)}
Calls(op) == {op.calls[j] : j \in 1..Len(op.calls)}
OnceEach == \A h \in 1..Len(hist) : Cardinality(Calls(hist[h])) = Len(hist[h].calls)
Distinct == Cardinality(Ids) = Len(regs) /\ \A id \in Ids : id \in 1..made
NoDeadAuto == \A j \in 1..Len(regs) : ~(regs[j].auto = 1 /\ regs[j].obj \in gone)
EndsFollow == \A h \in 1..Len(hist) : \A j, k \in 1..Len(hist[h].calls) :
                 (hist[h].calls[j][2] = "e" /\ hist[h].calls[k][2] = "b") => k < j

(* hand the finished histories to the driver *)
Emit == Len(hist) = Depth => PrintT("HIST " \o ToJson(hist))
===============================================================================
