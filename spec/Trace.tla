-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Conformance: recorded executions of the code, checked step by step      *)
(* against CurveSystem.  A trace is [g: graph, st: initial data, ev: what  *)
(* happened]; one initial state per trace.  Every event is either an       *)
(* operation of the system, whose outcome and callbacks are compared with  *)
(* what the specification does, or a query, whose answer is compared with  *)
(* what the specified state determines.  Verdicts are total: the first     *)
(* clause an event breaks is printed and ends that trace.                  *)
(***************************************************************************)
EXTENDS CurveSystem, Json, IOUtils, TLC

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, l, st, S, obs
vars == <<tid, l, st, S, obs>>

G == Traces[tid].g
Ev == Traces[tid].ev

Init == /\ tid \in 1..Len(Traces)
        /\ l = 1
        /\ st = Traces[tid].st
        /\ S = Quiet(Traces[tid].g)
        /\ obs = <<>>

---------------------------------------------------------------------------
(* queries: does logged answer q.r agree with context C and protocol P?    *)

AgreeSeq(e, r) == Len(e) = Len(r) /\ \A j \in 1..Len(e) : Agrees(e[j], r[j])
AgreePts(e, r) ==
    (\E j \in 1..Len(e) : e[j][1] = UNK) \/
    (r = RAISEPTS /\ \E j \in 1..Len(e) : e[j][2] = UNK) \/
         (Len(e) = Len(r) /\ \A j \in 1..Len(e) : Agrees(e[j][1], r[j][1]) /\ Agrees(e[j][2], r[j][2]))
AgreeQs(e, r) == \* sampled quotes
    (r = RAISEPTS /\ e = RAISEPTS) \/
    (Len(e) = Len(r) /\ \A j \in 1..Len(e) : Agrees(e[j][1], r[j][1]) /\
        (IF e[j][2] = NONE THEN r[j][2] = NONE ELSE AgreeSeq(e[j][2], r[j][2])))
AgreePt(e, r) == IF e = <<>> THEN r = <<>> ELSE IF e[1] = UNK THEN TRUE ELSE r # <<>> /\ Agrees(e[1], r[1]) /\ Agrees(e[2], r[2])
AgreeItv(e, r) == e = r \/ (e # EMPTY /\ r # EMPTY /\ e[3] = r[3] /\ e[4] = r[4] /\ Agrees(e[1], r[1]) /\ Agrees(e[2], r[2]))
                        \/ (e # EMPTY /\ (e[1] = UNK \/ e[2] = UNK))

PtAt(C, n, x) == IF x = NONE THEN <<>> ELSE <<x, IF x = UNK THEN UNK ELSE Y(C, n, x)>>

(* an empty domain has no edges: no claim, but for points *)
EdgeY(C, n, w) == IF DomOf(C, n) # EMPTY THEN Y(C, n, DomOf(C, n)[w])
                  ELSE IF C.g[n].t \in {"pts", "qt"} THEN NONE ELSE UNK

(* the code computes a level slope between steps with an error either way *)
AtStep(C, n, x) ==
    LET a == Pv(C, n, x, Zero, NONE)
        b == Nx(C, n, x, Zero, NONE)
    IN IF a = UNK \/ b = UNK THEN FALSE
       ELSE IF a # NONE THEN Nx(C, n, a, Zero, NONE) = x
       ELSE IF b # NONE THEN Pv(C, n, b, Zero, NONE) = x ELSE TRUE

RECURSIVE Search(_, _, _, _, _, _, _, _)
(* walk downhill (sg = 1) or uphill (sg = -1) from x, by the curve's steps *)
(* or by q.s, fuel steps at most; not judged are walks of more than deep    *)
(* steps, unless they come to go to and fro between two places             *)
Search(C, n, x, last, q, sg, fuel, deep) ==
    IF fuel = 0 THEN x ELSE IF deep = 0 THEN UNK ELSE
    LET y == Y(C, n, x)
        flip(v) == IF v = NONE \/ sg = 1 THEN v ELSE Neg(v)
        d0 == flip(DY(C, n, x, FALSE))
        d1 == flip(DY(C, n, x, TRUE))
        opposed == Sgn(d0) * Sgn(d1) < 0
        fwd == IF d0 = NONE THEN TRUE
               ELSE IF d1 = NONE THEN FALSE
               ELSE IF opposed THEN Lt(RAbs(d0), RAbs(d1))
               ELSE Sgn(d1) < 0
    IN IF y = NONE THEN last
       ELSE IF y = UNK \/ d0 = UNK \/ d1 = UNK THEN UNK
       ELSE IF d0 = NONE /\ d1 = NONE THEN x
       ELSE IF (d0 = Zero \/ d1 = Zero) /\ ~AtStep(C, n, x) THEN UNK
       ELSE IF d0 = NONE /\ Sgn(d1) > 0 THEN NONE
       ELSE IF d1 = NONE /\ Sgn(d0) < 0 THEN NONE
       ELSE IF d0 # NONE /\ d1 # NONE /\ opposed /\ Sgn(d0) < 0 THEN x
       ELSE LET ms == IF "m" \in DOMAIN q THEN q.m ELSE Zero
                by == IF "s" \in DOMAIN q THEN q.s ELSE NONE
                x1 == IF by # NONE THEN (IF fwd THEN Add(x, by) ELSE Sub(x, by))
                      ELSE IF fwd THEN Nx(C, n, x, ms, NONE) ELSE Pv(C, n, x, ms, NONE)
            IN IF x1 = NONE \/ x1 = UNK THEN UNK
               ELSE IF x1 = last THEN (IF fuel % 2 = 0 THEN x ELSE x1)
               ELSE Search(C, n, x1, x, q, sg, fuel - 1, deep - 1)

RangeOf(P) == LET ys == [j \in 1..Len(P) |-> P[j][2]] IN
              IF P = <<>> THEN EMPTY
              ELSE Closed(FoldBin(Min2, ys[1], ys, 2), FoldBin(Max2, ys[1], ys, 2))

Fit(C, n, I, ms, step) ==
    LET P == Sample(C, n, I, ms, step) IN
    IF P = RAISEPTS THEN <<RAISE, RAISE>>
    ELSE IF Len(P) < 2 \/ (\E j \in 1..Len(P) : P[j][2] = NONE) THEN <<>>
    ELSE IF \E j \in 1..Len(P) : ~IsFin(P[j][2]) THEN <<UNK, UNK>>
    ELSE LsqLine(P)

(* an extension which is not to be without its ends refuses to answer *)
Refuses(C, n) ==
    LET N == C.g[n] IN
    N.t = "ext" /\ Len(N.i) > 3 /\ N.i[4] = 1 /\ \E e \in 1..2 : N.i[e] = 1 /\ C.env[n].acc[e] = <<>>

(* What must hold of the code's own answer, also where the specification   *)
(* does not determine it: steps go on strictly (unless a limit behind the  *)
(* place is asked for) ...                                                 *)
Onwards(x, lim, r) == ~IsFin(r) \/ ~IsFin(x) \/ Gt(r, x) \/ (lim # NONE /\ Le(lim, x))
Backwards(x, lim, r) == ~IsFin(r) \/ ~IsFin(x) \/ Lt(r, x) \/ (lim # NONE /\ Ge(lim, x))
(* ... samples ascend from one end of the range to the other               *)
InOrder(C, n, I0, step, P) ==
    LET t == C.g[n].t
        I == Inter(DomOf(C, n), IF t = "qt" THEN SpanOf(I0, C.g[n].r[2]) ELSE I0)
    IN \/ P = <<>> \/ \E i \in 1..Len(P) : ~IsFin(P[i][1])
       \/ /\ \A i \in 1..(Len(P) - 1) : Lt(P[i][1], P[i + 1][1])
          /\ I = EMPTY \/ \A i \in 1..Len(P) : Has(I, P[i][1])
          /\ I = EMPTY \/ I[3] = 1 \/ t \in {"pts", "qt", "extr"} \/ P[1][1] = I[1]
          /\ I = EMPTY \/ I[4] = 1 \/ t \in {"pts", "qt", "extr"} \/ step # NONE \/ P[Len(P)][1] = I[2]

(* [e: what is expected, ok: whether q.r agrees] *)
V(e, ok) == [e |-> e, ok |-> ok]
Judge(C, P, q) ==
    LET n == q.n
        D == DomOf(C, n)
    IN
    CASE q.k = "y" -> LET e == IF Refuses(C, n) /\ ~Has(DomOf(C, C.g[n].a[1]), q.x) THEN RAISE ELSE Y(C, n, q.x)
                      IN V(e, Agrees(e, q.r))
      [] q.k = "yv" -> LET e == Y(C, n, q.x) IN V(e, IF e = NONE THEN q.r = NONE ELSE AgreeSeq(e, q.r))
      [] q.k = "dom" -> LET e == IF Refuses(C, n) THEN <<RAISE, RAISE, 0, 0>> ELSE D IN V(e, AgreeItv(e, q.r))
      [] q.k = "nx" -> LET e == Nx(C, n, q.x, q.m, q.l) IN V(e, Agrees(e, q.r) /\ Onwards(q.x, q.l, q.r))
      [] q.k = "pv" -> LET e == Pv(C, n, q.x, q.m, q.l) IN V(e, Agrees(e, q.r) /\ Backwards(q.x, q.l, q.r))
      [] q.k = "np" -> LET e == PtAt(C, n, Nx(C, n, q.x, q.m, NONE)) IN V(e, AgreePt(e, q.r))
      [] q.k = "pp" -> LET e == PtAt(C, n, Pv(C, n, q.x, q.m, NONE)) IN V(e, AgreePt(e, q.r))
      [] q.k = "fp" -> LET e == PtAt(C, n, IF D = EMPTY THEN NONE ELSE D[1]) IN V(e, AgreePt(e, q.r))
      [] q.k = "lp" -> LET e == PtAt(C, n, IF D = EMPTY THEN NONE ELSE D[2]) IN V(e, AgreePt(e, q.r))
      [] q.k = "dy" -> LET e == DY(C, n, q.x, q.f = 1) IN V(e, Agrees(e, q.r))
      [] q.k = "dym" -> LET e == DYms(C, n, q.x, q.f = 1, q.m) IN V(e, Agrees(e, q.r))
      [] q.k = "smpq" -> LET e == Sample(C, n, q.d, q.m, q.s) IN V(e, AgreeQs(e, q.r))
      [] q.k = "fq" -> LET e == EdgeY(C, n, 1) IN V(e, IF e = NONE THEN q.r = NONE ELSE AgreeSeq(e, q.r))
      [] q.k = "lq" -> LET e == EdgeY(C, n, 2) IN V(e, IF e = NONE THEN q.r = NONE ELSE AgreeSeq(e, q.r))
      [] q.k = "qdom" -> LET e == SpanOf(D, C.g[n].r[2]) IN V(e, AgreeItv(e, q.r))
      [] q.k = "smp" -> LET e == Sample(C, n, q.d, q.m, q.s) IN V(e, AgreePts(e, q.r) /\ InOrder(C, n, q.d, q.s, q.r))
      [] q.k = "hop" -> LET y0 == Y(C, n, q.x)
                            e == IF q.i = 0 THEN Hop(C, n, q.x, q.c, q.f = 1, q.m)
                                 ELSE IF y0 = NONE THEN <<>>
                                 ELSE IF y0 = UNK THEN <<<<UNK, UNK>>>>
                                 ELSE <<<<q.x, y0>>>> \o Hop(C, n, q.x, q.c - 1, q.f = 1, q.m)
                        IN V(e, AgreePts(e, q.r))
      [] q.k = "ys" -> LET e == EdgeY(C, n, 1) IN V(e, Agrees(e, q.r))
      [] q.k = "ye" -> LET e == EdgeY(C, n, 2) IN V(e, Agrees(e, q.r))
      [] q.k = "dypi" -> \* a sine's slope, in units of pi
                        LET v == C.st[n]
                            e == Mul(Mul(R(2), Mul(v[1], v[2])), CosT(Mul(v[2], Add(q.x, v[3]))))
                        IN V(e, Agrees(e, q.r))
      [] q.k = "ypi" -> \* a sine continued from a zero, times 2 pi
                        LET N == C.g[n]
                            L == IF N.i[1] = 1 /\ Le(q.x, DomOf(C, N.a[1])[1]) THEN C.env[n].acc[1] ELSE C.env[n].acc[2]
                            e == IF DomOf(C, N.a[1]) = EMPTY \/ Has(DomOf(C, N.a[1]), q.x) \/ ~Has(D, q.x) \/ L[1] # Zero THEN UNK
                                 ELSE Mul(Mul(L[2], N.r[2]), SinT(Div(Sub(q.x, L[3]), N.r[2])))
                        IN V(e, Agrees(e, q.r))
      [] q.k = "dsc" -> LET v == C.st[n] IN   \* frequency, period of a sine; value, constant and slope of others
                        V(<<v[2], Inv(v[2])>>, AgreePt(<<v[2], Inv(v[2])>>, q.r))
      [] q.k = "rng" -> LET p0 == Sample(C, n, q.d, q.m, q.s)
                            p == IF C.g[n].t # "qt" \/ p0 = RAISEPTS THEN p0
                                 \* from the lowest low to the highest high
                                 ELSE [j \in 1..Len(p0) |-> <<p0[j][1], p0[j][2][3]>>]
                                      \o [j \in 1..Len(p0) |-> <<p0[j][1], p0[j][2][2]>>]
                            e == IF p = RAISEPTS THEN <<RAISE, RAISE, 0, 0>> ELSE RangeOf(p) IN V(e, AgreeItv(e, q.r))
      [] q.k = "upd" -> LET e == IF P.ub[n] = EMPTY THEN 0 ELSE 1 IN V(e, e = q.r)
      [] q.k = "ui" -> V(P.ub[n], P.ub[n] = q.r)
      [] q.k = "fit" -> LET e == Fit(C, n, q.d, q.m, q.s) IN
                        V(e, AgreePt(e, q.r))
      [] q.k = "ext" -> LET e == Search(C, n, q.x, NONE, q, q.sg, IF "mi" \in DOMAIN q /\ q.mi > 0 THEN q.mi ELSE 1000, 40)
                        IN V(e, Agrees(e, q.r))
      [] q.k = "inv" -> \* a place with value q.x
                        LET N == C.g[n]
                            e == IF N.t = "empty" THEN NONE
                                 ELSE IF N.t = "const" THEN (IF C.st[n][1] # q.x THEN NONE ELSE IF D = ALL THEN Zero ELSE UNK)
                                 ELSE IF C.st[n][2] = Zero THEN UNK
                                 ELSE Div(Sub(q.x, C.st[n][1]), C.st[n][2])
                        IN V(e, Agrees(e, q.r))
      [] q.k = "area" -> \* of a line between two places
                        LET L == C.st[n]
                            e == Mul(Sub(q.s, q.x), Add(L[1], Mul(L[2], Div(Add(q.x, q.s), R(2)))))
                        IN V(e, Agrees(e, q.r))

RECURSIVE FirstBad(_, _, _, _)
FirstBad(C, P, qs, j) ==
    IF j > Len(qs) THEN <<>>
    ELSE LET v == Judge(C, P, qs[j]) IN
         IF v.ok THEN FirstBad(C, P, qs, j + 1) ELSE <<qs[j].k, j, v.e, qs[j].r>>

---------------------------------------------------------------------------
(* callbacks: cb is what the code called, E what the specification calls.  *)
(* Per observer the two must agree exactly where the change reaches the    *)
(* observed curve along one path; along several paths (s), at least one    *)
(* begin comes before everything and an end after it.                      *)

Mine(log, o) == SelectSeq(log, LAMBDA c : c[1] = o)
Strip(c, o) == IF o.kind = "noarg" THEN <<c[1], c[2], EMPTY>>
               ELSE c
OnlyOf(seq, o) == IF o.kind = "begin" THEN SelectSeq(seq, LAMBDA c : c[2] = "b")
                  ELSE IF o.kind = "end" THEN SelectSeq(seq, LAMBDA c : c[2] = "e") ELSE seq
ObsOK(o, multi, exp, got) ==
    LET e == OnlyOf([j \in 1..Len(exp) |-> Strip(exp[j], o)], o)
        a == [j \in 1..Len(got) |-> <<got[j].o, got[j].w, got[j].i>>]
        mine == SelectSeq(a, LAMBDA c : c[1] = o.o)
        want == Mine(e, o.o)
    IN IF ~multi THEN mine = want
       ELSE /\ (want = <<>>) = (mine = <<>>)
            /\ mine # <<>> => /\ o.kind # "end" => mine[1][2] = "b"
                              /\ o.kind # "begin" => mine[Len(mine)][2] = "e"

BadObs(s, os, exp, got, grey) ==
    SelectSeq(os, LAMBDA o : o.o \notin grey /\ ~ObsOK(o, Paths(G, s, o.n) > 1, exp, got))

(* all begins come before all ends *)
PhaseOK(got) == \A i, j \in 1..Len(got) : (got[i].w = "e" /\ got[j].w = "b") => j < i
Strangers(os, got) == \E j \in 1..Len(got) : \A i \in 1..Len(os) : os[i].o # got[j].o

(* traces marked strict: every observer is told as many ends as begins, also *)
(* where a change reaches it along several paths                            *)
Strict == "strict" \in DOMAIN Traces[tid]
Unbalanced(os, got) ==
    SelectSeq(os, LAMBDA o : o.kind \in {"both", "noarg"} /\
        Len(SelectSeq(got, LAMBDA c : c.o = o.o /\ c.w = "b")) # Len(SelectSeq(got, LAMBDA c : c.o = o.o /\ c.w = "e")))

RECURSIVE BadInCb(_, _, _, _, _)
BadInCb(C0, C1, P, cb, j) ==
    IF j > Len(cb) THEN <<>>
    ELSE LET b == FirstBad(IF cb[j].w = "b" THEN C0 ELSE C1, P, cb[j].q, 1) IN
         IF b # <<>> THEN <<"in-callback", j>> \o b ELSE BadInCb(C0, C1, P, cb, j + 1)

---------------------------------------------------------------------------

Report(what) == PrintT("VIOL " \o ToString(<<Traces[tid].id, l, what>>))
Stop == l' = Len(Ev) + 1 /\ UNCHANGED <<tid, st, S, obs>>
Step == l' = l + 1 /\ UNCHANGED tid

Operate(e) ==
    LET f == Effect(G, st, e)
        S1 == IF f.ann = EMPTY THEN S ELSE Announce(G, Clear(S), obs, e.n, f.ann)
        exp == IF f.ann = EMPTY THEN <<>> ELSE S1.log
        grey == IF f.ann = EMPTY THEN {} ELSE S1.grey
        st1 == [st EXCEPT ![e.n] = f.data]
        res == IF f.ok THEN "ok" ELSE "raise"
        badobs == BadObs(e.n, obs, exp, e.cb, grey)
        incb == BadInCb(Ctx(G, st), Ctx(G, st1), S, e.cb, 1)
    IN IF e.r # res THEN Report(<<"outcome of " \o e.op, res, e.r>>) /\ Stop
       ELSE IF Strangers(obs, e.cb) THEN Report(<<"callback of a removed observer", e.cb>>) /\ Stop
       ELSE IF badobs # <<>> THEN Report(<<"callbacks of observer", badobs[1].o, Mine(exp, badobs[1].o),
                                            SelectSeq(e.cb, LAMBDA c : c.o = badobs[1].o)>>) /\ Stop
       ELSE IF Strict /\ Unbalanced(obs, e.cb) # <<>>
       THEN Report(<<"begins and ends of observer", Unbalanced(obs, e.cb)[1].o,
                     [j \in 1..Len(e.cb) |-> <<e.cb[j].o, e.cb[j].w>>]>>) /\ Stop
       ELSE IF ~PhaseOK(e.cb) THEN Report(<<"a begin callback follows an end callback", e.cb>>) /\ Stop
       ELSE IF incb # <<>> THEN Report(incb) /\ Stop
       ELSE st' = st1 /\ S' = Clear(S1) /\ UNCHANGED obs /\ Step

(* direct use of the protocol on a curve: an announcement without a change *)
Protocol(e) ==
    LET S1 == IF e.w = "b" THEN Begin(G, Clear(S), obs, e.n, e.d) ELSE End(G, Clear(S), obs, e.n, e.d)
        badobs == BadObs(e.n, obs, S1.log, e.cb, S1.grey)
        incb == BadInCb(Ctx(G, st), Ctx(G, st), S1, e.cb, 1)
    IN IF badobs # <<>> THEN Report(<<"callbacks of observer", badobs[1].o, Mine(S1.log, badobs[1].o),
                                       SelectSeq(e.cb, LAMBDA c : c.o = badobs[1].o)>>) /\ Stop
       ELSE IF incb # <<>> THEN Report(incb) /\ Stop
       ELSE S' = Clear(S1) /\ UNCHANGED <<st, obs>> /\ Step

Query(e) ==
    LET b == FirstBad(Ctx(G, st), S, e.q, 1) IN
    IF b # <<>> THEN Report(b) /\ Stop
    ELSE UNCHANGED <<st, S, obs>> /\ Step

Register(e) == obs' = Append(obs, [o |-> e.o, n |-> e.n, d |-> e.d, hd |-> e.hd, kind |-> e.kind])
               /\ UNCHANGED <<st, S>> /\ Step
Unregister(e) == obs' = SelectSeq(obs, LAMBDA o : o.o # e.o) /\ UNCHANGED <<st, S>> /\ Step

Next == /\ l <= Len(Ev)
        /\ LET e == Ev[l] IN
           CASE e.e = "op" -> Operate(e)
             [] e.e = "pr" -> Protocol(e)
             [] e.e = "q" -> Query(e)
             [] e.e = "reg" -> Register(e)
             [] e.e = "unreg" -> Unregister(e)
             [] e.e = "mk" -> UNCHANGED <<st, S, obs>> /\ Step
             [] e.e = "desc" ->    \* a description was parsed
                  IF e.want # "any" /\ e.r # e.want THEN Report(<<"parsing a description", e.want, e.r>>) /\ Stop
                  ELSE IF e.same = 0 THEN Report(<<"parsing changed the description">>) /\ Stop
                  ELSE UNCHANGED <<st, S, obs>> /\ Step
             [] e.e = "crash" -> Report(<<"an operation of the history raised", e.what>>) /\ Stop
             [] e.e = "built" -> Report(<<"the graph could not be built">>) /\ Stop

Spec == Init /\ [][Next]_vars
==============================================================================
