------------------------------ MODULE Describe ------------------------------
(***************************************************************************)
(* What a JSON description means: the calls it stands for, or that it is   *)
(* refused.  A description is                                              *)
(*   [k |-> "num", v]    a number           [k |-> "str", s, v] a string   *)
(*                       (v: the time it names, if it names one)           *)
(*   [k |-> "cur", t]    a curve (which is not JSON, but may be given)     *)
(*   [k |-> "list", e]   a list             [k |-> "map", e]  a mapping in *)
(*                       order, entries [c |-> sigil, s |-> name, v]       *)
(* and a curve it means is a term [f, a, p]: function, curves it takes and *)
(* other arguments.  TLC evaluates the meaning of every description it is  *)
(* given and checks the laws below on each.                                *)
(***************************************************************************)
EXTENDS Rat, Naturals, Sequences, FiniteSets, Json, IOUtils, TLC, TLCExt

Items == ndJsonDeserialize(IOEnv.ITEMS)

VARIABLE i
Init == i \in 1..Len(Items)
Next == UNCHANGED i
Spec == Init /\ [][Next]_i

BAD == [k |-> "bad"]
GREY == [k |-> "grey"]      \* the specification says nothing
Num(v) == [k |-> "num", v |-> v]
Cur(t) == [k |-> "cur", t |-> t]
Nil == [k |-> "none"]
T(f, a, p) == [f |-> f, a |-> a, p |-> p]
None == <<>>                \* no parameters

IsBad(r) == r.k \in {"bad", "grey"}
(* one of several is bad: refused; else one is grey: nothing is said *)
Worst(rs) == IF \E j \in DOMAIN rs : rs[j].k = "bad" THEN BAD ELSE GREY
AnyBad(rs) == \E j \in DOMAIN rs : IsBad(rs[j])

---------------------------------------------------------------------------
(* numbers in log space; e, the base of @log, is not rational: terms inside *)
(* of it are such that the base does not matter, and 2 is used              *)
RECURSIVE LogB(_, _, _)
LogB(v, b, fuel) == IF v = One THEN Zero
                    ELSE IF fuel = 0 \/ Le(v, Zero) THEN UNK
                    ELSE IF Ge(v, R(b)) THEN LET r == LogB(Div(v, R(b)), b, fuel - 1) IN IF r = UNK THEN UNK ELSE Add(r, One)
                    ELSE IF Lt(v, One) THEN LET r == LogB(Mul(v, R(b)), b, fuel - 1) IN IF r = UNK THEN UNK ELSE Sub(r, One)
                    ELSE UNK
Base(s) == IF s = "log10" THEN 10 ELSE 2
Logs == {"log", "log2", "log10"}
In(s, dec) == \E j \in DOMAIN dec : dec[j] = s
Deep(dec) == Cardinality({j \in DOMAIN dec : dec[j] \in Logs})
Literal(v, dec) ==
    IF In("date", dec) THEN (IF v[2] = 1 /\ Deep(dec) = 0 THEN Num(v) ELSE GREY)
    ELSE IF Deep(dec) = 0 THEN Num(v)
    ELSE IF Deep(dec) > 1 THEN GREY
    ELSE IF Le(v, Zero) THEN BAD
    ELSE LET l == LogB(v, Base(CHOOSE s \in Logs : In(s, dec)), 30) IN IF l = UNK THEN GREY ELSE Num(l)
Text(d, dec) == IF In("date", dec) THEN (IF d.v = NONE THEN BAD ELSE IF In("log", dec) THEN GREY ELSE Num(d.v)) ELSE d

(* out of log space *)
Raise(s, r) ==
    IF r.k = "cur" THEN Cur(T("pow", <<T("const", <<>>, [y |-> R(Base(s))]), r.t>>, None))
    ELSE IF r.k = "num" THEN (IF r.v[2] # 1 \/ Abs(r.v[1]) > 20 THEN GREY ELSE Num(Pow(R(Base(s)), r.v[1])))
    ELSE IF IsBad(r) THEN r ELSE BAD

---------------------------------------------------------------------------
(* what a value stands for where a curve is wanted                          *)
AsCurve(r) ==
    IF r.k = "cur" \/ IsBad(r) THEN r
    ELSE IF r.k = "num" THEN Cur(T("const", <<>>, [y |-> r.v]))
    ELSE IF r.k = "list" THEN
         IF r.e = <<>> THEN Cur(T("pts", <<>>, [q |-> <<>>]))
         ELSE IF r.e[1].k # "list" THEN BAD
         ELSE IF Len(r.e[1].e) # 2 THEN BAD
         ELSE IF \E j \in DOMAIN r.e : r.e[j].k # "list" THEN GREY
         ELSE IF \E j \in DOMAIN r.e : Len(r.e[j].e) # 2 \/ \E h \in DOMAIN r.e[j].e : r.e[j].e[h].k # "num" THEN GREY
         \* points are regular unless said otherwise
         ELSE IF \E j \in 3..Len(r.e) : Sub(r.e[j].e[1].v, r.e[j - 1].e[1].v) # Sub(r.e[2].e[1].v, r.e[1].e[1].v) THEN BAD
         ELSE IF \E j \in 2..Len(r.e) : Le(r.e[j].e[1].v, r.e[j - 1].e[1].v) THEN GREY
         ELSE Cur(T("pts", <<>>, [q |-> [j \in DOMAIN r.e |-> <<r.e[j].e[1].v, r.e[j].e[2].v>>]]))
    ELSE IF r.k = "map" THEN GREY
    ELSE BAD

(* the functions: whether they belong to the class or to the curve, their  *)
(* parameters in order (after the curve), which of them are curves, and    *)
(* those which may be left out                                             *)
Many == {"add", "subtract", "multiply", "divide", "pow", "min", "max", "first"}
Sig(f) ==
    CASE f \in {"abs", "additive_inverse", "multiplicative_inverse"} -> [pos |-> <<>>, cur |-> {}, opt |-> {}, kw |-> {}]
      [] f = "raised" -> [pos |-> <<"base">>, cur |-> {"base"}, opt |-> {}, kw |-> {}]
      [] f = "log" -> [pos |-> <<"base">>, cur |-> {}, opt |-> {"base"}, kw |-> {}]
      [] f = "offset" -> [pos |-> <<"x", "duration">>, cur |-> {}, opt |-> {"duration"}, kw |-> {}]
      [] f = "integral" -> [pos |-> <<"const", "interpolation", "uniform">>, cur |-> {}, opt |-> {"const", "interpolation", "uniform"}, kw |-> {}]
      [] f = "differential" -> [pos |-> <<"forward">>, cur |-> {}, opt |-> {"forward"}, kw |-> {}]
      [] f = "sma" -> [pos |-> <<"degree", "is_period">>, cur |-> {}, opt |-> {"is_period"}, kw |-> {"uniform", "min_step"}]
      [] f = "ema" -> [pos |-> <<"degree", "is_period">>, cur |-> {}, opt |-> {"is_period"}, kw |-> {"uniform", "min_step"}]
      [] f \in {"smma", "rsi"} -> [pos |-> <<"degree">>, cur |-> {}, opt |-> {}, kw |-> {"uniform"}]
      [] f \in {"trailing_min", "trailing_max"} ->
            [pos |-> <<"degree", "is_period", "interpolation", "min_step", "uniform">>, cur |-> {},
             opt |-> {"is_period", "interpolation", "min_step", "uniform"}, kw |-> {}]
      [] f = "blend" -> [pos |-> <<"func", "x_blend_start", "x_blend_stop">>, cur |-> {"func"}, opt |-> {}, kw |-> {}]
      [] f = "extension" -> [pos |-> <<"name", "start", "end", "raise_on_empty">>, cur |-> {}, opt |-> {"start", "end", "raise_on_empty"},
                             kw |-> {"regression_degree", "regression_period"}]
Own == {"abs", "additive_inverse", "multiplicative_inverse", "raised", "log", "offset", "integral", "differential", "sma", "ema", "smma",
        "rsi", "trailing_min", "trailing_max", "blend", "extension"}
Free == {"const", "constant", "line"}

Names(kw) == {kw[j][1] : j \in DOMAIN kw}
Look(kw, s) == kw[CHOOSE j \in DOMAIN kw : kw[j][1] = s][2]
IsPair(r) == r.k = "list" /\ Len(r.e) = 2 /\ \A j \in 1..2 : r.e[j].k = "num"

Flags == {"forward", "is_period", "start", "end", "uniform", "raise_on_empty"}

(* args and keywords bound to the parameters of f *)
Bind(f, args, kw) ==
    LET g == Sig(f)
        names == {g.pos[j] : j \in DOMAIN g.pos} \cup g.kw
        given == {g.pos[j] : j \in 1..Len(args)}
        all == given \cup Names(kw)
        val(s) == IF s \in given THEN args[CHOOSE j \in 1..Len(args) : g.pos[j] = s] ELSE Look(kw, s)
    IN IF Len(args) > Len(g.pos) THEN BAD
       ELSE IF ~(Names(kw) \subseteq names) \/ (given \cap Names(kw)) # {} THEN BAD
       ELSE IF \E j \in DOMAIN g.pos : g.pos[j] \notin all /\ g.pos[j] \notin g.opt THEN BAD
       ELSE LET cs == [s \in (all \cap g.cur) |-> AsCurve(val(s))] IN
            IF AnyBad(cs) THEN Worst(cs)
            ELSE IF \E s \in all \ g.cur :
                      val(s).k # (IF s \in {"name", "interpolation", "duration"} THEN "str" ELSE "num") THEN GREY
            ELSE IF \E s \in all \cap Flags : val(s).v \notin {Zero, One} THEN GREY
            ELSE IF "name" \in all /\ val("name").s \notin {"constant", "tangent"} THEN (IF val("name").s = "sin" THEN GREY ELSE BAD)
            ELSE [k |-> "ok", c |-> cs, v |-> [s \in all \ g.cur |-> IF val(s).k = "num" THEN val(s).v ELSE val(s).s]]

Curves(vs) == [j \in DOMAIN vs |-> AsCurve(vs[j])]
Terms(cs) == [j \in DOMAIN cs |-> cs[j].t]

CallMany(f, args, kw) ==
    LET lst == IF "funcs" \in Names(kw) THEN <<Look(kw, "funcs")>> \o args ELSE args
        rest == {s \in Names(kw) : s # "funcs"}
        vs == IF lst # <<>> /\ lst[1].k = "list" THEN lst[1].e ELSE lst
        cs == Curves(vs)
    IN IF "funcs" \in Names(kw) /\ args # <<>> THEN BAD
       ELSE IF lst = <<>> THEN BAD
       ELSE IF lst[1].k = "list" /\ Len(lst) > 1 THEN GREY
       ELSE IF ~(rest \subseteq (IF f \in {"min", "max"} THEN {"ignore_empty"} ELSE {})) THEN BAD
       ELSE IF AnyBad(cs) THEN Worst(cs)
       ELSE IF vs = <<>> \/ \E s \in rest : Look(kw, s).k # "num" THEN GREY
       ELSE IF \E s \in rest : Look(kw, s).v \notin {Zero, One} THEN GREY
       ELSE IF f \in {"subtract", "divide", "pow"} /\ Len(vs) < 1 THEN GREY
       ELSE Cur(T(f, Terms(cs), IF rest = {} THEN None ELSE [s \in rest |-> Look(kw, s).v]))

CallFree(f, args, kw) ==
    LET one == IF Len(args) = 1 /\ kw = <<>> THEN args[1]
               ELSE IF args = <<>> /\ Names(kw) = {"y"} THEN kw[1][2] ELSE Nil
        line == Names(kw)
    IN CASE f \in {"const", "constant"} ->
              IF one.k = "none" THEN (IF args = <<>> /\ kw = <<>> THEN BAD ELSE IF Names(kw) \subseteq {"y", "domain"} THEN GREY ELSE BAD)
              ELSE IF one.k = "num" THEN Cur(T("const", <<>>, [y |-> one.v])) ELSE GREY
         [] f = "line" ->
              IF ~(line \subseteq {"const", "slope", "p1", "p2", "points"}) THEN BAD
              ELSE IF args # <<>> THEN
                   (IF Len(args) = 2 /\ kw = <<>> /\ args[1].k = "num" /\ args[2].k = "num"
                    THEN Cur(T("line", <<>>, [b |-> args[1].v, m |-> args[2].v])) ELSE IF Len(args) > 5 THEN BAD ELSE GREY)
              ELSE IF line = {"const", "slope"} THEN
                   (IF Look(kw, "const").k # "num" \/ Look(kw, "slope").k # "num" THEN GREY
                    ELSE Cur(T("line", <<>>, [b |-> Look(kw, "const").v, m |-> Look(kw, "slope").v])))
              ELSE IF line = {"p1", "slope"} THEN
                   (IF ~IsPair(Look(kw, "p1")) \/ Look(kw, "slope").k # "num" THEN GREY
                    ELSE LET p == Look(kw, "p1").e m == Look(kw, "slope").v IN
                         Cur(T("line", <<>>, [b |-> Sub(p[2].v, Mul(m, p[1].v)), m |-> m])))
              ELSE IF line = {"p1", "p2"} \/ line = {"points"} THEN
                   LET ps == IF line = {"points"} THEN Look(kw, "points") ELSE [k |-> "list", e |-> <<Look(kw, "p1"), Look(kw, "p2")>>] IN
                   IF ps.k # "list" THEN GREY
                   ELSE IF Len(ps.e) # 2 THEN GREY
                   ELSE IF ~IsPair(ps.e[1]) \/ ~IsPair(ps.e[2]) \/ ps.e[1].e[1].v = ps.e[2].e[1].v THEN GREY
                   ELSE LET p == ps.e[1].e q == ps.e[2].e
                            m == Div(Sub(q[2].v, p[2].v), Sub(q[1].v, p[1].v)) IN
                        Cur(T("line", <<>>, [b |-> Sub(p[2].v, Mul(m, p[1].v)), m |-> m]))
              ELSE IF line \in {{}, {"const"}, {"slope"}, {"p1"}} THEN BAD ELSE GREY

CallOwn(f, self, args, kw) ==
    LET b == Bind(f, args, kw) IN
    IF IsBad(b) THEN b
    ELSE LET more == IF DOMAIN b.c = {} THEN <<>> ELSE <<b.c[CHOOSE s \in DOMAIN b.c : TRUE].t>>
         IN Cur(T(f, <<self>> \o more, IF DOMAIN b.v = {} THEN None ELSE b.v))

---------------------------------------------------------------------------
(* D: the meaning of d; frag: whether it need not be a curve; cur: the     *)
(* curve it continues; dec: the decorators it is inside of                 *)
RECURSIVE D(_, _, _, _), Walk(_, _, _, _, _, _)

D(d, frag, cur, dec) ==
    IF d.k = "map" THEN Walk(d.e, 1, cur, <<>>, frag, dec)
    ELSE IF ~frag THEN BAD
    ELSE IF d.k = "list" THEN
         LET rs == [j \in DOMAIN d.e |-> D(d.e[j], TRUE, Nil, dec)] IN
         IF AnyBad(rs) THEN Worst(rs) ELSE [k |-> "list", e |-> rs]
    ELSE IF d.k = "num" THEN
         \* true and false are numbers, too
         (IF "b" \in DOMAIN d /\ (In("date", dec) \/ Deep(dec) > 0) THEN GREY ELSE Literal(d.v, dec))
    ELSE IF d.k = "str" THEN Text(d, dec)
    ELSE IF In("date", dec) THEN BAD ELSE d

(* a function applied to the meaning r of its description *)
Apply(s, r, cur) ==
    LET kw0 == IF r.k = "map" THEN r.e ELSE <<>>
        nested == "@args" \in Names(kw0)
        kw == SelectSeq(kw0, LAMBDA z : z[1] # "@args")
        args == IF nested THEN (IF Look(kw0, "@args").k = "list" THEN Look(kw0, "@args").e
                               ELSE IF Look(kw0, "@args").k \in {"map", "str"} THEN <<GREY>> ELSE <<BAD>>)
                ELSE IF r.k = "map" THEN <<>> ELSE IF r.k = "list" THEN r.e ELSE <<r>>
        f == IF s \in Logs THEN "log" ELSE s
        lkw == IF s \in {"log2", "log10"} THEN Append(kw, <<"base", Num(R(Base(s)))>>) ELSE kw
    IN IF AnyBad(args) THEN Worst(args)
       ELSE IF s \in Own \cup Logs THEN
            LET self == IF cur.k = "cur" THEN cur ELSE IF args = <<>> THEN BAD ELSE AsCurve(args[1])
                rest == IF cur.k = "cur" THEN args ELSE IF args = <<>> THEN args ELSE Tail(args)
            IN IF IsBad(self) THEN self
               \* a base given to $log2 or $log10
               ELSE IF s \in {"log2", "log10"} /\ (rest # <<>> \/ "base" \in Names(kw)) THEN GREY
               ELSE CallOwn(f, self.t, rest, lkw)
       ELSE LET full == IF cur.k # "cur" THEN args
                        ELSE IF args # <<>> /\ args[1].k = "list" THEN <<[k |-> "list", e |-> <<cur>> \o args[1].e]>> \o Tail(args)
                        ELSE <<cur>> \o args
            IN IF s \in Many THEN CallMany(s, full, kw)
               ELSE IF s \in Free THEN CallFree(s, full, kw)
               \* methods which do not give a curve are not refused
               ELSE IF s \in {"parse", "y", "zero"} THEN GREY
               ELSE BAD

Walk(es, j, cur, vals, frag, dec) ==
    IF j > Len(es) THEN (IF cur.k = "cur" THEN cur ELSE [k |-> "map", e |-> vals])
    ELSE LET e == es[j] IN
    IF e.c = "@" THEN
        LET r0 == D(e.v, frag, cur, Append(dec, e.s))
            r == IF IsBad(r0) THEN r0 ELSE IF e.s \in Logs THEN Raise(e.s, r0) ELSE r0
        IN IF IsBad(r) THEN r
           ELSE IF e.s \notin Logs \cup {"date", "args"} THEN GREY
           ELSE IF r.k = "cur" THEN (IF vals # <<>> THEN GREY ELSE Walk(es, j + 1, r, vals, frag, dec))
           ELSE IF e.s # "args" THEN (IF Len(es) # 1 THEN BAD ELSE r)
           ELSE IF cur.k = "cur" THEN BAD
           ELSE Walk(es, j + 1, cur, Append(vals, <<"@args", r>>), frag, dec)
    ELSE IF e.c = "$" THEN
        LET r == D(e.v, TRUE, Nil, dec) IN
        IF IsBad(r) THEN r
        ELSE IF vals # <<>> THEN GREY        \* plain keys before a function
        ELSE LET a == Apply(e.s, r, cur) IN IF IsBad(a) THEN a ELSE Walk(es, j + 1, a, vals, frag, dec)
    ELSE IF cur.k = "cur" THEN BAD
    ELSE IF e.s \in Names(vals) THEN GREY
    ELSE LET r == IF e.v.k \in {"map", "list"} THEN D(e.v, TRUE, Nil, dec)
                  \* literals given by keyword stay as they are
                  ELSE e.v
         IN IF IsBad(r) THEN r
            ELSE Walk(es, j + 1, cur, Append(vals, <<e.s, r>>), frag, dec)

(* what parsing gives *)
Meaning(d) == LET r == D(d, FALSE, Nil, <<>>) IN
              IF r.k = "cur" \/ IsBad(r) THEN r ELSE GREY

---------------------------------------------------------------------------
(* laws *)

(* arguments in a list are arguments in @args *)
Wrapped(d) == IF d.k # "map" THEN d
              ELSE [d EXCEPT !.e = [j \in DOMAIN d.e |->
                     IF d.e[j].c = "$" /\ d.e[j].v.k = "list"
                     THEN [d.e[j] EXCEPT !.v = [k |-> "map", e |-> <<[c |-> "@", s |-> "args", v |-> d.e[j].v]>>]]
                     ELSE d.e[j]]]
ArgsLaw == Meaning(Wrapped(Items[i].d)) = Meaning(Items[i].d)

(* a function which continues a curve takes it as its first argument *)
Simple(v) == v.k = "list" /\ (v.e # <<>> => v.e[1].k # "list")
Nested(es) ==
    IF Len(es) < 2 \/ es[1].c # "$" THEN [k |-> "map", e |-> es]
    ELSE [k |-> "map", e |-> <<[c |-> "$", s |-> es[2].s,
              v |-> [k |-> "list", e |-> <<[k |-> "map", e |-> <<es[1]>>]>> \o es[2].v.e]]>> \o SubSeq(es, 3, Len(es))]
ChainLaw == LET d == Items[i].d IN
    (d.k = "map" /\ Len(d.e) >= 2 /\ d.e[1].c = "$" /\ d.e[2].c = "$" /\ Simple(d.e[2].v))
        => LET a == Meaning(d) b == Meaning(Nested(d.e)) IN a = b \/ (IsBad(a) /\ IsBad(b))

(* without literals in it a decorated description is the plain one, raised *)
RECURSIVE Plain(_)
Plain(d) == IF d.k \in {"num", "str"} THEN FALSE
            ELSE IF d.k = "list" THEN \A j \in DOMAIN d.e : Plain(d.e[j])
            ELSE IF d.k = "map" THEN \A j \in DOMAIN d.e : d.e[j].c = "$" /\ Plain(d.e[j].v)
            ELSE TRUE
DecoratorLaw == LET d == Items[i].d IN
    (d.k = "map" /\ Plain(d)) =>
        LET m == Meaning(d)
            up == Meaning([k |-> "map", e |-> <<[c |-> "@", s |-> "log2", v |-> d]>>])
        IN IF m.k = "cur" THEN up = Raise("log2", m) ELSE up.k = m.k

Emit == PrintT("MEAN " \o ToJson([id |-> Items[i].id, m |-> Meaning(Items[i].d)]))
=============================================================================
