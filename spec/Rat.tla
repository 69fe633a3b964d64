-------------------------------- MODULE Rat --------------------------------
(***************************************************************************)
(* Exact rational arithmetic, with the special values curvepy's numbers   *)
(* can take.  A number is <<n, d>>, d > 0, in lowest terms.  Specials have *)
(* d <= 0:                                                                 *)
(*   NONE   Python's None (no value)                                       *)
(*   PINF / NINF   +/- infinity                                            *)
(*   RAISE  the call raised an exception                                   *)
(*   HANG   the call did not return                                        *)
(*   UNK    the specification does not determine the value: an overflow of *)
(*          TLC's 32-bit integers, or a deliberately unspecified answer    *)
(* Values logged from the code which are no small rational come in as      *)
(* <<k, -9>>; they equal nothing the specification computes.               *)
(***************************************************************************)
EXTENDS Integers, Sequences

NONE  == <<0, 0>>
PINF  == <<1, 0>>
NINF  == <<-1, 0>>
RAISE == <<0, -1>>
HANG  == <<0, -2>>
UNK   == <<0, -3>>

R(n) == <<n, 1>>
Zero == <<0, 1>>
One  == <<1, 1>>

IsFin(a) == a[2] > 0
IsInf(a) == a = PINF \/ a = NINF
IsNum(a) == IsFin(a) \/ IsInf(a)

Abs(n) == IF n < 0 THEN -n ELSE n
LIM == 536870912    \* 2^29

MulOK(a, b) == a = 0 \/ b = 0 \/ Abs(a) <= LIM \div Abs(b)

RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)

(* n / d in lowest terms, d # 0 *)
Norm(n, d) ==
    LET g == GCD(Abs(n), Abs(d))
        s == IF d < 0 THEN -1 ELSE 1
    IN  IF n = 0 THEN Zero ELSE <<s * (n \div g), s * (d \div g)>>

(* The code's values are read with denominators up to MAXDEN *)
MAXDEN == 20000
Chk(a) == IF IsFin(a) /\ (a[2] > MAXDEN * 100 \/ Abs(a[1]) > LIM) THEN UNK ELSE a

Neg(a) == IF IsFin(a) THEN <<-a[1], a[2]>>
          ELSE IF a = PINF THEN NINF ELSE IF a = NINF THEN PINF ELSE a

Add(a, b) ==
    IF a = UNK \/ b = UNK THEN UNK
    ELSE IF IsFin(a) /\ IsFin(b) THEN
        LET g == GCD(a[2], b[2])
            p == b[2] \div g
            q == a[2] \div g
        IN IF MulOK(a[1], p) /\ MulOK(b[1], q) /\ MulOK(a[2], p)
           THEN Norm(a[1] * p + b[1] * q, a[2] * p) ELSE UNK
    ELSE IF a = NONE \/ b = NONE THEN UNK
    ELSE IF IsFin(a) THEN b
    ELSE IF IsFin(b) THEN a
    ELSE IF a = b THEN a ELSE UNK
Sub(a, b) == Add(a, Neg(b))

Sgn(a) == IF a = PINF THEN 1 ELSE IF a = NINF THEN -1
          ELSE IF a[1] > 0 THEN 1 ELSE IF a[1] < 0 THEN -1 ELSE 0

Mul(a, b) ==
    IF a = UNK \/ b = UNK THEN UNK
    ELSE IF IsFin(a) /\ IsFin(b) THEN
        IF a[1] = 0 \/ b[1] = 0 THEN Zero
        ELSE LET g1 == GCD(Abs(a[1]), b[2])
                 g2 == GCD(Abs(b[1]), a[2])
                 n1 == a[1] \div g1  n2 == b[1] \div g2
                 d1 == a[2] \div g2  d2 == b[2] \div g1
             IN IF MulOK(n1, n2) /\ MulOK(d1, d2) THEN <<n1 * n2, d1 * d2>> ELSE UNK
    ELSE IF a = NONE \/ b = NONE THEN UNK
    ELSE LET s == Sgn(a) * Sgn(b) IN
         IF s = 0 THEN UNK ELSE IF s > 0 THEN PINF ELSE NINF

(* b # 0 *)
Inv(b) == IF IsFin(b) THEN (IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
          ELSE IF IsInf(b) THEN Zero ELSE UNK
Div(a, b) == IF IsFin(b) /\ b[1] = 0 THEN UNK
             ELSE IF IsInf(a) /\ IsInf(b) THEN UNK ELSE Mul(a, Inv(b))

(* comparison, exact also when the cross product would overflow *)
RECURSIVE CmpPos(_, _, _, _)
CmpPos(a, b, c, d) ==   \* a/b vs c/d; a, c >= 0; b, d > 0
    LET qa == a \div b  qc == c \div d
        ra == a % b     rc == c % d
    IN IF qa # qc THEN (IF qa < qc THEN -1 ELSE 1)
       ELSE IF ra = 0 /\ rc = 0 THEN 0
       ELSE IF ra = 0 THEN -1
       ELSE IF rc = 0 THEN 1
       ELSE CmpPos(d, rc, b, ra)

Cmp(a, b) ==
    IF a = b THEN 0
    ELSE IF a = NINF \/ b = PINF THEN -1
    ELSE IF a = PINF \/ b = NINF THEN 1
    ELSE IF a[2] = b[2] THEN (IF a[1] < b[1] THEN -1 ELSE 1)
    ELSE IF a[1] >= 0 /\ b[1] <= 0 THEN (IF a[1] = 0 /\ b[1] = 0 THEN 0 ELSE 1)
    ELSE IF a[1] <= 0 /\ b[1] >= 0 THEN -1
    ELSE IF a[1] > 0 THEN CmpPos(a[1], a[2], b[1], b[2])
    ELSE CmpPos(-b[1], b[2], -a[1], a[2])

Lt(a, b) == Cmp(a, b) < 0
Le(a, b) == Cmp(a, b) <= 0
Gt(a, b) == Cmp(a, b) > 0
Ge(a, b) == Cmp(a, b) >= 0
Min2(a, b) == IF a = UNK \/ b = UNK THEN UNK ELSE IF Lt(b, a) THEN b ELSE a
Max2(a, b) == IF a = UNK \/ b = UNK THEN UNK ELSE IF Gt(b, a) THEN b ELSE a
RAbs(a) == IF IsFin(a) THEN <<Abs(a[1]), a[2]>> ELSE IF IsInf(a) THEN PINF ELSE a

RECURSIVE Pow(_, _)
Pow(a, k) ==  \* k an integer
    IF k = 0 THEN One
    ELSE IF k < 0 THEN (IF a = Zero THEN UNK ELSE Inv(Pow(a, -k)))
    ELSE Mul(a, Pow(a, k - 1))

(* linear interpolation between p and q (points <<x, y>>) at x *)
Lerp(p, q, x) ==
    IF p[2] = NONE \/ q[2] = NONE THEN NONE
    ELSE IF IsInf(p[2]) \/ IsInf(q[2]) THEN UNK
    ELSE LET u == Div(Sub(x, p[1]), Sub(q[1], p[1]))
         IN Add(Mul(Sub(One, u), p[2]), Mul(u, q[2]))

(* logged value r agrees with specified value e; a quotient by a value which *)
(* is zero only up to rounding is huge                                       *)
Agrees(e, r) == e = UNK \/ (IsFin(e) /\ e[2] > MAXDEN) \/ e = r
                \/ (IsInf(e) /\ r[2] = -9 /\ Abs(r[1]) = LIM)
(* the multiple of d at or below x, at or above x *)
FloorD(x, d) == LET q == Div(x, d) IN IF q = UNK THEN UNK ELSE Mul(R(q[1] \div q[2]), d)
CeilD(x, d) == Neg(FloorD(Neg(x), d))

(* the sine of t turns, where it is a rational number *)
SinT(t) ==
    IF ~IsFin(t) THEN UNK
    ELSE LET k == Mul(R(12), t) IN
         IF k = UNK \/ k[2] # 1 THEN UNK
         ELSE LET m == ((k[1] % 12) + 12) % 12 IN
              IF m \in {0, 6} THEN Zero
              ELSE IF m = 3 THEN One ELSE IF m = 9 THEN R(-1)
              ELSE IF m \in {1, 5} THEN <<1, 2>> ELSE IF m \in {7, 11} THEN <<-1, 2>>
              ELSE UNK
CosT(t) == SinT(Add(t, <<1, 4>>))

============================================================================
