-------------------------------- MODULE Itv --------------------------------
(* Intervals <<lo, hi, lo_open, hi_open>> (0/1 flags), <<>> when empty.    *)
(* Semantics of the interval library which curvepy takes its domains from. *)
EXTENDS Rat

EMPTY == <<>>
ALL == <<NINF, PINF, 1, 1>>
IsEmpty(I) == I = EMPTY

Mk(lo, hi, lo_open, hi_open) ==
    LET a == IF lo = NINF /\ lo # hi THEN 1 ELSE lo_open
        b == IF hi = PINF /\ lo # hi THEN 1 ELSE hi_open
    IN IF Cmp(lo, hi) > 0 \/ (lo = hi /\ (a = 1 \/ b = 1)) THEN EMPTY
       ELSE <<lo, hi, a, b>>
Closed(lo, hi) == Mk(lo, hi, 0, 0)
Pt(x) == <<x, x, 0, 0>>

Has(I, x) ==
    /\ I # EMPTY /\ x # NONE
    /\ \/ x = NINF /\ I[1] = NINF
       \/ x = PINF /\ I[2] = PINF
       \/ /\ Ge(x, I[1]) /\ (x = I[1] => I[3] = 0)
          /\ Le(x, I[2]) /\ (x = I[2] => I[4] = 0)

(* contains(x, enforce_start=False) and contains(x, enforce_end=False) *)
HasUpTo(I, x) ==
    /\ I # EMPTY /\ x # NONE
    /\ \/ x = NINF /\ I[1] = NINF
       \/ x = PINF /\ I[2] = PINF
       \/ Le(x, I[2]) /\ (x = I[1] => I[3] = 0) /\ (x = I[2] => I[4] = 0)
HasFrom(I, x) ==
    /\ I # EMPTY /\ x # NONE
    /\ \/ x = NINF /\ I[1] = NINF
       \/ x = PINF /\ I[2] = PINF
       \/ Ge(x, I[1]) /\ (x = I[1] => I[3] = 0)

Superset(U, V) ==
    IF U = EMPTY THEN FALSE
    ELSE IF V = EMPTY THEN TRUE
    ELSE /\ Le(U[1], V[1]) /\ (U[1] = V[1] => (U[3] = 0 \/ V[3] = 1))
         /\ Ge(U[2], V[2]) /\ (U[2] = V[2] => (U[4] = 0 \/ V[4] = 1))

Inter(U, V) ==
    IF U = EMPTY \/ V = EMPTY THEN EMPTY
    ELSE LET c1 == Cmp(U[1], V[1])
             c2 == Cmp(U[2], V[2])
             lo == IF c1 >= 0 THEN U[1] ELSE V[1]
             hi == IF c2 <= 0 THEN U[2] ELSE V[2]
             a == IF c1 > 0 THEN U[3] ELSE IF c1 < 0 THEN V[3]
                  ELSE IF U[3] = 1 \/ V[3] = 1 THEN 1 ELSE 0
             b == IF c2 < 0 THEN U[4] ELSE IF c2 > 0 THEN V[4]
                  ELSE IF U[4] = 1 \/ V[4] = 1 THEN 1 ELSE 0
         IN IF Cmp(lo, hi) > 0 THEN EMPTY ELSE Mk(lo, hi, a, b)
Meets(U, V) == Inter(U, V) # EMPTY

(* union is the hull *)
Hull(U, V) ==
    IF U = EMPTY THEN V ELSE IF V = EMPTY THEN U
    ELSE LET c1 == Cmp(U[1], V[1])
             c2 == Cmp(U[2], V[2])
             lo == IF c1 <= 0 THEN U[1] ELSE V[1]
             hi == IF c2 >= 0 THEN U[2] ELSE V[2]
             a == IF c1 < 0 THEN U[3] ELSE IF c1 > 0 THEN V[3]
                  ELSE IF U[3] = 1 /\ V[3] = 1 THEN 1 ELSE 0
             b == IF c2 > 0 THEN U[4] ELSE IF c2 < 0 THEN V[4]
                  ELSE IF U[4] = 1 /\ V[4] = 1 THEN 1 ELSE 0
         IN <<lo, hi, a, b>>

ShiftI(I, dx) == IF I = EMPTY THEN EMPTY ELSE <<Add(I[1], dx), Add(I[2], dx), I[3], I[4]>>
IsFinite(I) == I # EMPTY /\ I[1] # NINF /\ I[2] # PINF
GtI(I) == IF I = EMPTY THEN EMPTY ELSE Mk(I[2], PINF, 1 - I[4], 1)
LtI(I) == IF I = EMPTY THEN EMPTY ELSE Mk(NINF, I[1], 1, 1 - I[3])
============================================================================
