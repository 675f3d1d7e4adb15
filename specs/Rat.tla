---------------------------------- MODULE Rat ----------------------------------
(***************************************************************************)
(* Exact rational numbers, vectors (sequences) and matrices (sequences of   *)
(* rows) over them.                                                         *)
(*                                                                          *)
(* The definitions below give the meaning, over the integers, of a rational *)
(* written as an Int or as a pair <<numerator, denominator>>.  TLC evaluates *)
(* them with java/Rat.java, which computes the same functions on unbounded   *)
(* integers and also reads the two text forms that recorded executions use   *)
(* ("0x1.8p+1", the exact value of a floating-point number, and "3/2").      *)
(* SelfTest.tla compares the two.  Rationals must be compared with REq, RLe  *)
(* and RLt, never with = .                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Pair(a) == IF a \in Int THEN <<a, 1>> ELSE a
LOCAL Nm(a) == Pair(a)[1]
LOCAL Dn(a) == Pair(a)[2]
LOCAL Ab(i) == IF i < 0 THEN -i ELSE i
LOCAL Mk(n, d) ==
    LET g == CHOOSE g \in 1..(Ab(n) + Ab(d)) :
                /\ n % g = 0 /\ d % g = 0
                /\ \A h \in (g + 1)..(Ab(n) + Ab(d)) : ~(n % h = 0 /\ d % h = 0)
        s == IF d < 0 THEN -1 ELSE 1
    IN  IF s * (d \div g) = 1 THEN s * (n \div g) ELSE <<s * (n \div g), s * (d \div g)>>

RNum(a) == a                         \* a recorded number, as a rational
RFin(a) == TRUE                      \* a is a number (not "nan", "inf", ...)
RAdd(a, b) == Mk(Nm(a) * Dn(b) + Nm(b) * Dn(a), Dn(a) * Dn(b))
RNeg(a) == Mk(-Nm(a), Dn(a))
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == Mk(Nm(a) * Nm(b), Dn(a) * Dn(b))
RDiv(a, b) == Mk(Nm(a) * Dn(b), Dn(a) * Nm(b))       \* b # 0
RSgn(a) == IF Nm(a) > 0 THEN 1 ELSE IF Nm(a) = 0 THEN 0 ELSE -1
RAbs(a) == IF Nm(a) < 0 THEN RNeg(a) ELSE a
RLe(a, b) == Nm(a) * Dn(b) <= Nm(b) * Dn(a)
RLt(a, b) == Nm(a) * Dn(b) < Nm(b) * Dn(a)
REq(a, b) == Nm(a) * Dn(b) = Nm(b) * Dn(a)
RMax(a, b) == IF RLe(b, a) THEN a ELSE b
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RPow2(k) == IF k >= 0 THEN 2^k ELSE <<1, 2^(-k)>>
RRound(a, p) == a                    \* may be replaced by a number with p significant bits
RSqrt(a) == CHOOSE s \in {0} : TRUE  \* s >= 0 with |s^2 - a| <= a 2^-100  (a >= 0)
RText(a) == a                        \* the same number, as an Int or as "p/q" (to write it out)
VText(v) == [i \in DOMAIN v |-> RText(v[i])]
RShow(a) == "number"                 \* decimal text, for messages

\* Vectors
RECURSIVE RSum(_)
RSum(v) == IF v = <<>> THEN 0 ELSE RAdd(Head(v), RSum(Tail(v)))
VDot(u, v) == RSum([i \in 1..Len(u) |-> RMul(u[i], v[i])])
VAdd(u, v) == [i \in 1..Len(u) |-> RAdd(u[i], v[i])]
VSub(u, v) == [i \in 1..Len(u) |-> RSub(u[i], v[i])]
VScale(c, v) == [i \in 1..Len(v) |-> RMul(c, v[i])]
VAxpy(c, u, v) == VAdd(VScale(c, u), v)

\* Matrices
MVec(m, v) == [i \in 1..Len(m) |-> VDot(m[i], v)]
MT(m) == IF m = <<>> THEN <<>> ELSE [j \in 1..Len(m[1]) |-> [i \in 1..Len(m) |-> m[i][j]]]
MMul(a, b) == [i \in 1..Len(a) |-> MVec(MT(b), a[i])]
\* <<TRUE, x>> with m x = b when m is nonsingular, else <<FALSE, <<>>>>
MSolve(m, b) == CHOOSE r \in {<<FALSE, <<>>>>} : TRUE
=============================================================================
