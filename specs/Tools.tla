----------------------------------- MODULE Tools -----------------------------------
(* What the small tools compute: roots of quadratics, symmetry and definiteness checks, Poisson matrices. *)
EXTENDS CMat, TLC
---------------------------------------------------------------------------
(* Real roots of q2 x^2 + q1 x + q0, with multiplicity, in exact arithmetic up to the square root. *)
Disc(q2, q1, q0) == RSub(RMul(q1, q1), RMul(4, RMul(q2, q0)))
Kind(q2, q1, q0) ==
  IF RSgn(q2) = 0 THEN IF RSgn(q1) = 0 THEN IF RSgn(q0) = 0 THEN "zero" ELSE "none" ELSE "linear"
  ELSE IF RSgn(Disc(q2, q1, q0)) < 0 THEN "none" ELSE "quadratic"
\* sqrt of the discriminant given as s; computed without cancellation
RootsWith(q2, q1, q0, s) ==
  LET d == RMul("-1/2", IF RSgn(q1) < 0 THEN RSub(q1, s) ELSE RAdd(q1, s)) IN
  IF RSgn(d) = 0 THEN <<0, 0>> ELSE <<RDiv(d, q2), RDiv(q0, d)>>
Roots(q2, q1, q0) ==
  CASE Kind(q2, q1, q0) = "zero" -> <<0>>                     \* every number is one: zero is returned
    [] Kind(q2, q1, q0) = "none" -> <<>>
    [] Kind(q2, q1, q0) = "linear" -> <<RDiv(RNeg(q0), q1)>>
    [] OTHER -> RootsWith(q2, q1, q0, RSqrt(Disc(q2, q1, q0)))
---------------------------------------------------------------------------
(* check_symmetric looks at x'A'Ax - x'AAx = x'Bx for x in [0,1)^n.  B is the symmetric part of (A' - A)A. *)
Asym(a) == LET c == MMul(MSub(MT(a), a), a) IN MScale("1/2", MAdd(c, MT(c)))
SymPart(a) == MScale("1/2", MAdd(a, MT(a)))
IsSym(a) == MEq(a, MT(a))
(* positive definite: all pivots of the elimination positive *)
RECURSIVE Pivots(_)
Pivots(a) ==
  LET n == Len(a) IN
  IF RSgn(a[1][1]) <= 0 \/ n = 1 THEN <<a[1][1]>>
  ELSE <<a[1][1]>> \o Pivots(TLCEval([i \in 1..(n - 1) |->
          VSub(SubSeq(a[i + 1], 2, n), VScale(RDiv(a[i + 1][1], a[1][1]), SubSeq(a[1], 2, n)))]))
PD(a) == LET p == Pivots(a) IN Len(p) = Len(a) /\ \A i \in DOMAIN p : RSgn(p[i]) > 0
---------------------------------------------------------------------------
(* Finite difference matrices *)
Abs(i) == IF i < 0 THEN -i ELSE i
Poisson1(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 2 ELSE IF Abs(i - j) = 1 THEN -1 ELSE 0]]
\* on a grid of n x n points, row by row
Row(k, n) == (k - 1) \div n
Col(k, n) == (k - 1) % n
Poisson2(n) == [k \in 1..(n * n) |-> [l \in 1..(n * n) |->
   LET dr == Abs(Row(k, n) - Row(l, n)) dc == Abs(Col(k, n) - Col(l, n)) IN
   IF dr + dc = 0 THEN 4 ELSE IF dr + dc = 1 THEN -1 ELSE 0]]
=============================================================================
