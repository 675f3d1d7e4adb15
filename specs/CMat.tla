---------------------------------- MODULE CMat ----------------------------------
(* Matrices and vectors of exact complex numbers: [r |-> real part, i |-> imaginary part]. *)
EXTENDS Rat, FiniteSets
Zeros(m, n) == [i \in 1..m |-> [j \in 1..n |-> 0]]
Unit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
RRows(a) == Len(a)
RCols(a) == Len(a[1])
MAdd(a, b) == [i \in 1..Len(a) |-> VAdd(a[i], b[i])]
MSub(a, b) == [i \in 1..Len(a) |-> VSub(a[i], b[i])]
MScale(c, a) == [i \in 1..Len(a) |-> VScale(c, a[i])]
VEq(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : REq(u[i], v[i])
MEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : VEq(a[i], b[i])
VMaxAbs(v) == LET RECURSIVE go(_)
                  go(k) == IF k = 0 THEN 0 ELSE RMax(RAbs(v[k]), go(k - 1))
              IN go(Len(v))
MMaxAbs(a) == LET RECURSIVE go(_)
                  go(k) == IF k = 0 THEN 0 ELSE RMax(VMaxAbs(a[k]), go(k - 1))
              IN go(Len(a))

C(re, im) == [r |-> re, i |-> im]
CReal(a) == [r |-> a, i |-> Zeros(RRows(a), RCols(a))]
CShape(a) == <<Len(a.r), Len(a.r[1])>>
CZero(m, n) == [r |-> Zeros(m, n), i |-> Zeros(m, n)]
CUnit(n) == [r |-> Unit(n), i |-> Zeros(n, n)]
CAdd(a, b) == [r |-> MAdd(a.r, b.r), i |-> MAdd(a.i, b.i)]
CSub(a, b) == [r |-> MSub(a.r, b.r), i |-> MSub(a.i, b.i)]
\* c is a complex scalar [r |-> , i |-> ]
CScale(c, a) == [r |-> MSub(MScale(c.r, a.r), MScale(c.i, a.i)),
                 i |-> MAdd(MScale(c.r, a.i), MScale(c.i, a.r))]
CMul(a, b) == [r |-> MSub(MMul(a.r, b.r), MMul(a.i, b.i)),
               i |-> MAdd(MMul(a.r, b.i), MMul(a.i, b.r))]
CT(a) == [r |-> MT(a.r), i |-> MT(a.i)]
CConj(a) == [r |-> a.r, i |-> MScale(-1, a.i)]
CH(a) == CConj(CT(a))
CEq(a, b) == MEq(a.r, b.r) /\ MEq(a.i, b.i)
CMaxAbs(a) == RMax(MMaxAbs(a.r), MMaxAbs(a.i))
RECURSIVE CPow(_, _)
CPow(a, k) == IF k = 0 THEN CUnit(Len(a.r)) ELSE CMul(a, CPow(a, k - 1))
CSub2(a, rows, cols) ==
  [r |-> [i \in DOMAIN rows |-> [j \in DOMAIN cols |-> a.r[rows[i]][cols[j]]]],
   i |-> [i \in DOMAIN rows |-> [j \in DOMAIN cols |-> a.i[rows[i]][cols[j]]]]]
CDiag(d) == LET n == Len(d.r) IN
  [r |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d.r[i] ELSE 0]],
   i |-> [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d.i[i] ELSE 0]]]
CSInv(c) == LET d == RAdd(RMul(c.r, c.r), RMul(c.i, c.i))
            IN  [r |-> RDiv(c.r, d), i |-> RDiv(RNeg(c.i), d)]
\* A complex vector [r, i] times a matrix
CMVec(a, x) == [r |-> VSub(MVec(a.r, x.r), MVec(a.i, x.i)),
                i |-> VAdd(MVec(a.r, x.i), MVec(a.i, x.r))]
CVEq(u, v) == VEq(u.r, v.r) /\ VEq(u.i, v.i)
=============================================================================
