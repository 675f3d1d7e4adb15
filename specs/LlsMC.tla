----------------------------------- MODULE LlsMC -----------------------------------
(* The points of LSQR, LSMR, CRAIG and CRAIG-MR on every small problem: what characterises them. *)
EXTENDS Lls
CONSTANTS NR, NC, E, METR, DAMPS
VARIABLES pr, b, k, q, rhs, nq, dq
E1 == {-1, 0, 2}
E2 == {0, 1, 2}
E3 == {-2, -1, 0, 1, 2}
D1 == {0, 1, 2}
D0 == {0, 1}
Met(n) == {<<>>, [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN i + 1 ELSE IF METR = 2 THEN 1 ELSE 0]]}
Init == /\ \E a \in [1..NR -> [1..NC -> E]] : \E m \in Met(NR) : \E n \in Met(NC) : \E d \in DAMPS :
             pr = [A |-> a, M |-> m, N |-> n, d |-> d]
        /\ b \in [1..NR -> {-1, 0, 2}] /\ Sq(b) # 0
        /\ k = 0 /\ q = GK(pr, b, 0) /\ rhs = NRhs(pr, b) /\ nq = Normal(pr) /\ dq = Dual(pr)
Next == /\ q.full = "no" /\ k' = k + 1 /\ q' = GK(pr, b, k + 1)
        /\ UNCHANGED <<pr, b, rhs, nq, dq>>
Dim == Len(q.ss)
Dp == Len(q.ps)
X(j) == LsqrPt(nq, rhs, VB(pr, q, j))
Y(j) == LsmrPt(nq, rhs, VB(pr, q, j))
R(j) == CraigPt(dq, b, UB(pr, q, j))
S(j) == CraigmrPt(dq, b, UB(pr, q, j))
Ends == k <= NC + 1 /\ Dim <= NC /\ Dp <= NR
\* the two sequences are orthogonal in their metrics, and s is the Lanczos sequence of the normal equations
Orth == /\ \A i, j \in DOMAIN q.ps : i # j => REq(VDot(q.ps[i], MApply(pr.M, q.ps[j])), 0)
        /\ \A i, j \in DOMAIN q.ss : i # j => REq(VDot(q.ss[i], MApply(pr.N, q.ss[j])), 0)
Lanc == (Dim > 0 /\ k <= Dim) => LET l == Lan(nq, rhs, Dim - 1) IN
          l.ok /\ \A j \in 1..Dim : VEq(l.us[j], q.ss[j])
LancP == LET l == Lan(dq, b, Dp - 1) IN \A j \in 1..Dp : VEq(l.us[j], q.ps[j])
Defined == /\ \A j \in 1..Dim : X(j)[1] /\ Y(j)[1]
           /\ \A j \in 1..Dp : R(j)[1] /\ S(j)[1]
\* the objective decreases, and no point of the space nearby is better
Best == \A j \in 1..Dim :
   LET x == X(j)[2] o == Obj2(pr, b, x) g == Grad2(pr, nq, rhs, Y(j)[2]) IN
   /\ RLe(o, Obj2(pr, b, IF j = 1 THEN VZero(NC) ELSE X(j - 1)[2]))
   /\ RLe(g, Grad2(pr, nq, rhs, IF j = 1 THEN VZero(NC) ELSE Y(j - 1)[2]))
   /\ RLe(g, Grad2(pr, nq, rhs, x)) /\ RLe(o, Obj2(pr, b, Y(j)[2]))
   /\ \A i \in 1..j : \A c \in {-1, 1} :
        LET v == VScale(RDiv(c, 4), MApply(pr.N, q.ss[i])) IN
        /\ RLe(o, Obj2(pr, b, VAdd(x, v)))
        /\ RLe(g, Grad2(pr, nq, rhs, VAdd(Y(j)[2], v)))
\* the last point solves the problem
Final == (q.full # "no" /\ Dim > 0) =>
   /\ VEq(MVec(nq.A, X(Dim)[2]), rhs) /\ VEq(MVec(nq.A, Y(Dim)[2]), rhs)
   /\ (q.full = "p" /\ pr.d = 0) => VEq(MVec(pr.A, X(Dim)[2]), b)
\* the energy identity that the truncated error estimates rely on
Energy == \A j \in 1..Dim : REq(RSub(Obj2(pr, b, VZero(NC)), Obj2(pr, b, X(j)[2])), VDot(rhs, X(j)[2]))
\* CRAIG: the last point solves the quasi-definite system, with x = N A' r
Sqd == (q.full # "no") =>
   LET r == R(Dp)[2] s == S(Dp)[2] x == MApply(pr.N, MVec(MT(pr.A), r)) IN
   /\ VEq(VAdd(MVec(MInv(pr.M, NR), r), MVec(pr.A, x)), b)
   /\ VEq(r, s)
   \* and x minimizes |b - Ax|_M + |x|_inv(N)
   /\ REq(Grad2(pr, Normal([pr EXCEPT !.d = 1]), rhs, x), 0)
=============================================================================
