------------------------------------ MODULE Lls ------------------------------------
(***************************************************************************)
(* Methods for least squares and symmetric quasi-definite systems based on    *)
(* the Golub-Kahan process, in exact arithmetic.                              *)
(*                                                                          *)
(* A problem pr is [A, M, N, d]: the m x n matrix A, the inverses M and N of    *)
(* the metrics (<<>>: identity), the damping d.  With b it stands for           *)
(*     minimize  |b - A x|^2_M + d^2 |x|^2_inv(N).                              *)
(* LSQR minimizes this and LSMR the N-norm of its gradient over the space of    *)
(* the vectors N s_1, ..., N s_k below.  CRAIG and CRAIG-MR (d = 1) work on      *)
(*     [ inv(M)  A  ; A'  -inv(N) ] [r; x] = [b; 0],                             *)
(* with r in the space of the vectors M p_1, ..., M p_k: CRAIG makes the          *)
(* residual of the reduced system (A N A' + inv(M)) r = b orthogonal to that     *)
(* space, CRAIG-MR makes its M-norm least; x = N A' r.                          *)
(***************************************************************************)
EXTENDS Krylov
MApply(m, v) == IF m = <<>> THEN v ELSE MVec(m, v)
MUnit(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
\* inverse of a nonsingular matrix (columns)
MInv(m, n) == IF m = <<>> THEN MUnit(n)
              ELSE MT([j \in 1..n |-> MSolve(m, [i \in 1..n |-> IF i = j THEN 1 ELSE 0])[2]])
MSum(a, b) == [i \in DOMAIN a |-> VAdd(a[i], b[i])]
MTimes(c, a) == [i \in DOMAIN a |-> VScale(c, a[i])]
MOr(m, n) == IF m = <<>> THEN MUnit(n) ELSE m
NCols(pr) == Len(pr.A[1])
NRows(pr) == Len(pr.A)
\* the normal equations, as a system for the Krylov methods
Normal(pr) ==
  LET n == NCols(pr) m == NRows(pr) IN
  [A |-> MSum(MMul(MT(pr.A), MMul(MOr(pr.M, m), pr.A)), MTimes(RMul(pr.d, pr.d), MInv(pr.N, n))), P |-> pr.N]
NRhs(pr, b) == MVec(MT(pr.A), MApply(pr.M, b))
\* the reduced system of CRAIG
Dual(pr) ==
  LET n == NCols(pr) m == NRows(pr) IN
  [A |-> MSum(MMul(pr.A, MMul(MOr(pr.N, n), MT(pr.A))), MInv(pr.M, m)), P |-> pr.M]

(* The process: p_1 = b, s_1 = A'M p_1,
     p_(k+1) = A N s_k - (sn_k / pn_k) p_k,  s_(k+1) = A'M p_(k+1) - (pn_(k+1) / sn_k) s_k
   with pn, sn the squared norms in the metrics M and N.  In the notation of the algorithms
     alpha_k^2 = sn_k / pn_k,  beta_1^2 = pn_1,  beta_(k+1)^2 = pn_(k+1) / sn_k.   *)
RECURSIVE GKGo(_, _, _)
GKGo(pr, q, k) ==
  IF k = 0 \/ q.full # "no" THEN q
  ELSE LET j == Len(q.ss)
           p2 == RoundTo(q.pc, VSub(MVec(pr.A, MApply(pr.N, q.ss[j])), VScale(RDiv(q.sn[j], q.pn[j]), q.ps[j])))
           pn2 == VDot(p2, MApply(pr.M, p2))
           s2 == RoundTo(q.pc, VSub(MVec(MT(pr.A), MApply(pr.M, p2)), VScale(RDiv(pn2, q.sn[j]), q.ss[j])))
           sn2 == VDot(s2, MApply(pr.N, s2))
       IN  IF RSgn(pn2) = 0 THEN [q EXCEPT !.full = "p"]
           ELSE IF RSgn(sn2) = 0 THEN [q EXCEPT !.full = "s", !.ps = Append(@, p2), !.pn = Append(@, pn2)]
           ELSE GKGo(pr, [q EXCEPT !.ps = Append(@, p2), !.pn = Append(@, pn2), !.ss = Append(@, s2), !.sn = Append(@, sn2)], k - 1)
\* full = "p": p_(k+1) = 0 (the system is compatible); "s": s_(k+1) = 0
\* pc: vectors are kept to pc bits (0: exactly)
GKp(pr, b, k, pc) ==
  LET pn1 == VDot(b, MApply(pr.M, b))
      s1 == NRhs(pr, b)
      sn1 == VDot(s1, MApply(pr.N, s1))
  IN  IF RSgn(pn1) = 0 THEN [ps |-> <<>>, pn |-> <<>>, ss |-> <<>>, sn |-> <<>>, pc |-> pc, full |-> "p"]
      ELSE IF RSgn(sn1) = 0 THEN [ps |-> <<b>>, pn |-> <<pn1>>, ss |-> <<>>, sn |-> <<>>, pc |-> pc, full |-> "s"]
      ELSE GKGo(pr, [ps |-> <<b>>, pn |-> <<pn1>>, ss |-> <<s1>>, sn |-> <<sn1>>, pc |-> pc, full |-> "no"], k)
GK(pr, b, k) == GKp(pr, b, k, 0)
Al2(q, k) == IF k <= Len(q.sn) THEN RDiv(q.sn[k], q.pn[k]) ELSE 0
Be2(q, k) == IF k > Len(q.pn) THEN 0 ELSE IF k = 1 THEN q.pn[1] ELSE RDiv(q.pn[k], q.sn[k - 1])
\* the coefficients are determined well: with a precision much lower than that of the machine they are nearly the same
StableGK(pr, b, q) ==
  LET k == Len(q.sn) r == GKp(pr, b, Len(q.pn), 40) IN
  /\ Len(r.sn) >= k
  /\ \A j \in 1..k : RLe(RAbs(RSub(Al2(r, j), Al2(q, j))), RMul("1/1000000", Al2(q, j)))
                    /\ RLe(RAbs(RSub(Be2(r, j), Be2(q, j))), RMul("1/1000000", Be2(q, j)))
\* bases: the solutions are in these spaces
VB(pr, q, k) == [j \in 1..k |-> MApply(pr.N, q.ss[j])]
UB(pr, q, k) == [j \in 1..k |-> MApply(pr.M, q.ps[j])]
LsqrPt(nq, rhs, vs) == CGPt(nq, rhs, vs)
LsmrPt(nq, rhs, vs) == MinresPt(nq, rhs, vs)
CraigPt(dq, b, us) == CGPt(dq, b, us)
CraigmrPt(dq, b, us) == MinresPt(dq, b, us)
\* squares of what the methods report
Obj2(pr, b, x) ==           \* |b - Ax|^2_M + d^2 |x|^2_inv(N)
  LET r == VSub(b, MVec(pr.A, x)) IN
  RAdd(VDot(r, MApply(pr.M, r)), RMul(RMul(pr.d, pr.d), IF pr.N = <<>> THEN Sq(x) ELSE VDot(x, MSolve(pr.N, x)[2])))
XNorm2(pr, x) == IF pr.N = <<>> THEN Sq(x) ELSE VDot(x, MSolve(pr.N, x)[2])
Grad2(pr, nq, rhs, x) == LET g == Res(nq, rhs, x) IN VDot(g, MApply(pr.N, g))
\* LSQR: Frobenius norm of the bidiagonal matrix with the damping; LSMR: without
LsqrA2(pr, q, k) == RSum([j \in 1..k |-> RAdd(RAdd(Al2(q, j), Be2(q, j + 1)), RMul(pr.d, pr.d))])
LsmrA2(q, k) == RSum([j \in 1..k |-> RAdd(Al2(q, j), Be2(q, j + 1))])
\* diagonal of V (V'HV)^(-1) V', H the matrix of the normal equations
VarOf(nq, vs, n) ==
  LET g == Gram(vs, [j \in DOMAIN vs |-> MVec(nq.A, vs[j])]) IN
  [i \in 1..n |-> LET e == [j \in DOMAIN vs |-> vs[j][i]] s == MSolve(g, e) IN IF s[1] THEN VDot(e, s[2]) ELSE "nan"]
=============================================================================
