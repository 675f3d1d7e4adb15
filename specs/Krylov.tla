---------------------------------- MODULE Krylov ----------------------------------
(***************************************************************************)
(* Short-recurrence Krylov methods for square systems A x = b, with a         *)
(* preconditioner P (<<>> if none), in exact arithmetic.                      *)
(*                                                                          *)
(* A run is a sequence of check points: after each of them the method looks    *)
(* at the residual and at the product budget and may stop.  KInit is the       *)
(* state before the first product, KStep the state at the next check point.    *)
(* Fields common to all methods:                                              *)
(*   x    the estimate returned if the method stops here                      *)
(*   rr   the square of the residual norm it reports if it stops here          *)
(*   j    number of check points passed                                       *)
(*   ok   FALSE once a pivot has vanished (or is negligible): from there on    *)
(*        the iterates are not defined                                        *)
(***************************************************************************)
EXTENDS CMat, TLC
CONSTANT PREC        \* numbers are kept to PREC significant bits; 0: exactly
\* a problem may set its own precision, pr.pc: then only pivots that vanish end the run
Own(pr) == "pc" \in DOMAIN pr
Bits(pr) == IF Own(pr) THEN pr.pc ELSE PREC
Rd(pr, a) == IF Bits(pr) = 0 THEN a ELSE RRound(a, Bits(pr))
RoundTo(p, v) == IF p = 0 THEN v ELSE [i \in DOMAIN v |-> RRound(v[i], p)]
Vd(pr, v) == RoundTo(Bits(pr), v)
Sq(v) == VDot(v, v)
VZero(n) == [i \in 1..n |-> 0]
Prec(pr, v) == IF pr.P = <<>> THEN v ELSE Vd(pr, MVec(pr.P, v))
PVec(pr, v) == IF pr.P = <<>> THEN v ELSE MVec(pr.P, v)
Av(pr, v) == Vd(pr, MVec(pr.A, v))
\* the pivot d is usable: |d|^2 > eps * u * v (u, v >= 0).  (All pivots are inner products of vectors of squared norms u, v.)
Usable(pr, d, u, v) == RSgn(d) # 0 /\ (Bits(pr) = 0 \/ RLt(RMul(IF Own(pr) THEN "1/1000000000000" ELSE "1/10000000", RMul(u, v)), RMul(d, d)))
\* accuracy that the cancellation in a pivot costs a computation with rounding
Loss(d, u, v) == IF PREC = 0 \/ RSgn(d) = 0 THEN 1 ELSE RRound(RMax(1, RDiv(RMul(u, v), RMul(d, d))), 30)
LossOk(pr, l) == Bits(pr) = 0 \/ Own(pr) \/ RLe(l, 1000000000)
Dv(pr, a, b) == IF RSgn(b) = 0 THEN 0 ELSE Rd(pr, RDiv(a, b))

Methods == {"cg", "cgs", "bicgstab", "tfqmr"}
Cost(m) == IF m = "cgs" THEN 2 ELSE 1     \* products between two check points

(* pr = [A, P]; b right-hand side; x0 initial guess *)
KInit(m, pr, b, x0) ==
  LET r == VSub(b, MVec(pr.A, x0)) n == Len(b) z == VZero(n) IN
  CASE m = "cg" ->
        LET y == Prec(pr, r) IN
        [m |-> m, x |-> x0, r |-> r, y |-> y, p |-> y, rr |-> VDot(r, y), j |-> 0, loss |-> 1, ok |-> TRUE, def |-> TRUE]
    [] m = "cgs" ->
        [m |-> m, x |-> x0, r0 |-> r, r |-> r, u |-> r, p |-> r, rho |-> Sq(r), rr |-> Sq(r), j |-> 0, loss |-> 1, ok |-> TRUE]
    [] m = "bicgstab" ->
        [m |-> m, x |-> x0, r0 |-> r, r |-> r, p |-> r, q |-> z, s |-> z, xb |-> x0, rho |-> Sq(r), al |-> 1, half |-> FALSE,
         rr |-> Sq(r), j |-> 0, loss |-> 1, ok |-> TRUE]
    [] m = "tfqmr" ->
        [m |-> m, x |-> x0, r0 |-> r, w |-> r, y |-> r, d |-> z, v |-> z, u |-> z, rho |-> Sq(r), al |-> 1, th2 |-> 0, eta |-> 0,
         rr |-> Sq(r), j |-> 0, loss |-> 1, ok |-> TRUE]

(* Conjugate gradients. def is FALSE when the curvature along p is not positive. *)
CGStep(pr, s) ==
  LET ap == Av(pr, s.p) c == VDot(s.p, ap)
      al == Dv(pr, s.rr, c)
      r2 == Vd(pr, VSub(s.r, VScale(al, ap)))
      y2 == Prec(pr, r2)
      ry == Rd(pr, VDot(r2, y2))
  IN  [s EXCEPT !.x = Vd(pr, VAxpy(al, s.p, s.x)), !.r = r2, !.y = y2, !.p = Vd(pr, VAxpy(Dv(pr, ry, s.rr), s.p, y2)), !.rr = ry,
                !.j = @ + 1, !.def = @ /\ RSgn(c) > 0,
                !.loss = RRound(RMul(@, RMul(Loss(c, Sq(s.p), Sq(ap)), Loss(s.rr, Sq(s.r), Sq(s.y)))), 30),
                !.ok = @ /\ LossOk(pr, s.loss) /\ Usable(pr, c, Sq(s.p), Sq(ap)) /\ Usable(pr, s.rr, Sq(s.r), Sq(s.y))]

(* Conjugate gradients squared *)
CGSStep(pr, s) ==
  LET v == Av(pr, Prec(pr, s.p))
      sg == VDot(s.r0, v)
      al == Dv(pr, s.rho, sg)
      q == Vd(pr, VSub(s.u, VScale(al, v)))
      z == Prec(pr, Vd(pr, VAdd(s.u, q)))
      r2 == Vd(pr, VSub(s.r, VScale(al, Av(pr, z))))
      rho2 == Rd(pr, VDot(s.r0, r2))
      be == Dv(pr, rho2, s.rho)
      u2 == Vd(pr, VAxpy(be, q, r2))
  IN  [s EXCEPT !.x = Vd(pr, VAxpy(al, z, s.x)), !.r = r2, !.u = u2, !.p = Vd(pr, VAxpy(be, VAxpy(be, s.p, q), u2)), !.rho = rho2,
                !.rr = Rd(pr, Sq(r2)), !.j = @ + 1,
                !.loss = RRound(RMul(@, RMul(Loss(sg, Sq(s.r0), Sq(v)), Loss(s.rho, Sq(s.r0), Sq(s.r)))), 30),
                !.ok = @ /\ LossOk(pr, s.loss) /\ Usable(pr, sg, Sq(s.r0), Sq(v)) /\ Usable(pr, s.rho, Sq(s.r0), Sq(s.r))]

(* Bi-CGSTAB: a check point after each half step *)
BiStep(pr, s) ==
  IF ~s.half
  THEN LET q == Prec(pr, s.p)
           v == Av(pr, q)
           sg == VDot(s.r0, v)
           al == Dv(pr, s.rho, sg)
           h == Vd(pr, VSub(s.r, VScale(al, v)))
       IN  [s EXCEPT !.x = Vd(pr, VAxpy(al, q, s.xb)), !.q = v, !.s = h, !.al = al, !.half = TRUE, !.rr = Rd(pr, Sq(h)), !.j = @ + 1,
                     !.loss = RRound(RMul(@, RMul(Loss(sg, Sq(s.r0), Sq(v)), Loss(s.rho, Sq(s.r0), Sq(s.r)))), 30),
                     !.ok = @ /\ LossOk(pr, s.loss) /\ Usable(pr, sg, Sq(s.r0), Sq(v)) /\ Usable(pr, s.rho, Sq(s.r0), Sq(s.r))]
  ELSE LET z == Prec(pr, s.s)
           t == Av(pr, z)
           om == Dv(pr, VDot(t, s.s), Sq(t))
           r2 == Vd(pr, VSub(s.s, VScale(om, t)))
           x2 == Vd(pr, VAxpy(om, z, s.x))
           rho2 == Rd(pr, VDot(s.r0, r2))
           be == Dv(pr, RMul(rho2, s.al), RMul(s.rho, om))
       IN  [s EXCEPT !.x = x2, !.xb = x2, !.r = r2, !.p = Vd(pr, VAxpy(be, VSub(s.p, VScale(om, s.q)), r2)), !.rho = rho2,
                     !.half = FALSE, !.rr = Rd(pr, Sq(r2)), !.j = @ + 1,
                     !.loss = RRound(RMul(@, Loss(VDot(t, s.s), Sq(t), Sq(s.s))), 30),
                     !.ok = @ /\ LossOk(pr, s.loss) /\ Usable(pr, VDot(t, s.s), Sq(t), Sq(s.s))]

(* Transpose-free QMR: x_j after j products; rr is tau_j^2 *)
TFStep(pr, s) ==
  LET odd == s.j % 2 = 0                     \* the check point to come has an odd number
      first == s.j = 0
      rho2 == Rd(pr, VDot(s.r0, s.w))
      be == Dv(pr, rho2, s.rho)
      y2 == IF first THEN s.y ELSE IF odd THEN Vd(pr, VAxpy(be, s.y, s.w)) ELSE Vd(pr, VSub(s.y, VScale(s.al, s.v)))
      z == Prec(pr, y2)
      u2 == Av(pr, z)
      v2 == IF first THEN u2 ELSE IF odd THEN Vd(pr, VAdd(u2, VScale(be, VAxpy(be, s.v, s.u)))) ELSE s.v
      rho3 == IF odd /\ ~first THEN rho2 ELSE s.rho
      sg == VDot(s.r0, v2)
      al == IF odd THEN Dv(pr, rho3, sg) ELSE s.al
      w2 == Vd(pr, VSub(s.w, VScale(al, u2)))
      d2 == Vd(pr, VAdd(z, VScale(Dv(pr, RMul(s.th2, s.eta), al), s.d)))
      th2 == Dv(pr, Sq(w2), s.rr)
      c2 == Dv(pr, 1, RAdd(1, th2))
      eta == Rd(pr, RMul(c2, al))
  IN  [s EXCEPT !.y = y2, !.u = u2, !.v = v2, !.rho = rho3, !.al = al, !.w = w2, !.d = d2, !.th2 = th2, !.eta = eta,
                !.x = Vd(pr, VAxpy(eta, d2, s.x)), !.rr = Rd(pr, RMul(s.rr, RMul(th2, c2))), !.j = @ + 1,
                !.loss = IF odd THEN RRound(RMul(@, RMul(Loss(sg, Sq(s.r0), Sq(v2)), Loss(rho3, Sq(s.r0), Sq(s.w)))), 30) ELSE @,
                !.ok = @ /\ LossOk(pr, s.loss) /\ (odd => Usable(pr, sg, Sq(s.r0), Sq(v2)) /\ Usable(pr, rho3, Sq(s.r0), Sq(s.w))) /\ RSgn(s.rr) # 0]

KStep(pr, s) == CASE s.m = "cg" -> CGStep(pr, s) [] s.m = "cgs" -> CGSStep(pr, s)
                  [] s.m = "bicgstab" -> BiStep(pr, s) [] s.m = "tfqmr" -> TFStep(pr, s)

(* the states at check points 0, 1, ..., k (fewer if ok fails: the last state then has ok = FALSE) *)
RECURSIVE KGo(_, _, _)
KGo(pr, q, k) == IF k = 0 \/ ~q[Len(q)].ok THEN q ELSE KGo(pr, Append(q, TLCEval(KStep(pr, q[Len(q)]))), k - 1)
KRun(m, pr, b, x0, k) == KGo(pr, <<KInit(m, pr, b, x0)>>, k)

\* the run is determined well: with a precision much lower than that of the machine (40 bits) it is nearly the same.
\* xs: size of the solution.  Residuals are compared to their own size (or that of the one before).
StableRun(m, pr, b, x0, run, xs) ==
  LET k == Len(run) - 1
      low == TLCEval(KRun(m, [A |-> pr.A, P |-> pr.P, pc |-> 40], b, x0, k))
  IN  /\ Len(low) = k + 1 /\ low[k + 1].ok
      /\ \A j \in 1..(k + 1) : /\ RLe(VMaxAbs(VSub(low[j].x, run[j].x)), RMul("1/10000", xs))
                             /\ RLe(RAbs(RSub(low[j].rr, run[j].rr)), RMul("1/10000", IF j = 1 THEN run[j].rr ELSE RMax(run[j].rr, run[j - 1].rr)))

(* square of the bound on the residual norm that the method compares with its threshold *)
Bound2(m, rr, j) == IF m = "tfqmr" THEN RMul(j + 1, rr) ELSE rr

(* Krylov space of M and v: v, Mv, ..., M^(k-1) v *)
RECURSIVE Basis(_, _, _)
Basis(mm, v, k) == IF k = 0 THEN <<>> ELSE <<v>> \o Basis(mm, MVec(mm, v), k - 1)

---------------------------------------------------------------------------
(* Methods for symmetric A' = A - shift I, possibly indefinite or singular, and symmetric positive definite P:
   their iterates are defined by the Krylov space of P A' and P b.
   Lanczos vectors (not normalised): us[1] = b, the us are P-orthogonal.  These points are computed exactly, whatever PREC. *)
Shifted(a, sh) == [i \in DOMAIN a |-> [j \in DOMAIN a |-> IF i = j THEN RSub(a[i][j], sh) ELSE a[i][j]]]
RECURSIVE LanGo(_, _, _)
(* q = [us, vs = P us, nn = us'P us, al = diagonal of T, be2 = squares of its off-diagonal (be2[1] = b'Pb)] *)
LanGo(pr, q, k) ==
  LET j == Len(q.us)
      w == MVec(pr.A, q.vs[j])
      al == RDiv(VDot(q.vs[j], w), q.nn[j])
      u0 == VSub(w, VScale(al, q.us[j]))
      u2 == RoundTo(q.pc, IF j = 1 THEN u0 ELSE VSub(u0, VScale(q.be2[j], q.us[j - 1])))
      v2 == PVec(pr, u2)
      nn2 == VDot(u2, v2)
      b2 == RDiv(nn2, q.nn[j])
      \* negligible: the space is exhausted
      scale == RDiv(VDot(w, PVec(pr, w)), q.nn[j])
      z == RSgn(nn2) = 0
      q2 == [q EXCEPT !.al = Append(@, al)]
  IN  IF k = 0 THEN q
      ELSE IF z THEN [q2 EXCEPT !.full = TRUE]
      ELSE LET q3 == [q2 EXCEPT !.us = Append(@, u2), !.vs = Append(@, v2), !.nn = Append(@, nn2), !.be2 = Append(@, b2),
                                !.loss = IF PREC = 0 THEN 1 ELSE RRound(RMul(@, RMax(1, RDiv(scale, b2))), 30),
                                !.ok = @ /\ (PREC = 0 \/ RLt(RMul("1/100000", scale), b2)) /\ LossOk(pr, q.loss)]
           IN  LanGo(pr, TLCEval(q3), k - 1)
\* k steps of the process (one product each); b # 0. full: the space is invariant, of dimension Len(us)
\* pc: vectors are kept to pc bits (0: exactly)
LanP(pr, b, k, pc) == LET v == PVec(pr, b) n2 == VDot(b, v) IN
  LanGo(pr, [us |-> <<b>>, vs |-> <<v>>, nn |-> <<n2>>, al |-> <<>>, be2 |-> <<n2>>, full |-> FALSE, loss |-> 1, ok |-> TRUE, pc |-> pc], k)
Lan(pr, b, k) == LanP(pr, b, k, 0)
\* the coefficients are determined well: with a precision much lower than that of the machine they are nearly the same
StableLan(pr, b, q) ==
  LET k == Len(q.al) r == LanP(pr, b, k, 40) IN
  /\ Len(r.al) >= k
  /\ \A j \in 1..k : /\ RLe(RAbs(RSub(r.al[j], q.al[j])), RMul("1/1000000", RMax(RAbs(q.al[j]), RSqrt(q.be2[j]))))
                    /\ RLe(RAbs(RSub(r.be2[j], q.be2[j])), RMul("1/1000000", q.be2[j]))
RECURSIVE Comb(_, _, _)
Comb(cs, vs, n) == IF vs = <<>> THEN VZero(n) ELSE VAxpy(Head(cs), Head(vs), Comb(Tail(cs), Tail(vs), n))
Gram(us, vs) == [i \in DOMAIN us |-> [j \in DOMAIN vs |-> VDot(us[i], vs[j])]]
\* the combination x of ws with V'(b - A x) = 0: <<unique, x>>
Galerkin(pr, b, vs, ws) ==
  IF ws = <<>> THEN <<TRUE, VZero(Len(b))>>
  ELSE LET aw == [j \in DOMAIN ws |-> MVec(pr.A, ws[j])]
           s == MSolve(Gram(vs, aw), MVec(vs, b))
       IN  IF s[1] THEN <<TRUE, Comb(s[2], ws, Len(b))>> ELSE <<FALSE, <<>>>>
First(q, k) == SubSeq(q, 1, k)
\* MINRES after k steps: least P-norm of the residual over P K_k
MinresPt(pr, b, vs) ==
  Galerkin(pr, b, [j \in DOMAIN vs |-> PVec(pr, MVec(pr.A, vs[j]))], vs)
\* SYMMLQ: the CG point of P K_k, and the LQ point: least error over P A P K_(k-1)
CGPt(pr, b, vs) == Galerkin(pr, b, vs, vs)
LQPt(pr, b, vs) == Galerkin(pr, b, vs, [j \in DOMAIN vs |-> PVec(pr, MVec(pr.A, vs[j]))])
PNorm2(pr, r) == VDot(r, PVec(pr, r))
Res(pr, b, x) == VSub(b, MVec(pr.A, x))
=============================================================================
