------------------------------- MODULE KrylovTrace -------------------------------
(* Checks recorded solves of the real iterative methods against Krylov. *)
EXTENDS Krylov, Parts, Tools, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, sol, bad
If(cond, s) == IF cond THEN s ELSE {}
FinV(v) == \A i \in DOMAIN v : RFin(v[i])
\* |v - w| within rel * size
NearV(v, w, rel, size) == Len(v) = Len(w) /\ FinV(v) /\ RLe(VMaxAbs(VSub(v, w)), RMul(rel, size))
Near(a, b, rel, size) == RFin(a) /\ RLe(RAbs(RSub(a, b)), RMul(rel, size))
E6 == "1/1000000"
E7 == "1/10000000"
E9 == "1/1000000000"
Up == "1000001/1000000"
Dn == "999999/1000000"
Max2(i, j) == IF i < j THEN j ELSE i
AbsM(a) == IF a = <<>> THEN 1 ELSE RMax("1/1000", RMul(MMaxAbs(a), Len(a)))
Tol(s, which) == LET v == s[which] IN
  IF v = "d" THEN IF which = "abstol" THEN "1/100000000" ELSE "1/1000000" ELSE v
MaxX(run) == LET RECURSIVE go(_)
                 go(i) == IF i = 0 THEN 0 ELSE RMax(VMaxAbs(run[i].x), go(i - 1))
             IN go(Len(run))
\* few digits: short sums of products are computed exactly
Ints(v) == \A i \in DOMAIN v : REq(v[i], RRound(v[i], 8))
Clear(a) == ~IsSym(a) /\ RLe(RMul("1/100", RMul(MMaxAbs(a), MMaxAbs(a))), MMaxAbs(Asym(a)))   \* clearly not symmetric
Null(v) == FinV(v) /\ \A i \in DOMAIN v : RSgn(v[i]) = 0
Nm(s) == s.m \o (IF s.P = <<>> THEN "" ELSE "/precon")

On(v, default) == IF v = "d" THEN default ELSE v = "T"

\* C28: the same system in other units (A 2^i, b 2^j, precon 4^p) has the same solution, in its units, found in the same way
Units(nx, c, o, size) ==
  IF o.u = <<>> THEN {} ELSE
  LET u == o.u[1] f == RPow2(c.sc[2] - c.sc[1]) IN
  IF u.out # "ok" THEN {"C28 " \o nx \o " in other units: raises " \o u.exc}
  ELSE If(u.conv # o.conv \/ u.nmv # o.nmv \/ u.istop # o.istop, {"C28 " \o nx \o " in other units: another outcome"})
       \cup If(u.nmv = o.nmv /\ FinV(o.x) /\ ~NearV(u.x, VScale(f, o.x), E6, RMul(f, size)), {"C28 " \o nx \o " in other units: another solution"})

\* ... and what is refused is refused in any units
Refuses(nx, c, o) ==
  IF o.u = <<>> THEN {}
  ELSE IF o.none THEN If(o.u[1].out # "none", {"C28 " \o nx \o " in other units: no longer refused"})
  ELSE IF o.u[1].out # "ok" THEN {"C28 " \o nx \o " in other units: raises " \o o.u[1].exc}
  ELSE If(o.u[1].istop # o.istop \/ o.u[1].conv # o.conv, {"C28 " \o nx \o " in other units: no longer refused"})

---------------------------------------------------------------------------
(* CG, CGS, Bi-CGSTAB, TFQMR *)
JudgeShort(s, c, o) ==
  LET n == s.n
      long == n > 5
      pr == IF long THEN [A |-> s.A, P |-> s.P, pc |-> PREC] ELSE [A |-> s.A, P |-> s.P]
      x0 == IF o.g = <<>> THEN VZero(n) ELSE o.g           \* the guess as it was given
      nmv0 == IF o.g = <<>> THEN 0 ELSE 1
      mm == IF o.mm = -1 THEN 2 * n ELSE o.mm
      cost == Cost(s.m)
      cg == s.m = "cg"
      curvstop == cg /\ ~o.def
      work == o.nmv - nmv0 - (IF curvstop THEN 1 ELSE 0)
      whole == work >= 0 /\ work % cost = 0
      JJ == IF whole THEN work \div cost ELSE 0
      J == IF JJ <= Max2(14, 2 * n + 3) THEN JJ ELSE 0
      run == TLCEval(KRun(s.m, pr, c.b, x0, J))
      ini == run[1]
      size0 == RMax(VMaxAbs(c.b), RMul(AbsM(s.A), VMaxAbs(x0)))
      size == RMax(size0, RMul(AbsM(s.A), MaxX(run)))             \* rounding acts at this scale
      msize == RMul(size, AbsM(s.P))
      xsize == RMax(MaxX(run), RDiv(size0, AbsM(s.A)))
      \* the exact run is a reference up to check point J
      good == /\ whole /\ JJ = J /\ Len(run) = J + 1 /\ run[J + 1].ok
              /\ \A k \in 1..J : RLt(RMul("1/10000000000000000", RMul(size, size)), RMul(run[k].rr, 1))
              /\ (~long \/ StableRun(s.m, pr, c.b, x0, run, xsize))
      at == run[J + 1]
      r0n == RSqrt(RMax(0, ini.rr))
      thr == RMax(Tol(s, "abstol"), RMul(Tol(s, "reltol"), o.res0))
      thr2 == RMul(thr, thr)
      f == Bound2(s.m, RMul(o.res, o.res), JJ)                       \* square of the bound the method compares
      tr == Res(pr, c.b, o.x)
      truenorm == RSqrt(RMax(0, IF cg THEN PNorm2(pr, tr) ELSE Sq(tr)))
      fin == RFin(o.res) /\ RFin(o.res0)
      nx == Nm(s)
  IN
  \* C13
  If(~o.best, {"C13 " \o nx \o " x is not bestSolution"})
  \cup If(o.conv /\ ~fin, {"C13 " \o nx \o " converged with a residual norm that is not a number"})
  \cup (IF ~fin THEN {} ELSE
          If(o.conv /\ whole /\ RLt(RMul(thr2, Up), f), {"C13 " \o nx \o " converged, but the reported residual norm is above the threshold"})
          \cup If(~o.conv /\ whole /\ RLt(f, RMul(thr2, Dn)), {"C13 " \o nx \o " not converged, but the reported residual norm is below the threshold"})
          \cup If(o.conv /\ curvstop, {"C13 " \o nx \o " converged though stopped by curvature"}))
  \cup If(~RFin(o.res0) \/ (RFin(o.res0) /\ ~Near(o.res0, r0n, E7, msize)), {"C13 " \o nx \o " initial residual norm"})
  \cup (IF ~good THEN {} ELSE
          If(~FinV(o.x) \/ ~RFin(o.res), {"C13 " \o nx \o " result is not finite"})
          \cup (IF ~FinV(o.x) \/ ~RFin(o.res) THEN {} ELSE
             If(s.m # "tfqmr" /\ ~Near(o.res, truenorm, E7, msize), {"C13 " \o nx \o " reported residual norm is not that of the solution returned"})
             \cup If(s.m = "tfqmr" /\ ~RLe(RMul(truenorm, truenorm), RAdd(RMul(f, Up), RMul("1/100000000000000", RMul(size, size)))),
                     {"C13 " \o nx \o " reported residual bound does not bound the residual of the solution returned"})
             \cup If(o.conv /\ RLt(RAdd(RMul(thr, Up), RMul("1/10000000", size)), truenorm),
                     {"C13 " \o nx \o " converged, but the residual is above the threshold"})))
  \* a tolerance met from the start
  \cup If(RLe(1, Tol(s, "reltol")) /\ fin /\ ~(o.conv /\ work = 0), {"C13 " \o nx \o " goes on though the threshold was met from the start"})
  \* C14
  \cup If(o.nmv # o.count - (IF On(c.chk, FALSE) /\ cg /\ o.count > o.nmv THEN o.count - o.nmv ELSE 0), {"C14 " \o nx \o " nMatvec is not the number of products"})
  \cup If(o.nmv > Max2(mm + cost - 1, nmv0), {"C14 " \o nx \o " more products than allowed"})
  \cup If(~whole, {"C14 " \o nx \o " number of products does not fit the iterations"})
  \cup If(o.nmv < mm /\ ~o.conv /\ RFin(o.res) /\ ~curvstop /\ (good \/ ~cg), {"C14 " \o nx \o " stopped with budget left, not converged"})
  \cup If(good /\ J > 0 /\ (cg => ~curvstop) /\
            (LET b2 == Bound2(s.m, run[J].rr, J - 1) IN
             RLt(b2, RMul(thr2, "99/100")) /\ RLt(RMul("1/100000000000000", RMul(msize, msize)), thr2)),
          {"C14 " \o nx \o " goes on though the threshold was met"})
  \cup If(JJ > 0 /\ nmv0 + (JJ - 1) * cost >= mm, {"C14 " \o nx \o " goes on though the budget was used up"})
  \cup (IF good THEN Units(nx, c, o, xsize) ELSE {})
  \* C16, C17
  \cup (IF ~good THEN {} ELSE
          If(~NearV(o.x, at.x, E6, xsize), {(IF cg THEN "C16 " ELSE "C17 ") \o nx \o " is not the iterate after " \o ToString(J) \o " steps"})
          \cup If(s.m = "tfqmr" /\ ~Near(o.res, RSqrt(at.rr), E6, msize), {"C17 " \o nx \o " quasi-residual norm"}))
  \cup (IF ~cg THEN {} ELSE
          LET dd == o.desc
              nextc == IF good THEN VDot(at.p, MVec(s.A, at.p)) ELSE 0
              scale == IF good THEN RMul(RMul(Sq(at.p), AbsM(s.A)), "1/10000000000") ELSE 0
          IN
          \* curvature is exactly zero along the first direction
          If(On(c.curv, TRUE) /\ ~curvstop /\ ~o.conv /\ mm > nmv0 /\ Ints(c.b) /\ Ints(x0) /\ s.P = <<>> /\ RSgn(ini.rr) # 0 /\ RSgn(VDot(ini.p, MVec(s.A, ini.p))) = 0,
             {"C16 " \o nx \o " went on along a direction of zero curvature"})
          \cup If(curvstop /\ dd = <<>>, {"C16 " \o nx \o " not definite, but no direction"})
          \cup If(curvstop /\ ~On(c.curv, TRUE), {"C16 " \o nx \o " curvature checked though not asked"})
          \cup (IF ~curvstop \/ dd = <<>> THEN {} ELSE
                 If(~FinV(dd) \/ Len(dd) # n, {"C16 " \o nx \o " direction is not finite"})
                 \cup (IF ~FinV(dd) \/ Len(dd) # n \/ ~good THEN {} ELSE
                         If(RSgn(Sq(dd)) = 0 \/ RLt(RMul(RMul(Sq(dd), AbsM(s.A)), "1/10000000000"), VDot(dd, MVec(s.A, dd))),
                           {"C16 " \o nx \o " direction has positive curvature"})
                         \cup If(good /\ RLt(VDot(dd, Res(pr, c.b, at.x)), RMul(RNeg(E6), RMul(RSqrt(Sq(dd)), msize))),
                                 {"C16 " \o nx \o " direction is not one of descent"})))
          \* every step taken with the check on had positive curvature
          \cup If(good /\ On(c.curv, TRUE) /\ \E k \in 1..J : RLt(VDot(run[k].p, MVec(s.A, run[k].p)), RMul(RMul(Sq(run[k].p), AbsM(s.A)), RNeg(E9))),
                  {"C16 " \o nx \o " went on along a direction of negative curvature"})
          \cup If(good /\ curvstop /\ RLt(RMul(scale, 1000), nextc), {"C16 " \o nx \o " stopped though the curvature is positive"}))
  \* C26
  \cup (IF ~cg THEN {} ELSE
          If(Len(o.hist) # work + 1, {"C26 cg residual history has a wrong length"})
          \cup If(o.hist # <<>> /\ ~(o.hist[1] = o.res0 /\ o.hist[Len(o.hist)] = o.res), {"C26 cg residual history does not begin or end with the norms reported"})
          \cup If(Len(o.resids) # (IF On(c.sr, FALSE) THEN work + 1 ELSE 0), {"C26 cg stored residuals: wrong number"})
          \cup If(Len(o.its) # (IF On(c.si, FALSE) THEN work + 1 ELSE 0), {"C26 cg stored iterates: wrong number"})
          \cup If(On(c.si, FALSE) /\ o.its # <<>> /\ FinV(o.x) /\ o.its[Len(o.its)] # o.x, {"C26 cg the last iterate stored is not the solution"})
          \cup (IF ~good THEN {} ELSE
                  If(Len(o.hist) = J + 1 /\ \E k \in 1..(J + 1) : ~Near(o.hist[k], RSqrt(RMax(0, run[k].rr)), E6, msize), {"C26 cg residual history"})
                  \cup If(Len(o.resids) = J + 1 /\ \E k \in 1..(J + 1) : ~NearV(VScale(-1, o.resids[k]), run[k].y, E6, RMul(msize, AbsM(s.P))), {"C26 cg stored residuals"})
                  \cup If(Len(o.its) = J + 1 /\ \E k \in 1..(J + 1) : ~NearV(o.its[k], run[k].x, E6, xsize), {"C26 cg stored iterates"})))

---------------------------------------------------------------------------
(* MINRES *)
Off(pr, b, vs, x) == PNorm2(pr, Res(pr, b, x))
LsFails(pr, b, x, rtol, anorm, b1) ==
  LET r == Res(pr, b, x) IN
  RLt(RAdd(RMul("101/100", RMul(RMul(rtol, anorm), RSqrt(PNorm2(pr, r)))), RMul(RMul(E9, b1), AbsM(pr.A))), RSqrt(PNorm2(pr, MVec(pr.A, PVec(pr, r)))))
JudgeMinres(s, c, o) ==
  LET n == s.n
      pr == [A |-> Shifted(s.A, IF c.shift = "d" THEN 0 ELSE c.shift), P |-> s.P]
      lim == IF o.mm = -1 THEN 5 * n ELSE Max2(1, o.mm)
      \* updates of x; the iteration that finds A r = 0 makes none
      k == Len(o.hist)
      zero == RSgn(Sq(c.b)) = 0
      rtol == IF c.rtol = "d" THEN "1/1000000000000" ELSE RMax(c.rtol, "3/10000000000000000")
      top == Max2(8, n)
      q == Lan(pr, c.b, IF o.itn > top THEN top ELSE o.itn)
      dim == IF q.full THEN Len(q.us) ELSE 99
      known == ~zero /\ o.itn >= 1 /\ o.itn <= top /\ q.ok /\ k <= dim /\ (Len(q.al) <= 5 \/ StableLan(pr, c.b, q))
      vs == IF known THEN First(q.vs, k) ELSE <<>>
      pt == IF known THEN MinresPt(pr, c.b, vs) ELSE <<FALSE, <<>>>>
      \* small perturbations of the system move the point little
      cond == pt[1] /\ RLe(RMul(VMaxAbs(pt[2]), AbsM(pr.A)), RMul(1000, VMaxAbs(c.b)))
      good == known /\ cond
      b1 == RSqrt(PNorm2(pr, c.b))
      size == RMax(VMaxAbs(c.b), RMul(AbsM(pr.A), IF cond THEN VMaxAbs(pt[2]) ELSE 0))
      msize == RMul(size, AbsM(s.P))
      nx == Nm(s)
      prevpt == IF good /\ k > 1 THEN MinresPt(pr, c.b, First(vs, k - 1)) ELSE <<FALSE, <<>>>>
      \* Frobenius norm of the Lanczos matrix, with beta_1
      w == IF c.window = -1 THEN 5 ELSE c.window
      etol == IF c.etol = "d" THEN E6 ELSE c.etol
      RR(j) == PNorm2(pr, Res(pr, c.b, IF j = 0 THEN VZero(n) ELSE MinresPt(pr, c.b, First(vs, j))[2]))
      Fine(j) == j = 0 \/ (LET p == MinresPt(pr, c.b, First(vs, j)) IN p[1] /\ RLe(RMul(VMaxAbs(p[2]), AbsM(pr.A)), RMul(1000, VMaxAbs(c.b))))
      Win(j) == LET d == RSub(RR(0), RR(j)) IN RSqrt(RDiv(RMax(0, RSub(RR(j - w), RR(j))), d))
      fro2 == RSum([j \in 1..Len(q.al) |-> RAdd(RMul(q.al[j], q.al[j]), RAdd(IF j = 1 THEN 0 ELSE q.be2[j], IF j < Len(q.be2) THEN q.be2[j + 1] ELSE 0))])
      \* squares of the diagonal of R in the QR factorisation of the Lanczos matrix
      ws == [j \in DOMAIN vs |-> MVec(pr.A, vs[j])]
      pw == [j \in DOMAIN vs |-> PVec(pr, ws[j])]
      Gam2(j) == LET g == MVec(First(pw, j - 1), ws[j])
                     h == IF j = 1 THEN 0 ELSE LET z == MSolve(Gram(First(ws, j - 1), First(pw, j - 1)), g) IN VDot(g, z[2])
                 IN  RDiv(RSub(VDot(ws[j], pw[j]), h), q.nn[j])
      gs == TLCEval([j \in 1..k |-> Gam2(j)])
      gmax == VMaxAbs(gs)
      gmin == LET RECURSIVE go(_)
                  go(j) == IF j = 1 THEN gs[1] ELSE RMin(gs[j], go(j - 1))
              IN go(k)
      eps == "2/10000000000000000"
  IN
  If(~o.best, {"C18 " \o nx \o " x is not bestSolution"})
  \cup If(~FinV(o.x) /\ good, {"C18 " \o nx \o " solution is not finite"})
  \cup If(o.nmv # o.itn \/ (~On(c.chk, TRUE) /\ o.count # o.nmv) \/ o.count < o.nmv, {"C14 " \o nx \o " nMatvec is not the number of products"})
  \cup If(o.itn > lim, {"C14 " \o nx \o " more iterations than allowed"})
  \cup If(o.itn < lim /\ ~o.conv, {"C14 " \o nx \o " stopped with budget left, not converged"})
  \cup If(o.conv # ((o.istop \in {-1, 1, 2, 3, 4, 10}) \/ (o.istop = 0 /\ zero)), {"C18 " \o nx \o " converged does not go with istop"})
  \cup If(o.istop \in {7, 8, 9}, {"C18 " \o nx \o " a symmetric system is reported not symmetric or the preconditioner not definite"})
  \cup If(o.istop = 6 /\ o.itn # lim, {"C18 " \o nx \o " iteration limit reported but not reached"})
  \cup If((o.istop = 0) # zero, {"C18 " \o nx \o " istop 0 goes with b = 0"})
  \cup If(zero /\ ~(FinV(o.x) /\ RSgn(Sq(o.x)) = 0 /\ o.itn = 0), {"C18 " \o nx \o " b = 0 but the solution is not"})
  \cup If(o.istop = -1 /\ ~(o.itn = 1 /\ (known => dim = 1)), {"C18 " \o nx \o " b reported an eigenvector but it is not"})
  \cup If(o.istop = 10 /\ c.etol = "0", {"C18 " \o nx \o " stopped by an error test that was off"})
  \cup If(~zero /\ ~(RFin(o.res0) /\ Near(o.res0, b1, E7, msize)), {"C18 " \o nx \o " initial residual norm"})
  \cup (IF o.istop # 1 THEN {} ELSE
          If(~(RFin(o.rnorm) /\ RFin(o.Anorm) /\ RFin(o.ynorm)), {"C18 " \o nx \o " norms are not finite"})
          \cup If(RFin(o.rnorm) /\ RFin(o.Anorm) /\ RFin(o.ynorm) /\ RLt(RMul(Up, RMul(rtol, RMul(o.Anorm, o.ynorm))), o.rnorm),
                 {"C18 " \o nx \o " accuracy reported is not reached by the residual norm reported"}))
  \cup If(o.istop \in {3, 4, 6} /\ ~zero /\ RFin(o.rnorm) /\ RFin(o.Anorm) /\ RFin(o.ynorm) /\ RSgn(o.ynorm) > 0 /\ RLt(o.rnorm, RMul(Dn, RMul(IF c.rtol = "d" THEN rtol ELSE c.rtol, RMul(o.Anorm, o.ynorm)))),
         {"C18 " \o nx \o " limit reported although the accuracy asked for is reached"})
  \* limits of the machine reported only when they are met
  \cup If(o.istop = 3 /\ RFin(o.Anorm) /\ RFin(o.ynorm) /\ RLt(RMul(RMul("5/10000000000000000", o.Anorm), o.ynorm), o.res0), {"C18 " \o nx \o " reasonable accuracy reported, but it is not reached"})
  \cup If(o.istop = 4 /\ RFin(o.Acond) /\ RLt(o.Acond, "400000000000000"), {"C18 " \o nx \o " condition limit reported, but not reached by the estimate"})
  \cup If(o.istop \in {3, 4} /\ good /\ RLt(RMul(gmax, "1/1000000000000000000000000"), gmin), {"C18 " \o nx \o " limit of the machine reported for a well-conditioned system"})
  \cup If(good /\ o.itn = k /\ RLt(RMul("1/100000000", gmax), gmin) /\
          ~(RFin(o.Acond) /\ Near(RMul(o.Acond, o.Acond), RDiv(gmax, gmin), "1/1000", RDiv(gmax, gmin))), {"C18 " \o nx \o " condition estimate"})
  \* accuracy with the true norms
  \cup If(o.istop = 1 /\ s.P = <<>> /\ FinV(o.x) /\
          (LET r == Res(pr, c.b, o.x) f == RMul(rtol, RMul(RMul(2, AbsM(pr.A)), VMaxAbs(o.x))) IN
           RLt(RAdd(RMul(f, n), RMul("1/1000000000000", RAdd(VMaxAbs(c.b), RMul(AbsM(pr.A), VMaxAbs(o.x))))), VMaxAbs(r))),
         {"C18 " \o nx \o " accuracy reported is not reached by the solution returned"})
  \* least-squares: A r is negligible at the solution returned
  \cup If(o.istop = 2 /\ known /\ (~FinV(o.x) \/ ~RFin(o.Anorm) \/ (FinV(o.x) /\ RFin(o.Anorm) /\ LsFails(pr, c.b, o.x, rtol, o.Anorm, b1))),
         {"C18 " \o nx \o " least-squares solution reported, but A r is not small"})
  \cup (IF good THEN Units(nx, c, o, RMul(RMax(VMaxAbs(pt[2]), RDiv(size, AbsM(pr.A))), 10)) ELSE {})
  \cup (IF ~good \/ ~FinV(o.x) \/ ~RFin(o.rnorm) THEN {} ELSE
          If(~NearV(o.x, pt[2], E6, RMul(RMax(VMaxAbs(pt[2]), RDiv(size, AbsM(pr.A))), 10)), {"C18 " \o nx \o " is not the minimum residual point after " \o ToString(k) \o " steps"})
          \cup If(~Near(o.rnorm, RSqrt(PNorm2(pr, Res(pr, c.b, o.x))), E6, msize) \/ o.res # o.rnorm, {"C18 " \o nx \o " reported residual norm is not that of the solution returned"})
          \cup If(~(RFin(o.Anorm) /\ Near(RMul(o.Anorm, o.Anorm), fro2, "1/10000", fro2)), {"C18 " \o nx \o " norm of A"})
          \* not stopped later than needed
          \cup If(Len(o.hist) = k /\ k > 1 /\ prevpt[1] /\ RFin(o.hist[k - 1]) /\ ~Near(o.hist[k - 1], RSqrt(PNorm2(pr, Res(pr, c.b, prevpt[2]))), E6, msize),
                  {"C26 minres residual history"}))
  \cup If(Len(o.hist) # o.itn /\ ~(o.istop = 2 /\ (Len(o.hist) = o.itn - 1 \/ (o.itn = 2 /\ o.hist = <<>>))), {"C26 minres residual history has a wrong length"})
  \cup If(o.hist # <<>> /\ o.hist[Len(o.hist)] # o.res, {"C26 minres residual history does not end with the norm reported"})
  \cup If(\E j \in 2..Len(o.hist) : RFin(o.hist[j]) /\ RFin(o.hist[j - 1]) /\ RLt(RMul(o.hist[j - 1], Up), o.hist[j]), {"C26 minres residual history increases"})
  \cup If(Len(o.win) # (IF k > w THEN k - w ELSE 0), {"C26 minres error estimates: wrong number"})
  \cup If(FinV(o.win) /\ \E j \in 1..(Len(o.win) - 1) : RLt(o.win[j], RMul(Dn, etol)), {"C18 " \o nx \o " goes on though the error estimate is below etol"})
  \cup If(o.istop = 10 /\ ~(Len(o.win) > 0 /\ FinV(o.win) /\ RLe(o.win[Len(o.win)], RMul(Up, etol))), {"C18 " \o nx \o " small error reported, but the estimate is not below etol"})
  \cup If(o.istop # 10 /\ Len(o.win) > 0 /\ FinV(o.win) /\ o.istop # 2 /\ RLt(o.win[Len(o.win)], RMul(Dn, etol)), {"C18 " \o nx \o " error estimate below etol, but another reason reported"})
  \cup If(good /\ k > w /\ Len(o.win) = k - w /\ \E j \in (w + 1)..k : Fine(j) /\ Fine(j - w) /\ RLt(RMul("1/10000000000", RR(0)), RSub(RR(0), RR(j))) /\
            ~(RFin(o.win[j - w]) /\ RLe(RAbs(RSub(o.win[j - w], Win(j))), "1/100000")), {"C26 minres error estimates"})
  \cup If(Len(o.its) # (IF On(c.si, FALSE) THEN k + 1 ELSE 0), {"C26 minres stored iterates: wrong number"})
  \cup If(On(c.si, FALSE) /\ o.its # <<>> /\ FinV(o.x) /\ o.its[Len(o.its)] # o.x, {"C26 minres the last iterate stored is not the solution"})
  \cup If(o.its # <<>> /\ ~Null(o.its[1]), {"C26 minres the first iterate stored is not the initial guess"})
  \cup If(On(c.si, FALSE) /\ good /\ Len(o.its) = k + 1 /\
          \E j \in 2..k : LET p == MinresPt(pr, c.b, First(vs, j - 1)) IN
             p[1] /\ RLe(RMul(VMaxAbs(p[2]), AbsM(pr.A)), RMul(1000, VMaxAbs(c.b))) /\ ~NearV(o.its[j], p[2], E6, RMul(RMax(VMaxAbs(p[2]), RDiv(size, AbsM(pr.A))), 10)),
          {"C26 minres stored iterates"})

\* systems or preconditioners that are not as they should be
RejectMinres(s, c, o) ==
  LET neg == s.P # <<>> /\ RSgn(VDot(c.b, MVec(s.P, c.b))) < 0
      clear == Clear(s.A) /\ On(c.chk, TRUE)
      nx == Nm(s)
      Refused(i) == o.istop = i /\ ~o.conv /\ o.itn = 0 /\ Null(o.x) IN
  IF ~neg /\ clear THEN If(~Refused(7), {"C18 " \o nx \o " a system that is not symmetric is not refused"}) \cup Refuses(nx, c, o)
  ELSE IF neg /\ IsSym(s.A) THEN If(~Refused(9), {"C18 " \o nx \o " an indefinite preconditioner is not refused"}) \cup Refuses(nx, c, o)
  ELSE {}

---------------------------------------------------------------------------
(* SYMMLQ *)
RejectSymmlq(s, c, o) ==
  LET neg == s.P # <<>> /\ RSgn(VDot(c.b, MVec(s.P, c.b))) < 0
      av == MVec(s.A, c.b)
      clear == On(c.chk, FALSE) /\ s.P = <<>> /\ RSgn(Sq(av)) > 0 /\ RLt(RMul("1/10000", Sq(av)), RAbs(VDot(c.b, MVec(Asym(s.A), c.b))))
      nx == Nm(s)
      Refused(i) == o.istop = i /\ ~o.conv /\ Null(o.x) IN
  IF clear THEN If(~Refused(6), {"C19 " \o nx \o " a system that is not symmetric is not refused"}) \cup Refuses(nx, c, o)
  ELSE IF neg /\ IsSym(s.A) THEN If(~Refused(8), {"C19 " \o nx \o " an indefinite preconditioner is not refused"}) \cup Refuses(nx, c, o)
  ELSE {}
PInvNorm2(pr, x) == IF pr.P = <<>> THEN Sq(x) ELSE VDot(x, MSolve(pr.P, x)[2])
JudgeSymmlq(s, c, o) ==
  LET n == s.n
      pr == [A |-> Shifted(s.A, IF c.shift = "d" THEN 0 ELSE c.shift), P |-> s.P]
      mm == IF o.mm = -1 THEN 2 * n + 2 ELSE o.mm
      zero == RSgn(Sq(c.b)) = 0
      k == o.nmv - 1
      rtol == IF c.rtol = "d" THEN E9 ELSE c.rtol
      top == Max2(8, n)
      q == Lan(pr, c.b, IF k > top THEN top ELSE k)
      dim == IF q.full THEN Len(q.us) ELSE 99
      known == ~zero /\ k >= 1 /\ k <= top /\ q.ok /\ k <= dim /\ (Len(q.al) <= 5 \/ StableLan(pr, c.b, q))
      vs == First(q.vs, k)
      cp == IF known THEN CGPt(pr, c.b, vs) ELSE <<FALSE, <<>>>>
      lp == IF known THEN LQPt(pr, c.b, First(vs, k - 1)) ELSE <<FALSE, <<>>>>
      nb == VMaxAbs(c.b)
      Fair(p) == p[1] /\ RLe(RMul(VMaxAbs(p[2]), AbsM(pr.A)), RMul(1000, nb))
      cok == Fair(cp)
      lok == Fair(lp)
      \* the CG point is far away or does not exist: then it is not returned
      cfar == known /\ (~cp[1] \/ RLe(RMul(1000000, nb), RMul(VMaxAbs(cp[2]), AbsM(pr.A))))
      xs == RMax(IF cok THEN VMaxAbs(cp[2]) ELSE 0, IF lok THEN VMaxAbs(lp[2]) ELSE 0)
      size == RMax(nb, RMul(AbsM(pr.A), xs))
      xsize == RMul(10, RMax(xs, RDiv(nb, AbsM(pr.A))))
      isC == cok /\ NearV(o.x, cp[2], E6, xsize)
      isL == lok /\ NearV(o.x, lp[2], E6, xsize)
      rc == RSqrt(PNorm2(pr, Res(pr, c.b, cp[2])))
      rl == RSqrt(PNorm2(pr, Res(pr, c.b, lp[2])))
      \* T is well conditioned: both points computed with little error
      good == known /\ lok /\ (cok \/ (cfar /\ k < dim))
      rr == IF FinV(o.x) THEN PNorm2(pr, Res(pr, c.b, o.x)) ELSE 0
      fro2 == RSum([j \in 1..k |-> RAdd(RMul(q.al[j], q.al[j]), RAdd(IF j = 1 THEN 0 ELSE q.be2[j], IF j < Len(q.be2) THEN q.be2[j + 1] ELSE 0))])
      nx == Nm(s)
      \* pivots of T, for the LQ point
      ws == [j \in 1..(k - 1) |-> MVec(pr.A, vs[j])]
      pw == [j \in 1..(k - 1) |-> PVec(pr, ws[j])]
      Gam2(j) == LET g == MVec(First(pw, j - 1), ws[j])
                     h == IF j = 1 THEN 0 ELSE LET z == MSolve(Gram(First(ws, j - 1), First(pw, j - 1)), g) IN VDot(g, z[2])
                 IN  RDiv(RSub(VDot(ws[j], pw[j]), h), q.nn[j])
      gs == TLCEval([j \in 1..(k - 1) |-> Gam2(j)])
      gmin == LET RECURSIVE go(_)
                  go(j) == IF j = 1 THEN gs[1] ELSE RMin(gs[j], go(j - 1))
              IN go(k - 1)
  IN
  If(~o.best, {"C19 " \o nx \o " x is not bestSolution"})
  \cup If((~On(c.chk, FALSE) /\ o.count # o.nmv) \/ o.count < o.nmv, {"C14 " \o nx \o " nMatvec is not the number of products"})
  \cup If(o.nmv > Max2(mm, 1) + 1, {"C14 " \o nx \o " more products than allowed"})
  \cup If(k < Max2(mm, 1) /\ ~o.conv /\ ~(o.istop \in {3, 4}), {"C14 " \o nx \o " stopped with budget left, not converged"})
  \cup If(~zero /\ k < 1, {"C14 " \o nx \o " no product made"})
  \cup If(o.conv # (o.istop \in {-1, 0, 1, 2}), {"C19 " \o nx \o " converged does not go with istop"})
  \cup If(o.istop \in {6, 7, 8}, {"C19 " \o nx \o " a symmetric system is reported not symmetric or the preconditioner not definite"})
  \cup If(o.istop = 5 /\ k < Max2(mm, 1), {"C19 " \o nx \o " iteration limit reported but not reached"})
  \cup If(o.istop \in {3, 4} /\ good /\ cok /\ k > 1 /\ RLt(RMul(VMaxAbs(gs), "1/1000000000000000000000000"), gmin),
         {"C19 " \o nx \o " limit of the machine reported for a well-conditioned system"})
  \cup If((o.istop = 0) # zero, {"C19 " \o nx \o " istop 0 goes with b = 0"})
  \cup If(zero /\ ~(FinV(o.x) /\ RSgn(Sq(o.x)) = 0), {"C19 " \o nx \o " b = 0 but the solution is not"})
  \cup If(o.istop = -1 /\ ~(k = 1 /\ (known => dim = 1)), {"C19 " \o nx \o " b reported an eigenvector but it is not"})
  \cup If(~(RFin(o.res0) /\ Near(o.res0, RSqrt(PNorm2(pr, c.b)), E7, RMul(nb, AbsM(s.P)))), {"C19 " \o nx \o " initial residual norm"})
  \cup If(FinV(o.x) /\ RFin(o.res) /\ ~Near(o.res, RSqrt(Sq(Res(pr, c.b, o.x))), E6, RMax(nb, RMul(AbsM(pr.A), VMaxAbs(o.x)))),
          {"C19 " \o nx \o " reported residual norm is not that of the solution returned"})
  \cup If(FinV(o.x) /\ RFin(o.xnorm) /\ ~Near(o.xnorm, RSqrt(Sq(o.x)), E6, VMaxAbs(o.x)), {"C19 " \o nx \o " reported norm of the solution"})
  \cup If(IF On(c.si, FALSE) THEN ~(Len(o.its) \in {Max2(k, 1), k + 1}) ELSE o.its # <<>>, {"C26 symmlq stored iterates: wrong number"})
  \cup If(o.its # <<>> /\ ~Null(o.its[1]), {"C26 symmlq the first iterate stored is not zero"})
  \cup If(o.its # <<>> /\ good /\ FinV(o.x) /\ ~(FinV(o.its[Len(o.its)]) /\ NearV(o.its[Len(o.its)], o.x, E9, xsize)),
         {"C26 symmlq the last iterate stored is not the solution"})
  \cup If(good /\ Len(o.its) \in {k, k + 1} /\ \E j \in 2..k :
            LET p == LQPt(pr, c.b, First(vs, j - 1)) IN Fair(p) /\ ~(FinV(o.its[j]) /\ NearV(o.its[j], p[2], E6, xsize)),
         {"C26 symmlq stored iterates"})
  \cup (IF good THEN Units(nx, c, o, xsize) ELSE {})
  \cup (IF ~good THEN {} ELSE
          If(~FinV(o.x) \/ ~RFin(o.res), {"C19 " \o nx \o " solution is not finite"})
          \cup (IF ~FinV(o.x) \/ ~RFin(o.res) THEN {} ELSE
             If(~(isC \/ isL), {"C19 " \o nx \o " is neither the CG nor the LQ point after " \o ToString(k) \o " steps"})
             \cup If(isC /\ ~isL /\ RLt(RMul(rl, "1001/1000"), rc), {"C19 " \o nx \o " CG point returned though the LQ point has the smaller residual"})
             \cup If(isL /\ ~isC /\ cok /\ RLt(RMul(rc, "1001/1000"), rl), {"C19 " \o nx \o " LQ point returned though the CG point has the smaller residual"})
             \cup If(o.istop = 1 /\ RFin(o.anorm) /\
                     RLt(RAdd(RMul("101/100", RMul(rtol, RMul(o.anorm, RSqrt(PInvNorm2(pr, o.x))))), RMul("1/1000000000", RMul(size, AbsM(s.P)))), RSqrt(rr)),
                     {"C19 " \o nx \o " accuracy reported is not reached"})
             \cup If(RFin(o.anorm) /\ k < dim /\ RLt(RMul(fro2, "10001/10000"), RMul(o.anorm, o.anorm)), {"C19 " \o nx \o " norm of A overestimated"})))

---------------------------------------------------------------------------
Proper(s) == IsSym(s.A) /\ (s.P = <<>> \/ PD(s.P))
Judge(s, c, o) ==
  IF o.out = "ok" /\ o.none THEN
     If(~(s.m = "cg" /\ On(c.chk, FALSE) /\ ~IsSym(s.A)), {"C15 " \o Nm(s) \o " no solution"})
     \cup If(o.conv, {"C13 " \o Nm(s) \o " converged without solution"})
     \cup (IF Clear(s.A) THEN Refuses(Nm(s), c, o) ELSE {})
     \cup If(o.nmv # 0, {"C14 " \o Nm(s) \o " products counted, but the system was refused"})
  ELSE IF o.out = "ok" /\ s.m = "cg" /\ On(c.chk, FALSE) /\ Clear(s.A) THEN {"C16 " \o Nm(s) \o " a system that is not symmetric is not refused"}
  ELSE IF o.out # "ok" THEN {(CASE s.m = "cg" -> "C16 " [] s.m = "minres" -> "C18 " [] s.m = "symmlq" -> "C19 " [] OTHER -> "C17 ") \o Nm(s) \o " solve raises " \o o.exc,
                        "C15 " \o Nm(s) \o " solve raises " \o o.exc}
  ELSE
  If(~o.pure, {"C15 " \o Nm(s) \o " changes the right-hand side, the guess or the operator"})
  \cup If(~o.rng, {"C15 " \o Nm(s) \o " changes the state of the global random generator"})
  \cup If(~o.own, {"C15 " \o Nm(s) \o " the solution shares memory with the right-hand side or the guess"})
  \cup If(~o.kept, {"C15 " \o Nm(s) \o " results change when the caller reuses his arrays"})
  \cup If(~o.fresh, {"C15 " \o Nm(s) \o " a used solver object gives another result than a new one"})
  \cup If(~o.shown, {"C15 " \o Nm(s) \o " asked for its log gives another result"})
  \cup If(~o.silent, {"C15 " \o Nm(s) \o " prints though not asked to"})
  \cup If(Len(o.x) # s.n, {"C15 " \o Nm(s) \o " solution has a wrong length"})
  \cup (IF Len(o.x) # s.n THEN {} ELSE
        CASE s.m \in Methods -> JudgeShort(s, c, o)
          [] s.m = "minres" -> IF Proper(s) THEN JudgeMinres(s, c, o) ELSE RejectMinres(s, c, o)
          [] s.m = "symmlq" -> IF Proper(s) THEN JudgeSymmlq(s, c, o) ELSE RejectSymmlq(s, c, o))
JudgeEv(ss, e) ==
  IF e.o.out # "ok" /\ e.c.op = "change" THEN {"C29 changing the operator raises " \o e.o.exc}
  ELSE IF e.o.out # "ok" THEN {p \o " constructor raises " \o e.o.exc : p \in {"C13", "C14", "C15", "C16", "C17", "C18", "C19", "C26"}}
       \cup {"C29 operator of the form " \o e.c.eA.f \o " raises " \o e.o.exc}
  ELSE IF e.c.op # "solve" THEN {}
  ELSE LET s == ss[e.c.k]
           bs == UNION {Judge(s, e.c, e.o.runs[i]) : i \in DOMAIN e.o.runs}
       IN  bs \cup (IF ~s.ch /\ s.eA.f = "fun" /\ s.eP.f \in {"fun", "no"} THEN {}
                    ELSE {"C29 operator " \o s.eA.f \o "/" \o s.eP.f \o (IF s.ch THEN " changed" ELSE "") \o ": " \o b : b \in bs})
Ev(k) == Traces[k].ev
Apply(ss, c) ==
  IF c.op = "new" THEN Append(ss, [A |-> Val(c.eA), P |-> Val(c.eP), ch |-> FALSE] @@ c)
  ELSE IF c.op = "change" THEN
    LET s == ss[c.k] IN
    [ss EXCEPT ![c.k] = IF c.w = "A" THEN LET e == Change(s.eA, c.p) IN [s EXCEPT !.eA = e, !.A = Val(e), !.ch = TRUE]
                        ELSE LET e == Change(s.eP, c.p) IN [s EXCEPT !.eP = e, !.P = Val(e), !.ch = TRUE]]
  ELSE ss
Init == t \in 1..Len(Traces) /\ l = 1 /\ sol = <<>> /\ bad = {}
Step == /\ l <= Len(Ev(t))
        /\ \E s2 \in {Apply(sol, Ev(t)[l].c)} :
             sol' = s2 /\ bad' = bad \cup {b \o " @" \o ToString(l) : b \in JudgeEv(s2, Ev(t)[l])}
        /\ l' = l + 1 /\ t' = t
Done == /\ l = Len(Ev(t)) + 1
        /\ PrintT("TRACE " \o ToJson([id |-> Traces[t].id, n |-> l - 1, bad |-> bad]))
        /\ l' = l + 1 /\ UNCHANGED <<t, sol, bad>>
Next == Step \/ Done
View == <<t, l>>
=============================================================================
