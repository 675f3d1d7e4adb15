--------------------------------- MODULE LlsTrace ---------------------------------
(* Checks recorded solves of the real least-squares methods against Lls. *)
EXTENDS Lls, Parts, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, sol, bad
If(cond, s) == IF cond THEN s ELSE {}
FinV(v) == \A i \in DOMAIN v : RFin(v[i])
NearV(v, w, tol) == Len(v) = Len(w) /\ FinV(v) /\ RLe(VMaxAbs(VSub(v, w)), tol)
Near(a, b, tol) == RFin(a) /\ RLe(RAbs(RSub(a, b)), tol)
E6 == "1/1000000"
E9 == "1/1000000000"
Up == "1000001/1000000"
Eps == "12/100000000000000000"             \* a little more than half of the machine precision
MinI(i, j) == IF i < j THEN i ELSE j
MaxI(i, j) == IF i < j THEN j ELSE i
AbsM(a) == IF a = <<>> THEN 1 ELSE RMax("1/1000", RMul(MMaxAbs(a), MaxI(Len(a), Len(a[1]))))
Sqrt0(a) == RSqrt(RMax(0, a))
LsNames == <<"solution is zero", "residual small", "residual small", "ill-conditioned operator", "residual small", "residual small",
             "ill-conditioned operator", "max iterations", "direct error small">>
DefTol(v, d) == IF v = "d" THEN d ELSE v
Window(c) == IF c.window = -1 THEN 5 ELSE c.window
Limit(s, c, o) == LET d == MinI(s.nr, s.nc) IN
  CASE s.m \in {"lsqr", "craig"} -> IF o.lim \in {-1, 0} THEN 3 * s.nc ELSE o.lim
    [] OTHER -> IF o.lim = -1 THEN d ELSE o.lim
\* steps of the process that are followed
Top(s) == MaxI(6, MinI(s.nr, s.nc) + 1)
Prob(s, c) == [A |-> s.A, M |-> c.M, N |-> c.N, d |-> IF s.m \in {"craig", "craigmr"} THEN 1 ELSE c.damp]
Nm(s, c) == s.m \o (IF c.M # <<>> \/ c.N # <<>> THEN "/metric" ELSE "") \o (IF ~REq(c.damp, 0) THEN "/damp" ELSE "")
\* what the pivots of the process cost a computation with rounding, up to s_k
RECURSIVE GLoss(_, _)
GLoss(q, k) == IF k <= 1 THEN 1 ELSE
  RMul(GLoss(q, k - 1), RMul(RDiv(RAdd(Al2(q, k - 1), Be2(q, k)), Be2(q, k)),
                             IF k > Len(q.sn) THEN 1 ELSE RDiv(RAdd(Al2(q, k), Be2(q, k)), Al2(q, k))))
LossFine(q, k) == RLe(GLoss(q, k), 1000000)
\* long runs lose orthogonality as well
Stable(pr, b, q) == Len(q.sn) <= 5 \/ StableGK(pr, b, q)

\* C28: the same problem in other units (A 2^i, damp 2^i, b 2^j) has the same solution, in its units, found in the same way
Units(nx, c, o, f, tol) ==
  IF o.u = <<>> THEN {} ELSE
  LET u == o.u[1] IN
  IF u.out # "ok" THEN {"C28 " \o nx \o " in other units: raises " \o u.exc}
  ELSE If(u.itn # o.itn \/ u.istop # o.istop, {"C28 " \o nx \o " in other units: another outcome"})
       \cup If(u.itn = o.itn /\ FinV(o.x) /\ ~NearV(u.x, VScale(f, o.x), RMul(f, tol)), {"C28 " \o nx \o " in other units: another solution"})

---------------------------------------------------------------------------
JudgeLs(s, c, o) ==
  LET lsqr == s.m = "lsqr"
      n == s.nc
      pr == Prob(s, c)
      k == o.itn
      nx == Nm(s, c)
      lim == Limit(s, c, o)
      q == GK(pr, c.b, MinI(k, Top(s)))
      done == q.full # "no"
      dim == IF done THEN Len(q.ss) ELSE 99
      rhs == NRhs(pr, c.b)
      zero == RSgn(Sq(rhs)) = 0
      nq == Normal(pr)
      vs == VB(pr, q, MinI(k, MinI(dim, Len(q.ss))))
      Pt(j) == IF j = 0 THEN <<TRUE, VZero(n)>> ELSE IF lsqr THEN LsqrPt(nq, rhs, First(vs, j)) ELSE LsmrPt(nq, rhs, First(vs, j))
      nb == VMaxAbs(c.b)
      aM == AbsM(s.A)
      known == k <= Top(s) /\ k <= dim /\ LossFine(q, MinI(k, Len(q.pn))) /\ Stable(pr, c.b, q)
      pt == IF known THEN TLCEval(Pt(k)) ELSE <<FALSE, <<>>>>
      Fair(x) == /\ RLe(RMul(VMaxAbs(x), aM), RMul(1000, nb))
                 /\ RLe(RMul(VMaxAbs(x), AbsM(nq.A)), RMul(10000, RMax(VMaxAbs(rhs), RMul(E9, RMul(nb, aM)))))
      good == known /\ pt[1] /\ (zero \/ Fair(pt[2]))
      xs == IF good THEN RMax(VMaxAbs(pt[2]), RDiv(VMaxAbs(rhs), AbsM(nq.A))) ELSE 0
      size == RMul(RMul(RMax(nb, RMul(aM, xs)), AbsM(c.M)), AbsM(c.N))
      bnorm == Sqrt0(VDot(c.b, MApply(c.M, c.b)))
      fin == RFin(o.r2) /\ RFin(o.Arnorm) /\ RFin(o.Anorm) /\ RFin(o.xnorm)
      atol == DefTol(c.atol, E9)
      btol == DefTol(c.btol, E9)
      conlim == DefTol(c.conlim, 100000000)
      etol == DefTol(c.etol, E6)
      w == Window(c)
      \* energy: what a step gains
      En(j) == LET x == Pt(j)[2] IN IF lsqr THEN VDot(rhs, x) ELSE RSub(VDot(rhs, MApply(c.N, rhs)), Grad2(pr, nq, rhs, x))
      Win(j) == Sqrt0(RDiv(RSub(En(j), En(j - w)), En(j)))
      A2(j) == IF lsqr THEN LsqrA2(pr, q, j) ELSE LsmrA2(q, j)
      \* at step j the exact method meets a test of the user by a clear margin
      Clear(j) == LET x == Pt(j)[2]
                      r2 == Obj2(pr, c.b, x)
                      an == Sqrt0(A2(j))
                      xn == Sqrt0(IF lsqr THEN XNorm2(pr, x) ELSE Sq(x))
                      gn == Sqrt0(Grad2(pr, nq, rhs, x))
                  IN  \/ RLt(Sqrt0(r2), RMul("99/100", RAdd(RMul(btol, bnorm), RMul(atol, RMul(an, xn))))) /\ RLt(0, btol)
                      \/ RLt(gn, RMul("99/100", RMul(atol, RMul(an, Sqrt0(r2))))) /\ RLt(RMul("1/10000", RMul(bnorm, bnorm)), r2) /\ RLt(0, atol)
                      \/ j > w /\ RLt(Win(j), RMul("99/100", etol)) /\ RLt("1/100000000", etol)
                      \/ lsqr /\ RSgn(conlim) > 0 /\ LET vr == VarOf(nq, First(vs, j), n) IN
                           RLt(RMul("101/100", conlim), RMul(an, Sqrt0(RSum(vr))))
  IN
  \* C20
  If(~o.best, {"C20 " \o nx \o " x is not bestSolution"})
  \cup If(o.rn # o.r2, {"C20 " \o nx \o " residNorm is not the residual norm reported"})
  \cup If(zero /\ ~NearV(o.x, VZero(n), RMul("1/1000000000000", RMul(nb, AbsM(c.N)))), {"C20 " \o nx \o " zero is the solution but not the one returned"})
  \cup (IF ~good THEN {} ELSE
          If(~FinV(o.x), {"C20 " \o nx \o " solution is not finite"})
          \cup If(~NearV(o.x, pt[2], RMul(E6, RMax(xs, RDiv(nb, aM)))), {"C20 " \o nx \o " is not the optimal point after " \o ToString(k) \o " steps"})
          \cup (IF zero THEN {} ELSE
            If(~fin, {"C20 " \o nx \o " norms are not finite"})
            \cup If(~Near(o.r2, Sqrt0(Obj2(pr, c.b, pt[2])), RMul(E6, size)), {"C20 " \o nx \o " residual norm"})
            \cup If(lsqr /\ REq(c.damp, 0) /\ ~Near(o.r1, Sqrt0(Obj2(pr, c.b, pt[2])), RMul(E6, size)), {"C20 " \o nx \o " r1norm"})
            \cup If(~Near(o.Arnorm, Sqrt0(Grad2(pr, nq, rhs, pt[2])), RMul(E6, RMul(aM, size))), {"C20 " \o nx \o " norm of the residual of the normal equations"})
            \cup If(k > 0 /\ ~Near(o.xnorm, Sqrt0(IF lsqr THEN XNorm2(pr, pt[2]) ELSE Sq(pt[2])), RMul(E6, RMul(xs, 10))), {"C20 " \o nx \o " norm of x"})
            \cup If(k > 0 /\ ~Near(o.Anorm, Sqrt0(A2(k)), RMul(E6, RMul(aM, RMul(AbsM(c.M), AbsM(c.N)))))
                    /\ ~(lsqr /\ k = dim /\ q.full = "p" /\ Near(o.Anorm, Sqrt0(LsqrA2(pr, q, k - 1)), RMul(E6, RMul(aM, RMul(AbsM(c.M), AbsM(c.N)))))),
                   {"C20 " \o nx \o " norm of A"})
            \cup (IF ~lsqr THEN {} ELSE
               LET vr == IF k = 0 THEN VZero(n) ELSE VarOf(nq, vs, n) IN
               If(c.var # (o.var # <<>>), {"C20 " \o nx \o " var is given if and only if wanted"})
               \cup If(o.var # <<>> /\ ~NearV(o.var, vr, RMul(E6, RMax(VMaxAbs(vr), RDiv(1, AbsM(nq.A))))), {"C20 " \o nx \o " var"})
               \cup If(k > 0 /\ fin /\ ~Near(o.Acond, RMul(o.Anorm, Sqrt0(RSum(vr))), RMul("1/10000", RMul(o.Anorm, Sqrt0(RSum(vr))))), {"C20 " \o nx \o " condition estimate"}))))
  \cup (IF good THEN Units(nx, c, o, IF c.sc = <<>> THEN 1 ELSE RPow2(c.sc[2] - c.sc[1]), RMul(E6, RMax(xs, RDiv(nb, aM)))) ELSE {})
  \* the solution stays where it is once the space is exhausted (with tolerances of zero rounding may decide otherwise)
  \cup (IF c.atol = "0" \/ ~(k > dim /\ k <= dim + 3 /\ ~zero /\ LossFine(q, Len(q.pn)) /\ Stable(pr, c.b, q)) THEN {} ELSE
          LET f == Pt(dim) IN
          If(f[1] /\ Fair(f[2]) /\ ~NearV(o.x, f[2], RMul("1/10000", RMax(VMaxAbs(f[2]), RDiv(nb, aM)))), {"C20 " \o nx \o " leaves the solution"}))
  \* C21
  \cup If(o.istop \notin 0..8, {"C21 " \o nx \o " unknown istop"})
  \cup (IF o.istop \notin 0..8 THEN {} ELSE
     If(o.status # LsNames[o.istop + 1], {"C21 " \o nx \o " status does not go with istop"})
     \cup If(o.optimal # (o.istop \in {1, 2, 4, 5, 8}), {"C21 " \o nx \o " optimal does not go with istop"})
     \cup If(o.istop = 0 /\ ~zero, {"C21 " \o nx \o " zero reported as the solution but it is not"})
     \cup If(k > lim, {"C21 " \o nx \o " more iterations than allowed"})
     \cup If(o.istop = 7 /\ k # lim, {"C21 " \o nx \o " iteration limit reported but not reached"})
     \cup If(o.istop = 6 /\ RFin(o.Acond) /\ RLt(RMul(o.Acond, Eps), 1), {"C21 " \o nx \o " condition estimate reported too large but it is not"})
     \cup If(o.istop = 3 /\ (RSgn(conlim) = 0 \/ (RFin(o.Acond) /\ RLt(RMul(o.Acond, Up), conlim))), {"C21 " \o nx \o " condition limit reported but not exceeded"})
     \cup (IF ~fin THEN {} ELSE
        If(o.istop = 1 /\ RLt(RMul(Up, RAdd(RMul(btol, bnorm), RMul(atol, RMul(o.Anorm, o.xnorm)))), o.r2), {"C21 " \o nx \o " small residual reported, but it is not small"})
        \cup If(o.istop = 2 /\ RLt(RMul(Up, RMul(atol, RMul(o.Anorm, o.r2))), o.Arnorm), {"C21 " \o nx \o " least-squares solution reported, but A'r is not small"})
        \cup If(o.istop = 4 /\ RLt(RMul(Eps, RAdd(bnorm, RMul(o.Anorm, o.xnorm))), o.r2), {"C21 " \o nx \o " residual reported small for the machine, but it is not"})
        \cup If(o.istop = 5 /\ RLt(RMul(Eps, RMul(o.Anorm, o.r2)), o.Arnorm), {"C21 " \o nx \o " A'r reported small for the machine, but it is not"})
        \cup If(o.istop = 7 /\ k > 0 /\ (RLt(o.r2, RMul("99/100", RAdd(RMul(btol, bnorm), RMul(atol, RMul(o.Anorm, o.xnorm)))))
                                    \/ RLt(o.Arnorm, RMul("99/100", RMul(atol, RMul(o.Anorm, o.r2))))
                                    \/ (RFin(o.Acond) /\ RSgn(conlim) > 0 /\ RLt(RMul("101/100", conlim), o.Acond))),
               {"C21 " \o nx \o " iteration limit reported although a test is met"}))
     \cup If(o.istop = 8 /\ (o.win = <<>> \/ (o.win # <<>> /\ ~(RFin(o.win[Len(o.win)]) /\ RLt(o.win[Len(o.win)], RMul(Up, etol))))), {"C21 " \o nx \o " small direct error reported, but it is not small"})
     \* the same for the true values at the solution returned
     \cup (IF ~good \/ zero \/ ~fin \/ ~FinV(o.x) THEN {} ELSE
        LET r2 == Sqrt0(Obj2(pr, c.b, o.x)) gn == Sqrt0(Grad2(pr, nq, rhs, o.x)) IN
        If(o.istop = 1 /\ RLt(RAdd(RMul(E6, size), RMul("101/100", RAdd(RMul(btol, bnorm), RMul(atol, RMul(o.Anorm, o.xnorm))))), r2), {"C21 " \o nx \o " small residual reported, but the residual is not small"})
        \cup If(o.istop = 2 /\ RLt(RAdd(RMul(E6, RMul(aM, size)), RMul("101/100", RMul(atol, RMul(o.Anorm, r2)))), gn), {"C21 " \o nx \o " least-squares solution reported, but the residual of the normal equations is not small"}))
     \cup If(good /\ k > 1 /\ ~zero /\ Clear(k - 1), {"C21 " \o nx \o " goes on though a stopping test was met"}))
  \* C27: histories
  \cup If(Len(o.resids) # (IF c.sr THEN k + 1 ELSE 0), {"C27 " \o nx \o " residual history: wrong length"})
  \cup If(Len(o.nres) # (IF c.sr THEN k + 1 ELSE 0), {"C27 " \o nx \o " history of A'r: wrong length"})
  \cup If(o.resids # <<>> /\ o.resids[Len(o.resids)] # o.r2, {"C27 " \o nx \o " residual history does not end with the norm reported"})
  \cup If(o.nres # <<>> /\ o.nres[Len(o.nres)] # o.Arnorm, {"C27 " \o nx \o " history of A'r does not end with the norm reported"})
  \cup If(~lsqr /\ Len(o.norms) # (IF c.sr THEN k ELSE 0), {"C27 " \o nx \o " history of energy norms: wrong length"})
  \cup If(Len(o.win) # MaxI(0, k - w), {"C27 " \o nx \o " direct error estimates: wrong number"})
  \cup (IF ~good \/ zero THEN {} ELSE
          If(Len(o.resids) = k + 1 /\ \E j \in 0..k : ~Near(o.resids[j + 1], Sqrt0(Obj2(pr, c.b, Pt(j)[2])), RMul(E6, size)), {"C27 " \o nx \o " residual history"})
          \cup If(Len(o.nres) = k + 1 /\ \E j \in 0..k : ~Near(o.nres[j + 1], Sqrt0(Grad2(pr, nq, rhs, Pt(j)[2])), RMul(E6, RMul(aM, size))), {"C27 " \o nx \o " history of A'r"})
          \cup If(Len(o.its) = k + 1 /\ \E j \in 0..k : ~NearV(o.its[j + 1], Pt(j)[2], RMul(E6, RMax(xs, RDiv(nb, aM)))), {"C27 " \o nx \o " stored iterates"})
          \cup If(Len(o.norms) = k /\ \E j \in 1..k : ~Near(o.norms[j], En(j), RMul(E6, En(k))), {"C27 " \o nx \o " energy norms"})
          \cup If(Len(o.win) = k - w /\ \E j \in (w + 1)..k : ~Near(o.win[j - w], Win(j), "1/100000"), {"C27 " \o nx \o " direct error estimates"}))

---------------------------------------------------------------------------
JudgeCraig(s, c, o) ==
  LET craig == s.m = "craig"
      pr == Prob(s, c)
      itn == o.itn
      nx == s.m \o (IF c.M # <<>> \/ c.N # <<>> THEN "/metric" ELSE "")
      lim == Limit(s, c, o)
      want == IF craig THEN itn + 1 ELSE itn
      q == GK(pr, c.b, MinI(want, Top(s)))
      done == q.full # "no"
      dim == IF done THEN Len(q.ps) ELSE 99
      k == MinI(want, dim)
      zero == RSgn(Sq(c.b)) = 0
      dq == Dual(pr)
      us == IF k <= Len(q.ps) THEN UB(pr, q, k) ELSE <<>>
      Pt(j) == IF j = 0 THEN <<TRUE, VZero(s.nr)>> ELSE IF craig THEN CraigPt(dq, c.b, First(us, j)) ELSE CraigmrPt(dq, c.b, First(us, j))
      Xof(r) == MApply(c.N, MVec(MT(s.A), r))
      nb == VMaxAbs(c.b)
      known == ~zero /\ want <= Top(s) /\ k <= Len(q.ps) /\ LossFine(q, k) /\ Stable(pr, c.b, q)
      pt == IF known THEN TLCEval(Pt(k)) ELSE <<FALSE, <<>>>>
      good == known /\ pt[1] /\ RLe(RMul(VMaxAbs(pt[2]), AbsM(dq.A)), RMul(10000, nb))
      rs == RMul(AbsM(c.M), nb)                            \* |r| <= |M b|
      xs == RMul(rs, RMul(AbsM(c.N), AbsM(s.A)))
      etol == DefTol(c.etol, E6)
      btol == DefTol(c.btol, E9)
      w == Window(c)
      bM == VDot(c.b, MApply(c.M, c.b))
      En(j) == IF craig THEN RSub(VDot(c.b, Pt(j)[2]), VDot(c.b, Pt(1)[2]))
               ELSE LET r == Res(dq, c.b, Pt(j)[2]) IN RSub(bM, VDot(r, MApply(c.M, r)))
      off == IF craig THEN 1 ELSE 0                       \* Pt(itn + off)
      Win(j) == Sqrt0(RDiv(RSub(En(j + off), En(j + off - w)), En(j + off)))
      okx == IF craig THEN NearV(o.x, Xof(pt[2]), RMul(E6, xs)) /\ NearV(o.r, pt[2], RMul(E6, rs)) ELSE NearV(o.x, pt[2], RMul(E6, rs))
      \* the problem documented when no metric N is given
      doc == Prob([s EXCEPT !.m = "lsqr"], c)
      xx == IF craig THEN Xof(pt[2]) ELSE <<>>
      obj == IF craig /\ good THEN LET r == VSub(c.b, MVec(s.A, xx)) IN VDot(r, MApply(c.M, r)) ELSE 0
  IN
  If(~o.best, {"C22 " \o nx \o " x is not bestSolution"})
  \cup If(zero /\ (~NearV(o.x, VZero(Len(o.x)), 0) \/ (craig /\ (o.istop # 0 \/ itn # 0))), {"C22 " \o nx \o " b = 0 but the solution is not"})
  \cup If(o.istop \notin 0..8, {"C22 " \o nx \o " unknown istop"})
  \cup (IF o.istop \notin 0..8 THEN {} ELSE
     If(o.status # LsNames[o.istop + 1], {"C22 " \o nx \o " status does not go with istop"})
     \cup If(o.optimal # (o.istop \in {1, 2, 4, 5, 8}), {"C22 " \o nx \o " optimal does not go with istop"})
     \cup If(o.istop = 0 /\ ~zero, {"C22 " \o nx \o " zero reported as the solution but it is not"})
     \cup If(itn > lim, {"C22 " \o nx \o " more iterations than allowed"})
     \cup If(o.istop = 7 /\ itn # lim, {"C22 " \o nx \o " iteration limit reported but not reached"})
     \cup If(o.istop \in {2, 3, 5, 6}, {"C22 " \o nx \o " reports a test it does not make"})
     \cup If(o.istop = 8 /\ (o.win = <<>> \/ (o.win # <<>> /\ ~(RFin(o.win[Len(o.win)]) /\ RLt(o.win[Len(o.win)], RMul(Up, etol))))), {"C22 " \o nx \o " small direct error reported, but it is not small"}))
  \cup (IF good THEN Units(nx, c, o, IF c.sc = <<>> THEN 1 ELSE RPow2(c.sc[2]), RMul(E6, IF craig THEN xs ELSE rs)) ELSE {})
  \cup (IF ~good THEN {} ELSE
     If(~okx, {"C22 " \o nx \o " is not the optimal point after " \o ToString(want) \o " steps"})
     \cup If(itn > w + 1 /\ want <= dim /\ RLt(Win(itn - 1), RMul("99/100", etol)) /\ RLt("1/100000000", etol), {"C22 " \o nx \o " goes on though the error test was met"})
     \cup If(craig /\ o.istop = 1 /\ RLt(RMul(RMul(Up, RMul(btol, btol)), bM), obj), {"C22 craig small residual reported, but it is not small"})
     \cup If(okx /\ c.N = <<>> /\ ~REq(c.damp, 1) /\ done /\ craig /\ Len(q.ss) > 0 /\
             ~NearV(MVec(Normal(doc).A, o.x), NRhs(doc, c.b), RMul("1/1000", VMaxAbs(NRhs(doc, c.b)))),
            {"C22 craig ignores damp"})
     \cup If(okx /\ c.N = <<>> /\ ~REq(c.damp, 1) /\ done /\ ~craig /\ Len(q.ss) > 0 /\ itn >= dim /\
             ~NearV(VAdd(VScale(RMul(c.damp, c.damp), MVec(MInv(c.M, s.nr), o.x)), MVec(s.A, MVec(MT(s.A), o.x))), VScale(RMul(c.damp, c.damp), c.b), RMul("1/1000", nb)),
            {"C22 craigmr ignores damp"}))
  \* histories
  \cup If(~craig /\ Len(o.norms) # (IF c.sr THEN itn + 1 ELSE 0), {"C27 " \o nx \o " history of energy norms: wrong length"})
  \cup If(craig /\ Len(o.resids) # (IF c.sr THEN itn + 1 ELSE 0), {"C27 " \o nx \o " residual history: wrong length"})
  \cup If(Len(o.win) # MaxI(0, itn - w), {"C27 " \o nx \o " direct error estimates: wrong number"})
  \cup If(craig /\ Len(o.itd) # Len(o.its), {"C27 " \o nx \o " stored dual iterates: wrong number"})
  \cup If(craig /\ o.itd # <<>> /\ o.itd[Len(o.itd)] # o.r, {"C27 " \o nx \o " the last dual iterate stored is not the solution"})
  \cup (IF ~good \/ want > dim THEN {} ELSE
     If(Len(o.its) = itn + 1 /\ \E j \in 0..itn : LET p == Pt(j + off)[2] IN
            ~(IF craig THEN NearV(o.its[j + 1], Xof(p), RMul(E6, xs)) ELSE NearV(o.its[j + 1], p, RMul(E6, rs))), {"C27 " \o nx \o " stored iterates"})
     \cup If(Len(o.itd) = itn + 1 /\ \E j \in 0..itn : ~NearV(o.itd[j + 1], Pt(j + off)[2], RMul(E6, rs)), {"C27 " \o nx \o " stored dual iterates"})
     \cup If(~craig /\ Len(o.norms) = itn + 1 /\ \E j \in 0..itn : ~Near(o.norms[j + 1], En(j), RMul(E6, bM)), {"C27 " \o nx \o " energy norms"})
     \cup If(Len(o.win) = itn - w /\ \E j \in (w + 1)..itn : ~Near(o.win[j - w], Win(j), "1/100000"), {"C27 " \o nx \o " direct error estimates"}))

---------------------------------------------------------------------------
Ls(s) == s.m \in {"lsqr", "lsmr"}
Judge(s, c, o) ==
  LET nx == Nm(s, c) xl == IF s.m = "craigmr" THEN s.nr ELSE s.nc IN
  IF o.out # "ok" THEN {(IF Ls(s) THEN "C20 " ELSE "C22 ") \o nx \o " solve raises " \o o.exc, "C27 " \o nx \o " solve raises " \o o.exc}
                       \cup If(Ls(s), {"C21 " \o nx \o " solve raises " \o o.exc})
  ELSE
  If(~o.pure, {"C27 " \o nx \o " changes the right-hand side or an operator"})
  \cup If(~o.rng, {"C27 " \o nx \o " changes the state of the global random generator"})
  \cup If(~o.own, {"C27 " \o nx \o " the solution shares memory with the right-hand side"})
  \cup If(~o.apart, {"C27 " \o nx \o " stored iterates share memory"})
  \cup If(~o.kept, {"C27 " \o nx \o " results change when the caller reuses his arrays"})
  \cup If(~o.fresh, {"C27 " \o nx \o " a used solver object gives another result than a new one"})
  \cup If(~o.shown, {"C27 " \o nx \o " asked for its log gives another result"})
  \cup If(~o.silent, {"C27 " \o nx \o " prints though not asked to"})
  \cup If(~o.ret, {"C27 " \o nx \o " returns other results than it keeps"})
  \cup If(o.nmv # 2 * o.itn \/ o.n # o.itn \/ o.nt > o.itn + 1 \/ o.nt < MinI(o.itn, Len(GK(Prob(s, c), c.b, MinI(o.itn, Top(s))).ps)), {"C27 " \o nx \o " nMatvec is not the number of products of the iterations"})
  \cup If(Len(o.its) # (IF c.si THEN o.itn + 1 ELSE 0), {"C27 " \o nx \o " stored iterates: wrong number"})
  \cup If(o.its # <<>> /\ FinV(o.x) /\ o.its[Len(o.its)] # o.x, {"C27 " \o nx \o " the last iterate stored is not the solution"})
  \cup (IF Len(o.x) # xl THEN {(IF Ls(s) THEN "C20 " ELSE "C22 ") \o nx \o " solution has a wrong length"}
        ELSE IF Ls(s) THEN JudgeLs(s, c, o) ELSE JudgeCraig(s, c, o))
\* found on the unchanged code, and recorded (known-findings.txt)
Recorded == {"C22 craig ignores damp", "C22 craigmr ignores damp", "C22 craig small residual reported, but it is not small"}
JudgeEv(ss, e) ==
  IF e.o.out # "ok" /\ e.c.op = "change" THEN {"C29 changing the operator raises " \o e.o.exc}
  ELSE IF e.o.out # "ok" THEN {p \o " constructor raises " \o e.o.exc : p \in {"C20", "C21", "C22", "C27"}}
       \cup {"C29 operator of the form " \o e.c.eA.f \o " raises " \o e.o.exc}
  ELSE IF e.c.op # "solve" THEN {}
  ELSE LET s == ss[e.c.k]
           c == [M |-> Val(e.c.eM), N |-> Val(e.c.eN)] @@ e.c
           bs == UNION {Judge(s, c, e.o.runs[i]) : i \in DOMAIN e.o.runs}
           plain == ~s.ch /\ ~e.c.keep /\ {s.eA.f, e.c.eM.f, e.c.eN.f} \subseteq {"fun", "no"}
           nm == "C29 operator " \o s.eA.f \o "/" \o e.c.eM.f \o "/" \o e.c.eN.f \o (IF s.ch \/ e.c.keep THEN " changed" ELSE "") \o ": "
       IN  bs \cup (IF plain THEN {} ELSE {nm \o b : b \in bs \ Recorded})
Ev(k) == Traces[k].ev
Apply(ss, c) == IF c.op = "new" THEN Append(ss, [A |-> Val(c.eA), ch |-> FALSE] @@ c)
                ELSE IF c.op = "change" THEN LET e == Change(ss[c.k].eA, c.p) IN [ss EXCEPT ![c.k].eA = e, ![c.k].A = Val(e), ![c.k].ch = TRUE]
                ELSE ss
Init == t \in 1..Len(Traces) /\ l = 1 /\ sol = <<>> /\ bad = {}
Step == /\ l <= Len(Ev(t))
        /\ \E s2 \in {Apply(sol, Ev(t)[l].c)} :
             sol' = s2 /\ bad' = bad \cup {b \o " @" \o ToString(l) : b \in JudgeEv(s2, Ev(t)[l])}
        /\ l' = l + 1 /\ t' = t
Done == /\ l = Len(Ev(t)) + 1
        /\ PrintT("TRACE " \o ToJson([id |-> Traces[t].id, n |-> l - 1, bad |-> bad]))
        /\ l' = l + 1 /\ UNCHANGED <<t, sol, bad>>
Next == Step \/ Done
View == <<t, l>>
=============================================================================
