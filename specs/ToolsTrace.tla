--------------------------------- MODULE ToolsTrace ---------------------------------
(* Checks recorded calls of the real tools against Tools. *)
EXTENDS Tools, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, bad
If(cond, s) == IF cond THEN s ELSE {}
FinV(v) == \A i \in DOMAIN v : RFin(v[i])
E6 == "1/1000000"
---------------------------------------------------------------------------
(* Roots.  gap = |discriminant| / q1^2: below Blur, rounding decides whether the roots are real, unless the
   discriminant of the numbers given is exactly zero and of few digits. *)
Blur == "1/10000000000000"
RelOk(x, y, ref) == RLe(RAbs(RSub(x, y)), RMul(E6, ref))
Match(r, e, loose) ==
  LET M(i) == RMax(RAbs(e[1]), RAbs(e[Len(e)]))
      Ok(x, y) == RelOk(x, y, IF loose THEN M(1) ELSE RAbs(y)) IN
  IF Len(e) = 1 THEN Ok(r[1], e[1])
  ELSE (Ok(r[1], e[1]) /\ Ok(r[2], e[2])) \/ (Ok(r[1], e[2]) /\ Ok(r[2], e[1]))
Few(a) == REq(RRound(a, 25), a)
JudgeRoots(c, o) ==
  LET a2 == c.q[1] a1 == c.q[2] a0 == c.q[3]
      k == Kind(a2, a1, a0)
      D == Disc(a2, a1, a0)
      quad == RSgn(a2) # 0
      scale == RMax(RMul(a1, a1), RAbs(RMul(4, RMul(a2, a0))))
      small == quad /\ RSgn(D) # 0 /\ RLe(RAbs(D), RMul(Blur, scale))
      exact == quad /\ RSgn(D) = 0 /\ ~(Few(a2) /\ Few(a1) /\ Few(a0))
      blur == small \/ exact
      r == o.r
      vertex == RDiv(RMul("-1/2", a1), a2)
      e == TLCEval(Roots(a2, a1, a0))
  IN
  IF ~FinV(r) THEN {"C23 roots_quadratic returns something that is no number"}
  ELSE IF blur THEN
       If(Len(r) \notin {0, 2}, {"C23 roots_quadratic: number of roots (nearly multiple)"})
       \cup If(Len(r) = 2 /\ \E i \in 1..2 : ~RelOk(r[i], vertex, RAbs(vertex)), {"C23 roots_quadratic: nearly multiple roots are wrong"})
  ELSE IF Len(r) # Len(e) THEN {"C23 roots_quadratic: number of real roots, " \o k}
  ELSE If(Len(e) > 0 /\ ~Match(r, e, c.nit = 0 /\ c.tol # "0"), {"C23 roots_quadratic: wrong roots, " \o k})
---------------------------------------------------------------------------
(* Symmetry and definiteness *)
Square(a) == Len(a) = Len(a[1])
JudgeSym(c, o) ==
  LET a == c.a sq == Square(a) IN
  If(~sq /\ o.r # FALSE, {"C24 check_symmetric accepts a rectangular operator"})
  \cup (IF ~sq THEN {} ELSE
    If(IsSym(a) /\ o.r # TRUE, {"C24 check_symmetric rejects a symmetric operator"})
    \cup If(c.e >= 0 /\ RLe(RMul("1/100", RMul(MMaxAbs(a), MMaxAbs(a))), MMaxAbs(Asym(a))) /\ ~IsSym(a) /\ o.r # FALSE,
            {"C24 check_symmetric accepts an operator that is not symmetric"}))
JudgePd(c, o) ==
  LET sq == Square(c.a)
      s == TLCEval(SymPart(c.a)) w == TLCEval(SymPart(c.im))
      D == DOMAIN s
      z == \A i, j \in D : RSgn(w[i][j]) = 0
      neg == \A i, j \in D : RSgn(s[i][j]) <= 0
      null == \A i, j \in D : RSgn(s[i][j]) = 0
      oneSign == (\A i, j \in D : RSgn(w[i][j]) >= 0) \/ (\A i, j \in D : RSgn(w[i][j]) <= 0)
      nm == "C24 check_positive_definite" \o (IF c.semi THEN " (semi)" ELSE "")
  IN
  IF ~sq THEN If(o.r # FALSE, {nm \o " accepts a rectangular operator"})
  ELSE If(z /\ PD(s) /\ o.r # TRUE, {nm \o " rejects a positive definite operator"})
       \cup If((\A i, j \in D : RSgn(c.a[i][j]) = 0 /\ RSgn(c.im[i][j]) = 0) /\ c.semi /\ o.r # TRUE, {nm \o " rejects a semi-definite operator"})
       \cup If(neg /\ ~(c.semi /\ null) /\ o.r # FALSE, {nm \o " accepts an operator that is nowhere positive"})
       \cup If(~z /\ oneSign /\ o.r # FALSE, {nm \o " accepts a form that is not real"})
---------------------------------------------------------------------------
JudgeGal(c, o) ==
  LET a == IF c.op = "p1" THEN Poisson1(c.n) ELSE Poisson2(c.n)
      cplx == c.dt = "c16"
      nm == "C25 " \o (IF c.op = "p1" THEN "Poisson1dMatvec" ELSE "Poisson2dMatvec") IN
  If(~o.pure, {nm \o " changes its argument"})
  \cup If(~o.own, {nm \o " returns memory shared with its argument"})
  \cup If(o.dt # c.dt, {nm \o " returns another numeric type"})
  \cup If(~(FinV(o.y.r) /\ FinV(o.y.i)), {nm \o " returns something that is no number"})
  \cup If(FinV(o.y.r) /\ FinV(o.y.i) /\ ~(VEq(o.y.r, MVec(a, c.x)) /\ VEq(o.y.i, IF cplx THEN MVec(a, c.y) ELSE VScale(0, c.x))),
          {nm \o " is not the product with the Poisson matrix"})
---------------------------------------------------------------------------
P(c) == CASE c.op \in {"roots", "eps"} -> "C23" [] c.op \in {"sym", "pd"} -> "C24" [] OTHER -> "C25"
JudgeEv(e) ==
  LET c == e.c o == e.o IN
  IF o.out # "ok" THEN {P(c) \o " " \o c.op \o " raises " \o o.exc}
  ELSE If(~o.again, {P(c) \o " " \o c.op \o ": the same call gives another result"}) \cup
       CASE c.op = "roots" -> JudgeRoots(c, o)
         [] c.op = "eps" -> If(~(RFin(o.r) /\ REq(o.r, RPow2(-52))), {"C23 machine_epsilon is not 2^-52"})
         [] c.op = "sym" -> JudgeSym(c, o) \cup If(~o.pure, {"C24 check_symmetric changes the operator"})
                         \cup If(~o.rng, {"C24 check_symmetric changes the state of the global random generator"})
         [] c.op = "pd" -> JudgePd(c, o) \cup If(~o.pure, {"C24 check_positive_definite changes the operator"})
         [] OTHER -> JudgeGal(c, o)
Ev(k) == Traces[k].ev
Init == t \in 1..Len(Traces) /\ l = 1 /\ bad = {}
Step == /\ l <= Len(Ev(t))
        /\ bad' = bad \cup {b \o " @" \o ToString(l) : b \in JudgeEv(Ev(t)[l])}
        /\ l' = l + 1 /\ t' = t
Done == /\ l = Len(Ev(t)) + 1
        /\ PrintT("TRACE " \o ToJson([id |-> Traces[t].id, n |-> l - 1, bad |-> bad]))
        /\ l' = l + 1 /\ UNCHANGED <<t, bad>>
Next == Step \/ Done
View == <<t, l>>
=============================================================================
