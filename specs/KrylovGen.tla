-------------------------------- MODULE KrylovGen --------------------------------
(* Random histories of solver objects: systems of many kinds, several solves with each object. *)
EXTENDS RandGen
CONSTANTS DEPTH, METHODS, SWEEP,    \* SWEEP: out of 10 solves, how many run through all product budgets
          FORMS,                    \* out of 10 operators, how many are made of parts
          SIZES                     \* dimensions of the systems
S_usual == <<1, 2, 2, 3, 3, 3, 4, 4, 5>>
S_long == <<7, 8, 9, 10>>
M_cg == <<"cg">>
M_uns == <<"cgs", "bicgstab", "tfqmr">>
M_minres == <<"minres">>
M_symmlq == <<"symmlq">>
M_short == <<"cg", "cg", "cgs", "bicgstab", "tfqmr">>
M_all == <<"cg", "cgs", "bicgstab", "tfqmr", "minres", "symmlq">>
VARIABLES sol, hist
\* kinds of matrices  (bound arguments are evaluated exactly once)
Hollow(a) == CHOOSE r \in {[i \in DOMAIN m |-> [j \in DOMAIN m |-> IF i = j THEN 0 ELSE m[i][j]]] : m \in {a}} : TRUE
Tri0(a) == CHOOSE r \in {[i \in DOMAIN m |-> [j \in DOMAIN m |-> IF j < i THEN 0 ELSE IF i = j THEN 1 + IAbs(m[i][j]) ELSE m[i][j]]] : m \in {a}} : TRUE
Skew(a) == CHOOSE r \in {[i \in DOMAIN m |-> [j \in DOMAIN m |-> IF i = j THEN 1 ELSE IF i < j THEN m[i][j] ELSE -m[j][i]]] : m \in {a}} : TRUE
Loose(a) == CHOOSE r \in {[i \in DOMAIN m |-> [j \in DOMAIN m |-> IF i = j THEN m[i][j] + 5 ELSE m[i][j]]] : m \in {a}} : TRUE
MatOf(kind, n) == TLCEval(
  CASE kind = "spd" -> Dominant(SymR(n, 3), Ones(n), One(Pick(1..3)))
    [] kind = "psd" -> LET w == One(TLCEval([i \in 1..Max2(1, n - 1) |-> Vec(n, 2)])) IN IMul(IT(w), w)      \* singular
    [] kind = "ind" -> SymR(n, 3)
    [] kind = "indd" -> Dominant(SymR(n, 2), One(Signs(n)), 1)
    [] kind = "hollow" -> Hollow(SymR(n, 2))
    [] kind = "neg" -> Dominant(SymR(n, 2), [i \in 1..n |-> -1], 1)
    [] kind = "diag" -> Diag(One(TLCEval([i \in 1..n |-> Pick({1, 2, 3, 5})])))
    [] kind = "stretch" -> Plus(One(BigDiag(n)), One(SymR(n, 1)))
    [] kind = "nonsym" -> Dominant(One(Mat(n, 3)), Ones(n), 1)
    [] kind = "nonsymi" -> Dominant(One(Mat(n, 2)), One(Signs(n)), 1)
    [] kind = "any" -> One(Mat(n, 3))
    [] kind = "loose" -> Loose(Mat(n, 3))
    [] kind = "tri" -> Tri0(Mat(n, 2))
    [] kind = "skew" -> Skew(Mat(n, 2)))
Kinds(m) == CASE m = "cg" -> <<"spd", "spd", "spd", "spd", "spd", "stretch", "diag", "psd", "ind", "indd", "neg", "hollow", "nonsym">>
              [] m \in {"cgs", "bicgstab", "tfqmr"} -> <<"nonsym", "nonsym", "nonsym", "nonsymi", "spd", "any", "tri", "skew", "stretch">>
              [] OTHER -> <<"spd", "spd", "indd", "indd", "indd", "indd", "ind", "ind", "ind", "ind", "psd", "psd", "diag", "diag", "stretch", "stretch", "hollow", "nonsym">>
\* preconditioners: the rational matrix, as text; symmetric positive definite for the symmetric methods
PreN(m, n) ==
  LET w == One(Pick(6..10)) IN
  IF w <= 7 THEN LET d == One(TLCEval([i \in 1..n |-> PickSeq(<<"1", "1/2", "2", "1/4", "4">>)])) IN
                      [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] ELSE "0"]]
  ELSE Half(Dominant(IF m \in {"cgs", "bicgstab", "tfqmr"} THEN Mat(n, 1) ELSE SymR(n, 1),
                     IF m \in {"minres", "symmlq"} /\ w = 10 /\ Chance(50, m) THEN Signs(n) ELSE Ones(n), 1))
SymM(m) == m \in {"cg", "minres", "symmlq"}
\* the forms in which operators and preconditioners are given
FormsOf(m) == IF SymM(m) THEN <<"tr", "neg", "scal", "sum", "sub", "sblock", "sblock", "bd", "red", "fwd", "cmp", "inv", "fun">>
              ELSE <<"tr", "neg", "scal", "sum", "sub", "prod", "block", "block", "bd", "red", "cmp", "fun">>
PreForms(m) == IF SymM(m) THEN <<"inv", "inv", "scal", "sum", "neg", "fun">> ELSE <<"scal", "neg", "fun">>
APart(m, k, n) ==
  LET f0 == One(IF k # "nonsym" /\ Pick(1..10) <= FORMS THEN PickSeq(FormsOf(m)) ELSE "fun")
      f == One(IF Fits(f0, n, n) THEN f0 ELSE "scal")
  IN  IF f \in Lm THEN LmOf(f, n)
      ELSE LET x == One(Params(f, n, n, SymM(m)))
               x2 == IF f = "bd" THEN <<x[1], x[1]>> ELSE x
           IN  [f |-> f, p |-> PartsOf(f, x2, Cut(f, x2, MatOf(k, n)), SymM(m)), x |-> x2]
PPart(m, n) ==
  IF Chance(50, m) THEN NoParts
  ELSE LET f == One(IF Pick(1..10) <= FORMS THEN PickSeq(PreForms(m)) ELSE "fun") IN
       IF f \in Lm THEN LmOf(f, n) ELSE PreParts(f, PreN(m, n))
TolPairs == <<<<"d", "d">>, <<"d", "d">>, <<"d", "d">>, <<"1/1000000000", "1/1000000000">>, <<"1/1000000000", "0">>, <<"1/100000000", "1/10">>, <<"0", "1/1000">>,
              <<"1", "0">>, <<"0", "1">>, <<"0", "0">>, <<"1/10", "1/1000000">>, <<"1/1000000", "1/2">>>>
TolLong == <<<<"d", "d">>, <<"1/1000000000", "0">>, <<"0", "1/1000000">>, <<"1/10000", "0">>, <<"0", "0">>>>
\* (the parameter keeps TLC from evaluating the random choice once and for all)
New(d) == LET m == One(PickSeq(METHODS))
              n == One(PickSeq(SIZES))
              k == One(IF n > 5 /\ m \in {"cgs", "bicgstab", "tfqmr"} THEN PickSeq(<<"nonsym", "loose", "loose", "loose", "any", "spd">>) ELSE PickSeq(Kinds(m)))
              e == One(APart(m, k, n))
              t == One(IF n > 5 THEN PickSeq(TolLong) ELSE PickSeq(TolPairs))
          IN  [op |-> "new", m |-> m, kind |-> k, n |-> n, eA |-> e, eP |-> PPart(m, n), abstol |-> t[1], reltol |-> t[2],
               dt |-> IF e.f = "fun" THEN PickSeq(<<"f8", "f8", "f8", "i8">>) ELSE "f8", buf |-> Chance(30, m)]
Scale == PickSeq(<<0, 0, 0, 0, 0, 0, -10, -30, 20>>)
Scaled(v, e) == IF e = 0 THEN v ELSE VText(VScale(RPow2(e), v))
\* other parts
ChangeOp(k) ==
  LET s == sol[k]
      w == One(IF s.eP.f # "no" /\ Chance(40, s) THEN "P" ELSE "A")
      e == IF w = "A" THEN s.eA ELSE s.eP
  IN  [op |-> "change", k |-> k, w |-> w, how |-> PickSeq(<<"put", "set">>),
       p |-> IF e.f \in Lm THEN <<Pair(s.n)>>
             ELSE IF w = "P" THEN PreParts(e.f, PreN(s.m, s.n)).p
             ELSE PartsOf(e.f, e.x, Cut(e.f, e.x, MatOf(s.kind, s.n)), SymM(s.m))]
Rhs(s, cons, z) == IF cons THEN [i \in 1..s.n |-> ISum([j \in 1..s.n |-> s.A[i][j] * z[j]])]
                   ELSE IF Chance(4, z) THEN [i \in 1..s.n |-> 0]
                   ELSE IF s.kind = "hollow" /\ Chance(60, z) THEN LET k == One(Pick(1..s.n)) IN [i \in 1..s.n |-> IF i = k THEN Pick({-3, 1, 2}) ELSE 0]
                   ELSE Vec(s.n, 4)
Exps == <<-60, -40, -20, 0, 0, 20, 40, 60>>
\* other units: A 2^i, b 2^j, precon 4^p
Units3(z) == <<PickSeq(Exps), PickSeq(Exps), PickSeq(<<0, 0, 10, -10, 25, -25>>)>>
\* an option: switched on, off, or left out
Tri(on, z) == LET w == One(Pick(1..10)) IN IF w <= 3 THEN "d" ELSE IF w <= 3 + on THEN "T" ELSE "F"
Fresh(k) ==
  LET s == sol[k]
      z == One(Vec(s.n, 3))
      cons == s.eA.f \notin Lm /\ ((s.kind = "psd" /\ (s.m \in {"cg", "symmlq"} \/ Chance(50, z))) \/ Chance(25, z))
      e == One(IF Chance(70, z) THEN 0 ELSE Scale)
      b0 == One(Rhs(s, cons, z))
      g0 == One(IF s.m \in {"minres", "symmlq"} \/ Chance(50, z) THEN <<>>
                ELSE IF cons /\ Chance(30, z) THEN z ELSE IF Chance(10, z) THEN [i \in 1..s.n |-> 0] ELSE Vec(s.n, 3))
      sw == Pick(1..10) <= SWEEP
      top == IF s.m = "cgs" THEN 2 * s.n + 3 ELSE IF s.m \in {"bicgstab", "tfqmr"} THEN 2 * s.n + 2 ELSE s.n + 2
  IN  [op |-> "solve", k |-> k, b |-> Scaled(b0, e), g |-> Scaled(g0, e),
       \* rb: in the array of the last right-hand side; gl: the guess is the last solution itself
       \* show: a new object is also asked for its log
       show |-> s.m = "minres" /\ Chance(30, z),
       rb |-> Chance(30, z), gl |-> s.m \notin {"minres", "symmlq"} /\ s.kind # "psd" /\ Chance(8, z),
       mm |-> IF sw THEN [i \in 1..(top + 1) |-> i - 1] ELSE <<IF s.n > 5 THEN PickSeq(<<-1, -1, -1, 6, s.n, 2 * s.n, 40>>) ELSE PickSeq(<<-1, -1, -1, 0, 1, 2, 3, 4, 5, 6, 30>>)>>,
       chk |-> IF s.kind = "nonsym" /\ s.m = "minres" THEN PickSeq(<<"d", "T">>) ELSE IF s.kind = "nonsym" /\ s.m = "symmlq" THEN "T" ELSE Tri(1, z),
       curv |-> Tri(5, z), sr |-> Tri(4, z), si |-> Tri(4, z), window |-> PickSeq(<<-1, -1, 1, 2, 3>>),
       gi |-> Chance(30, z), bi |-> Chance(20, z),
       shift |-> IF s.m \in {"minres", "symmlq"} /\ s.kind # "psd" THEN PickSeq(<<"d", "0", "0", "1", "-2", "1/2", "5">>) ELSE "d",
       rtol |-> IF s.n > 5 THEN PickSeq(<<"d", "d", "1/1000000", "0">>) ELSE PickSeq(<<"d", "d", "1/1000000", "1/100", "0">>),
       etol |-> PickSeq(<<"0", "0", "0", "d">>),
       sc |-> IF s.eA.f # "fun" \/ s.eP.f \notin {"fun", "no"} \/ s.ch \/ Chance(65, z) THEN <<>> ELSE Units3(z)]
\* often the data of the last solve with this solver again, above all when the operator has changed
Solve(k) ==
  LET prev == LastCmd(hist, LAMBDA c : c.op = "solve" /\ c.k = k)
      new == One(Fresh(k))
      again == prev # <<>> /\ ~(sol[k].ch /\ sol[k].kind = "psd") /\ Chance(IF hist[Len(hist)].op = "change" THEN 60 ELSE 20, new)
  IN  IF again THEN [new EXCEPT !.b = prev[1].b, !.g = prev[1].g, !.shift = prev[1].shift, !.rtol = prev[1].rtol, !.chk = prev[1].chk,
                                !.gl = @ \/ (prev[1].g # <<>> /\ sol[k].m \notin {"minres", "symmlq"} /\ Chance(40, new)), !.sc = <<>>]
      ELSE new
Cmd == IF sol = <<>> THEN New(sol)
       ELSE IF Len(sol) < 2 /\ Chance(25, sol) THEN New(sol)
       ELSE IF hist[Len(hist)].op = "solve" /\ Pick(1..20) <= FORMS THEN ChangeOp(hist[Len(hist)].k)
       ELSE IF hist[Len(hist)].op = "change" THEN Solve(hist[Len(hist)].k)
       ELSE Solve(One(Pick(DOMAIN sol)))
Rec(c) == [m |-> c.m, n |-> c.n, eA |-> c.eA, eP |-> c.eP, kind |-> c.kind, A |-> Val(c.eA), P |-> Val(c.eP), ch |-> FALSE]
Apply(ss, c) == IF c.op = "new" THEN Append(ss, Rec(c))
                ELSE IF c.op = "change" THEN
                  LET s == ss[c.k] IN
                  [ss EXCEPT ![c.k] = IF c.w = "A" THEN LET e == Change(s.eA, c.p) IN [s EXCEPT !.eA = e, !.A = Val(e), !.ch = TRUE]
                                      ELSE LET e == Change(s.eP, c.p) IN [s EXCEPT !.eP = e, !.P = Val(e), !.ch = TRUE]]
                ELSE ss
Init == sol = <<>> /\ hist = <<>>
Next == Len(hist) < DEPTH /\ \E c \in {Cmd} :
        /\ hist' = Append(hist, c)
        /\ sol' = Apply(sol, c)
Emit == Len(hist) = DEPTH => PrintT("BEHAVIOUR " \o ToJson(hist))
\* the systems are as announced
Sound == \A k \in DOMAIN sol : sol[k].m \in {"cg", "minres", "symmlq"} =>
           /\ MEq(sol[k].A, MT(sol[k].A)) \/ sol[k].kind = "nonsym"
           /\ (sol[k].P # <<>> => \A i, j \in 1..sol[k].n : REq(sol[k].P[i][j], sol[k].P[j][i]))
           /\ (sol[k].kind \in {"spd", "psd", "diag", "stretch"} => \A i \in 1..sol[k].n : RLe(0, sol[k].A[i][i]))
=============================================================================
