---------------------------------- MODULE LlsGen ----------------------------------
(* Random histories of least-squares solver objects. *)
EXTENDS RandGen
CONSTANTS DEPTH, METHODS, SWEEP, FORMS, SIZES
M_lsqr == <<"lsqr">>
M_lsmr == <<"lsmr">>
M_ls == <<"lsqr", "lsmr">>
M_craig == <<"craig", "craigmr">>
M_all == <<"lsqr", "lsmr", "lsqr", "lsmr", "craig", "craigmr">>
VARIABLES sol, hist
RMat(m, n, k) == TLCEval([i \in 1..m |-> [j \in 1..n |-> Pick(-k..k)]])
\* rank deficient: the last column (row) is a combination of the first ones
LastCol0(a) == [i \in DOMAIN a |-> [j \in DOMAIN a[1] |-> IF j < Len(a[1]) THEN a[i][j] ELSE ISum(SubSeq(a[i], 1, Len(a[1]) - 1))]]
LastCol(aa) == CHOOSE r \in {LastCol0(a) : a \in {aa}} : TRUE
XOuter0(u, v) == [i \in DOMAIN u |-> [j \in DOMAIN v |-> u[i] * v[j]]]
XOuter(uu, vv) == CHOOSE r \in {XOuter0(u, v) : u \in {uu}, v \in {vv}} : TRUE
S_usual == <<<<1, 1>>, <<2, 2>>, <<3, 2>>, <<4, 2>>, <<3, 3>>, <<4, 3>>, <<5, 3>>, <<5, 4>>, <<2, 3>>, <<2, 4>>, <<3, 4>>, <<1, 3>>, <<3, 1>>, <<4, 4>>>>
S_long == <<<<8, 7>>, <<9, 7>>, <<7, 8>>, <<7, 7>>, <<10, 8>>>>
MatOf(k, m, n) == TLCEval(CASE k = "any" -> RMat(m, n, 3)
                            [] k = "sparse" -> TLCEval([i \in 1..m |-> [j \in 1..n |-> PickSeq(<<0, 0, 1, 2, -1>>)]])
                            [] k = "defic" -> IF n > 1 THEN LastCol(RMat(m, n, 2)) ELSE RMat(m, n, 2)
                            [] k = "rank1" -> XOuter(Vec(m, 2), Vec(n, 2))
                            [] k = "zero" -> [i \in 1..m |-> [j \in 1..n |-> 0]]
                            [] k = "near" -> TLCEval([i \in 1..m |-> [j \in 1..n |-> IF i = j THEN Pick({5, 6, 7}) ELSE Pick({-1, 0, 0, 1})]])
                            [] k = "eye" -> [i \in 1..m |-> [j \in 1..n |-> IF i = j THEN 1 ELSE 0]]
                            [] k = "big" -> TLCEval([i \in 1..m |-> [j \in 1..n |-> Pick(-9..9) * PickSeq(<<1, 1, 10>>)]]))
MetN(n, z) == LET w == One(Pick(6..10)) IN
  IF w <= 7 THEN LET d == One(TLCEval([i \in 1..n |-> PickSeq(<<"1", "1/2", "2", "1/4", "4">>)])) IN
                      [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] ELSE "0"]]
  ELSE Half(Dominant(SymR(n, 1), Ones(n), 1))
New(z) == LET me == One(PickSeq(METHODS))
              s == One(PickSeq(SIZES))
              f0 == One(IF Pick(1..10) <= FORMS THEN PickSeq(<<"tr", "neg", "scal", "sum", "sub", "prod", "block", "block", "bd", "red", "fun">>) ELSE "fun")
              f == One(IF Fits(f0, s[1], s[2]) THEN f0 ELSE "scal")
              x == One(Params(f, s[1], s[2], FALSE))
              k == One(IF s[2] > 5 THEN PickSeq(<<"any", "any", "sparse", "defic", "near">>) ELSE PickSeq(<<"any", "any", "any", "any", "sparse", "defic", "rank1", "zero", "eye", "big">>))
          IN  [op |-> "new", m |-> me, kind |-> k, nr |-> s[1], nc |-> s[2],
               eA |-> [f |-> f, p |-> PartsOf(f, x, Cut(f, x, MatOf(k, s[1], s[2])), FALSE), x |-> x],
               dt |-> IF f = "fun" THEN PickSeq(<<"f8", "f8", "f8", "i8">>) ELSE "f8", buf |-> Chance(30, me)]
ChangeOp(k) == LET s == sol[k] e == s.eA IN
               [op |-> "change", k |-> k, w |-> "A", how |-> PickSeq(<<"put", "set">>),
                p |-> PartsOf(e.f, e.x, Cut(e.f, e.x, MatOf(s.kind, s.nr, s.nc)), FALSE)]
\* metrics
EMet(n, z) == IF Chance(50, z) THEN NoParts
              ELSE LET f == One(IF Pick(1..10) <= FORMS THEN PickSeq(<<"inv", "inv", "scal", "sum", "neg", "fun">>) ELSE "fun") IN
                   IF f = "inv" THEN LmOf(f, n) ELSE PreParts(f, MetN(n, z))
\* new parts for the metrics of an earlier solve
CMet(e, n, z) == IF e.f = "no" THEN <<>> ELSE IF e.f = "inv" THEN <<Pair(n)>> ELSE PreParts(e.f, MetN(n, z)).p
EKeep(e, p) == IF e.f = "no" THEN e ELSE Change(e, p)
Rhs(s, w, z) == CASE w <= 4 -> Vec(s.nr, 4)
                  [] w <= 8 -> [i \in 1..s.nr |-> ISum([j \in 1..s.nc |-> s.A[i][j] * z[j]])]
                  [] w = 9 -> Vec(s.nr, 1)
                  [] OTHER -> [i \in 1..s.nr |-> 0]
Scaled(v, e) == IF e = 0 THEN v ELSE VText(VScale(RPow2(e), v))
Exps == <<-60, -40, -20, 0, 0, 20, 40, 60>>
Fresh(k) ==
  LET s == sol[k]
      z == One(Vec(s.nc, 3))
      b0 == One(Rhs(s, One(Pick(1..21) \div 2), z))
      e == One(IF Chance(80, z) THEN 0 ELSE PickSeq(<<-10, -20, 15>>))
      top == (IF s.nr < s.nc THEN s.nr ELSE s.nc) + 2
      low == IF s.m \in {"lsqr", "craig"} THEN 1 ELSE 0          \* there 0 means the default
      exact == Chance(IF top > 8 THEN 70 ELSE 40, z)
      keep == One(s.eM # <<>> /\ Pick(1..15) <= FORMS)
      cM == One(IF keep THEN CMet(s.eM[1], s.nr, z) ELSE <<>>)
      cN == One(IF keep THEN CMet(s.eN[1], s.nc, z) ELSE <<>>)
  IN  [op |-> "solve", k |-> k, b |-> Scaled(b0, e),
       eM |-> IF keep THEN EKeep(s.eM[1], cM) ELSE EMet(s.nr, z), eN |-> IF keep THEN EKeep(s.eN[1], cN) ELSE EMet(s.nc, z),
       keep |-> keep, cM |-> cM, cN |-> cN, show |-> Chance(30, z), rb |-> Chance(30, z),   \* rb: in the array of the last right-hand side
       damp |-> PickSeq(<<0, 0, 0, 0, 1, "1/2", 2, "1/10">>),
       lim |-> IF Pick(1..10) <= SWEEP THEN [i \in 1..(top - low + 1) |-> i - 1 + low] ELSE <<IF top > 8 THEN PickSeq(<<-1, -1, 6, 7, 8, 20>>) ELSE PickSeq(<<-1, -1, 1, 2, 3, 4, 20>>)>>,
       atol |-> IF exact THEN "0" ELSE PickSeq(<<"d", "d", "1/1000000", "1/100", "1/3">>),
       btol |-> IF exact THEN "0" ELSE PickSeq(<<"d", "d", "1/1000000", "1/100", "1/3">>),
       conlim |-> PickSeq(<<"d", "d", "0", "3", "30", "1000">>),
       etol |-> IF top > 8 THEN PickSeq(<<"0", "0", "0", "d">>) ELSE PickSeq(<<"0", "0", "d", "1/10", "1/2">>),
       window |-> PickSeq(<<-1, -1, 1, 2, 3>>),
       bi |-> Chance(15, z), var |-> Chance(50, z), sr |-> Chance(60, z), si |-> Chance(60, z),
       sc |-> IF s.eA.f # "fun" \/ s.ch \/ Chance(65, z) THEN <<>> ELSE <<IF s.m \in {"craig", "craigmr"} THEN 0 ELSE PickSeq(Exps), PickSeq(Exps)>>]
\* often the right-hand side of the last solve with this solver again, above all when the operator has changed
Solve(k) ==
  LET prev == LastCmd(hist, LAMBDA c : c.op = "solve" /\ c.k = k)
      new == One(Fresh(k))
      again == prev # <<>> /\ Chance(IF hist[Len(hist)].op = "change" \/ new.keep THEN 60 ELSE 20, new)
  IN  IF again THEN [new EXCEPT !.b = prev[1].b, !.damp = prev[1].damp, !.sc = <<>>] ELSE new
Cmd == IF sol = <<>> THEN New(sol)
       ELSE IF Len(sol) < 2 /\ Chance(25, sol) THEN New(sol)
       ELSE IF hist[Len(hist)].op = "solve" /\ Pick(1..20) <= FORMS THEN ChangeOp(hist[Len(hist)].k)
       ELSE IF hist[Len(hist)].op = "change" THEN Solve(hist[Len(hist)].k)
       ELSE Solve(One(Pick(DOMAIN sol)))
Apply(ss, c) == IF c.op = "new" THEN Append(ss, [m |-> c.m, nr |-> c.nr, nc |-> c.nc, kind |-> c.kind, eA |-> c.eA, A |-> Val(c.eA), ch |-> FALSE, eM |-> <<>>, eN |-> <<>>])
                ELSE IF c.op = "change" THEN LET e == Change(ss[c.k].eA, c.p) IN [ss EXCEPT ![c.k].eA = e, ![c.k].A = Val(e), ![c.k].ch = TRUE]
                ELSE [ss EXCEPT ![c.k].eM = <<c.eM>>, ![c.k].eN = <<c.eN>>]
Init == sol = <<>> /\ hist = <<>>
Next == Len(hist) < DEPTH /\ \E c \in {Cmd} :
        /\ hist' = Append(hist, c)
        /\ sol' = Apply(sol, c)
Emit == Len(hist) = DEPTH => PrintT("BEHAVIOUR " \o ToJson(hist))
Symm(a) == a # <<>> => \A i, j \in DOMAIN a : REq(a[i][j], a[j][i])
Sound == \A k \in DOMAIN hist : hist[k].op = "solve" => Symm(Val(hist[k].eM)) /\ Symm(Val(hist[k].eN)) /\ Len(hist[k].b) = sol[hist[k].k].nr
=============================================================================
