---------------------------------- MODULE ToolsGen ----------------------------------
(* Random calls of the tools, written out for replay. *)
EXTENDS Tools, RandGen
CONSTANTS DEPTH, KINDS
K_roots == <<"roots">>
K_check == <<"sym", "pd">>
K_gal == <<"p1", "p2">>
K_all == <<"roots", "roots", "sym", "pd", "p1", "p2", "eps">>
VARIABLES hist
Sc(k) == PickSeq(<<0, 0, 0, 0, 0, -1, 3, -7, 12, -20, 26, -33, 45, -60, 60>>)
\* the coefficients as numbers
Fac(z) == PickSeq(<<1, 1, 2, 3, 5, 7, 9, 27, 49, 81, 99, 101, 1000, 777>>)
Coef(w, z) ==
  LET k == One(Fac(z)) m == One(Pick(-50..50)) k2 == One(Fac(z)) m2 == One(Pick(-50..50)) s == One(PickSeq(<<1, 1, -1>>)) IN
  CASE w <= 5 -> <<Pick(-9..9), Pick(-9..9), Pick(-9..9)>>
    [] w = 6 -> <<0, 0, PickSeq(<<0, 0, 1, -5>>)>>
    [] w <= 10 -> <<s * k * k2, s * (-(k * m2 + k2 * m)), s * m * m2>>                  \* rational roots
    [] w <= 14 -> <<s * k * k, s * (-2 * k * m), s * m * m>>                             \* a double root
    [] w <= 16 -> <<s * k * k, s * (-2 * k * m), RAdd(s * m * m, RMul(PickSeq(<<1, -1>>), RPow2(PickSeq(<<-10, -20, -3, 0>>))))>>   \* two close ones, or none
    [] w = 17 -> <<0, Pick(-9..9), Pick(-9..9)>>
    [] w = 18 -> <<Pick(-9..9), 0, Pick(-9..9)>>
    [] w = 19 -> <<Pick(-9..9), Pick(-9..9), 0>>
    [] OTHER -> <<Pick(-1..1), RMul(Pick(-9..9), RPow2(40)), Pick(-9..9)>>
RootsCmd(z) ==
  LET q == One(TLCEval(Coef(One(Pick(1..20)), z)))
      wide == One(Chance(25, z))
      e == One(Sc(z))
      es == One(IF wide THEN TLCEval(<<Sc(z), Sc(z), Sc(z)>>) ELSE <<e, e, e>>)
  IN  [op |-> "roots", q |-> One(VText([i \in 1..3 |-> RMul(q[i], RPow2(es[i]))])),
       tol |-> PickSeq(<<"d", "d", "d", "0", "1/1000000000000">>), nit |-> PickSeq(<<-1, -1, -1, 0, 1, 2, 3>>)]
SkewPlus0(s, k) == [i \in DOMAIN s |-> [j \in DOMAIN s |-> IF i < j THEN s[i][j] + k[i][j] ELSE s[i][j]]]
SkewPlus(ss, kk) == CHOOSE r \in {SkewPlus0(s, k) : s \in {ss}, k \in {kk}} : TRUE
One2(n) == LET i == One(Pick(1..n)) j == One(Pick(1..n)) IN [p \in 1..n |-> [q \in 1..n |-> IF p = i /\ q = j THEN 1 ELSE 0]]
Ex(z) == PickSeq(<<0, 0, 0, 0, 10, 25, 33, -1, -20, -40>>)      \* the matrix is a * 2^e
SymCmd(z) ==
  LET n == One(Pick(1..5)) m == One(Pick(1..5)) w == One(Pick(1..10))
      a == One(TLCEval(CASE w <= 4 -> SymR(n, 4)
             [] w = 5 -> Dominant(SymR(n, 3), Signs(n), 10)
             [] w = 6 -> SkewPlus(SymR(n, 3), One2(n))
             [] w = 7 -> SkewPlus(Dominant(SymR(n, 2), Ones(n), 8), One2(n))
             [] w = 8 -> [i \in 1..m |-> TLCEval([j \in 1..n |-> Pick(-3..3)])]
             [] w = 9 -> [i \in 1..n |-> [j \in 1..n |-> 0]]
             [] OTHER -> Mat(n, 4)))
  IN  [op |-> "sym", a |-> a, e |-> Ex(z), how |-> PickSeq(<<"fn", "flag", "both", "mat", "obj">>), rep |-> PickSeq(<<-1, -1, 4, 20>>), dt |-> PickSeq(<<"f8", "i8">>)]
Neg0(a) == [i \in DOMAIN a |-> [j \in DOMAIN a |-> -IAbs(a[i][j])]]
Neg(aa) == CHOOSE r \in {Neg0(a) : a \in {aa}} : TRUE
ZeroM(n) == [i \in 1..n |-> [j \in 1..n |-> 0]]
PdCmd(z) ==
  LET n == One(Pick(1..5)) m == One(Pick(1..5)) w == One(Pick(1..12)) v == One(Pick(1..6))
      g == One(Mat(n, 2)) sg == One(PickSeq(<<1, -1>>))
      a == One(TLCEval(CASE w <= 3 -> Dominant(SymR(n, 3), Ones(n), 1)
             [] w = 4 -> IMul(IT(g), g)
             [] w = 5 -> Neg(SymR(n, 3))
             [] w = 6 -> Dominant(SymR(n, 2), [i \in 1..n |-> -1], 1)
             [] w = 7 -> Neg(Mat(n, 1))
             [] w = 8 -> ZeroM(n)
             [] w = 9 -> [i \in 1..m |-> TLCEval([j \in 1..n |-> Pick(-3..3)])]
             [] w = 10 -> Dominant(Mat(n, 2), Ones(n), 1)                 \* not symmetric
             [] OTHER -> SymR(n, 3)))
      nr == Len(a)
      nc == Len(a[1])
      im == One(TLCEval(CASE v <= 3 -> [i \in 1..nr |-> [j \in 1..nc |-> 0]]
              [] v = 4 -> [i \in 1..nr |-> [j \in 1..nc |-> IF i = j THEN 0 ELSE IF i < j THEN i + j ELSE -(i + j)]]
              [] OTHER -> [i \in 1..nr |-> [j \in 1..nc |-> sg * PickSeq(<<0, 1, 1, 2>>)]]))
  IN  [op |-> "pd", a |-> a, e |-> Ex(z), im |-> im, semi |-> Chance(50, z), how |-> PickSeq(<<"fn", "both", "mat", "obj">>), rep |-> PickSeq(<<-1, -1, 4, 20>>)]
Big(n) == TLCEval([i \in 1..n |-> Pick(-99..99)])
GalCmd(k, z) ==
  LET n == One(IF k = "p1" THEN PickSeq(<<1, 2, 3, 4, 5, 8, 13>>) ELSE PickSeq(<<1, 2, 3, 3, 4, 4, 5, 6, 7>>)) IN
  [op |-> k, n |-> n, x |-> Big(IF k = "p1" THEN n ELSE n * n), dt |-> PickSeq(<<"i8", "f8", "f8", "c16", "f4">>), y |-> Big(IF k = "p1" THEN n ELSE n * n)]
Cmd == LET k == One(PickSeq(KINDS)) IN
  CASE k = "roots" -> RootsCmd(hist) [] k = "sym" -> SymCmd(hist) [] k = "pd" -> PdCmd(hist)
    [] k = "eps" -> [op |-> "eps"] [] OTHER -> GalCmd(k, hist)
Init == hist = <<>>
Next == Len(hist) < DEPTH /\ \E c \in {Cmd} : hist' = Append(hist, c)
Emit == Len(hist) = DEPTH => PrintT("BEHAVIOUR " \o ToJson(hist))
=============================================================================
