---------------------------------- MODULE RandGen ----------------------------------
(* Random choices for the generators of behaviours.  Definitions without parameters would be evaluated once and
   for all, and bound ones again at each use: values are therefore fixed with TLCEval or bound by a set. *)
EXTENDS Krylov, Parts, Json
Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(DOMAIN s)]
One(x) == CHOOSE y \in {x} : TRUE
Chance(p, d) == Pick(1..100) <= p
IAbs(i) == IF i < 0 THEN -i ELSE i
RECURSIVE ISum(_)
ISum(v) == IF v = <<>> THEN 0 ELSE Head(v) + ISum(Tail(v))
Vec(n, k) == TLCEval([i \in 1..n |-> Pick(-k..k)])
Mat(n, k) == TLCEval([i \in 1..n |-> [j \in 1..n |-> Pick(-k..k)]])
Min2(i, j) == IF i < j THEN i ELSE j
Max2(i, j) == IF i < j THEN j ELSE i
\* the last command of the history that satisfies P, as a sequence of one, or none
LastCmd(h, P(_)) == LET S == {i \in DOMAIN h : P(h[i])} IN IF S = {} THEN <<>> ELSE <<h[CHOOSE i \in S : \A j \in S : j <= i]>>
SymR(n, k) == TLCEval(LET m == One(Mat(n, k)) IN [i \in DOMAIN m |-> [j \in DOMAIN m |-> m[Min2(i, j)][Max2(i, j)]]])
Dom0(m, sg, d) == TLCEval([i \in DOMAIN m |-> [j \in DOMAIN m |->
    IF i = j THEN sg[i] * (d + ISum([l \in DOMAIN m |-> IF l = i THEN 0 ELSE Max2(IAbs(m[i][l]), IAbs(m[l][i]))])) ELSE m[i][j]]])
\* (the arguments are bound so that each is evaluated exactly once)
Dominant(mm, ss, dd) == CHOOSE r \in {Dom0(m, sg, d) : m \in {mm}, sg \in {ss}, d \in {dd}} : TRUE
IMul(a, b) == [i \in DOMAIN a |-> [j \in DOMAIN b[1] |-> ISum([l \in DOMAIN b |-> a[i][l] * b[l][j]])]]
IT(a) == [j \in DOMAIN a[1] |-> [i \in DOMAIN a |-> a[i][j]]]
Ones(n) == [i \in 1..n |-> 1]
Signs(n) == TLCEval([i \in 1..n |-> PickSeq(<<1, 1, -1>>)])
Diag(v) == [i \in DOMAIN v |-> [j \in DOMAIN v |-> IF i = j THEN v[i] ELSE 0]]
BigDiag(n) == TLCEval([i \in 1..n |-> PickSeq(<<1, 2, 3, 10, 100>>)])
Plus0(d, m) == TLCEval(LET n == Len(d) IN [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN d[i] + n ELSE m[i][j]]])
Plus(dd, mm) == CHOOSE r \in {Plus0(d, m) : d \in {dd}, m \in {mm}} : TRUE
Half0(s) == [i \in DOMAIN s |-> VText([j \in DOMAIN s |-> RDiv(s[i][j], 2)])]
Half(ss) == CHOOSE r \in {TLCEval(Half0(s)) : s \in {ss}} : TRUE

(* Operators made of parts (Parts.tla) with a given matrix a of integers; sym: symmetric parts only. *)
IAdd(a, b, sg) == [i \in DOMAIN a |-> [j \in DOMAIN a[1] |-> a[i][j] + sg * b[i][j]]]
RMat2(m, n, k) == TLCEval([i \in 1..m |-> [j \in 1..n |-> Pick(-k..k)]])
Some0(a, sym) == IF sym THEN SymR(Len(a), 2) ELSE RMat2(Len(a), Len(a[1]), 2)
ISub(a, r, c) == [i \in DOMAIN r |-> [j \in DOMAIN c |-> a[r[i]][c[j]]]]
Range(i, j) == [k \in 1..(j - i + 1) |-> i + k - 1]
Elem(n, i, j, c) == [k \in 1..n |-> [l \in 1..n |-> (IF k = l THEN 1 ELSE 0) + (IF k = i /\ l = j THEN c ELSE 0)]]
\* a distinct sequence of n of the indices 1..m
RECURSIVE Inj(_, _, _)
Inj(n, free, z) == IF n = 0 THEN <<>> ELSE LET k == One(Pick(free)) IN <<k>> \o Inj(n - 1, free \ {k}, z)
Index(s, k) == IF \E i \in DOMAIN s : s[i] = k THEN CHOOSE i \in DOMAIN s : s[i] = k ELSE 0
\* the parameters of a form
Params(f, m, n, sym) ==
  CASE f \in {"block", "bd"} -> <<Pick(1..(m - 1)), Pick(1..(n - 1))>>
    [] f = "sblock" -> LET r == One(Pick(1..(m - 1))) IN <<r, r>>
    [] f = "red" -> LET r == One(Inj(m, 1..(m + 1), f)) IN <<r, IF sym THEN r ELSE Inj(n, 1..(n + 1), f)>>
    [] OTHER -> <<>>
PartsOf0(f, x, a, sym) ==
  LET m == Len(a) n == Len(a[1]) IN
  CASE f = "fun" -> <<a>>
    [] f = "tr" -> <<IT(a)>>
    [] f = "neg" -> <<[i \in 1..m |-> [j \in 1..n |-> -a[i][j]]]>>
    [] f = "scal" -> <<[i \in 1..m |-> [j \in 1..n |-> 2 * a[i][j]]]>>
    [] f = "sum" -> LET w == One(Some0(a, sym)) IN <<w, IAdd(a, w, -1)>>
    [] f = "sub" -> LET w == One(Some0(a, sym)) IN <<w, IAdd(w, a, -1)>>
    [] f = "prod" -> LET i == One(Pick(1..m)) j == One(Pick(1..m)) c == One(IF i = j THEN 0 ELSE Pick({-2, -1, 1, 2})) IN
                     <<Elem(m, i, j, c), IMul(Elem(m, i, j, -c), a)>>
    [] f \in {"block", "sblock", "bd"} ->
         LET r == x[1] s == x[2]
             p == <<ISub(a, Range(1, r), Range(1, s)), ISub(a, Range(1, r), Range(s + 1, n)),
                    ISub(a, Range(r + 1, m), Range(1, s)), ISub(a, Range(r + 1, m), Range(s + 1, n))>>
         IN  IF f = "block" THEN p ELSE IF f = "sblock" THEN <<p[1], p[2], p[4]>> ELSE <<p[1], p[4]>>
    [] f = "red" -> LET w == One(IF sym THEN SymR(m + 1, 3) ELSE RMat2(m + 1, n + 1, 3)) IN
         <<[i \in 1..(m + 1) |-> [j \in 1..(n + 1) |->
              IF Index(x[1], i) # 0 /\ Index(x[2], j) # 0 THEN a[Index(x[1], i)][Index(x[2], j)] ELSE w[i][j]]]>>
PartsOf(f, x, a, sym) == CHOOSE r \in {PartsOf0(f, x, b, sym) : b \in {a}} : TRUE
\* block diagonal operators: the other blocks vanish
Cut0(f, x, a) == [i \in DOMAIN a |-> [j \in DOMAIN a[1] |-> IF f = "bd" /\ ((i <= x[1]) # (j <= x[2])) THEN 0 ELSE a[i][j]]]
Cut(f, x, a) == CHOOSE r \in {Cut0(f, x, b) : b \in {a}} : TRUE
Fits(f, m, n) == f \in {"block", "sblock", "bd"} => m > 1 /\ n > 1
\* pairs of positive curvature: y = D s, D positive definite
Pair0(n, v, d) == [s |-> v, y |-> [i \in 1..n |-> ISum([j \in 1..n |-> d[i][j] * v[j]])]]
NotNull0(v) == IF \A i \in DOMAIN v : v[i] = 0 THEN Ones(Len(v)) ELSE v
NotNull(v) == CHOOSE r \in {NotNull0(w) : w \in {v}} : TRUE
Pair(n) == CHOOSE r \in {Pair0(n, v, d) : v \in {NotNull(Vec(n, 2))}, d \in {Dominant(SymR(n, 2), Ones(n), One(Pick(1..2)))}} : TRUE
LmOf(f, n) == LET np == One(Pick(1..3)) k == One(Pick(0..np)) IN
              [f |-> f, p |-> TLCEval([i \in 1..k |-> Pair(n)]), x |-> <<n, np, Pick({0, 1})>>]
NoParts == [f |-> "no", p |-> <<>>, x |-> <<>>]
\* preconditioners and metrics: matrices of texts
TAdd(a, b, sg) == [i \in DOMAIN a |-> VText(VAxpy(sg, b[i], a[i]))]
TScale(c, a) == [i \in DOMAIN a |-> VText(VScale(c, a[i]))]
PrePartsOf0(f, a) ==
  CASE f = "fun" -> <<a>>
    [] f = "scal" -> <<TScale(2, a)>>
    [] f = "neg" -> <<TScale(-1, a)>>
    [] f = "sum" -> LET w == One(SymR(Len(a), 1)) IN <<w, TAdd(a, w, -1)>>
PreParts(f, a) == CHOOSE r \in {[f |-> f, p |-> PrePartsOf0(f, b), x |-> <<>>] : b \in {a}} : TRUE
=============================================================================
