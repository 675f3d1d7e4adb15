--------------------------------- MODULE LinOpGen ---------------------------------
(***************************************************************************)
(* Random behaviours of LinOp, written out as command lists for replay in    *)
(* the real package.  Run with tlc -simulate; every behaviour of length      *)
(* DEPTH is printed as one line of JSON.                                     *)
(* Numbers are chosen so that every product is exact in the narrowest type.  *)
(***************************************************************************)
EXTENDS LinOp, Json
CONSTANTS DEPTH, PROFILE      \* PROFILE: "expr", "block", "view", "bad"
VARIABLES heap, hist

Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(DOMAIN s)]
One(x) == CHOOSE y \in {x} : TRUE
MaxDim == 3
Ent == -3..3
Sq(n) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> Pick(Ent)])])
Rect(m, n) == TLCEval([i \in 1..m |-> TLCEval([j \in 1..n |-> Pick(Ent)])])
RVec(n) == TLCEval([j \in 1..n |-> Pick(Ent)])
SymOf(a) == TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a |-> IF i <= j THEN a[i][j] ELSE a[j][i]])])
SkewOf(a) == TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a |->
                IF i < j THEN a[i][j] ELSE IF i = j THEN 0 ELSE -a[j][i]])])
Dts == <<"f8", "f8", "c16", "f8", "i8", "f4", "c8", "c16">>

Mat(m, n, dt) == IF IsCplx(dt) THEN [r |-> Rect(m, n), i |-> Rect(m, n)] ELSE [r |-> Rect(m, n), i |-> Zeros(m, n)]
SymMat(n, dt) == IF IsCplx(dt) THEN [r |-> SymOf(Sq(n)), i |-> SymOf(Sq(n))] ELSE [r |-> SymOf(Sq(n)), i |-> Zeros(n, n)]
HerMat(n, dt) == IF IsCplx(dt) THEN [r |-> SymOf(Sq(n)), i |-> SkewOf(Sq(n))] ELSE [r |-> SymOf(Sq(n)), i |-> Zeros(n, n)]

RECURSIVE Bd(_, _), Fr(_, _)
Cap(x) == IF x > 32767 THEN 32767 ELSE x
RECURSIVE CapPow(_, _)
CapPow(b, p) == IF p = 0 THEN 1 ELSE Cap(b * CapPow(b, p - 1))
IntUp(r) == CHOOSE q \in 0..32767 : RLe(RAbs(r), q) /\ (q = 0 \/ ~RLe(RAbs(r), q - 1))
Bd(h, k) == LET n == h[k] e(x) == Bd(h, x[1]) IN
  CASE n.k = "mat"  -> Cap(1 + Mx(n.sh[1], n.sh[2]) * (IntUp(MMaxAbs(n.m.r)) + IntUp(MMaxAbs(n.m.i))))
    [] n.k = "view" -> e(n.e)
    [] n.k \in {"add", "sub"} -> Cap(e(n.a) + e(n.b))
    [] n.k = "mul"  -> Cap(e(n.a) * e(n.b))
    [] n.k = "scal" -> Cap(e(n.a) * (IntUp(n.c.r) + IntUp(n.c.i)))
    [] n.k = "pow"  -> CapPow(e(n.a), n.p)
    [] n.k = "red"  -> e(n.a)
    [] n.k = "blk"  -> Cap(SumSeq(Lift(Flat(n.grid), e)))
    [] n.k = "bdg"  -> Cap(SumSeq(Lift(n.es, e)))
MaxSeq(s) == LET RECURSIVE go(_) go(k) == IF k = 0 THEN 0 ELSE Mx(s[k], go(k - 1)) IN go(Len(s))
Fr(h, k) == LET n == h[k] e(x) == Fr(h, x[1]) IN
  CASE n.k = "mat"  -> 0
    [] n.k = "view" -> e(n.e)
    [] n.k \in {"add", "sub"} -> Mx(e(n.a), e(n.b))
    [] n.k = "mul"  -> e(n.a) + e(n.b)
    [] n.k = "scal" -> e(n.a) + 2
    [] n.k = "pow"  -> n.p * e(n.a)
    [] n.k = "red"  -> e(n.a)
    [] n.k = "blk"  -> MaxSeq(Lift(Flat(n.grid), e))
    [] n.k = "bdg"  -> MaxSeq(Lift(n.es, e))
Exact(h, k) == Fr(h, k) <= 8 /\ Bd(h, k) * 2^Fr(h, k) <= 32000

---------------------------------------------------------------------------
\* candidate commands
\* a positive definite matrix a with an inverse m of integers: a = l l', l unit lower triangular (l^-1 = I - k + k k)
Chol0(low) == LET n == Len(low)
                  k == [i \in 1..n |-> [j \in 1..n |-> IF j < i THEN low[i][j] ELSE 0]]
                  l == MAdd(Unit(n), k)
                  li == MAdd(MSub(Unit(n), k), MMul(k, k))
              IN  [op |-> "chol", a |-> MMul(l, MT(l)), m |-> [r |-> MMul(MT(li), li), i |-> Zeros(n, n)],
                   dt |-> "f8", fun |-> "T", sym |-> TRUE, her |-> FALSE]
CholCmd(low) == CHOOSE r \in {Chol0([i \in DOMAIN x |-> [j \in DOMAIN x |-> RMax(-1, RMin(1, x[i][j]))]]) : x \in {low}} : TRUE
LeafCmd(dt, first) ==
  LET kind == One(PickSeq(<<"leaf", "leaf", "leafS", "leafH", "nd", "nd", "ndS", "ndH", "coord", "coordS", "psp", "pspS", "chol",
                            "eye", "diag", "diag", "zero", "leafN", "leaf1">>))
      m == One(Pick(1..MaxDim)) n == One(Pick(1..MaxDim))
      L(M, f, s, hh) == [op |-> "leaf", m |-> M, dt |-> dt, fun |-> f, sym |-> s, her |-> hh]
      ND(M, s, hh, g) == [op |-> "nd", m |-> M, dt |-> dt, sym |-> s, her |-> hh, give |-> g]
      nz == One(Pick(1..5))
      root == [r |-> TLCEval([k \in 1..n |-> Pick(0..3)]), i |-> TLCEval([k \in 1..n |-> 0])]
  IN
  CASE ((kind \in {"psp", "pspS"}) /\ ~first) -> L(Mat(m, n, dt), "TH", FALSE, FALSE)
    [] kind = "leaf" -> L(Mat(m, n, dt), IF IsCplx(dt) THEN "TH" ELSE PickSeq(<<"T", "H", "TH">>), FALSE, FALSE)
    [] kind = "leaf1" -> L(Mat(m, n, dt), PickSeq(<<"T", "H">>), FALSE, FALSE)
    [] kind = "leafN" -> L(Mat(m, n, dt), "N", FALSE, FALSE)
    [] kind = "leafS" -> IF IsCplx(dt) THEN L(SymMat(n, dt), PickSeq(<<"N", "H">>), TRUE, FALSE)
                         ELSE L(SymMat(n, dt), "N", TRUE, Pick(BOOLEAN))
    [] kind = "leafH" -> L(HerMat(n, dt), PickSeq(<<"N", "T">>), FALSE, TRUE)
    [] kind = "nd" -> ND(Mat(m, n, dt), FALSE, FALSE, Pick(BOOLEAN))
    [] kind = "ndS" -> IF IsCplx(dt) THEN ND(SymMat(n, dt), TRUE, FALSE, Pick(BOOLEAN))
                       ELSE ND(SymMat(n, dt), TRUE, TRUE, Pick(BOOLEAN))
    [] kind = "ndH" -> IF IsCplx(dt) THEN ND(HerMat(n, dt), FALSE, TRUE, TRUE)
                       ELSE ND(SymMat(n, dt), TRUE, TRUE, TRUE)
    [] kind \in {"coord", "coordS"} ->
         LET s == kind = "coordS"
             nn == IF s THEN m ELSE n
             infer == One(Pick(1..3)) = 1
             rows0 == TLCEval([k \in 1..nz |-> Pick(0..(m - 1))])
             cols0 == TLCEval([k \in 1..nz |-> Pick(0..(nn - 1))])
             tri == One(Pick(1..2))
             rows == TLCEval([k \in 1..nz |-> IF ~s THEN rows0[k] ELSE IF (rows0[k] <= cols0[k]) = (tri = 1) THEN rows0[k] ELSE cols0[k]])
             cols == TLCEval([k \in 1..nz |-> IF ~s THEN cols0[k] ELSE IF (rows0[k] <= cols0[k]) = (tri = 1) THEN cols0[k] ELSE rows0[k]])
             inf2 == infer /\ (~s)
         IN  [op |-> "coord", dt |-> dt, sym |-> s, rows |-> rows, cols |-> cols,
              nargin |-> IF inf2 THEN 0 ELSE nn, nargout |-> IF inf2 THEN 0 ELSE m,
              vals |-> [r |-> RVec(nz), i |-> IF IsCplx(dt) THEN RVec(nz) ELSE TLCEval([k \in 1..nz |-> 0])]]
    [] kind = "psp" -> [op |-> "psp", m |-> Mat(m, n, "f8"), dt |-> "f8", fun |-> "T", sym |-> FALSE, her |-> FALSE,
                        style |-> Pick({"mul", "matvec", "method"})]
    [] kind = "pspS" -> [op |-> "psp", m |-> SymMat(n, "f8"), dt |-> "f8", fun |-> "T", sym |-> TRUE, her |-> FALSE,
                        style |-> Pick({"mul", "matvec", "method"})]
    [] kind = "chol" -> CholCmd(Sq(n))
    [] kind = "eye" -> [op |-> "eye", n |-> n, dt |-> dt]
    [] kind = "zero" -> [op |-> "zero", nargin |-> n, nargout |-> m, dt |-> dt]
    [] kind = "diag" -> LET rt == One(root) sq == One(Pick(BOOLEAN)) IN
         IF sq THEN [op |-> "diag", dt |-> dt, root |-> rt,
                     d |-> [r |-> TLCEval([k \in 1..n |-> rt.r[k] * rt.r[k]]), i |-> rt.i]]
         ELSE [op |-> "diag", dt |-> dt, root |-> [r |-> <<>>, i |-> <<>>],
               d |-> IF IsCplx(dt) THEN One([r |-> TLCEval([k \in 1..n |-> 3 * Pick(-1..1)]),
                                             i |-> TLCEval([k \in 1..n |-> 4 * Pick({-1, 1})])])
                     ELSE [r |-> RVec(n), i |-> rt.i]]
\* |3a + 4bi| is an integer only when a # 0: absolute values of other diagonals are not asked for.
AbsOK(d) == \A k \in DOMAIN d.r : REq(d.i[k], 0) \/ ~REq(d.r[k], 0)

Ids(h) == DOMAIN h
Sub(S) == IF S = {} THEN {0} ELSE S
Scalars == << <<"int", 2, 0>>, <<"int", -1, 0>>, <<"float", "1/2", 0>>, <<"float", "-3/2", 0>>, <<"float", -2, 0>>,
              <<"complex", 1, 1>>, <<"complex", 0, -1>>, <<"complex", "1/2", 2>>, <<"int", 0, 0>>, <<"float", 0, 0>>,
              <<"int", 3, 0>>, <<"int", 1, 0>>,
              <<"i8", 2, 0>>, <<"f4", "1/2", 0>>, <<"f8", -2, 0>>, <<"c8", 1, -1>>, <<"c16", 0, 2>>, <<"c16", -1, 0>> >>
Divs == << <<"int", 2, 0>>, <<"int", -1, 0>>, <<"int", 4, 0>>, <<"float", "1/2", 0>>, <<"float", -2, 0>>, <<"complex", 0, 2>>,
           <<"complex", 1, 1>>, <<"int", -2, 0>>, <<"i8", 2, 0>>, <<"f4", "1/2", 0>>, <<"f8", -2, 0>>, <<"c16", 0, 2>> >>
RIdx(n, l) == \* l distinct positions of 0..n-1, some written negatively, in random order
  LET p == One(Pick({q \in [1..l -> 0..(n - 1)] : \A a, b \in 1..l : a # b => q[a] # q[b]}))
  IN  TLCEval([k \in 1..l |-> IF Pick(1..4) = 1 THEN p[k] - n ELSE p[k]])

DtOf(h) == IF h # <<>> /\ Pick(1..2) = 1 THEN h[1].dt ELSE PickSeq(Dts)
SelFor(n) == \* a Python index or slice of 0..n-1
  IF Pick(1..2) = 1 THEN <<"int", Pick((-n)..(n - 1)), 0>>
  ELSE LET lo == One(Pick(0..(n - 1))) IN <<"sl", lo, Pick((lo + 1)..n)>>

\* a grid of existing operators with consistent shapes: grow it from a random operator
BlkCmd(h) ==
  LET form == One(Pick(1..3))
      nb == One(Pick(1..3)) nc == One(Pick(1..3))
      sq == {k \in Ids(h) : h[k].sh[1] = h[k].sh[2]}
  IN
  IF form = 1
  THEN \* symmetric or hermitian, from its upper triangle
       LET her == One(Pick(BOOLEAN))
           dg == {k \in sq : IF her THEN h[k].her ELSE h[k].sym}
           ds == One([i \in 1..3 |-> IF dg = {} THEN 0 ELSE Pick(dg)])
           d == TLCEval(ds)
           off == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |->
                    IF d[1] = 0 THEN 0 ELSE
                    LET S == {k \in Ids(h) : h[k].sh = <<h[d[i]].sh[1], h[d[j]].sh[1]>> /\ h[k].av} IN
                    IF S = {} THEN 0 ELSE Pick(S)])])
           rows == TLCEval([i \in 1..nb |-> TLCEval([q \in 1..(nb - i + 1) |-> IF q = 1 THEN d[i] ELSE off[i][i + q - 1]])])
       IN  [op |-> "blk", rows |-> rows, sym |-> ~her, her |-> her, pre |-> Pick(BOOLEAN)]
  ELSE LET first == One(TLCEval([j \in 1..nc |-> Pick(Ids(h))]))
           f1 == One(Pick(Ids(h)))
           top == TLCEval([j \in 1..nc |-> IF j = 1 THEN f1 ELSE
                     Pick({k \in Ids(h) : h[k].sh[1] = h[f1].sh[1]})])
           left == TLCEval([i \in 1..nb |-> IF i = 1 THEN f1 ELSE Pick({k \in Ids(h) : h[k].sh[2] = h[f1].sh[2]})])
           rows == TLCEval([i \in 1..nb |-> TLCEval([j \in 1..nc |->
                     IF i = 1 THEN top[j] ELSE IF j = 1 THEN left[i] ELSE
                     LET S == {k \in Ids(h) : h[k].sh = <<h[left[i]].sh[1], h[top[j]].sh[2]>>} IN
                     IF S = {} THEN 0 ELSE Pick(S)])])
       IN  [op |-> "blk", rows |-> rows, sym |-> FALSE, her |-> FALSE, pre |-> Pick(BOOLEAN)]

\* Replacements for a block of operator k that keep its claims true.  A type that grows must
\* not be that of a part of another operator (whose type was fixed before).
ReplOK(h, k, v, diag) ==
  LET n == h[k] dt == DtJoin(h[v].dt, n.dt) IN
  /\ k \notin Reach(h, v)
  /\ (n.av => h[v].av)
  /\ dt # n.dt => (IsCplx(dt) => IsCplx(n.dt)) /\ \A q \in Ids(h) : q # k => k \notin Reach(h, q)
  /\ diag => LET m == Den(h, k) IN
       \* the code may claim any flag that is true
       /\ (n.sym \/ CEq(m, CT(m)) => h[v].sym)
       /\ (n.her \/ CEq(m, CH(m)) => h[v].her)
Repl(h, k, e, diag) == {v \in Ids(h) : h[v].sh = ESh(h, e) /\ ReplOK(h, k, v, diag)}
BsetCmd(h) ==
  LET S == {k \in Ids(h) : h[k].k = "blk"}
      a == One(Pick(S))
      g == h[a].grid
      i0 == One(Pick(DOMAIN g)) j0 == One(Pick(DOMAIN g[1]))
      up == h[a].sym \/ h[a].her
      i == IF up /\ i0 > j0 THEN j0 ELSE i0
      j == IF up /\ i0 > j0 THEN i0 ELSE j0
      R == Repl(h, a, g[i][j], up /\ i = j)
      neg == One(Pick(1..4)) = 1
  IN IF S = {} THEN [op |-> "none"]
     ELSE IF R = {} THEN [op |-> "none"]
     ELSE [op |-> "bset", a |-> a, i |-> IF neg THEN i - 1 - Len(g) ELSE i - 1,
           j |-> IF neg THEN j - 1 - Len(g[1]) ELSE j - 1, v |-> Pick(R)]
BsetsCmd(h) ==
  LET S == {k \in Ids(h) : h[k].k = "blk" /\ ~h[k].sym /\ ~h[k].her}
      a == One(Pick(S))
      g == h[a].grid
      rs == One(SelFor(Len(g))) cs == One(SelFor(Len(g[1])))
      ri == Sel(rs, Len(g)) ci == Sel(cs, Len(g[1]))
      R == {v \in Ids(h) : \A p \in DOMAIN ri : \A q \in DOMAIN ci : v \in Repl(h, a, g[ri[p]][ci[q]], FALSE)}
  IN IF S = {} THEN [op |-> "none"]
     ELSE IF R = {} THEN [op |-> "none"]
     ELSE [op |-> "bsets", a |-> a, ri |-> rs, ci |-> cs, v |-> Pick(R)]
BdsetCmd(h) ==
  LET S == {k \in Ids(h) : h[k].k = "bdg"}
      a == One(Pick(S))
      es == h[a].es
      s == One(SelFor(Len(es)))
      ps == Sel(s, Len(es))
      R(p) == Repl(h, a, es[p], TRUE)
      tot(c) == SumSeq([q \in DOMAIN ps |-> ESh(h, es[ps[q]])[c]])
      Q == {v \in Ids(h) : h[v].sh[1] <= tot(1) /\ h[v].sh[2] <= tot(2) /\ ReplOK(h, a, v, TRUE)}
      W == {w \in UNION {[1..l -> Q] : l \in 1..3} :
               \A c \in {1, 2} : SumSeq([q \in DOMAIN w |-> h[w[q]].sh[c]]) = tot(c)}
  IN IF S = {} THEN [op |-> "none"]
     ELSE IF s[1] = "sl" /\ Pick(1..2) = 1
     THEN IF W = {} THEN [op |-> "none"] ELSE [op |-> "bdset", a |-> a, s |-> s, vs |-> Pick(W)]
     ELSE IF (\E q \in DOMAIN ps : R(ps[q]) = {}) THEN [op |-> "none"]
     ELSE [op |-> "bdset", a |-> a, s |-> s, vs |-> TLCEval([q \in DOMAIN ps |-> Pick(R(ps[q]))])]
\* assignments that must be refused, leaving the operator as it was
BadSetCmd(h) ==
  LET S == {k \in Ids(h) : h[k].k \in {"blk", "bdg"}}
      a == One(Pick(S))
      n == h[a]
      d == n.k = "bdg"
      up == ~d /\ (n.sym \/ n.her)
      i0 == One(Pick(IF d THEN DOMAIN n.es ELSE DOMAIN n.grid))
      j0 == IF d THEN i0 ELSE One(Pick(DOMAIN n.grid[1]))
      i == IF up /\ i0 > j0 THEN j0 ELSE i0
      j == IF up /\ i0 > j0 THEN i0 ELSE j0
      e == IF d THEN n.es[i] ELSE n.grid[i][j]
      w == One(PickSeq(<<"setshape", "setshape", "setnonop", "setflag", "setflag", "setcplx", "setcplx">>))
      R == {v \in Ids(h) : /\ a \notin Reach(h, v)
                           /\ LET m == Den(h, v) same == h[v].sh = ESh(h, e) IN
                              CASE w = "setshape" -> ~same /\ (n.av => h[v].av)
                                [] w = "setnonop" -> TRUE
                                [] w = "setflag" -> same /\ i = j /\ ((n.sym /\ ~CEq(m, CT(m))) \/ (n.her /\ ~CEq(m, CH(m))))
                                [] w = "setcplx" -> same /\ IsCplx(h[v].dt) /\ ~IsCplx(n.dt)}
  IN IF S = {} THEN [op |-> "none"]
     ELSE IF R = {} THEN [op |-> "none"]
     ELSE [op |-> "bad", what |-> w, a |-> a, b |-> Pick(R), n |-> Pick(0..4), i |-> i - 1, j |-> j - 1]

MvCmd(h) ==
  LET a == One(Pick(Ids(h)))
      dt == One(PickSeq(<<"f8", "f8", h[a].dt, "c16", "i8", "f4">>))
  IN  [op |-> "mv", a |-> a, dt |-> dt, how |-> Pick({"mul", "call"}), reset |-> Pick(1..4) = 1,
       x |-> [r |-> RVec(h[a].sh[2]), i |-> IF IsCplx(dt) THEN RVec(h[a].sh[2]) ELSE TLCEval([k \in 1..h[a].sh[2] |-> 0])]]

BadCmd(h) ==
  LET a == One(Pick(Ids(h)))
      b == One(Pick(Ids(h)))
      w == One(PickSeq(<<"addshape", "subshape", "addnum", "subnum", "mulshape", "mulshape", "vecsize", "vecsize", "mulstr", "pownonint",
                         "powneg", "powshape", "divop", "divzero", "diag2d", "dtype", "ndflags", "sqrtneg", "blkshape",
                         "blkshape", "blksym", "blkherm", "blkcount", "rmulstr", "rmulstr2", "coordsize", "transposeof", "vecsize2", "base",
                         "blkcolshape", "blkcol2", "blkcol2", "bdgvec", "blkvec", "badout", "rvecsize", "bdnonop", "cholshape">>))
      ax == [op |-> "bad", what |-> w, a |-> a, b |-> b, n |-> Pick(0..4)]
      n == h[a] m == h[b]
      ok == CASE w \in {"addshape", "subshape"} -> n.sh # m.sh
              [] w = "mulshape" -> n.sh[2] # m.sh[1]
              [] w = "vecsize" -> ax.n # n.sh[2]
              [] w = "powshape" -> n.sh[1] # n.sh[2]
              [] w = "blkshape" -> n.sh[1] # m.sh[1]           \* [[a, b]]
              [] w = "blkcolshape" -> n.sh[2] # m.sh[2]
              [] w = "blkcol2" -> n.sh[1] = m.sh[1] /\ n.sh[2] # m.sh[2]
              [] w = "rvecsize" -> n.av
              [] w = "blksym" -> ~n.sym /\ ~CEq(Den(h, a), CT(Den(h, a))) /\ n.sh[1] = n.sh[2]
              [] w = "blkherm" -> ~n.her /\ ~CEq(Den(h, a), CH(Den(h, a))) /\ n.sh[1] = n.sh[2]
              [] w \in {"bdgvec"} -> n.k = "bdg" /\ ax.n # n.sh[2]
              [] w \in {"blkvec"} -> n.k = "blk" /\ ax.n # n.sh[2]
              [] OTHER -> TRUE
  IN IF ok THEN ax ELSE [op |-> "none"]

\* grids that do not fit together
BadGridCmd(h) ==
  LET f == One(Pick(1..4))
      nb == One(Pick(1..3)) nc == One(Pick(1..3))
      \* mostly consistent: replace one entry of a grid that fits
      g == One(IF f >= 2 THEN BlkCmd(h)
               ELSE [op |-> "blk", sym |-> FALSE, her |-> FALSE, pre |-> Pick(BOOLEAN),
                     rows |-> TLCEval([i \in 1..nb |-> TLCEval([j \in 1..(IF Pick(1..5) = 1 THEN nc + 1 ELSE nc) |-> Pick(Ids(h))])])])
      i == One(Pick(DOMAIN g.rows)) j == One(Pick(DOMAIN g.rows[i])) v == One(Pick(Ids(h)))
      r == IF f = 1 THEN g.rows ELSE [g.rows EXCEPT ![i] = [g.rows[i] EXCEPT ![j] = v]]
      some == \A p \in DOMAIN r : \A q \in DOMAIN r[p] : r[p][q] # 0
      full == IF g.sym THEN FillGrid(r, "T") ELSE IF g.her THEN FillGrid(r, "H") ELSE [p \in DOMAIN r |-> [q \in DOMAIN r[p] |-> E(r[p][q])]]
      fits == /\ \A p \in DOMAIN full : Len(full[p]) = Len(full[1])
              /\ \A p \in DOMAIN full : \A q \in DOMAIN full[p] : ESh(h, full[p][q]) = <<ESh(h, full[p][1])[1], ESh(h, full[1][q])[2]>>
      av == \A p \in DOMAIN r : \A q \in DOMAIN r[p] : h[r[p][q]].av
  IN IF g.op # "blk" THEN [op |-> "none"]
     ELSE IF ~some THEN [op |-> "none"]
     ELSE IF ~av THEN [op |-> "none"]
     ELSE IF fits THEN [op |-> "none"]
     ELSE [op |-> "bad", what |-> "grid", a |-> r[1][1], b |-> v, n |-> Pick(0..4), rows |-> r, sym |-> g.sym, her |-> g.her, pre |-> g.pre]

Weights ==
  CASE PROFILE = "expr" -> <<"leaf", "leaf", "leaf", "T", "H", "C", "neg", "scal", "scal", "div", "add", "add", "sub", "mul", "mul",
                             "pow", "red", "red", "sred", "mv", "mv", "mv", "sqrt", "abs", "dense", "rmv">>
    [] PROFILE = "view" -> <<"leaf", "leaf", "T", "T", "H", "H", "C", "C", "neg", "scal", "add", "sub", "mul", "red", "sred", "blk",
                             "mv", "pow", "rmv">>
    [] PROFILE = "block" -> <<"leaf", "leafsh", "leafsh", "leafsh", "leafsh", "blk", "blk", "blk", "bset", "bset", "bset", "bsets", "bdset", "bget", "bget", "bdg", "bdset", "bdget",
                              "T", "H", "add", "mul", "mv", "mv", "C", "blocks", "blocks", "bdset", "sred">>
    [] PROFILE = "bad" -> <<"leaf", "leaf", "blk", "add", "mul", "T", "scal", "bdg", "bad", "bad", "bad", "bad", "bad", "bad", "mv", "bset", "leafsh", "badset", "badset", "badset", "badset", "badgrid", "badgrid", "badgrid">>

Cand(h) ==
  LET w == One(PickSeq(Weights))
      a == One(Pick(Ids(h)))
      b == One(Pick(Ids(h)))
      n == h[a]
  IN
  CASE w = "leaf" -> LeafCmd(DtOf(h), FALSE)
    [] w = "leafsh" -> \* a leaf with the shape and type of an existing operator
         LET dt == One(n.dt) f == One(Pick(1..4)) IN
         IF n.sh[1] = n.sh[2] /\ f <= 2
         THEN IF f = 1 \/ ~IsCplx(dt)
              THEN [op |-> "leaf", m |-> SymMat(n.sh[1], dt), dt |-> dt, fun |-> "N", sym |-> TRUE, her |-> ~IsCplx(dt)]
              ELSE [op |-> "leaf", m |-> HerMat(n.sh[1], dt), dt |-> dt, fun |-> "N", sym |-> FALSE, her |-> TRUE]
         ELSE [op |-> "leaf", m |-> Mat(n.sh[1], n.sh[2], dt), dt |-> dt, fun |-> "TH", sym |-> FALSE, her |-> FALSE]
    [] w \in {"T", "H", "C"} -> IF n.av THEN [op |-> w, a |-> a] ELSE [op |-> "none"]
    [] w = "neg" -> [op |-> "neg", a |-> a]
    [] w = "scal" -> LET s == One(PickSeq(Scalars)) IN
                     [op |-> "scal", a |-> a, c |-> [r |-> s[2], i |-> s[3]], ct |-> s[1],
                      \* (numpy promotes a single-precision scalar on the left before the package sees it)
                      side |-> IF s[1] \in {"f4", "c8"} THEN "r" ELSE Pick({"l", "r"})]
    [] w = "div" -> LET s == One(PickSeq(Divs)) IN
                    [op |-> "div", a |-> a, c |-> [r |-> s[2], i |-> s[3]], ct |-> s[1], future |-> Pick(BOOLEAN)]
    [] w \in {"add", "sub"} -> LET S == {k \in Ids(h) : h[k].sh = n.sh} IN [op |-> w, a |-> a, b |-> Pick(S)]
    [] w = "mul" -> LET S == {k \in Ids(h) : h[k].sh[1] = n.sh[2]} IN
                    IF S = {} THEN [op |-> "none"] ELSE [op |-> "mul", a |-> a, b |-> Pick(S), how |-> Pick({"mul", "call"})]
    [] w = "pow" -> IF n.sh[1] = n.sh[2] THEN [op |-> "pow", a |-> a, p |-> PickSeq(<<0, 1, 2, 2, 3, 3, 4, 5, 6, 7>>)] ELSE [op |-> "none"]
    [] w = "red" -> [op |-> "red", a |-> a, rows |-> RIdx(n.sh[1], Pick(1..n.sh[1])), cols |-> RIdx(n.sh[2], Pick(1..n.sh[2])),
                     ity |-> Pick({"list", "array"})]
    [] w = "sred" -> IF n.sh[1] = n.sh[2] THEN [op |-> "sred", a |-> a, idx |-> RIdx(n.sh[1], Pick(1..n.sh[1])),
                                                ity |-> Pick({"list", "array"})] ELSE [op |-> "none"]
    [] w = "sqrt" -> IF "root" \in DOMAIN n /\ Len(n.root.r) > 0 /\ n.k = "mat" THEN [op |-> "sqrt", a |-> a] ELSE [op |-> "none"]
    [] w = "abs" -> IF "d" \in DOMAIN n /\ AbsOK(n.d) /\ n.k = "mat" THEN [op |-> "abs", a |-> a] ELSE [op |-> "none"]
    [] w = "mv" -> MvCmd(h)
    [] w = "rmv" -> IF n.av THEN [MvCmd(h) EXCEPT !.op = "rmv", !.a = a,
                                  !.x = LET m == n.sh[1] IN [r |-> RVec(m), i |-> IF Pick(BOOLEAN) THEN RVec(m) ELSE TLCEval([k \in 1..m |-> 0])],
                                  !.dt = "c16"]
                    ELSE [op |-> "none"]
    [] w = "dense" -> [op |-> "dense", a |-> a, how |-> Pick({"to_array", "full"})]
    [] w = "blk" -> BlkCmd(h)
    [] w = "bget" -> IF n.k = "blk" THEN [op |-> "bget", a |-> a, ri |-> SelFor(Len(n.grid)), ci |-> SelFor(Len(n.grid[1]))]
                     ELSE [op |-> "none"]
    [] w = "bdg" -> [op |-> "bdg", ids |-> TLCEval([k \in 1..Pick(1..3) |-> Pick(Ids(h))]), pre |-> Pick(BOOLEAN)]
    [] w = "bdget" -> IF n.k = "bdg" THEN [op |-> "bdget", a |-> a, s |-> SelFor(Len(n.es))] ELSE [op |-> "none"]
    [] w = "bset" -> BsetCmd(h)
    [] w = "bsets" -> BsetsCmd(h)
    [] w = "badset" -> BadSetCmd(h)
    [] w = "badgrid" -> BadGridCmd(h)
    [] w = "bdset" -> BdsetCmd(h)
    [] w = "blocks" -> IF n.k \in {"blk", "bdg"} THEN [op |-> "blocks", a |-> a] ELSE [op |-> "none"]
    [] w = "bad" -> BadCmd(h)

GridOK(h, c) == /\ \A i \in DOMAIN c.rows : \A j \in DOMAIN c.rows[i] : c.rows[i][j] # 0
                /\ LET g == Mk(h, c).grid IN
                   /\ \A i \in DOMAIN g : Len(g[i]) = Len(g[1])
                   /\ \A i \in DOMAIN g : \A j \in DOMAIN g[i] :
                        ESh(h, g[i][j]) = <<ESh(h, g[i][1])[1], ESh(h, g[1][j])[2]>>
MaxHeap == 9
\* Pysparse matrices are real: behaviours that start with one stay real.
RealOnly(c) == /\ ("dt" \in DOMAIN c => ~IsCplx(c.dt))
               /\ ("ct" \in DOMAIN c => ~IsCplx(ScDt(c.ct)))
Legal(h, c) ==
  /\ c.op # "none"
  /\ (hist # <<>> /\ hist[1].op = "psp") => RealOnly(c)
  /\ c.op = "blk" => GridOK(h, c)
  /\ c.op \in {"blk", "bdg", "bget", "bset", "bsets", "bdset", "add", "sub", "mul", "scal", "div", "neg", "pow", "coord", "diag"} \cup Creates =>
       /\ (c.op \in Creates => Len(h) < MaxHeap)
       /\ LET h2 == Apply(h, c) IN \A k \in DOMAIN h2 : h2[k].sh[1] <= 7 /\ h2[k].sh[2] <= 7 /\ Exact(h2, k)
RECURSIVE Gen(_, _)
Gen(h, n) == IF h = <<>> THEN LeafCmd(PickSeq(Dts), TRUE)
             ELSE IF n = 0 THEN [op |-> "dense", a |-> Pick(Ids(h)), how |-> "full"]
             ELSE LET c == One(Cand(h)) IN IF Legal(h, c) THEN c ELSE Gen(h, n - 1)

Init == heap = <<>> /\ hist = <<>>
Step == \E c \in {Gen(heap, 8)} : heap' = Apply(heap, c) /\ hist' = Append(hist, c)
Next == Len(hist) < DEPTH /\ Step
Emit == Len(hist) = DEPTH => PrintT("BEHAVIOUR " \o ToJson(hist))
\* the operator is the inverse of the matrix factorised
CholSound == \A k \in DOMAIN hist : hist[k].op = "chol" => MEq(MMul(hist[k].a, hist[k].m.r), Unit(Len(hist[k].a)))
Sound == CholSound /\ ShapeSound(heap) /\ FlagsSound(heap) /\ ViewsSound(heap) /\ TypeSound(heap)
=============================================================================
