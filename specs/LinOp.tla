---------------------------------- MODULE LinOp ----------------------------------
(***************************************************************************)
(* The linear-operator package as an abstract machine.                      *)
(*                                                                          *)
(* State: a heap, i.e. the sequence of operators built so far.  A node       *)
(* records how the operator was built (which operators, scalars and index    *)
(* lists), and what it claims: shape, flags, type, available views.  Nodes    *)
(* refer to other nodes, never copy them: an operator built from a block      *)
(* operator sees the assignments made to that block operator later.          *)
(*                                                                          *)
(* Den(h, k) is the matrix node k stands for.  Everything the properties say  *)
(* about products, views, flags, restrictions and blocks is said about Den.   *)
(***************************************************************************)
EXTENDS CMat, TLC

---------------------------------------------------------------------------
(* Types: kind x width, ordered componentwise *)
DtRank == [i8 |-> <<0, 2>>, f4 |-> <<1, 1>>, f8 |-> <<1, 2>>, c8 |-> <<2, 1>>, c16 |-> <<2, 2>>]
IsCplx(dt) == dt \in {"c8", "c16"}
Mx(a, b) == IF a >= b THEN a ELSE b
DtJoin(a, b) ==
  LET k == Mx(DtRank[a][1], DtRank[b][1])
      w == Mx(DtRank[a][2], DtRank[b][2])
  IN  IF k = 0 THEN "i8"
      ELSE IF k = 1 THEN (IF w = 1 THEN "f4" ELSE "f8")
      ELSE IF w = 1 THEN "c8" ELSE "c16"
\* scalars: Python's int, float, complex, or numpy scalars named by their type
ScDt(ct) == CASE ct = "int" -> "i8" [] ct = "float" -> "f8" [] ct = "complex" -> "c16" [] OTHER -> ct
RECURSIVE DtJoinAll(_)
DtJoinAll(s) == IF Len(s) = 1 THEN s[1] ELSE DtJoin(s[1], DtJoinAll(Tail(s)))

---------------------------------------------------------------------------
(* Views: N(ormal), T(ranspose), H (adjoint), C(onjugate) *)
Views == {"N", "T", "H", "C"}
VComp(v, w) ==     \* view w of view v
  CASE v = "N" -> w
    [] w = "N" -> v
    [] v = w -> "N"
    [] {v, w} = {"T", "H"} -> "C"
    [] {v, w} = {"T", "C"} -> "H"
    [] {v, w} = {"H", "C"} -> "T"
VMat(m, v) == CASE v = "N" -> m [] v = "T" -> CT(m) [] v = "H" -> CH(m) [] v = "C" -> CConj(m)

---------------------------------------------------------------------------
(* Den *)
PyIdx(i, n) == IF i < 0 THEN n + i + 1 ELSE i + 1         \* Python index -> 1-based
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

CoordMat(c) ==
  LET ext(s, extra) == 1 + (CHOOSE x \in {s[k] : k \in DOMAIN s} : \A k \in DOMAIN s : s[k] <= x)
      n == IF c.nargin = 0 THEN ext(c.cols, 0) ELSE c.nargin
      m == IF c.nargout = 0 THEN ext(c.rows, 0) ELSE c.nargout
      hit(i, j) == {k \in DOMAIN c.rows :
                      \/ c.rows[k] = i - 1 /\ c.cols[k] = j - 1
                      \/ c.sym /\ c.rows[k] # c.cols[k] /\ c.cols[k] = i - 1 /\ c.rows[k] = j - 1}
      tot(f, S) == RSum([k \in DOMAIN c.rows |-> IF k \in S THEN f[k] ELSE 0])
  IN  [r |-> [i \in 1..m |-> [j \in 1..n |-> tot(c.vals.r, hit(i, j))]],
       i |-> [i \in 1..m |-> [j \in 1..n |-> tot(c.vals.i, hit(i, j))]]]

RECURSIVE Den(_, _)
\* the matrix of an entry <<node, view>>
DenE(h, e) == VMat(Den(h, e[1]), e[2])
HCat(ms) == LET RECURSIVE go(_)
                go(k) == IF k = 1 THEN ms[1]
                         ELSE LET p == go(k - 1) IN
                              [r |-> [i \in DOMAIN p.r |-> p.r[i] \o ms[k].r[i]],
                               i |-> [i \in DOMAIN p.i |-> p.i[i] \o ms[k].i[i]]]
            IN go(Len(ms))
VCat(ms) == LET RECURSIVE go(_)
                go(k) == IF k = 1 THEN ms[1]
                         ELSE LET p == go(k - 1) IN [r |-> p.r \o ms[k].r, i |-> p.i \o ms[k].i]
            IN go(Len(ms))
Assemble(h, grid) ==
  VCat([i \in DOMAIN grid |-> HCat([j \in DOMAIN grid[i] |-> DenE(h, grid[i][j])])])
AssembleDiag(h, es) ==
  LET ms == [k \in DOMAIN es |-> DenE(h, es[k])]
  IN  VCat([i \in DOMAIN ms |->
        HCat([j \in DOMAIN ms |->
          IF i = j THEN ms[i] ELSE CZero(CShape(ms[i])[1], CShape(ms[j])[2])])])
Den(h, k) ==
  LET n == h[k] IN
  CASE n.k = "mat"  -> n.m
    [] n.k = "view" -> DenE(h, n.e)
    [] n.k = "add"  -> CAdd(DenE(h, n.a), DenE(h, n.b))
    [] n.k = "sub"  -> CSub(DenE(h, n.a), DenE(h, n.b))
    [] n.k = "mul"  -> CMul(DenE(h, n.a), DenE(h, n.b))
    [] n.k = "scal" -> CScale(n.c, DenE(h, n.a))
    [] n.k = "pow"  -> CPow(DenE(h, n.a), n.p)
    [] n.k = "red"  -> CSub2(DenE(h, n.a), n.rows, n.cols)
    [] n.k = "blk"  -> Assemble(h, n.grid)
    [] n.k = "bdg"  -> AssembleDiag(h, n.es)

---------------------------------------------------------------------------
(* Claims.  Shape, type; flags that must be claimed (Sym, Her);             *)
(* views that must exist (Av).                                              *)
Canon(h, e) == \* resolve references and views to <<base node, view>>
  LET RECURSIVE go(_)
      go(x) == IF h[x[1]].k = "view" THEN go(<<h[x[1]].e[1], VComp(h[x[1]].e[2], x[2])>>) ELSE x
      c == go(e)
      n == h[c[1]]
      v0 == c[2]
      v1 == IF ~IsCplx(n.dt) /\ v0 = "C" THEN "N" ELSE v0
      v2 == IF v1 = "T" /\ n.sym THEN "N" ELSE IF v1 = "H" /\ n.her THEN "N" ELSE v1
  IN  <<c[1], v2>>

\* Flags as the package documents them: declared for leaves, inherited by sums,
\* real scalings, symmetric restrictions.
Node0(k, sh, dt, sym, her, av) ==
  [k |-> k, sh |-> sh, dt |-> dt, sym |-> sym, her |-> her, av |-> av]
ViewSh(sh, v) == IF v \in {"T", "H"} THEN <<sh[2], sh[1]>> ELSE sh

Dt(h, k) == h[k].dt
Sh(h, k) == h[k].sh

\* the claims of entry <<k, v>>
ESh(h, e) == ViewSh(h[e[1]].sh, e[2])

(* Commands build nodes.  Mk(h, c) is the node a legal command adds. *)
E(k) == <<k, "N">>
PowNode(h, c) ==
  IF c.p = 0 THEN Node0("mat", h[c.a].sh, "f8", TRUE, TRUE, TRUE) @@ [m |-> CUnit(h[c.a].sh[1])]
  ELSE IF c.p = 1 THEN [h[c.a] EXCEPT !.k = "view"] @@ [e |-> E(c.a)]
  ELSE Node0("pow", h[c.a].sh, h[c.a].dt, FALSE, FALSE, h[c.a].av) @@ [a |-> E(c.a), p |-> c.p]
ScalNode(h, a, c, ct) ==
  LET dt == DtJoin(h[a].dt, ScDt(ct)) n == h[a] IN
  IF REq(c.r, 0) /\ REq(c.i, 0)
  THEN Node0("mat", n.sh, dt, n.sym, FALSE, TRUE) @@ [m |-> CZero(n.sh[1], n.sh[2])]
  ELSE Node0("scal", n.sh, dt, n.sym, ~IsCplx(dt) /\ n.her, n.av) @@ [a |-> E(a), c |-> c]
Lift(s, f(_)) == [k \in DOMAIN s |-> f(s[k])]

\* Full grid of a symmetric or hermitian block operator given by its upper triangle.
FillGrid(rows, v) ==
  LET nb == Len(rows) IN
  [i \in 1..nb |-> [j \in 1..nb |->
     IF j >= i THEN E(rows[i][j - i + 1]) ELSE <<rows[j][i - j + 1], v>>]]
ConjAv(h, es) == \A k \in DOMAIN es : h[es[k][1]].av
Flat(g) == LET RECURSIVE go(_)
               go(k) == IF k = 0 THEN <<>> ELSE go(k - 1) \o g[k]
           IN go(Len(g))
GridNode(h, grid, sym, her) ==
  LET sh == <<SumSeq([i \in DOMAIN grid |-> ESh(h, grid[i][1])[1]]),
              SumSeq([j \in DOMAIN grid[1] |-> ESh(h, grid[1][j])[2]])>>
      f == Flat(grid)
  IN  Node0("blk", sh, DtJoinAll([k \in DOMAIN f |-> h[f[k][1]].dt]), sym, her, ConjAv(h, f))
        @@ [grid |-> grid]
BdgNode(h, es) ==
  LET all(P(_)) == \A k \in DOMAIN es : P(h[es[k][1]]) IN
  Node0("bdg", <<SumSeq([k \in DOMAIN es |-> ESh(h, es[k])[1]]),
                 SumSeq([k \in DOMAIN es |-> ESh(h, es[k])[2]])>>,
        DtJoinAll([k \in DOMAIN es |-> h[es[k][1]].dt]),
        \A k \in DOMAIN es : h[es[k][1]].sym, \A k \in DOMAIN es : h[es[k][1]].her, ConjAv(h, es))
    @@ [es |-> es]
\* A Python slice or index of a sequence of length n, as the list of 1-based positions.
Sel(s, n) == IF s[1] = "int" THEN <<PyIdx(s[2], n)>>
             ELSE [k \in 1..(s[3] - s[2]) |-> s[2] + k]

Mk(h, c) ==
  CASE c.op \in {"leaf", "psp", "chol"} ->
         Node0("mat", CShape(c.m), c.dt, c.sym, c.her, c.sym \/ c.her \/ c.fun # "N") @@ [m |-> c.m]
    [] c.op = "nd" ->
         LET real == ~IsCplx(c.dt) IN
         Node0("mat", CShape(c.m), c.dt, c.sym \/ (real /\ c.her), c.her \/ (real /\ c.sym), TRUE) @@ [m |-> c.m]
    [] c.op = "coord" ->
         Node0("mat", CShape(CoordMat(c)), c.dt, c.sym, FALSE, TRUE) @@ [m |-> CoordMat(c)]
    [] c.op = "eye"  -> Node0("mat", <<c.n, c.n>>, c.dt, TRUE, TRUE, TRUE) @@ [m |-> CUnit(c.n)]
    [] c.op = "zero" -> Node0("mat", <<c.nargout, c.nargin>>, c.dt, c.nargout = c.nargin, FALSE, TRUE)
                          @@ [m |-> CZero(c.nargout, c.nargin)]
    [] c.op = "diag" -> \* root: a square root of the diagonal, or <<>>
         Node0("mat", <<Len(c.d.r), Len(c.d.r)>>, c.dt, TRUE, ~IsCplx(c.dt), TRUE)
           @@ [m |-> CDiag(c.d), d |-> c.d, root |-> c.root]
    [] c.op = "sqrt" -> LET d == h[c.a].root dt == IF h[c.a].dt = "i8" THEN "f8" ELSE h[c.a].dt IN
         Node0("mat", h[c.a].sh, dt, TRUE, ~IsCplx(dt), TRUE) @@ [m |-> CDiag(d)]
    [] c.op = "abs" -> LET d == h[c.a].d IN
         Node0("mat", h[c.a].sh, CASE h[c.a].dt = "c8" -> "f4" [] h[c.a].dt = "c16" -> "f8" [] OTHER -> h[c.a].dt,
               TRUE, TRUE, TRUE)
           @@ [m |-> CDiag([r |-> [k \in DOMAIN d.r |->
                   RSqrt(RAdd(RMul(d.r[k], d.r[k]), RMul(d.i[k], d.i[k])))],
                            i |-> [k \in DOMAIN d.r |-> 0]])]
    [] c.op \in {"T", "H", "C"} ->
         LET n == h[c.a] IN
         LET same == (c.op = "T" /\ n.sym) \/ (c.op = "H" /\ n.her) \/ (c.op = "C" /\ ~IsCplx(n.dt)) IN
         Node0("view", ViewSh(n.sh, c.op), n.dt, same /\ n.sym, same /\ n.her, TRUE) @@ [e |-> <<c.a, c.op>>]
    [] c.op = "neg" -> ScalNode(h, c.a, C(-1, 0), "int")
    [] c.op = "scal" -> ScalNode(h, c.a, c.c, c.ct)
    [] c.op = "div" -> ScalNode(h, c.a, CSInv(c.c), IF IsCplx(ScDt(c.ct)) THEN "complex" ELSE "float")
    [] c.op = "pow" -> PowNode(h, c)
    [] c.op \in {"add", "sub"} ->
         Node0(c.op, h[c.a].sh, DtJoin(h[c.a].dt, h[c.b].dt), h[c.a].sym /\ h[c.b].sym,
               h[c.a].her /\ h[c.b].her, h[c.a].av /\ h[c.b].av) @@ [a |-> E(c.a), b |-> E(c.b)]
    [] c.op = "mul" ->
         Node0("mul", <<h[c.a].sh[1], h[c.b].sh[2]>>, DtJoin(h[c.a].dt, h[c.b].dt), FALSE, FALSE,
               h[c.a].av /\ h[c.b].av) @@ [a |-> E(c.a), b |-> E(c.b)]
    [] c.op = "red" ->
         Node0("red", <<Len(c.rows), Len(c.cols)>>, h[c.a].dt, FALSE, FALSE, h[c.a].av)
           @@ [a |-> E(c.a), rows |-> [k \in DOMAIN c.rows |-> PyIdx(c.rows[k], h[c.a].sh[1])],
                             cols |-> [k \in DOMAIN c.cols |-> PyIdx(c.cols[k], h[c.a].sh[2])]]
    [] c.op = "sred" ->
         LET ix == [k \in DOMAIN c.idx |-> PyIdx(c.idx[k], h[c.a].sh[1])] IN
         Node0("red", <<Len(c.idx), Len(c.idx)>>, h[c.a].dt, h[c.a].sym, h[c.a].her, h[c.a].av)
           @@ [a |-> E(c.a), rows |-> ix, cols |-> ix]
    [] c.op = "blk" ->
         GridNode(h, IF c.sym THEN FillGrid(c.rows, "T") ELSE IF c.her THEN FillGrid(c.rows, "H")
                     ELSE [i \in DOMAIN c.rows |-> [j \in DOMAIN c.rows[i] |-> E(c.rows[i][j])]], c.sym, c.her)
    [] c.op = "bget" ->
         LET g == h[c.a].grid
             ri == Sel(c.ri, Len(g)) ci == Sel(c.ci, Len(g[1]))
             e == g[ri[1]][ci[1]]
             n == h[e[1]]
         IN  IF c.ri[1] = "int" /\ c.ci[1] = "int"
             THEN Node0("view", ESh(h, e), n.dt, e[2] = "N" /\ n.sym, e[2] = "N" /\ n.her, n.av) @@ [e |-> e]
             ELSE GridNode(h, [i \in DOMAIN ri |-> [j \in DOMAIN ci |-> g[ri[i]][ci[j]]]], FALSE, FALSE)
    [] c.op = "bdg" -> BdgNode(h, [k \in DOMAIN c.ids |-> E(c.ids[k])])
    [] c.op = "bdget" ->
         LET es == h[c.a].es
             s == Sel(c.s, Len(es))
             e == es[s[1]]
             n == h[e[1]]
         IN  IF c.s[1] = "int" THEN Node0("view", ESh(h, e), n.dt, n.sym, n.her, n.av) @@ [e |-> e]
             ELSE BdgNode(h, [k \in DOMAIN s |-> es[s[k]]])

Creates == {"leaf", "psp", "chol", "nd", "coord", "eye", "zero", "diag", "sqrt", "abs", "T", "H", "C", "neg",
            "scal", "div", "pow", "add", "sub", "mul", "red", "sred", "blk", "bget", "bdg", "bdget"}

\* Assignment of a block: bset for block operators, bdset for block-diagonal ones.
\* A symmetric (hermitian) operator is given by its upper triangle: the mirror
\* entry follows.  Availability may only be lost by an assignment.
SetGrid(h, c) ==
  LET n == h[c.a]
      g == n.grid
      i == PyIdx(c.i, Len(g)) j == PyIdx(c.j, Len(g[1]))
      g2 == [p \in DOMAIN g |-> [q \in DOMAIN g[p] |->
               IF p = i /\ q = j THEN E(c.v)
               ELSE IF (n.sym \/ n.her) /\ p = j /\ q = i THEN <<c.v, IF n.sym THEN "T" ELSE "H">>
               ELSE g[p][q]]]
  IN  [h EXCEPT ![c.a] = [n EXCEPT !.grid = g2, !.dt = DtJoin(n.dt, h[c.v].dt)]]
\* one operator for every entry of a rectangle of blocks (operators without flags)
SetRect(h, c) ==
  LET n == h[c.a]
      g == n.grid
      ri == Sel(c.ri, Len(g)) ci == Sel(c.ci, Len(g[1]))
      g2 == [p \in DOMAIN g |-> [q \in DOMAIN g[p] |->
               IF (\E k \in DOMAIN ri : ri[k] = p) /\ (\E k \in DOMAIN ci : ci[k] = q) THEN E(c.v) ELSE g[p][q]]]
  IN  [h EXCEPT ![c.a] = [n EXCEPT !.grid = g2, !.dt = DtJoin(n.dt, h[c.v].dt)]]
\* a slice may be replaced by another number of blocks
SetDiag(h, c) ==
  LET n == h[c.a]
      s == Sel(c.s, Len(n.es))
      vs == [k \in DOMAIN (IF c.s[1] = "int" THEN <<1>> ELSE c.vs) |-> E(c.vs[k])]
      es2 == SubSeq(n.es, 1, s[1] - 1) \o vs \o SubSeq(n.es, s[Len(s)] + 1, Len(n.es))
  IN  [h EXCEPT ![c.a] = [n EXCEPT !.es = es2, !.dt = DtJoinAll(<<n.dt>> \o [k \in DOMAIN vs |-> h[vs[k][1]].dt])]]

Apply(h, c) ==
  IF c.op \in Creates THEN Append(h, Mk(h, c))
  ELSE IF c.op = "bset" THEN SetGrid(h, c)
  ELSE IF c.op = "bsets" THEN SetRect(h, c)
  ELSE IF c.op = "bdset" THEN SetDiag(h, c)
  ELSE h

---------------------------------------------------------------------------
(* Structural views: what the code computes for a view of a composite, by    *)
(* pushing the view through the expression.  SDen = VMat(Den) is an invariant. *)
RECURSIVE SDen(_, _, _)
SDen(h, k, v) ==
  LET n == h[k]
      s(e, w) == SDen(h, e[1], VComp(e[2], w))
      cc(c) == IF v \in {"H", "C"} THEN [r |-> c.r, i |-> RNeg(c.i)] ELSE c
  IN
  CASE n.k = "mat"  -> VMat(n.m, v)
    [] n.k = "view" -> s(n.e, v)
    [] (v = "T" /\ n.sym) \/ (v = "H" /\ n.her) -> SDen(h, k, "N")
    [] n.k = "add"  -> CAdd(s(n.a, v), s(n.b, v))
    [] n.k = "sub"  -> CSub(s(n.a, v), s(n.b, v))
    [] n.k = "mul"  -> IF v \in {"T", "H"} THEN CMul(s(n.b, v), s(n.a, v)) ELSE CMul(s(n.a, v), s(n.b, v))
    [] n.k = "scal" -> CScale(cc(n.c), s(n.a, v))
    [] n.k = "pow"  -> CPow(s(n.a, v), n.p)
    [] n.k = "red"  -> IF v \in {"T", "H"} THEN CSub2(s(n.a, v), n.cols, n.rows) ELSE CSub2(s(n.a, v), n.rows, n.cols)
    [] n.k = "blk"  -> IF v \in {"T", "H"}
                       THEN VCat([j \in DOMAIN n.grid[1] |-> HCat([i \in DOMAIN n.grid |-> s(n.grid[i][j], v)])])
                       ELSE VCat([i \in DOMAIN n.grid |-> HCat([j \in DOMAIN n.grid[i] |-> s(n.grid[i][j], v)])])
    [] n.k = "bdg"  -> LET ms == [q \in DOMAIN n.es |-> s(n.es[q], v)] IN
                       VCat([i \in DOMAIN ms |-> HCat([j \in DOMAIN ms |->
                         IF i = j THEN ms[i] ELSE CZero(CShape(ms[i])[1], CShape(ms[j])[2])])])

---------------------------------------------------------------------------
(* Design properties *)
ShapeSound(h) == \A k \in DOMAIN h : CShape(Den(h, k)) = h[k].sh
FlagsSound(h) == \A k \in DOMAIN h : LET m == Den(h, k) IN
                   /\ h[k].sym => CEq(m, CT(m))
                   /\ h[k].her => CEq(m, CH(m))
TypeSound(h) == \A k \in DOMAIN h : ~IsCplx(h[k].dt) => CEq(Den(h, k), CConj(Den(h, k)))
ViewsSound(h) == \A k \in DOMAIN h : LET m == Den(h, k) IN \A v \in Views : CEq(SDen(h, k, v), VMat(m, v))

\* Operators reachable from k
RECURSIVE Reach(_, _)
Reach(h, k) == LET n == h[k] r(e) == Reach(h, e[1])
                   es == CASE n.k = "mat" -> <<>> [] n.k = "view" -> <<n.e>>
                           [] n.k \in {"add", "sub", "mul"} -> <<n.a, n.b>>
                           [] n.k \in {"scal", "red", "pow"} -> <<n.a>>
                           [] n.k = "blk" -> Flat(n.grid) [] n.k = "bdg" -> n.es
               IN {k} \cup UNION {r(es[q]) : q \in DOMAIN es}
\* It is unspecified which object some views are: the conjugate of a complex operator is a
\* new object each time; a real operator may be flagged symmetric only or hermitian only.
\* The same where an operator may truthfully claim a flag it need not claim.
RECURSIVE ViaC(_, _)
Fuzzy(h, b) == LET n == h[b] m == Den(h, b) IN
               \/ ~IsCplx(n.dt) /\ n.sym # n.her
               \/ ~n.sym /\ CEq(m, CT(m))
               \/ ~n.her /\ CEq(m, CH(m))
ViaC(h, k) == /\ h[k].k = "view"
              /\ \/ IsCplx(h[k].dt) /\ h[k].e[2] = "C"
                 \/ Fuzzy(h, Canon(h, E(k))[1])
                 \/ ViaC(h, h[k].e[1])
Clean(h, k) == \A q \in Reach(h, k) : ~ViaC(h, q)

---------------------------------------------------------------------------
(* Product counting.  A product with the operator <<base, view>> is counted   *)
(* once by it, and once by every occurrence of an operator in its expression. *)
(* Known is FALSE where it is unspecified which view object does the counting  *)
(* (views of complex operators, adjoints that are not flagged hermitian).       *)
RECURSIVE Known(_, _), Calls(_, _, _)
Kids(h, c) == \* c = canonical <<base, view>>; its operand entries
  LET n == h[c[1]]
      w(e) == Canon(h, <<e[1], VComp(e[2], c[2])>>)
  IN CASE n.k = "mat" -> <<>>
       [] n.k \in {"add", "sub", "mul"} -> <<w(n.a), w(n.b)>>
       [] n.k \in {"scal", "red"} -> <<w(n.a)>>
       [] n.k = "pow" -> [q \in 1..n.p |-> w(n.a)]
       [] n.k = "blk" -> Lift(Flat(n.grid), w)
       [] n.k = "bdg" -> Lift(n.es, w)
Known(h, c) == /\ (c[2] = "N" \/ (c[2] = "T" /\ ~IsCplx(h[c[1]].dt) /\ ~h[c[1]].her
                                       /\ \A q \in Reach(h, c[1]) : ~Fuzzy(h, q)))
               /\ \A q \in DOMAIN Kids(h, c) : Known(h, Kids(h, c)[q])
Calls(h, c, key) == (IF c = key THEN 1 ELSE 0)
                    + SumSeq([q \in DOMAIN Kids(h, c) |-> Calls(h, Kids(h, c)[q], key)])
=============================================================================
