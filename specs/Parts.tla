---------------------------------- MODULE Parts ----------------------------------
(***************************************************************************)
(* Operators made of parts, as users hand them to the solvers.               *)
(*   e = [f |-> form, p |-> parts, x |-> parameters]                          *)
(* parts are real matrices, except for the limited-memory forms, where they    *)
(* are the pairs [s, y] kept, oldest first.  Val(e) is the matrix that stands   *)
(* behind the operator: a solver may depend on nothing else.                   *)
(* The parts may change between solves (Change): the user overwrites his         *)
(* arrays, assigns blocks, or stores another pair.                              *)
(***************************************************************************)
EXTENDS CMat, TLC
LB == INSTANCE LBFGS
Lm == {"inv", "fwd", "cmp"}
LObj(e) == [kind |-> e.f, n |-> e.x[1], np |-> e.x[2], scaling |-> e.x[3] = 1, q |-> e.p]
\* four blocks
Blk(p) == [i \in 1..(Len(p[1]) + Len(p[3])) |->
             IF i <= Len(p[1]) THEN p[1][i] \o p[2][i] ELSE p[3][i - Len(p[1])] \o p[4][i - Len(p[1])]]
\* the symmetric operator whose upper triangle of blocks is given
SymBlk(p) == Blk(<<p[1], p[2], MT(p[2]), p[3]>>)
BDiag(p) == LET r == Len(p[1]) s == Len(p[2]) c == Len(p[1][1]) d == Len(p[2][1]) IN
            [i \in 1..(r + s) |-> [j \in 1..(c + d) |->
               IF i <= r /\ j <= c THEN p[1][i][j] ELSE IF i > r /\ j > c THEN p[2][i - r][j - c] ELSE 0]]
Val(e) ==
  CASE e.f \in {"fun", "no"} -> IF e.f = "no" THEN <<>> ELSE e.p[1]
    [] e.f = "tr" -> MT(e.p[1])
    [] e.f = "neg" -> MScale(-1, e.p[1])
    [] e.f = "scal" -> MScale("1/2", e.p[1])
    [] e.f = "sum" -> MAdd(e.p[1], e.p[2])
    [] e.f = "sub" -> MSub(e.p[1], e.p[2])
    [] e.f = "prod" -> MMul(e.p[1], e.p[2])
    [] e.f = "block" -> Blk(e.p)
    [] e.f = "sblock" -> SymBlk(e.p)
    [] e.f = "bd" -> BDiag(e.p)
    [] e.f = "red" -> [i \in DOMAIN e.x[1] |-> [j \in DOMAIN e.x[2] |-> e.p[1][e.x[1][i]][e.x[2][j]]]]
    [] e.f \in Lm -> LB!QN(LObj(e))
\* new parts; for limited-memory operators another pair
Change(e, p) == IF e.f \in Lm THEN [e EXCEPT !.p = LB!Store(LObj(e), p[1]).q] ELSE [e EXCEPT !.p = p]
=============================================================================
