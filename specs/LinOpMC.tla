---------------------------------- MODULE LinOpMC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of LinOp: every history of at most LEN commands     *)
(* from a small alphabet, ILL-FORMED combinations excluded (Legal).           *)
(* KIND selects the alphabet: "expr" or "block".                              *)
(***************************************************************************)
EXTENDS LinOp
CONSTANTS LEN, KIND
VARIABLES heap, last
M(r, i) == [r |-> r, i |-> i]
Leaf(m, dt, s, h) == [op |-> "leaf", m |-> m, dt |-> dt, sym |-> s, her |-> h, fun |-> "TH"]
LeavesExpr ==
  {Leaf(M(<<<<2>>>>, <<<<0>>>>), "f8", TRUE, TRUE),
   Leaf(M(<<<<1, 2>>, <<0, -1>>>>, <<<<1, 0>>, <<-1, 2>>>>), "c16", FALSE, FALSE),
   Leaf(M(<<<<1, 2>>, <<2, 0>>>>, <<<<0, 1>>, <<-1, 0>>>>), "c16", FALSE, TRUE),
   Leaf(M(<<<<1, 2>>, <<2, 0>>>>, <<<<1, 3>>, <<3, 0>>>>), "c8", TRUE, FALSE),
   Leaf(M(<<<<1, -2, 0>>, <<3, 1, 1>>>>, <<<<0, 0, 0>>, <<0, 0, 0>>>>), "f8", FALSE, FALSE)}
LeavesBlock ==
  {Leaf(M(<<<<2>>>>, <<<<0>>>>), "f8", TRUE, TRUE),
   Leaf(M(<<<<1, 2>>>>, <<<<1, 0>>>>), "c16", FALSE, FALSE),
   Leaf(M(<<<<1, 2>>, <<2, 0>>>>, <<<<0, 1>>, <<-1, 0>>>>), "c16", FALSE, TRUE),
   Leaf(M(<<<<1, 2>>, <<0, -1>>>>, <<<<1, 0>>, <<-1, 2>>>>), "c16", FALSE, FALSE)}
Ids(h) == DOMAIN h
One1(op, h) == {[op |-> op, a |-> k] : k \in Ids(h)}
Expr(h) ==
  LeavesExpr
  \cup UNION {One1(op, h) : op \in {"T", "H", "C", "neg"}}
  \cup {[op |-> "scal", a |-> k, c |-> s, ct |-> "complex"] : k \in Ids(h), s \in {C(2, 1), C(0, 0)}}
  \cup {[op |-> "div", a |-> k, c |-> C(2, 0), ct |-> "int"] : k \in Ids(h)}
  \cup {[op |-> op, a |-> k, b |-> q] : op \in {"add", "sub", "mul"}, k \in Ids(h), q \in Ids(h)}
  \cup {[op |-> "pow", a |-> k, p |-> p] : k \in Ids(h), p \in {0, 1, 2}}
  \cup UNION {{[op |-> "red", a |-> k, rows |-> <<-1>>, cols |-> <<0>>],
               [op |-> "sred", a |-> k, idx |-> <<-1, 0>>]} : k \in Ids(h)}
Ent(h) == Ids(h)
Block(h) ==
  UNION {One1(op, h) : op \in {"T", "H"}}
  \cup {[op |-> "blk", rows |-> <<<<a, b>>, <<c, d>>>>, sym |-> FALSE, her |-> FALSE] :
          a \in Ids(h), b \in Ids(h), c \in Ids(h), d \in Ids(h)}
  \cup {[op |-> "blk", rows |-> <<<<a, b>>, <<d>>>>, sym |-> FALSE, her |-> TRUE] :
          a \in Ids(h), b \in Ids(h), d \in Ids(h)}
  \cup {[op |-> "blk", rows |-> <<<<a, b>>>>, sym |-> FALSE, her |-> FALSE] : a \in Ids(h), b \in Ids(h)}
  \cup {[op |-> "bdg", ids |-> <<a, b>>] : a \in Ids(h), b \in Ids(h)}
  \cup {[op |-> "bset", a |-> k, i |-> i, j |-> j, v |-> v] : k \in Ids(h), i \in {0, 1}, j \in {0, -1}, v \in Ids(h)}
  \cup {[op |-> "bdset", a |-> k, s |-> s, vs |-> vs] : k \in Ids(h),
          s \in {<<"int", -1>>, <<"sl", 0, 2>>}, vs \in Ids(h) \X Ids(h)}
  \cup {[op |-> "bsets", a |-> k, ri |-> <<"sl", 0, 2>>, ci |-> <<"int", j>>, v |-> v] : k \in Ids(h), j \in {0, -1}, v \in Ids(h)}
  \cup {[op |-> "bdset", a |-> k, s |-> <<"sl", 0, 2>>, vs |-> <<v>>] : k \in Ids(h), v \in Ids(h)}
  \cup {[op |-> "bdset", a |-> k, s |-> <<"sl", 0, 1>>, vs |-> vs] : k \in Ids(h), vs \in Ids(h) \X Ids(h)}
  \cup {[op |-> "bget", a |-> k, ri |-> <<"int", 0>>, ci |-> <<"sl", 0, 2>>] : k \in Ids(h)}
  \cup {[op |-> "bdget", a |-> k, s |-> <<"sl", 0, 1>>] : k \in Ids(h)}
RectOK(h, c) == LET g == Mk(h, c).grid IN
  /\ \A i \in DOMAIN g : Len(g[i]) = Len(g[1])
  /\ \A i \in DOMAIN g : \A j \in DOMAIN g[i] : ESh(h, g[i][j]) = <<ESh(h, g[i][1])[1], ESh(h, g[1][j])[2]>>
Sq(h, k) == h[k].sh[1] = h[k].sh[2]
ReplOK(h, k, diag, v) ==
  /\ k \notin Reach(h, v) /\ DtJoin(h[v].dt, h[k].dt) = h[k].dt
  /\ diag => ((h[k].sym => h[v].sym) /\ (h[k].her => h[v].her))
Repl(h, k, e, diag, v) == h[v].sh = ESh(h, e) /\ ReplOK(h, k, diag, v)
Legal(h, c) ==
  CASE c.op \in {"add", "sub"} -> h[c.a].sh = h[c.b].sh
    [] c.op = "mul" -> h[c.a].sh[2] = h[c.b].sh[1]
    [] c.op \in {"pow"} -> Sq(h, c.a)
    [] c.op = "red" -> TRUE
    [] c.op = "sred" -> Sq(h, c.a) /\ h[c.a].sh[1] = 2
    [] c.op = "blk" -> /\ (c.her => h[c.rows[1][1]].her /\ h[c.rows[2][1]].her /\ Sq(h, c.rows[1][1]) /\ Sq(h, c.rows[2][1])
                                    /\ h[c.rows[1][2]].sh = <<h[c.rows[1][1]].sh[1], h[c.rows[2][1]].sh[2]>>)
                       /\ RectOK(h, c)
    [] c.op = "bset" -> /\ h[c.a].k = "blk"
                        /\ LET g == h[c.a].grid
                               i == PyIdx(c.i, Len(g)) j == PyIdx(c.j, Len(g[1]))
                           IN /\ i \in DOMAIN g /\ (h[c.a].her => i <= j)
                              /\ Repl(h, c.a, g[i][j], i = j /\ (h[c.a].sym \/ h[c.a].her), c.v)
    [] c.op = "bdset" -> /\ h[c.a].k = "bdg" /\ Len(h[c.a].es) = 2
                         /\ LET s == Sel(c.s, 2) IN
                            IF c.s[1] = "int" THEN Repl(h, c.a, h[c.a].es[s[1]], TRUE, c.vs[1])
                            ELSE /\ \A q \in DOMAIN c.vs : ReplOK(h, c.a, TRUE, c.vs[q])
                                 /\ \A d \in {1, 2} : SumSeq([q \in DOMAIN s |-> ESh(h, h[c.a].es[s[q]])[d]])
                                                        = SumSeq([q \in DOMAIN c.vs |-> h[c.vs[q]].sh[d]])
    [] c.op = "bsets" -> /\ h[c.a].k = "blk" /\ ~h[c.a].her /\ Len(h[c.a].grid) = 2
                         /\ LET g == h[c.a].grid IN
                            \A p \in DOMAIN g : Repl(h, c.a, g[p][Sel(c.ci, Len(g[1]))[1]], FALSE, c.v)
    [] c.op = "bget" -> h[c.a].k = "blk"
    [] c.op = "bdget" -> h[c.a].k = "bdg"
    [] OTHER -> TRUE
Start == IF KIND = "expr" THEN <<>>
         ELSE [k \in 1..4 |-> Mk(<<>>, CHOOSE c \in LeavesBlock : c.m.r[1][1] = (IF k = 1 THEN 2 ELSE 1) /\ CShape(c.m) = (IF k = 1 THEN <<1, 1>> ELSE IF k = 2 THEN <<1, 2>> ELSE <<2, 2>>) /\ (k # 1 => c.her = (k = 3)))]
Init == heap = Start /\ last = [op |-> "none"]
Cmds(h) == IF h = <<>> THEN (IF KIND = "expr" THEN LeavesExpr ELSE LeavesBlock)
           ELSE IF KIND = "expr" THEN Expr(h) ELSE Block(h)
Next == /\ TLCGet("level") <= LEN        \* histories of at most LEN commands
        /\ \E c \in Cmds(heap) : /\ Legal(heap, c)
                                 /\ heap' = Apply(heap, c)
                                 /\ last' = c
Shape == ShapeSound(heap)
Flags == FlagsSound(heap)
Types == TypeSound(heap)
Vws == ViewsSound(heap)
\* Building an operator changes no operator; an assignment changes only what refers to its target.
Frame == [][\A k \in DOMAIN heap :
              (last'.op \in Creates \/ last'.a \notin Reach(heap, k))
                => CEq(Den(heap', k), Den(heap, k)) /\ heap'[k] = heap[k]]_<<heap, last>>
\* After an assignment the block is the given operator, the other blocks are untouched
\* (for a hermitian operator: except the mirror block, which is its adjoint).
Assign == [][last'.op = "bset" =>
               LET g == heap[last'.a].grid g2 == heap'[last'.a].grid
                   i == PyIdx(last'.i, Len(g)) j == PyIdx(last'.j, Len(g[1]))
               IN \A p \in DOMAIN g : \A q \in DOMAIN g[p] :
                    CEq(DenE(heap', g2[p][q]),
                        IF p = i /\ q = j THEN Den(heap', last'.v)
                        ELSE IF heap[last'.a].her /\ p = j /\ q = i THEN CH(Den(heap', last'.v))
                        ELSE DenE(heap', g[p][q]))]_<<heap, last>>
\* Assigning one operator to a column of blocks sets all of them and no other block.
AssignRect == [][last'.op = "bsets" =>
               LET g == heap[last'.a].grid g2 == heap'[last'.a].grid j == Sel(last'.ci, Len(g[1]))[1]
               IN \A p \in DOMAIN g : \A q \in DOMAIN g[p] :
                    CEq(DenE(heap', g2[p][q]), IF q = j THEN Den(heap', last'.v) ELSE DenE(heap', g[p][q]))]_<<heap, last>>
\* Assigning to a slice of a block-diagonal operator keeps the blocks outside it.
AssignDiag == [][last'.op = "bdset" /\ last'.s[1] = "sl" =>
               LET o == heap[last'.a].es n == heap'[last'.a].es w == last'.vs
               IN /\ Len(n) = Len(o) - (last'.s[3] - last'.s[2]) + Len(w)
                  /\ \A q \in DOMAIN w : n[last'.s[2] + q] = <<w[q], "N">>
                  /\ \A q \in 1..last'.s[2] : n[q] = o[q]
                  /\ \A q \in (last'.s[3] + 1)..Len(o) : n[Len(n) - Len(o) + q] = o[q]]_<<heap, last>>
\* Counting: a product with k is counted once by k, and only by operators reachable from k.
Count == \A k \in DOMAIN heap : LET key == Canon(heap, E(k)) IN
           /\ Calls(heap, key, key) = 1
           /\ \A q \in DOMAIN heap : Calls(heap, key, Canon(heap, E(q))) > 0 => Canon(heap, E(q))[1] \in Reach(heap, k)
=============================================================================
