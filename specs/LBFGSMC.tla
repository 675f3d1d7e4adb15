-------------------------------- MODULE LBFGSMC --------------------------------
(***************************************************************************)
(* Exhaustive check of LBFGS: every history of stores and restarts over all   *)
(* small integer pairs.  The ring buffer refines the queue; the recursions     *)
(* satisfy what quasi-Newton theory says about them.                          *)
(***************************************************************************)
EXTENDS LBFGS
CONSTANTS N, NP, LEN, R, SCALING
VARIABLES q, ring, n
Vecs == [1..N -> (-R)..R]
Pairs == [s : Vecs, y : Vecs]
Op(kind) == [kind |-> kind, n |-> N, np |-> NP, scaling |-> SCALING, q |-> q]
Init == q = <<>> /\ ring = RingInit(NP) /\ n = 0
St(p) == /\ q' = Store(Op("inv"), p).q
         /\ ring' = IF Accepts(Op("inv"), p) THEN RingStore(ring, p, NP) ELSE ring
Rs == q' = <<>> /\ ring' = RingInit(NP)
Next == n < LEN /\ n' = n + 1 /\ (Rs \/ \E p \in Pairs : St(p))

Refines == RQueue(ring, NP) = q                         \* also: the queue is the last NP accepted pairs
H == QN(Op("inv"))
B == QN(Op("fwd"))
Inverse == MEq(MMul(H, B), Unit(N))
Symmetric == MEq(H, MT(H)) /\ MEq(B, MT(B))
Secant == q # <<>> => LET p == LastOf(q) IN VEq(MVec(H, p.y), p.s) /\ VEq(MVec(B, p.s), p.y)
PosDef == \A v \in Vecs : (\E i \in 1..N : v[i] # 0) => RSgn(VDot(v, MVec(H, v))) > 0 /\ RSgn(VDot(v, MVec(B, v))) > 0
\* the structured update maps s to yd whatever came before, and stays symmetric
StrSecant == q # <<>> => \A d \in Vecs :
  LET p == [LastOf(q) EXCEPT !.s = @] @@ [yd |-> d]
      o == [Op("str") EXCEPT !.q = [i \in 1..(Len(q) - 1) |-> q[i] @@ [yd |-> q[i].y]]]
      m == SUpd(QN(o), p)
  IN  (RSgn(StrProd(o, p)) >= 0 /\ RLe(Thr("str"), StrTest(o, p))) => VEq(MVec(m, p.s), d) /\ MEq(m, MT(m))
CompactIsDirect == MEq(Compact(Op("cmp")), B)
=============================================================================
