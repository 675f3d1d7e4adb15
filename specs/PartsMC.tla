--------------------------------- MODULE PartsMC ---------------------------------
(***************************************************************************)
(* Exhaustive check of Parts: every form with every small choice of parts,    *)
(* changed in every way, and solved with in between.  A solver object keeps     *)
(* the operator, not its matrix: what it solves is a function of the parts as    *)
(* they are now.                                                               *)
(***************************************************************************)
EXTENDS Krylov, Parts
CONSTANTS LEN
VARIABLES e, given, n
S2 == {<<<<a, b>>, <<b, c>>>> : a, c \in {1, 3}, b \in {0, 1}}
S3 == {<<<<1, 1>>, <<1, 3>>>>, <<<<3, 0>>, <<0, 1>>>>, <<<<-1, 0>>, <<0, 2>>>>}
One1 == {<<<<a>>>> : a \in {-1, 2}}
V2 == {<<1, 0>>, <<1, 1>>, <<-1, 2>>}
PairsOf == {[s |-> u, y |-> v] : u \in V2, v \in V2}
Alpha(f) == CASE f \in {"fun", "tr", "neg", "scal"} -> {<<a>> : a \in S2}
              [] f \in {"sum", "sub"} -> {<<a, b>> : a, b \in S3}
              [] f = "prod" -> {<<a, b>> : a, b \in S3}
              [] f = "sblock" -> {<<a, b, c>> : a, b, c \in One1}
              [] f = "block" -> {<<a, b, c, d>> : a, b, c, d \in One1}
              [] f = "bd" -> {<<a, b>> : a, b \in One1}
              [] f = "red" -> {<<<<<<5, 0, 1>>, <<0, a, 2>>, <<1, 2, b>>>>>> : a, b \in {-1, 4}}
              [] f \in Lm -> {<<p>> : p \in PairsOf}
Forms == {"fun", "tr", "neg", "scal", "sum", "sub", "prod", "sblock", "block", "bd", "red"} \cup Lm
X(f) == IF f = "red" THEN <<<<3, 1>>, <<3, 1>>>> ELSE IF f \in Lm THEN <<2, 2, 1>> ELSE <<1, 1>>
Init == n = 0 /\ \E f \in Forms :
          IF f \in Lm THEN e = [f |-> f, p |-> <<>>, x |-> X(f)] /\ given = <<>>
          ELSE \E p \in Alpha(f) : e = [f |-> f, p |-> p, x |-> X(f)] /\ given = <<p>>
Next == n < LEN /\ n' = n + 1 /\ \E p \in Alpha(e.f) : e' = Change(e, p) /\ given' = Append(given, p)
A == Val(e)
Shape == Len(A) = 2 /\ \A i \in DOMAIN A : Len(A[i]) = 2
Symmetric == e.f \notin {"prod", "block"} => MEq(A, MT(A))
\* only the present parts count; limited memory: only the last accepted pairs
Present == IF e.f \in Lm
           THEN LET acc == SelectSeq(given, LAMBDA p : RSgn(VDot(p[1].s, p[1].y)) > 0)
                    k == Len(acc) m == IF k < 2 THEN k ELSE 2
                IN  e.p = [i \in 1..m |-> acc[k - m + i][1]]
           ELSE MEq(A, Val([e EXCEPT !.p = given[Len(given)]]))
InvFwd == e.f \in Lm => LET w(f) == Val([e EXCEPT !.f = f]) IN MEq(w("fwd"), w("cmp")) /\ MEq(MMul(w("inv"), w("fwd")), Unit(2))
Pd == RSgn(A[1][1]) > 0 /\ RSgn(RSub(RMul(A[1][1], A[2][2]), RMul(A[1][2], A[2][1]))) > 0
\* a solve with the operator as it is now ends with the solution of that system
Solves == (e.f \notin {"prod", "block"} /\ Pd) =>
  \A b \in {<<1, 0>>, <<2, -1>>} :
    LET r == KRun("cg", [A |-> A, P |-> <<>>], b, <<0, 0>>, 2) s == r[Len(r)] IN s.ok => VEq(MVec(A, s.x), b)
=============================================================================
