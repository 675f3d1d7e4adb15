-------------------------------- MODULE LanczosMC --------------------------------
(* MINRES and SYMMLQ points on every small symmetric system: what characterises them. *)
EXTENDS Krylov
CONSTANTS N, E, PRECS
VARIABLES pr, b, k, q, prev
E1 == {-1, 0, 2}
E2 == {-2, -1, 0, 1, 2, 3}
Mats == {a \in [1..N -> [1..N -> E]] : a = [i \in 1..N |-> [j \in 1..N |-> a[j][i]]]}
Pre == {<<>>, [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN i + 1 ELSE 0]],
        [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 2 ELSE 1]]}
Init == /\ \E a \in Mats : \E p \in PRECS : pr = [A |-> a, P |-> p]
        /\ b \in [1..N -> {-1, 0, 2}] /\ Sq(b) # 0
        /\ k = 0 /\ q = Lan(pr, b, 0) /\ prev = b
Next == /\ ~q.full
        /\ k' = k + 1 /\ q' = Lan(pr, b, k + 1)
        /\ prev' = IF k = 0 THEN b ELSE LET m == MinresPt(pr, b, First(q.vs, k)) IN IF m[1] THEN Res(pr, b, m[2]) ELSE prev
        /\ UNCHANGED <<pr, b>>
Vk == First(q.vs, k)
Ends == k <= N
Orth == \A i, j \in DOMAIN q.us : i # j => REq(VDot(q.us[i], q.vs[j]), 0)
\* tridiagonal: the projection of A
Tri == \A i, j \in 1..k : REq(VDot(q.vs[i], MVec(pr.A, q.vs[j])),
         IF i = j THEN RMul(q.al[i], q.nn[i]) ELSE IF i = j + 1 THEN q.nn[i] ELSE IF j = i + 1 THEN q.nn[j] ELSE 0)
Min == k > 0 => LET m == MinresPt(pr, b, Vk) c == CGPt(pr, b, Vk) IN
   m[1] => LET r == Res(pr, b, m[2]) IN
           /\ RLe(PNorm2(pr, r), PNorm2(pr, prev))
           /\ (c[1] => RLe(PNorm2(pr, r), PNorm2(pr, Res(pr, b, c[2]))))
           /\ REq(VDot(r, Prec(pr, MVec(pr.A, m[2]))), 0)
Final == (k > 0 /\ q.full) =>
   LET m == MinresPt(pr, b, Vk) IN
   \* the space is invariant: the residual cannot be reduced further by anything (least squares), or A is singular on it
   m[1] => REq(Sq(MVec(pr.A, Prec(pr, Res(pr, b, m[2])))), 0)
Sol == MSolve(pr.A, b)
\* SYMMLQ: the residual of the CG point is P-orthogonal to the space; the error of the LQ point decreases
Err2(x) == LET e == VSub(x, Sol[2]) IN IF pr.P = <<>> THEN Sq(e) ELSE VDot(e, MSolve(pr.P, e)[2])
LQ == (k > 1 /\ Sol[1]) =>
  LET l == LQPt(pr, b, First(q.vs, k - 1)) o == LQPt(pr, b, First(q.vs, k - 2)) IN
  /\ l[1]                                 \* defined whenever A is nonsingular
  /\ o[1] => RLe(Err2(l[2]), Err2(o[2]))
CGp == k > 0 => LET c == CGPt(pr, b, Vk) IN
   c[1] => /\ \A j \in 1..k : REq(VDot(q.vs[j], Res(pr, b, c[2])), 0)
           /\ (q.full => REq(Sq(Res(pr, b, c[2])), 0))
=============================================================================
