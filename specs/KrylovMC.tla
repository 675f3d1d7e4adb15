-------------------------------- MODULE KrylovMC --------------------------------
(* Every run of each method on every small system: the iterates have the properties that characterise the methods. *)
EXTENDS Krylov
CONSTANTS METHOD, N, E, STEPS, PRECS
VARIABLES pr, b, s, past
E4 == {-1, 0, 2}
E1 == {-1, 0, 1, 3}
E2 == {-1, 0, 2}
E3 == {-2, -1, 0, 1, 2, 3}
Mats == IF METHOD = "cg"
        THEN {a \in [1..N -> [1..N -> E]] : a = [i \in 1..N |-> [j \in 1..N |-> a[j][i]]]}
        ELSE [1..N -> [1..N -> E]]
\* preconditioners: none, a diagonal one, a full positive definite one
Pre == {<<>>, [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN i + 1 ELSE 0]],
        [i \in 1..N |-> [j \in 1..N |-> IF i = j THEN 2 ELSE 1]]}
Init == /\ \E a \in Mats : \E p \in PRECS : pr = [A |-> a, P |-> p]
        /\ b \in [1..N -> {-1, 0, 2}]
        /\ \E g \in {[i \in 1..N |-> 0], [i \in 1..N |-> 1]} : s = KInit(METHOD, pr, b, g)
        /\ past = <<s>>
        /\ RSgn(s.rr) > 0
Next == /\ s.j < STEPS /\ s.ok /\ RSgn(s.rr) > 0 /\ (METHOD = "cg" => s.def)
        /\ s' = KStep(pr, s)
        /\ past' = IF s'.ok THEN Append(past, s') ELSE past
        /\ UNCHANGED <<pr, b>>
True == VSub(b, MVec(pr.A, s.x))
Good == s.ok
\* the residual carried along is the residual of the estimate; the reported norm is its norm or bounds it
Resid == Good => CASE METHOD = "cg" -> VEq(s.r, True) /\ REq(s.rr, VDot(True, Prec(pr, True)))
                   [] METHOD = "cgs" -> VEq(s.r, True) /\ REq(s.rr, Sq(True))
                   [] METHOD = "bicgstab" -> VEq(IF s.half THEN s.s ELSE s.r, True) /\ REq(s.rr, Sq(True))
                   [] METHOD = "tfqmr" -> RLe(Sq(True), Bound2(METHOD, s.rr, s.j))
\* CG: residuals are P-orthogonal and directions A-orthogonal; the energy decreases
Orthogonal == (Good /\ METHOD = "cg" /\ s.def) =>
  \A k \in 1..(Len(past) - 1) : /\ REq(VDot(past[k].r, s.y), 0)
                                /\ (RSgn(s.rr) # 0 => REq(VDot(past[k].p, MVec(pr.A, s.p)), 0))
Energy(x) == RSub(RMul("1/2", VDot(x, MVec(pr.A, x))), VDot(b, x))
Decrease == (Good /\ METHOD = "cg" /\ s.def /\ Len(past) > 1) => RLt(Energy(s.x), Energy(past[Len(past) - 1].x))
\* the estimate lies in x0 + P K_j(A P, r0) and CG is the best there: the residual is orthogonal to that space
Best == (Good /\ METHOD = "cg" /\ s.def) =>
  LET ap == IF pr.P = <<>> THEN pr.A ELSE MMul(pr.A, pr.P) vs == Basis(ap, past[1].r, s.j)
  IN  \A k \in DOMAIN vs : REq(VDot(True, Prec(pr, vs[k])), 0)
\* finite termination
Finite == (Good /\ (METHOD = "cg" => s.def) /\ s.j = (IF METHOD \in {"bicgstab", "tfqmr"} THEN 2 * N ELSE N)) => REq(Sq(True), 0)
\* CGS squares the residual polynomial of BiCG, which with r0 as shadow vector: residual of BiCG is orthogonal to K_j(A', r0)
BiHalf == (Good /\ METHOD = "bicgstab") => IF s.half THEN REq(VDot(s.r0, s.s), 0)
                                          ELSE REq(s.rho, VDot(s.r0, s.r))
\* Bi-CGSTAB: each full step minimises the residual norm along the second direction
BiMin == (Good /\ METHOD = "bicgstab" /\ ~s.half /\ s.j > 0) =>
  LET h == past[Len(past) - 1].s t == MVec(pr.A, Prec(pr, h)) IN REq(VDot(True, t), 0)
\* tau never increases
Mono == (Good /\ METHOD = "tfqmr" /\ Len(past) > 1) => RLe(s.rr, past[Len(past) - 1].rr)
\* reference: the even iterates' auxiliary vector w of TFQMR is the CGS residual
TfCgs == (Good /\ METHOD = "tfqmr" /\ s.j % 2 = 0 /\ s.j > 0) =>
  LET q == KRun("cgs", pr, b, past[1].x, s.j \div 2) IN q[Len(q)].ok => VEq(q[Len(q)].r, s.w)
=============================================================================
