---------------------------------- MODULE ToolsMC ----------------------------------
(* Exhaustive checks of Tools on small data. *)
EXTENDS Tools
CONSTANTS K, NP          \* coefficients in -K..K; Poisson matrices up to size NP
VARIABLES q, a, n
E1 == {-1, 0, 1, 2}
Init == /\ n \in 1..NP
        /\ \/ n = 1 /\ q \in [1..3 -> -K..K] /\ a = <<<<0>>>>
           \/ n = 1 /\ q = <<0, 0, 0>> /\ a \in [1..2 -> [1..2 -> E1]]
           \/ n > 1 /\ q = <<0, 0, 0>> /\ a = <<<<0>>>>
Next == FALSE /\ UNCHANGED <<q, a, n>>
Small(x) == RLe(RAbs(x), "1/1000000000000")
Val(x) == RAdd(RMul(RAdd(RMul(q[1], x), q[2]), x), q[3])
RootsOk == \A R \in {TLCEval(Roots(q[1], q[2], q[3]))} :
           /\ \A i \in DOMAIN R : Small(Val(R[i]))
           /\ Len(R) = 2 => Small(RAdd(RMul(q[1], RAdd(R[1], R[2])), q[2])) /\ Small(RSub(RMul(q[1], RMul(R[1], R[2])), q[3]))
           \* no sign change elsewhere: at integer points the sign is that given by the roots
           /\ \A x \in -3..3 : (q[1] # 0 /\ R = <<>>) => RSgn(Val(x)) = RSgn(q[1])
\* the form tested by check_symmetric vanishes for symmetric matrices
SymOk == IsSym(a) => MEq(Asym(a), Zeros(Len(a), Len(a)))
\* definite: the form is positive at all small points
PdOk == (IsSym(a) /\ Len(a) = 2) => (PD(a) <=> \A x \in [1..2 -> -3..3] : x = <<0, 0>> \/ RSgn(VDot(x, MVec(a, x))) > 0)
PoisOk == /\ IsSym(Poisson1(n)) /\ PD(Poisson1(n))
          /\ n <= 4 => IsSym(Poisson2(n)) /\ PD(Poisson2(n))
          \* the two-dimensional matrix is I x T + T x I
          /\ n <= 4 => \A k, l \in 1..(n * n) : Poisson2(n)[k][l] =
               (IF Row(k, n) = Row(l, n) THEN Poisson1(n)[Col(k, n) + 1][Col(l, n) + 1] ELSE 0)
             + (IF Col(k, n) = Col(l, n) THEN Poisson1(n)[Row(k, n) + 1][Row(l, n) + 1] ELSE 0)
=============================================================================
