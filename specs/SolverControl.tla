------------------------------ MODULE SolverControl ------------------------------
(***************************************************************************)
(* Control of the iterative solvers: check points, product budget, stopping,   *)
(* what is reported.  The numerical work is abstracted: at each check point     *)
(* the residual bound may or may not be at or below the threshold, may be       *)
(* not-a-number after a breakdown, and (CG) the curvature may turn out not      *)
(* positive.  Minres and SYMMLQ have further reasons to stop ("other").         *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS MAXN
Ms == {"cg", "cgs", "bicgstab", "tfqmr", "minres", "symmlq"}
CostC(m) == IF m = "cgs" THEN 2 ELSE 1
VARIABLES m, max, guess, nmv, cls, st, conv, def
vars == <<m, max, guess, nmv, cls, st, conv, def>>
Short == {"cg", "cgs", "bicgstab", "tfqmr"}
\* classes of the residual bound
Classes(mm) == IF mm \in Short THEN {"large", "small", "nan"} ELSE {"large", "small", "other"}
Max(a, b) == IF a > b THEN a ELSE b
\* the loop test
Stops(mm, c, n, mx) == CASE mm = "cg" -> c # "large" \/ n >= mx
                         [] mm \in {"cgs", "bicgstab", "tfqmr"} -> c = "small" \/ n >= mx
                         [] mm = "minres" -> c # "large" \/ n >= Max(mx, 1)
                         [] mm = "symmlq" -> c # "large" \/ n >= Max(mx, 1)
Init == /\ m \in Ms /\ max \in 0..MAXN /\ guess \in (IF m \in Short THEN BOOLEAN ELSE {FALSE})
        /\ nmv = (IF guess THEN 1 ELSE 0)
        /\ cls \in Classes(m) /\ st = "run" /\ conv = FALSE /\ def = TRUE
\* one iteration up to the next check point
Work == /\ st = "run" /\ ~Stops(m, cls, nmv, max) /\ def
        /\ nmv' = nmv + CostC(m)
        /\ \/ cls' \in Classes(m) /\ def' = def
           \/ m = "cg" /\ def' = FALSE /\ cls' = cls        \* curvature: the estimate is left as it was
        /\ UNCHANGED <<m, max, guess, st, conv>>
Halt == /\ st = "run" /\ (Stops(m, cls, nmv, max) \/ ~def)
        /\ st' = "done" /\ conv' = (cls = "small" /\ def)
        /\ nmv' = (IF m = "symmlq" THEN nmv + 1 ELSE nmv)      \* the product for the final residual
        /\ UNCHANGED <<m, max, guess, cls, def>>
Next == Work \/ Halt
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* what a caller relies on
Overshoot(mm) == CASE mm = "cgs" -> 1 [] mm = "symmlq" -> 1 [] OTHER -> 0
Budget == nmv <= Max(Max(max, IF m \in {"minres", "symmlq"} THEN 1 ELSE 0) + Overshoot(m), IF guess THEN 1 ELSE 0)
Truth == st = "done" => (conv <=> cls = "small" /\ def)
NoNan == conv => cls # "nan"
Early == (st = "done" /\ nmv < max) => (cls # "large" \/ ~def)
\* no product is made once the threshold is met or the budget used up
Idle == [][nmv' > nmv /\ st' = "run" => cls # "small" /\ nmv < Max(max, 1) /\ def]_vars
Ends == <>(st = "done")
=============================================================================
