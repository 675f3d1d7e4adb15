-------------------------------- MODULE LBFGSGen --------------------------------
(* Random histories of several quasi-Newton operators, written out for replay. *)
EXTENDS LBFGS, Json
CONSTANTS DEPTH, KINDS
KINDS_inv == <<"inv", "inv", "inv", "fwd">>
KINDS_fwd == <<"fwd", "cmp", "str", "str", "fwd", "cmp", "inv">>
VARIABLES ops, hist
Pick(S) == RandomElement(S)
PickSeq(s) == s[RandomElement(DOMAIN s)]
One(x) == CHOOSE y \in {x} : TRUE
Vec(n) == TLCEval([i \in 1..n |-> Pick(-3..3)])
\* (the parameter keeps TLC from evaluating the random choice once and for all)
New(d) == LET n == One(PickSeq(<<1, 2, 2, 3, 3, 4>>)) IN
       [op |-> "new", kind |-> PickSeq(KINDS), n |-> n, np |-> PickSeq(<<1, 2, 2, 3, 3, 4>>), scaling |-> Pick(BOOLEAN)]
Good(p) == LET ys == VDot(p.s, p.y) IN
           RSgn(ys) > 0 /\ RLe(RMul(VDot(p.s, p.s), VDot(p.y, p.y)), RMul(16, RMul(ys, ys)))
\* Structured updates: dropping old pairs may make a later one unusable; such histories are out of domain.
Usable(o) == \A k \in DOMAIN o.q :
  LET pre == [o EXCEPT !.q = SubSeq(@, 1, k - 1)]
      b == Fold(o.kind, Base(o), pre.q)
  IN  RLe(VDot(o.q[k].s, o.q[k].s), RMul(16, VDot(o.q[k].s, MVec(b, o.q[k].s))))
Bounded(o) == (o.kind = "str" => Usable(o)) /\ LET m == MMaxAbs(QN(o)) IN RLe(m, 3000)
Ok(o, p) ==
  IF o.kind # "str" THEN IF Accepts(o, p) THEN Good(p) /\ Bounded(Store(o, p)) ELSE TRUE
  ELSE LET sbs == VDot(p.s, MVec(QN(o), p.s)) ss == VDot(p.s, p.s) ys == VDot(p.s, p.y) IN
       IF Good(p) THEN RLe(ss, RMul(8, sbs)) /\ Bounded(Store(o, p))
       ELSE RLt(ys, 0) /\ RLe(ss, RMul(8, sbs)) /\ RSgn(ss) > 0
Pair(o) == LET s == One(Vec(o.n))
               c == One(Pick(1..4))
               \* often y is close to a positive multiple of s, so that the pair is accepted
               y == TLCEval([i \in 1..o.n |-> IF c = 1 THEN Pick(-3..3) ELSE 2 * s[i] + Pick(-1..1)])
               e == One(PickSeq(<<0, 0, 0, 0, -1, 2, -33, -33, -40>>))
               sc == IF o.kind = "str" THEN 0 ELSE e
           IN [s |-> VScale(RPow2(sc), s), y |-> VScale(RPow2(sc), One(y)), yd |-> Vec(o.n)]
RECURSIVE GoodPair(_, _)
GoodPair(o, k) == LET p == One(Pair(o)) IN
                  IF Ok(o, p) THEN p ELSE IF k = 0 THEN [s |-> <<>>] ELSE GoodPair(o, k - 1)
StoreCmd(a) == LET p == One(GoodPair(ops[a], 12)) IN
               IF p.s = <<>> THEN [op |-> "mv", a |-> a, x |-> Vec(ops[a].n), dt |-> PickSeq(<<"f8", "f8", "i8", "f4">>)]
               ELSE [op |-> "store", a |-> a, s |-> VText(p.s), y |-> VText(p.y), yd |-> p.yd]
Cmd == IF ops = <<>> THEN New(ops)
       ELSE LET w == One(Pick(1..20)) a == One(Pick(DOMAIN ops)) IN
            IF w = 1 /\ Len(ops) < 3 THEN New(ops)
            ELSE IF w = 2 THEN [op |-> "restart", a |-> a]
            ELSE IF w <= 5 THEN [op |-> "mv", a |-> a, x |-> Vec(ops[a].n), dt |-> PickSeq(<<"f8", "f8", "i8", "f4">>)]
            ELSE StoreCmd(a)
Apply(c) == CASE c.op = "new" -> Append(ops, [kind |-> c.kind, n |-> c.n, np |-> c.np, scaling |-> c.scaling, q |-> <<>>])
              [] c.op = "store" -> [ops EXCEPT ![c.a] = Store(@, [s |-> c.s, y |-> c.y, yd |-> c.yd])]
              [] c.op = "restart" -> [ops EXCEPT ![c.a] = Restart(@)]
              [] OTHER -> ops
Init == ops = <<>> /\ hist = <<>>
\* look: all operators are multiplied after this command; same: the arguments are handed over in the arrays used before
Next == Len(hist) < DEPTH /\ \E c \in {Cmd} : \E l \in {Pick(1..100) <= 60 \/ Len(hist) = DEPTH - 1}, r \in {Pick(BOOLEAN)} :
        ops' = Apply(c) /\ hist' = Append(hist, c @@ [look |-> l, same |-> r])
Emit == Len(hist) = DEPTH => PrintT("BEHAVIOUR " \o ToJson(hist))
Sound == \A k \in DOMAIN ops : Len(ops[k].q) <= ops[k].np
=============================================================================
