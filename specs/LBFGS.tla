---------------------------------- MODULE LBFGS ----------------------------------
(***************************************************************************)
(* Limited-memory quasi-Newton operators.                                    *)
(*                                                                          *)
(* Abstract state of an operator: the queue of the last npairs accepted       *)
(* pairs, oldest first.  The matrix it stands for is a function of the queue: *)
(*   inv    the inverse BFGS recursion on the queue                           *)
(*   fwd    the direct BFGS recursion                                         *)
(*   cmp    the same matrix (compact representation)                          *)
(*   str    the structured (PSB-like, Dennis-Walker) recursion                *)
(* The package stores the queue in a ring buffer; Ring* below is that buffer   *)
(* and RQueue(ring) the queue it represents.                                  *)
(***************************************************************************)
EXTENDS CMat, TLC

RECURSIVE RSumV(_, _)
RSumV(vs, n) == IF vs = <<>> THEN [i \in 1..n |-> 0] ELSE VAdd(Head(vs), RSumV(Tail(vs), n))
Outer(u, v) == [i \in DOMAIN u |-> VScale(u[i], v)]
LastOf(q) == q[Len(q)]
\* s'y / y'y of the latest pair with scaling, 1 without
Gamma(q, scaling) == IF scaling /\ q # <<>> THEN RDiv(VDot(LastOf(q).s, LastOf(q).y), VDot(LastOf(q).y, LastOf(q).y)) ELSE 1

\* one step of each recursion
HUpd(m, p) == LET r == RDiv(1, VDot(p.s, p.y))
                  v == MSub(Unit(Len(m)), MScale(r, Outer(p.y, p.s)))       \* I - y s'/(y's)
              IN  MAdd(MMul(MT(v), MMul(m, v)), MScale(r, Outer(p.s, p.s)))
BUpd(m, p) == LET bs == MVec(m, p.s)
              IN  MAdd(MSub(m, MScale(RDiv(1, VDot(p.s, bs)), Outer(bs, bs))),
                       MScale(RDiv(1, VDot(p.s, p.y)), Outer(p.y, p.y)))
SUpd(m, p) == LET bs == MVec(m, p.s)
                  coef == RSqrt(RDiv(VDot(p.s, p.y), VDot(p.s, bs)))
                  a == VAxpy(coef, bs, p.y)
                  d == VSub(p.yd, bs)
                  as == VDot(a, p.s)
                  ds == VDot(d, p.s)
              IN  MAdd(MAdd(m, MScale(RDiv(1, as), MAdd(Outer(a, d), Outer(d, a)))),
                       MScale(RNeg(RDiv(ds, RMul(as, as))), Outer(a, a)))
Upd(kind, m, p) == CASE kind = "inv" -> HUpd(m, p) [] kind \in {"fwd", "cmp"} -> BUpd(m, p) [] kind = "str" -> SUpd(m, p)
Base(o) == LET g == Gamma(o.q, o.scaling) IN
           MScale(IF o.kind = "inv" THEN g ELSE RDiv(1, g), Unit(o.n))
RECURSIVE Fold(_, _, _)
\* (structured updates take square roots: entries are kept to 200 bits)
Rnd(kind, m) == IF kind = "str" THEN [i \in DOMAIN m |-> [j \in DOMAIN m |-> RRound(m[i][j], 200)]] ELSE m
Fold(kind, m, q) == IF q = <<>> THEN m ELSE Fold(kind, Rnd(kind, Upd(kind, m, Head(q))), Tail(q))
\* the matrix of operator o = [kind, n, np, scaling, q]
QN(o) == Fold(o.kind, Base(o), o.q)

---------------------------------------------------------------------------
(* Storing.  Thr is the documented acceptance threshold. *)
Thr(kind) == IF kind = "str" THEN "1/100000000" ELSE "1/100000000000000000000"
StrProd(o, p) == RMul(VDot(p.s, p.y), VDot(p.s, MVec(QN(o), p.s)))      \* y's * s'Bs
StrTest(o, p) == RAdd(VDot(p.s, p.y), RSqrt(StrProd(o, p)))
Accepts(o, p) == IF o.kind = "str" THEN RSgn(StrProd(o, p)) >= 0 /\ RLe(Thr("str"), StrTest(o, p))
                 ELSE RLt(Thr(o.kind), VDot(p.s, p.y))
Push(q, p, np) == LET r == Append(q, p) IN IF Len(r) > np THEN Tail(r) ELSE r
Store(o, p) == IF Accepts(o, p) THEN [o EXCEPT !.q = Push(o.q, p, o.np)] ELSE o
Restart(o) == [o EXCEPT !.q = <<>>]

---------------------------------------------------------------------------
(* The ring buffer. None marks an empty slot. *)
None == [s |-> <<>>, y |-> <<>>]
RingInit(np) == [slot |-> [k \in 0..(np - 1) |-> None], ins |-> 0]
RingStore(r, p, np) == [slot |-> [r.slot EXCEPT ![r.ins] = p], ins |-> (r.ins + 1) % np]
RQueue(r, np) == SelectSeq([i \in 1..np |-> r.slot[(r.ins + i - 1) % np]], LAMBDA p : p # None)

---------------------------------------------------------------------------
(* The compact representation (Byrd, Nocedal, Schnabel):                      *)
(*   B0 - [B0 S, Y] [S'B0 S, L; L', -D]^-1 [S'B0; Y']                         *)
Compact(o) ==
  LET q == o.q k == Len(q) g == Gamma(q, o.scaling)
      w == [i \in 1..(2 * k) |-> IF i <= k THEN VScale(RDiv(1, g), q[i].s) ELSE q[i - k].y]
      mid == [i \in 1..(2 * k) |-> [j \in 1..(2 * k) |->
                IF i <= k /\ j <= k THEN RDiv(VDot(q[i].s, q[j].s), g)
                ELSE IF i > k /\ j > k THEN (IF i = j THEN RNeg(VDot(q[i - k].s, q[i - k].y)) ELSE 0)
                ELSE IF i <= k THEN (IF i > j - k THEN VDot(q[i].s, q[j - k].y) ELSE 0)
                ELSE (IF j > i - k THEN VDot(q[j].s, q[i - k].y) ELSE 0)]]
      col(v) == LET sol == MSolve(mid, MVec(w, v))[2] IN
                RSumV([i \in 1..(2 * k) |-> VScale(sol[i], w[i])], o.n)
      e(j) == [i \in 1..o.n |-> IF i = j THEN 1 ELSE 0]
  IN  IF k = 0 THEN Base(o)
      ELSE MT([j \in 1..o.n |-> VSub(VScale(RDiv(1, g), e(j)), col(e(j)))])
=============================================================================
