------------------------------- MODULE LBFGSTrace -------------------------------
(* Checks recorded histories of the real quasi-Newton operators against LBFGS. *)
EXTENDS LBFGS, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, ops, bad
FinM(a) == \A i \in DOMAIN a : \A j \in DOMAIN a[i] : RFin(a[i][j])
FinV(v) == \A i \in DOMAIN v : RFin(v[i])
Tol == "1/1000000"
CloseM(a, m) == /\ Len(a) = Len(m) /\ (\A i \in DOMAIN a : Len(a[i]) = Len(m[i])) /\ FinM(a)
                /\ RLe(MMaxAbs(MSub(a, m)), RMul(Tol, RMax(1, MMaxAbs(m))))
CloseV(u, v, m) == /\ Len(u) = Len(v) /\ FinV(u)
                   /\ RLe(VMaxAbs(VSub(u, v)), RMul(Tol, RMax(1, RMul(MMaxAbs(m), 12))))
If(cond, s) == IF cond THEN s ELSE {}
Prop(o) == IF o.kind = "inv" THEN "C11" ELSE "C12"
Nm(o) == " " \o o.kind \o (IF o.scaling THEN "/scaled" ELSE "")
Judge(os, e) ==
  LET c == e.c o == e.o IN
  If(o.out # "ok", {(IF c.op = "end" THEN "C11" ELSE Prop(os[IF c.op = "new" THEN Len(os) ELSE c.a])) \o " " \o c.op \o " raises " \o o.exc})
  \cup (IF o.out # "ok" THEN {} ELSE
    If(c.look /\ Len(o.all) # Len(os), {"C11 operators missing"})
    \cup UNION {LET d == o.all[k] b == os[k] IN
           If(d.s # "ok", {Prop(b) \o Nm(b) \o " product " \o d.s})
           \cup (IF d.s # "ok" THEN {} ELSE
                   If(~CloseM(d.m, QN(b)), {Prop(b) \o Nm(b) \o " is not the recursion on the latest pairs, after " \o c.op
                                               \o (IF c.op # "new" /\ c.a # k THEN " on another operator" ELSE "")})
                   \cup If(~d.again, {Prop(b) \o Nm(b) \o " repeated product differs"})
                   \cup If(~d.sym \/ d.sh # <<b.n, b.n>>, {Prop(b) \o Nm(b) \o " shape or symmetry flag"}))
           : k \in DOMAIN o.all}
    \cup If(c.op = "store" /\ ~o.same, {Prop(os[c.a]) \o " store changes its arguments"})
    \cup (IF c.op # "mv" THEN {} ELSE
          LET b == os[c.a] m == QN(b) IN
          If(~CloseV(o.y, MVec(m, c.x), m), {Prop(b) \o Nm(b) \o " product"})
          \cup If(~CloseV(o.yt, MVec(m, c.x), m), {Prop(b) \o Nm(b) \o " product with the transpose"})
          \cup If(~o.same, {Prop(b) \o Nm(b) \o " product changes its argument"})))
Ev(k) == Traces[k].ev
Apply(os, c) == CASE c.op = "new" -> Append(os, [kind |-> c.kind, n |-> c.n, np |-> c.np, scaling |-> c.scaling, q |-> <<>>])
              [] c.op = "store" -> [os EXCEPT ![c.a] = Store(@, [s |-> c.s, y |-> c.y, yd |-> c.yd])]
              [] c.op = "restart" -> [os EXCEPT ![c.a] = Restart(@)]
              [] OTHER -> os
Init == t \in 1..Len(Traces) /\ l = 1 /\ ops = <<>> /\ bad = {}
Step == /\ l <= Len(Ev(t))
        /\ \E o2 \in {Apply(ops, Ev(t)[l].c)} :
             ops' = o2 /\ bad' = bad \cup {b \o " @" \o ToString(l) : b \in Judge(o2, Ev(t)[l])}
        /\ l' = l + 1 /\ t' = t
Done == /\ l = Len(Ev(t)) + 1
        /\ PrintT("TRACE " \o ToJson([id |-> Traces[t].id, n |-> l - 1, bad |-> bad]))
        /\ l' = l + 1 /\ UNCHANGED <<t, ops, bad>>
Next == Step \/ Done
View == <<t, l>>
=============================================================================
