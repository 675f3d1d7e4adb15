-------------------------------- MODULE LinOpTrace --------------------------------
(***************************************************************************)
(* Checks recorded executions of the real package against LinOp.  One        *)
(* behaviour per trace: the heap evolves by LinOp!Apply, and every recorded   *)
(* observation is compared with what the specification says.  The verdict is  *)
(* total: the set of violated clauses, each tagged with its property.         *)
(***************************************************************************)
EXTENDS LinOp, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES t, l, heap, bad

Has(r, f) == f \in DOMAIN r
FinM(a) == \A i \in DOMAIN a : \A j \in DOMAIN a[i] : RFin(a[i][j])
FinV(v) == \A i \in DOMAIN v : RFin(v[i])
SameM(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in DOMAIN a : Len(a[i]) = Len(b[i])
               /\ FinM(a) /\ MEq(a, b)
SameV(u, v) == Len(u) = Len(v) /\ FinV(u) /\ VEq(u, v)
\* an observed dense matrix is m
IsM(d, m) == /\ d.s = "ok"
             /\ SameM(d.r, m.r) /\ SameM(d.i, m.i)
             /\ Has(d, "ir") => SameM(d.ir, MScale(-1, m.i)) /\ SameM(d.ii, m.r)

ViewOf(name) == CASE name = "N" -> "N" [] name = "T" -> "T" [] name = "H" -> "H" [] name = "C" -> "C"
                  [] name \in {"TT", "HH", "CC"} -> "N" [] name \in {"TH", "HT"} -> "C"
                  [] name \in {"TC", "CT"} -> "H" [] name \in {"HC", "CH"} -> "T"

\* the properties that speak about products with a node / with its views
RECURSIVE PropN(_, _)
PropN(h, k) == LET n == h[k] IN
  CASE n.k = "red" -> "C07" [] n.k = "blk" -> "C08" [] n.k = "bdg" -> "C10"
    [] n.k = "view" -> "C02" [] OTHER -> "C01"
PropV(h, k) == {"C02"} \cup (IF h[k].k \in {"red", "blk", "bdg"} THEN {PropN(h, k)} ELSE {})

Tag(ps, what) == {p \o " " \o what : p \in ps}
If(cond, s) == IF cond THEN s ELSE {}

\* a probe of node k
Probe(h, k, p, propN, propV) ==
  LET n == h[k]
      m == Den(h, k)
      nm == ToString(k) \o ":" \o n.k
  IN
  IF p.s # "ok" THEN Tag(propN, "no operator " \o nm \o " (" \o p.s \o ")")
  ELSE
    If(p.sh # n.sh \/ p.nargin # n.sh[2] \/ p.nargout # n.sh[1], Tag({"C03"}, "shape of " \o nm))
    \cup If(p.dt # n.dt, Tag({"C03"}, "type of " \o nm))
    \cup If((n.sym /\ ~p.sym) \/ (n.her /\ ~p.her), Tag({"C03"}, "flag lost on " \o nm))
    \cup UNION {
      LET v == ViewOf(name)
          w == p.v[name]
          mm == VMat(m, v)
          ps == IF name = "N" THEN propN ELSE propV
      IN If(~IsM(w.d, mm) /\ (n.av \/ name = "N" \/ w.d.s = "ok"), Tag(ps, "view " \o name \o " of " \o nm))
         \cup (IF w.d.s = "ok"
               THEN If(w.sh # CShape(mm) /\ IsM(w.d, mm), Tag({"C03"}, "shape of view " \o name \o " of " \o nm))
                    \cup If(w.dt # n.dt, Tag({"C03"}, "type of view " \o name \o " of " \o nm))
                    \cup If(w.sym /\ ~CEq(mm, CT(mm)), Tag({"C03"}, "false symmetric flag, view " \o name \o " of " \o nm))
                    \cup If(w.her /\ ~CEq(mm, CH(mm)), Tag({"C03"}, "false hermitian flag, view " \o name \o " of " \o nm))
               ELSE {})
      : name \in DOMAIN p.v}

ProbeAll(h, ps, prop) ==
  UNION {IF ps[k].s = "none" THEN {} ELSE Probe(h, k, ps[k], {prop}, {prop}) : k \in DOMAIN ps}

\* a vector observed as the product
Product(h, e, prop) ==
  LET c == e.c o == e.o
      m == IF c.op = "rmv" THEN CH(Den(h, c.a)) ELSE Den(h, c.a)
      nm == ToString(c.a) \o ":" \o h[c.a].k
      want == CMVec(m, c.x)
      key == Canon(h, E(c.a))
  IN
  IF o.out # "ok" THEN {prop \o " product with " \o nm \o " raises " \o o.exc}
  ELSE If(~(SameV(o.y.r, want.r) /\ SameV(o.y.i, want.i)), {prop \o " product with " \o nm})
    \cup If(c.op = "mv" /\ o.dt # DtJoin(h[c.a].dt, c.dt), {"C03 type of product with " \o nm})
    \cup If(~(o.xsame /\ o.xsame2), {"C06 product with " \o nm \o " changes its argument"})
    \cup If(~o.again, {"C06 repeated product with " \o nm \o " differs"})
    \cup If(~o.apart, {"C06 product with " \o nm \o " overwrites the result of the last one"})
    \cup If(~o.twice, {"C06 product with " \o nm \o " is not that of the vector now in the array"})
    \cup If(c.op = "mv" /\ c.reset /\ ~(\A k \in DOMAIN o.before : o.before[k] \in {0, -1}), {"C05 counter not reset"})
    \cup If(c.op = "mv" /\ Clean(h, c.a) /\ Known(h, key),
            UNION {LET kk == Canon(h, E(k)) IN
                   If(kk[2] = "N" /\ Clean(h, k) /\ o.before[k] >= 0 /\ o.after[k] - o.before[k] # Calls(h, key, kk),
                      {"C05 count of " \o ToString(k) \o ":" \o h[k].k \o " after product with " \o nm})
                   : k \in DOMAIN o.before})

ErrOK == {"ShapeError", "ValueError", "TypeError", "ZeroDivisionError", "NotImplementedError"}
ObjKnown(h, c) == c[2] = "N" \/ (c[2] = "T" /\ ~IsCplx(h[c[1]].dt) /\ ~h[c[1]].her)
BlocksOK(h, e) ==
  LET n == h[e.c.a] o == e.o
      g == IF n.k = "blk" THEN n.grid ELSE <<n.es>>
      prop == IF n.k = "blk" THEN "C08" ELSE "C10"
      same(obs) == /\ Len(obs) = Len(g)
                   /\ \A i \in DOMAIN g : /\ Len(obs[i]) = Len(g[i])
                                           /\ \A j \in DOMAIN g[i] : IsM(obs[i][j], DenE(h, g[i][j]))
      cs == {Canon(h, Flat(g)[q]) : q \in DOMAIN Flat(g)}
  IN IF o.out # "ok" THEN {prop \o " blocks raise " \o o.exc}
     ELSE If(~same(o.it), {prop \o " iteration over the blocks"})
       \cup If(~same(o.bl), {prop \o " the list of blocks"})
       \cup (IF n.k = "blk" /\ Clean(h, e.c.a) /\ \A x \in cs : ObjKnown(h, x)
             THEN UNION {LET kk == Canon(h, E(k)) IN
                         If(kk[2] = "N" /\ Clean(h, k) /\ o.in[k] # (kk \in cs), {prop \o " membership of a block"}) : k \in DOMAIN o.in}
             ELSE {})

Judge(h, h2, e) ==
  LET c == e.c o == e.o IN
  CASE o.out = "skip" -> {}
    [] c.op \in Creates ->
         LET k == Len(h2) pn == PropN(h2, k) IN
         IF o.out # "ok" THEN {pn \o " " \o c.op \o " raises " \o o.exc}
         ELSE Probe(h2, k, o.p, {pn}, PropV(h2, k))
              \cup If(~o.args, {"C06 " \o c.op \o " changes its argument"})
    [] c.op = "mv" -> Product(h, e, PropN(h, c.a))
    [] c.op = "rmv" -> Product(h, e, "C02")
    [] c.op = "dense" ->
         IF o.out # "ok" THEN {"C01 to_array raises " \o o.exc}
         ELSE LET m == Den(h, c.a) IN
              If(~(SameM(o.m.r, m.r) /\ SameM(o.m.i, m.i)), {"C01 to_array of " \o h[c.a].k})
              \cup If(o.dt # h[c.a].dt, {"C03 type of to_array of " \o h[c.a].k})
    [] c.op = "blocks" -> BlocksOK(h, e)
    [] c.op = "bad" ->
         If(o.out = "ok", {"C04 accepted: " \o c.what})
         \cup If(o.out = "err" /\ o.exc \notin ErrOK, {"C04 " \o c.what \o " raises " \o o.exc})
         \cup Probe(h, c.a, o.a, {"C04"}, {"C04"}) \cup Probe(h, c.b, o.b, {"C04"}, {"C04"})
    [] c.op \in {"bset", "bsets", "bdset"} ->
         LET p == IF c.op = "bdset" THEN "C10" ELSE "C09" IN
         If(o.out # "ok", {p \o " assignment raises " \o o.exc})
         \cup (IF o.out = "ok" THEN ProbeAll(h2, o.all, p) ELSE {})
    [] c.op = "end" -> ProbeAll(h, o.all, "C06") \cup If(~o.keep, {"C06 an argument array was changed"})

Ev(k) == Traces[k].ev
Init == t \in 1..Len(Traces) /\ l = 1 /\ heap = <<>> /\ bad = {}
Step == /\ l <= Len(Ev(t))
        /\ \E h2 \in {Apply(heap, Ev(t)[l].c)} :
             /\ heap' = h2
             /\ bad' = bad \cup {b \o " @" \o ToString(l) : b \in Judge(heap, h2, Ev(t)[l])}
        /\ l' = l + 1
        /\ t' = t
Done == /\ l = Len(Ev(t)) + 1
        /\ PrintT("TRACE " \o ToJson([id |-> Traces[t].id, n |-> l - 1, bad |-> bad]))
        /\ l' = l + 1 /\ UNCHANGED <<t, heap, bad>>
Next == Step \/ Done
View == <<t, l>>
=============================================================================
