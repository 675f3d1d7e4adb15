-------------------------------- MODULE SelfTest --------------------------------
(* The Java evaluation of Rat.tla agrees with its meaning on a finite range,  *)
(* and satisfies the laws that characterise it on larger numbers.             *)
EXTENDS Rat, TLC
D == -3..3
N == {-3, -1, 1, 2}
Big == <<"0x1.123456789abcdp+40", "-0x1.fffffffffffffp-30", "123456789012345678901/7", "0x0.0000000000001p-1022", "-0x1.8p+1", 5, "0x1p+0">>
F(p, q) == RDiv(p, q)
ASSUME \A p, r \in D, q, s \in N :
   /\ REq(RAdd(F(p, q), F(r, s)), F(p * s + r * q, q * s))
   /\ REq(RSub(F(p, q), F(r, s)), F(p * s - r * q, q * s))
   /\ REq(RMul(F(p, q), F(r, s)), F(p * r, q * s))
   /\ (r # 0 => REq(RDiv(F(p, q), F(r, s)), F(p * s, q * r)))
   /\ (RLe(F(p, q), F(r, s)) <=> p * s * q * s <= r * q * q * s)
   /\ (RLt(F(p, q), F(r, s)) <=> p * s * q * s < r * q * q * s)
   /\ (REq(F(p, q), F(r, s)) <=> p * s = r * q)
   /\ RSgn(F(p, q)) = (IF p * q > 0 THEN 1 ELSE IF p = 0 THEN 0 ELSE -1)
ASSUME \A ia, ib, ic \in DOMAIN Big : LET a == RNum(Big[ia]) b == RNum(Big[ib]) c == RNum(Big[ic]) IN
   /\ REq(RAdd(a, b), RAdd(b, a)) /\ REq(RMul(a, b), RMul(b, a))
   /\ REq(RAdd(RAdd(a, b), c), RAdd(a, RAdd(b, c)))
   /\ REq(RMul(RMul(a, b), c), RMul(a, RMul(b, c)))
   /\ REq(RMul(a, RAdd(b, c)), RAdd(RMul(a, b), RMul(a, c)))
   /\ REq(RMul(RDiv(a, b), b), a) /\ REq(RSub(a, a), 0)
   /\ (RLe(a, b) \/ RLe(b, a))
   /\ REq(RMul(a, RSgn(a)), RAbs(a))
ASSUME REq("-0x1.8p+1", -3) /\ REq("0x1.4p-2", F(5, 16)) /\ REq("0x1.0p+3", 8)
ASSUME REq("0x1p-1074", RPow2(-1074)) /\ REq(RPow2(5), 32) /\ REq("0x0.8p+1", 1)
ASSUME ~RFin("nan") /\ ~RFin("inf") /\ ~RFin("-inf") /\ RFin("0x1p+3") /\ RFin(3) /\ ~RFin("")
ASSUME \A i \in 1..5 :
   LET a == <<2, 3, "1/3", "0x1.123456789abcdp+40", "0x1p-300">>[i]
       s == RSqrt(a) IN RLe(RAbs(RSub(RMul(s, s), a)), RMul(RNum(a), RPow2(-100)))
ASSUME REq(RSqrt(4), 2) /\ REq(RSqrt(0), 0) /\ REq(RSqrt("1/4"), "1/2")
V == {<<"1", "2">>, <<"-3", "5">>, <<"1/2", "7">>}
MM == {<<u, v>> : u \in V, v \in V}
VEq(u, v) == Len(u) = Len(v) /\ \A i \in DOMAIN u : REq(u[i], v[i])
MEq(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : VEq(a[i], b[i])
ASSUME \A u, v \in V :
   /\ REq(VDot(u, v), RAdd(RMul(u[1], v[1]), RMul(u[2], v[2])))
   /\ VEq(VAdd(u, v), <<RAdd(u[1], v[1]), RAdd(u[2], v[2])>>)
   /\ VEq(VSub(u, v), <<RSub(u[1], v[1]), RSub(u[2], v[2])>>)
   /\ VEq(VScale("1/3", v), <<RMul("1/3", v[1]), RMul("1/3", v[2])>>)
   /\ VEq(VAxpy(3, u, v), <<RAdd(RMul(3, u[1]), v[1]), RAdd(RMul(3, u[2]), v[2])>>)
   /\ REq(RSum(u), RAdd(u[1], u[2]))
ASSUME \A m \in MM, v \in V :
   /\ VEq(MVec(m, v), <<VDot(m[1], v), VDot(m[2], v)>>)
   /\ MEq(MT(m), <<<<m[1][1], m[2][1]>>, <<m[1][2], m[2][2]>>>>)
   /\ LET d == RSub(RMul(m[1][1], m[2][2]), RMul(m[1][2], m[2][1]))
          s == MSolve(m, v)
      IN  /\ s[1] = ~REq(d, 0)
          /\ s[1] => VEq(MVec(m, s[2]), v)
ASSUME \A a, b \in MM : \A i, j \in 1..2 :
   REq(MMul(a, b)[i][j], RAdd(RMul(a[i][1], b[1][j]), RMul(a[i][2], b[2][j])))
ASSUME MT(<<<<1, 2, 3>>>>) = <<<<1>>, <<2>>, <<3>>>>
ASSUME \A i \in 1..4 : LET x == <<"0x1.123456789abcdp+40", "1/3", -7, "-0x1.0000000001p-3">>[i] IN
   RLe(RAbs(RSub(RRound(x, 40), x)), RMul(RAbs(x), RPow2(-38)))
VARIABLE done
Init == done = TRUE
Next == UNCHANGED done
=============================================================================
