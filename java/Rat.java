// TLC override of the operators of specs/Rat.tla: exact rational arithmetic on
// java.math.BigInteger.  A rational is an IntValue when it is an integer that
// fits 32 bits, else the tuple <<sign, numerator limbs, denominator limbs>>
// (lowest terms, base 2^30, least significant limb first); RatTuple caches the
// BigIntegers.  The definitions in Rat.tla are the meaning; SelfTest.tla checks
// that the two agree.
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Rat {
  static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;
  static final int LB = 30;
  static final BigInteger MASK = ONE.shiftLeft(LB).subtract(ONE);

  static final class RatTuple extends TupleValue {
    final BigInteger num, den;
    RatTuple(BigInteger n, BigInteger d) {
      super(new Value[] { IntValue.gen(n.signum()), limbs(n.abs()), limbs(d) });
      num = n; den = d;
    }
  }

  static Value limbs(BigInteger n) {
    int k = (n.bitLength() + LB - 1) / LB;
    Value[] v = new Value[k];
    for (int i = 0; i < k; i++) { v[i] = IntValue.gen(n.and(MASK).intValue()); n = n.shiftRight(LB); }
    return new TupleValue(v);
  }

  static BigInteger unlimbs(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    BigInteger r = ZERO;
    for (int i = t.elems.length - 1; i >= 0; i--)
      r = r.shiftLeft(LB).add(BigInteger.valueOf(((IntValue) t.elems[i]).val));
    return r;
  }

  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
  }

  static boolean isInt(BigInteger d) { return d.equals(ONE); }

  static Q of(Value v) {
    if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), ONE);
    if (v instanceof RatTuple) { RatTuple r = (RatTuple) v; return new Q(r.num, r.den); }
    if (v instanceof StringValue) return parse(((StringValue) v).getVal().toString());
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null || t.elems.length != 3) throw new RuntimeException("Rat: not a rational: " + v);
    BigInteger n = unlimbs(t.elems[1]), d = unlimbs(t.elems[2]);
    if (((IntValue) t.elems[0]).val < 0) n = n.negate();
    return new Q(n, d);
  }

  static Value mk(BigInteger n, BigInteger d) {
    if (d.signum() == 0) throw new RuntimeException("Rat: zero denominator");
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (!isInt(d)) {
      BigInteger g = n.gcd(d);
      if (!isInt(g)) { n = n.divide(g); d = d.divide(g); }
    }
    if (isInt(d) && n.bitLength() < 31) return IntValue.gen(n.intValue());
    return new RatTuple(n, d);
  }
  static Value mk(Q q) { return mk(q.n, q.d); }

  static Q parse(String s) {
    s = s.trim();
    boolean neg = false;
    String t = s;
    if (t.startsWith("-")) { neg = true; t = t.substring(1); }
    if (t.startsWith("0x") || t.startsWith("0X")) {
      int p = t.indexOf('p');
      int e = p < 0 ? 0 : Integer.parseInt(t.substring(p + 1));
      String m = p < 0 ? t.substring(2) : t.substring(2, p);
      int dot = m.indexOf('.');
      int frac = 0;
      if (dot >= 0) { frac = m.length() - dot - 1; m = m.substring(0, dot) + m.substring(dot + 1); }
      BigInteger n = new BigInteger(m, 16);
      e -= 4 * frac;
      if (neg) n = n.negate();
      if (e >= 0) return new Q(n.shiftLeft(e), ONE);
      int tz = n.signum() == 0 ? -e : Math.min(-e, n.getLowestSetBit());
      return new Q(n.shiftRight(tz), ONE.shiftLeft(-e - tz));
    }
    int sl = t.indexOf('/');
    BigInteger n, d = ONE;
    if (sl >= 0) { n = new BigInteger(t.substring(0, sl)); d = new BigInteger(t.substring(sl + 1)); }
    else n = new BigInteger(t);
    if (neg) n = n.negate();
    BigInteger g = n.gcd(d);
    if (!isInt(g) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
    return new Q(n, d);
  }

  static Q add(Q a, Q b) {
    if (isInt(a.d) && isInt(b.d)) return new Q(a.n.add(b.n), ONE);
    return red(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
  }
  static Q mul(Q a, Q b) {
    if (isInt(a.d) && isInt(b.d)) return new Q(a.n.multiply(b.n), ONE);
    return red(a.n.multiply(b.n), a.d.multiply(b.d));
  }
  static Q neg(Q a) { return new Q(a.n.negate(), a.d); }
  static Q div(Q a, Q b) {
    if (b.n.signum() == 0) throw new RuntimeException("Rat: division by zero");
    BigInteger n = a.n.multiply(b.d), d = a.d.multiply(b.n);
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    return red(n, d);
  }
  static Q red(BigInteger n, BigInteger d) {
    if (isInt(d)) return new Q(n, d);
    BigInteger g = n.gcd(d);
    if (!isInt(g)) { n = n.divide(g); d = d.divide(g); }
    return new Q(n, d);
  }
  static int cmp(Q a, Q b) {
    if (isInt(a.d) && isInt(b.d)) return a.n.compareTo(b.n);
    return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
  }
  static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // ---- the operators of Rat.tla
  public static Value RNum(Value a) {
    if (a instanceof IntValue || a instanceof RatTuple) return a;
    return mk(of(a));
  }
  public static Value RFin(Value a) {
    if (a instanceof IntValue || a instanceof RatTuple) return BoolValue.ValTrue;
    if (a instanceof StringValue) {
      try { parse(((StringValue) a).getVal().toString()); return BoolValue.ValTrue; }
      catch (NumberFormatException e) { return BoolValue.ValFalse; }
    }
    return BoolValue.ValFalse;
  }
  static boolean ii(Value a, Value b) { return a instanceof IntValue && b instanceof IntValue; }
  static Value fromLong(long r) {
    if (r >= -(1L << 30) && r < (1L << 30)) return IntValue.gen((int) r);
    return mk(BigInteger.valueOf(r), ONE);
  }
  public static Value RAdd(Value a, Value b) {
    if (ii(a, b)) return fromLong((long) ((IntValue) a).val + ((IntValue) b).val);
    return mk(add(of(a), of(b)));
  }
  public static Value RSub(Value a, Value b) {
    if (ii(a, b)) return fromLong((long) ((IntValue) a).val - ((IntValue) b).val);
    return mk(add(of(a), neg(of(b))));
  }
  public static Value RMul(Value a, Value b) {
    if (ii(a, b)) return fromLong((long) ((IntValue) a).val * ((IntValue) b).val);
    return mk(mul(of(a), of(b)));
  }
  public static Value RDiv(Value a, Value b) { return mk(div(of(a), of(b))); }
  public static Value RNeg(Value a) { return mk(neg(of(a))); }
  public static Value RAbs(Value a) { Q q = of(a); return mk(q.n.abs(), q.d); }
  public static Value RSgn(Value a) { return IntValue.gen(of(a).n.signum()); }
  public static Value REq(Value a, Value b) { return bool(cmp(of(a), of(b)) == 0); }
  public static Value RLe(Value a, Value b) { return bool(cmp(of(a), of(b)) <= 0); }
  public static Value RLt(Value a, Value b) { return bool(cmp(of(a), of(b)) < 0); }
  public static Value RMax(Value a, Value b) { return cmp(of(a), of(b)) >= 0 ? RNum(a) : RNum(b); }
  public static Value RMin(Value a, Value b) { return cmp(of(a), of(b)) <= 0 ? RNum(a) : RNum(b); }
  // 2^k
  public static Value RPow2(Value k) {
    int e = ((IntValue) k).val;
    return e >= 0 ? mk(ONE.shiftLeft(e), ONE) : mk(ONE, ONE.shiftLeft(-e));
  }
  // Nearest dyadic with p significant bits (towards minus infinity): keeps numbers short
  // where the specification says so.
  public static Value RRound(Value a, Value p) {
    Q q = of(a);
    if (q.n.signum() == 0) return IntValue.gen(0);
    int k = q.n.abs().bitLength() - q.d.bitLength() - ((IntValue) p).val; // keep p bits
    if (k >= 0) { BigInteger t = q.n.divide(q.d).shiftRight(k).shiftLeft(k); return mk(t, ONE); }
    BigInteger[] dr = q.n.shiftLeft(-k).divideAndRemainder(q.d);
    return mk(dr[0], ONE.shiftLeft(-k));
  }
  // A rational s with |s^2 - a| <= a 2^-100 (s >= 0); a >= 0.
  public static Value RSqrt(Value a) {
    Q q = of(a);
    if (q.n.signum() < 0) throw new RuntimeException("Rat: square root of a negative number");
    if (q.n.signum() == 0) return IntValue.gen(0);
    int k = Math.max(0, 220 - (q.n.bitLength() - q.d.bitLength()));
    if ((k & 1) == 1) k++;
    BigInteger t = q.n.shiftLeft(k).divide(q.d).sqrt();
    return mk(t, ONE.shiftLeft(k / 2));
  }
  public static Value RShow(Value a) {
    Q q = of(a);
    java.math.BigDecimal d = new java.math.BigDecimal(q.n).divide(new java.math.BigDecimal(q.d),
        new java.math.MathContext(12));
    return new StringValue(d.toString());
  }
  public static Value RText(Value a) {
    Q q = of(a);
    if (q.d.equals(ONE) && q.n.bitLength() < 30) return a instanceof IntValue ? a : IntValue.gen(q.n.intValue());
    return new StringValue(q.n + "/" + q.d);
  }
  static Value[] seq(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new RuntimeException("Rat: not a sequence: " + v);
    return t.elems;
  }
  static Q[] vec(Value v) {
    Value[] e = seq(v);
    Q[] q = new Q[e.length];
    for (int i = 0; i < q.length; i++) q[i] = of(e[i]);
    return q;
  }
  static final Q Q0 = new Q(ZERO, ONE);
  static Q dot(Q[] a, Q[] b) {
    // Accumulate with one common denominator where cheap.
    Q s = Q0;
    for (int i = 0; i < a.length; i++) {
      if (a[i].n.signum() == 0 || b[i].n.signum() == 0) continue;
      s = add(s, mul(a[i], b[i]));
    }
    return s;
  }
  static Value out(Q[] q) {
    Value[] v = new Value[q.length];
    for (int i = 0; i < v.length; i++) v[i] = mk(q[i]);
    return new TupleValue(v);
  }
  public static Value RSum(Value a) {
    Q s = Q0;
    for (Q q : vec(a)) s = add(s, q);
    return mk(s);
  }
  public static Value VDot(Value a, Value b) { 
    Q[] p = vec(a), q = vec(b);
    if (p.length != q.length) throw new RuntimeException("VDot: lengths differ");
    return mk(dot(p, q));
  }
  public static Value VAdd(Value a, Value b) {
    Q[] p = vec(a), q = vec(b);
    if (p.length != q.length) throw new RuntimeException("VAdd: lengths differ");
    Q[] r = new Q[p.length];
    for (int i = 0; i < r.length; i++) r[i] = add(p[i], q[i]);
    return out(r);
  }
  public static Value VSub(Value a, Value b) {
    Q[] p = vec(a), q = vec(b);
    if (p.length != q.length) throw new RuntimeException("VSub: lengths differ");
    Q[] r = new Q[p.length];
    for (int i = 0; i < r.length; i++) r[i] = add(p[i], neg(q[i]));
    return out(r);
  }
  public static Value VScale(Value c, Value a) {
    Q s = of(c);
    Q[] p = vec(a), r = new Q[p.length];
    for (int i = 0; i < r.length; i++) r[i] = mul(s, p[i]);
    return out(r);
  }
  // c*x + y
  public static Value VAxpy(Value c, Value x, Value y) {
    Q s = of(c);
    Q[] p = vec(x), q = vec(y), r = new Q[p.length];
    if (p.length != q.length) throw new RuntimeException("VAxpy: lengths differ");
    for (int i = 0; i < r.length; i++) r[i] = add(mul(s, p[i]), q[i]);
    return out(r);
  }
  static Q[][] mat(Value v) {
    Value[] e = seq(v);
    Q[][] m = new Q[e.length][];
    for (int i = 0; i < m.length; i++) m[i] = vec(e[i]);
    return m;
  }
  static Value outM(Q[][] m) {
    Value[] v = new Value[m.length];
    for (int i = 0; i < v.length; i++) v[i] = out(m[i]);
    return new TupleValue(v);
  }
  public static Value MVec(Value m, Value x) {
    Q[][] a = mat(m);
    Q[] p = vec(x), r = new Q[a.length];
    for (int i = 0; i < r.length; i++) r[i] = dot(a[i], p);
    return out(r);
  }
  public static Value MMul(Value m1, Value m2) {
    Q[][] a = mat(m1), b = mat(m2);
    int k = b.length, n = k == 0 ? 0 : b[0].length;
    Q[][] r = new Q[a.length][n];
    for (int j = 0; j < n; j++) {
      Q[] col = new Q[k];
      for (int i = 0; i < k; i++) col[i] = b[i][j];
      for (int i = 0; i < a.length; i++) r[i][j] = dot(a[i], col);
    }
    return outM(r);
  }
  public static Value MT(Value m) {
    Value[] rows = seq(m);
    if (rows.length == 0) return new TupleValue(new Value[0]);
    Value[][] e = new Value[rows.length][];
    for (int i = 0; i < e.length; i++) e[i] = seq(rows[i]);
    Value[] r = new Value[e[0].length];
    for (int j = 0; j < r.length; j++) {
      Value[] c = new Value[e.length];
      for (int i = 0; i < c.length; i++) c[i] = e[i][j];
      r[j] = new TupleValue(c);
    }
    return new TupleValue(r);
  }
  // Solve a square system: <<TRUE, x>>, or <<FALSE, <<>>>> when the matrix is singular.
  public static Value MSolve(Value m, Value b) {
    Q[][] a = mat(m);
    Q[] y = vec(b);
    int n = a.length;
    for (int c = 0; c < n; c++) {
      int p = -1;
      for (int i = c; i < n; i++) if (a[i][c].n.signum() != 0) { p = i; break; }
      if (p < 0) return new TupleValue(BoolValue.ValFalse, new TupleValue(new Value[0]));
      Q[] t = a[p]; a[p] = a[c]; a[c] = t;
      Q u = y[p]; y[p] = y[c]; y[c] = u;
      for (int i = 0; i < n; i++) {
        if (i == c || a[i][c].n.signum() == 0) continue;
        Q f = div(a[i][c], a[c][c]);
        for (int j = c; j < n; j++) a[i][j] = add(a[i][j], neg(mul(f, a[c][j])));
        y[i] = add(y[i], neg(mul(f, y[c])));
      }
    }
    Q[] x = new Q[n];
    for (int i = 0; i < n; i++) x[i] = div(y[i], a[i][i]);
    return new TupleValue(BoolValue.ValTrue, out(x));
  }
}
