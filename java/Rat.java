import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC override of module Rat: exact rational arithmetic, and 10^-40-accurate sqrt/exp/ln/cos. */
public final class Rat {
  private static RatValue r(Value v) { return RatValue.from(v); }
  private static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

  static RatValue add(RatValue a, RatValue c) {
    if (a.nan() || c.nan()) return RatValue.NAN;
    if (a.d.equals(c.d)) return RatValue.of(a.n.add(c.n), a.d);
    return RatValue.of(a.n.multiply(c.d).add(c.n.multiply(a.d)), a.d.multiply(c.d));
  }
  static RatValue mul(RatValue a, RatValue c) {
    if (a.nan() || c.nan()) return RatValue.NAN;
    return RatValue.of(a.n.multiply(c.n), a.d.multiply(c.d));
  }
  static RatValue div(RatValue a, RatValue c) {
    if (a.nan() || c.nan() || c.n.signum() == 0) return RatValue.NAN;
    return RatValue.of(a.n.multiply(c.d), a.d.multiply(c.n));
  }
  static RatValue neg(RatValue a) { return a.nan() ? a : RatValue.of(a.n.negate(), a.d); }

  public static Value RParse(Value a) { return r(a); }
  public static Value RStr(Value a) { return new StringValue(r(a).str()); }
  public static Value RAdd(Value a, Value c) { return add(r(a), r(c)); }
  public static Value RSub(Value a, Value c) { return add(r(a), neg(r(c))); }
  public static Value RMul(Value a, Value c) { return mul(r(a), r(c)); }
  public static Value RDiv(Value a, Value c) { return div(r(a), r(c)); }
  public static Value RNeg(Value a) { return neg(r(a)); }
  public static Value RAbs(Value a) { RatValue x = r(a); return x.nan() ? x : RatValue.of(x.n.abs(), x.d); }
  public static Value RLt(Value a, Value c) { RatValue x = r(a), y = r(c); return b(!x.nan() && !y.nan() && x.cmp(y) < 0); }
  public static Value RLe(Value a, Value c) { RatValue x = r(a), y = r(c); return b(!x.nan() && !y.nan() && x.cmp(y) <= 0); }
  public static Value REq(Value a, Value c) { RatValue x = r(a), y = r(c); return b(!x.nan() && !y.nan() && x.cmp(y) == 0); }
  public static Value RIsNum(Value a) { return b(!r(a).nan()); }
  public static Value RFloor(Value a) {
    RatValue x = r(a);
    BigInteger[] q = x.n.divideAndRemainder(x.d);
    BigInteger f = q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0];
    return IntValue.gen(f.intValueExact());
  }
  public static Value RFits(Value a, Value k) {
    RatValue x = r(a);
    if (x.nan()) return b(false);
    if (x.n.signum() == 0) return b(true);
    if (x.d.bitCount() != 1) return b(false);
    return b(x.n.abs().bitLength() - x.n.getLowestSetBit() <= ((IntValue) k).val);
  }
  public static Value RPow(Value a, Value k) {
    RatValue x = r(a); int e = ((IntValue) k).val;
    if (x.nan()) return x;
    return e >= 0 ? RatValue.of(x.n.pow(e), x.d.pow(e)) : RatValue.of(x.d.pow(-e), x.n.pow(-e));
  }
  /** The identity; evaluates a sequence (of sequences) once instead of at every access. */
  public static Value Force(Value v) {
    if (v instanceof RatValue || v instanceof StringValue || v instanceof IntValue) return v;
    Value t = v.toTuple();
    if (t == null) return v;
    Value[] e = ((TupleValue) t).elems;
    Value[] out = new Value[e.length];
    for (int i = 0; i < e.length; i++) out[i] = Force(e[i]);
    return new TupleValue(out);
  }
  public static Value RSum(Value s) {
    RatValue acc = RatValue.ZERO;
    for (Value v : ((TupleValue) s.toTuple()).elems) acc = add(acc, r(v));
    return acc;
  }
  public static Value RDot(Value s, Value t) {
    Value[] x = ((TupleValue) s.toTuple()).elems, y = ((TupleValue) t.toTuple()).elems;
    if (x.length != y.length) return RatValue.NAN;
    RatValue acc = RatValue.ZERO;
    for (int i = 0; i < x.length; i++) acc = add(acc, mul(r(x[i]), r(y[i])));
    return acc;
  }

  // ---- approximations: relative (sqrt, exp) or absolute (ln, cos) error below 10^-40 ----
  private static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
  static BigDecimal dec(RatValue x) { return new BigDecimal(x.n).divide(new BigDecimal(x.d), MC); }
  static RatValue rat(BigDecimal v) {
    return v.scale() >= 0 ? RatValue.of(v.unscaledValue(), BigInteger.TEN.pow(v.scale()))
                          : RatValue.of(v.unscaledValue().multiply(BigInteger.TEN.pow(-v.scale())), BigInteger.ONE);
  }
  /** Rounds to 180 significant bits: keeps exact values from growing along a specification's own histories. */
  static RatValue round(RatValue x) {
    if (x.nan() || x.n.signum() == 0) return x;
    int e = x.n.abs().bitLength() - x.d.bitLength(), k = 180 - e;
    // small rationals and dyadic numbers stay exact
    if (x.n.bitLength() <= 90 && x.d.bitLength() <= 90 || x.d.bitCount() == 1 && x.n.bitLength() <= 180) return x;
    BigInteger q = k >= 0 ? x.n.shiftLeft(k).divide(x.d) : x.n.divide(x.d.shiftLeft(-k));
    return k >= 0 ? RatValue.of(q, BigInteger.ONE.shiftLeft(k)) : RatValue.of(q.shiftLeft(-k), BigInteger.ONE);
  }
  public static Value RRound(Value a) { return round(r(a)); }
  public static Value RSqrt(Value a) {
    RatValue x = r(a);
    if (x.nan() || x.n.signum() < 0) return RatValue.NAN;
    if (x.n.signum() == 0) return x;
    BigInteger sn = x.n.sqrt(), sd = x.d.sqrt();
    if (sn.multiply(sn).equals(x.n) && sd.multiply(sd).equals(x.d)) return RatValue.of(sn, sd);
    // integer square root of x scaled to 360 significant bits
    int e = x.n.bitLength() - x.d.bitLength(), k = 360 - e;
    if ((k & 1) != 0) k++;
    BigInteger q = k >= 0 ? x.n.shiftLeft(k).divide(x.d) : x.n.divide(x.d.shiftLeft(-k));
    BigInteger w = q.sqrt();
    int h = k / 2;
    return h >= 0 ? RatValue.of(w, BigInteger.ONE.shiftLeft(h)) : RatValue.of(w.shiftLeft(-h), BigInteger.ONE);
  }
  static BigDecimal exp(BigDecimal x) {
    // e^x = (e^(x/2^k))^(2^k)
    MathContext mc = new MathContext(90);
    int k = 0;
    BigDecimal y = x;
    while (y.abs().compareTo(new BigDecimal("0.01")) > 0) { y = y.divide(BigDecimal.valueOf(2), mc); k++; }
    BigDecimal s = BigDecimal.ONE, t = BigDecimal.ONE;
    for (int i = 1; i < 40; i++) { t = t.multiply(y, mc).divide(BigDecimal.valueOf(i), mc); s = s.add(t, mc); }
    for (int i = 0; i < k; i++) s = s.multiply(s, mc);
    return s;
  }
  public static Value RExp(Value a) {
    RatValue x = r(a);
    if (x.nan() || x.n.abs().compareTo(x.d.multiply(BigInteger.valueOf(3000))) > 0) return RatValue.NAN;
    return round(rat(exp(dec(x)).round(MC)));
  }
  public static Value RLn(Value a) {
    RatValue x = r(a);
    if (x.nan() || x.n.signum() <= 0) return RatValue.NAN;
    BigDecimal v = dec(x);
    // initial guess from bit lengths, then Newton on exp
    double g = (x.n.bitLength() - x.d.bitLength()) * Math.log(2.0);
    BigDecimal y = new BigDecimal(g);
    MathContext mc = new MathContext(80);
    for (int i = 0; i < 9; i++) {
      BigDecimal e = exp(y);
      // Halley: y += 2 (v - e)/(v + e)
      y = y.add(v.subtract(e, mc).multiply(BigDecimal.valueOf(2), mc).divide(v.add(e, mc), mc), mc);
    }
    return round(rat(y.round(MC)));
  }
  private static final BigDecimal PI = machinPi();
  private static BigDecimal arctanInv(int k, MathContext mc) {
    BigDecimal x = BigDecimal.ONE.divide(BigDecimal.valueOf(k), mc), x2 = x.multiply(x, mc), t = x, s = x;
    for (int i = 1; i < 120; i++) {
      t = t.multiply(x2, mc).negate();
      s = s.add(t.divide(BigDecimal.valueOf(2L * i + 1), mc), mc);
    }
    return s;
  }
  private static BigDecimal machinPi() {
    MathContext mc = new MathContext(100);
    return arctanInv(5, mc).multiply(BigDecimal.valueOf(16)).subtract(arctanInv(239, mc).multiply(BigDecimal.valueOf(4)), mc);
  }
  public static Value RPi() { return round(rat(PI.round(MC))); }
  public static Value RCos(Value a) {
    RatValue q = r(a);
    if (q.nan()) return q;
    MathContext mc = new MathContext(90);
    BigDecimal x = new BigDecimal(q.n).divide(new BigDecimal(q.d), mc);
    BigDecimal two = PI.multiply(BigDecimal.valueOf(2), mc);
    x = x.subtract(two.multiply(x.divide(two, mc).setScale(0, RoundingMode.HALF_EVEN), mc), mc);
    BigDecimal x2 = x.multiply(x, mc), t = BigDecimal.ONE, s = BigDecimal.ONE;
    for (int i = 1; i < 60; i++) {
      t = t.multiply(x2, mc).divide(BigDecimal.valueOf((2L * i - 1) * (2L * i)), mc).negate();
      s = s.add(t, mc);
    }
    return round(rat(s.setScale(60, RoundingMode.HALF_EVEN)));
  }
}
