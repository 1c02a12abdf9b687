import java.io.IOException;
import java.math.BigInteger;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** An exact rational number (or the absorbing NaN) as a TLC value. */
public final class RatValue extends Value {
  final BigInteger n; // null: NaN (also used for +-infinity: "not a real number")
  final BigInteger d; // > 0

  static final RatValue NAN = new RatValue(null, null);
  static final RatValue ZERO = new RatValue(BigInteger.ZERO, BigInteger.ONE);
  static final RatValue ONE = new RatValue(BigInteger.ONE, BigInteger.ONE);

  private RatValue(BigInteger n, BigInteger d) { this.n = n; this.d = d; }

  static RatValue of(BigInteger n, BigInteger d) {
    if (d.signum() == 0) return NAN;
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    if (d.equals(BigInteger.ONE)) return new RatValue(n, d);
    if (d.bitCount() == 1) { // nearly all data are dyadic
      if (n.signum() == 0) return ZERO;
      int k = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
      return k == 0 ? new RatValue(n, d) : new RatValue(n.shiftRight(k), d.shiftRight(k));
    }
    BigInteger g = n.gcd(d);
    if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
    return new RatValue(n, d);
  }

  static RatValue of(long v) { return new RatValue(BigInteger.valueOf(v), BigInteger.ONE); }

  boolean nan() { return n == null; }

  static RatValue from(Value v) {
    if (v instanceof RatValue) return (RatValue) v;
    if (v instanceof IntValue) return of(((IntValue) v).val);
    if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
    throw new RuntimeException("not a rational: " + v);
  }

  static RatValue parse(String s) {
    s = s.trim();
    if (s.isEmpty()) return NAN;
    if (s.contains("nan") || s.contains("inf") || s.contains("Inf")) return NAN;
    int slash = s.indexOf('/');
    if (slash >= 0) return of(new BigInteger(s.substring(0, slash)), new BigInteger(s.substring(slash + 1)));
    int p = s.indexOf('p');
    if (p >= 0) { // Python float.hex(): [-]0x1.hhhp[+-]e
      boolean neg = s.startsWith("-");
      String m = s.substring(neg || s.startsWith("+") ? 3 : 2, p);
      int e = Integer.parseInt(s.charAt(p + 1) == '+' ? s.substring(p + 2) : s.substring(p + 1));
      int dot = m.indexOf('.');
      int frac = 0;
      if (dot >= 0) { frac = m.length() - dot - 1; m = m.substring(0, dot) + m.substring(dot + 1); }
      BigInteger k = new BigInteger(m, 16);
      if (neg) k = k.negate();
      e -= 4 * frac;
      return e >= 0 ? of(k.shiftLeft(e), BigInteger.ONE) : of(k, BigInteger.ONE.shiftLeft(-e));
    }
    if (s.indexOf('.') >= 0 || s.indexOf('e') >= 0 || s.indexOf('E') >= 0) {
      java.math.BigDecimal b = new java.math.BigDecimal(s);
      return b.scale() >= 0 ? of(b.unscaledValue(), BigInteger.TEN.pow(b.scale()))
                            : of(b.unscaledValue().multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
    }
    return of(new BigInteger(s), BigInteger.ONE);
  }

  String str() { return nan() ? "nan" : d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }

  int cmp(RatValue o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }

  // ---- Value plumbing -------------------------------------------------
  public byte getKind() { return DUMMYVALUE; }
  public int compareTo(Object o) {
    RatValue r = from((Value) o);
    if (nan() || r.nan()) return nan() == r.nan() ? 0 : nan() ? -1 : 1;
    return cmp(r);
  }
  public boolean equals(Object o) { return o instanceof Value && compareTo(o) == 0; }
  public boolean member(Value v) { throw new RuntimeException("member of a rational"); }
  public boolean isFinite() { throw new RuntimeException("isFinite of a rational"); }
  public Value takeExcept(ValueExcept ex) { return ex.value; }
  public Value takeExcept(ValueExcept[] exs) { return exs[exs.length - 1].value; }
  public int size() { throw new RuntimeException("size of a rational"); }
  public boolean mutates() { return false; }
  public boolean isNormalized() { return true; }
  public Value normalize() { return this; }
  public void deepNormalize() { }
  public boolean isDefined() { return true; }
  public IValue deepCopy() { return this; }
  public void write(IValueOutputStream vos) throws IOException { new StringValue(str()).write(vos); }
  public long fingerPrint(long fp) { return new StringValue(str()).fingerPrint(fp); }
  public IValue permute(IMVPerm perm) { return this; }
  public StringBuffer toString(StringBuffer sb, int off, boolean sw) { return sb.append('"').append(str()).append('"'); }
}
