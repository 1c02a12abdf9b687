import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC override of module RatMat: the same eliminations on unboxed arrays. */
public final class RatMat {
  private static RatValue[] vec(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    RatValue[] out = new RatValue[e.length];
    for (int i = 0; i < e.length; i++) out[i] = RatValue.from(e[i]);
    return out;
  }
  private static RatValue[][] mat(Value v) {
    Value[] e = ((TupleValue) v.toTuple()).elems;
    RatValue[][] out = new RatValue[e.length][];
    for (int i = 0; i < e.length; i++) out[i] = vec(e[i]);
    return out;
  }
  private static RatValue sub(RatValue a, RatValue b) { return Rat.add(a, Rat.neg(b)); }
  private static boolean pos(RatValue a) { return !a.nan() && a.n.signum() > 0; }

  public static Value MulMV(Value a, Value v) {
    RatValue[][] A = mat(a);
    RatValue[] x = vec(v);
    Value[] out = new Value[A.length];
    for (int i = 0; i < A.length; i++) {
      RatValue s = RatValue.ZERO;
      for (int j = 0; j < x.length; j++) s = Rat.add(s, Rat.mul(A[i][j], x[j]));
      out[i] = s;
    }
    return new TupleValue(out);
  }
  public static Value Pivots(Value a) {
    RatValue[][] A = mat(a);
    int n = A.length;
    java.util.ArrayList<Value> out = new java.util.ArrayList<>();
    for (int k = 0; k < n; k++) {
      out.add(A[k][k]);
      if (!pos(A[k][k])) break;
      for (int i = k + 1; i < n; i++) {
        RatValue f = Rat.round(Rat.div(A[i][k], A[k][k]));
        for (int j = k + 1; j < n; j++) A[i][j] = Rat.round(sub(A[i][j], Rat.mul(f, A[k][j])));
      }
    }
    return new TupleValue(out.toArray(new Value[0]));
  }
  public static Value InvQuad(Value a, Value v) {
    RatValue[][] A = mat(a);
    RatValue[] x = vec(v);
    int n = A.length;
    RatValue s = RatValue.ZERO;
    for (int k = 0; k < n; k++) {
      s = Rat.add(s, Rat.div(Rat.mul(x[k], x[k]), A[k][k]));
      for (int i = k + 1; i < n; i++) {
        RatValue f = Rat.round(Rat.div(A[i][k], A[k][k]));
        x[i] = Rat.round(sub(x[i], Rat.mul(f, x[k])));
        for (int j = k + 1; j < n; j++) A[i][j] = Rat.round(sub(A[i][j], Rat.mul(f, A[k][j])));
      }
    }
    return Rat.round(s);
  }
}
