import java.math.BigDecimal;
import tlc2.value.impl.*;

/** TLC replacement of the operators of Measure.tla (same names, same meaning up to rounding). */
public class Measure {
  static double mag(double[]... ps) {
    double m = 0;
    for (double[] p : ps) m = Math.max(m, Math.max(Math.abs(p[0]), Math.abs(p[1])));
    return m;
  }
  static boolean near(BigDecimal x, BigDecimal y, double tol) {
    return x.subtract(y).abs().compareTo(Exact.D(tol)) <= 0;
  }
  static Value str(BigDecimal x) {
    double d = x.doubleValue();
    if (Exact.D(d).compareTo(x) != 0) throw new RuntimeException("not a double: " + x);
    return new StringValue(Double.toString(d));
  }
  public static Value Dbl(Value a) { return Sum(a, a); }
  /** Exact on dyadic points; of rounded crossings the rounded sum, as in the implementation. */
  public static Value Sum(Value a, Value b) {
    double[] p = Exact.pt(a), q = Exact.pt(b);
    return new TupleValue(new StringValue(Double.toString(p[0] + q[0] + 0.0)), new StringValue(Double.toString(p[1] + q[1] + 0.0)));
  }
  public static Value DotIs(Value r, Value va, Value vb, Value vc, Value vd) {
    double[] a = Exact.pt(va), b = Exact.pt(vb), c = Exact.pt(vc), d = Exact.pt(vd);
    double m = mag(a, b, c, d);
    return Exact.b(near(Exact.D(Exact.num(r)), Exact.dot(a, b, c, d), 1e-14 * m * m));
  }
  public static Value DistIs(Value r, Value va, Value vb) {
    double[] a = Exact.pt(va), b = Exact.pt(vb);
    double m = mag(a, b), x = Exact.num(r);
    return Exact.b(x >= 0 && near(Exact.sq(Exact.D(x)), Exact.len2(a, b), 1e-14 * m * m));
  }
  public static Value AreaIs(Value r, Value va, Value vb, Value vc) {
    double[] a = Exact.pt(va), b = Exact.pt(vb), c = Exact.pt(vc);
    double m = mag(a, b, c);
    return Exact.b(near(Exact.D(2).multiply(Exact.D(Exact.num(r))), Exact.det2(a, b, c), 1e-14 * m * m));
  }
  public static Value LoopAreaIs(Value r, Value l) {
    Value[] s = Exact.seq(l);
    double m = 0;
    for (Value v : s) m = Math.max(m, mag(Exact.pt(v)));
    return Exact.b(near(Exact.D(2).multiply(Exact.D(Exact.num(r))), Exact.loop(l), 1e-14 * m * m * s.length));
  }
  public static Value MidIs(Value vm, Value va, Value vb) {
    double[] x = Exact.pt(vm), a = Exact.pt(va), b = Exact.pt(vb);
    double t = 1e-15 * mag(a, b);
    return Exact.b(near(Exact.D(2).multiply(Exact.D(x[0])), Exact.D(a[0]).add(Exact.D(b[0])), t)
        && near(Exact.D(2).multiply(Exact.D(x[1])), Exact.D(a[1]).add(Exact.D(b[1])), t));
  }
  public static Value CentroidIs(Value vm, Value va, Value vb, Value vc) {
    double[] x = Exact.pt(vm), a = Exact.pt(va), b = Exact.pt(vb), c = Exact.pt(vc);
    double t = 1e-14 * mag(a, b, c);
    return Exact.b(near(Exact.D(3).multiply(Exact.D(x[0])), Exact.D(a[0]).add(Exact.D(b[0])).add(Exact.D(c[0])), t)
        && near(Exact.D(3).multiply(Exact.D(x[1])), Exact.D(a[1]).add(Exact.D(b[1])).add(Exact.D(c[1])), t));
  }
  public static Value CenterIs(Value vm, Value va, Value vb, Value vc) {
    double[] x = Exact.pt(vm), a = Exact.pt(va), b = Exact.pt(vb), c = Exact.pt(vc);
    double p = Exact.len2(x, a).doubleValue(), q = Exact.len2(x, b).doubleValue(), s = Exact.len2(x, c).doubleValue();
    double t = 1e-7 * Math.max(p, Math.max(q, s));
    return Exact.b(Math.abs(p - q) <= t && Math.abs(p - s) <= t && Math.abs(q - s) <= t);
  }
  public static Value CosIs(Value r, Value va, Value vb, Value vc) {
    double[] a = Exact.pt(va), b = Exact.pt(vb), c = Exact.pt(vc);
    double d = Exact.dot(b, a, b, c).doubleValue();
    double l = Math.sqrt(Exact.len2(a, b).doubleValue() * Exact.len2(b, c).doubleValue());
    return Exact.b(Math.abs(Exact.num(r) - d / l) <= 1e-9);
  }
  public static Value Parallel(Value va, Value vb, Value vc, Value vd) {
    double[] a = Exact.pt(va), b = Exact.pt(vb), c = Exact.pt(vc), d = Exact.pt(vd);
    return Exact.b(Exact.sub(b[0], a[0]).multiply(Exact.sub(d[1], c[1]))
        .compareTo(Exact.sub(b[1], a[1]).multiply(Exact.sub(d[0], c[0]))) == 0);
  }
  public static Value DotSgn(Value a, Value b, Value c, Value d) {
    return Exact.r(Exact.dot(Exact.pt(a), Exact.pt(b), Exact.pt(c), Exact.pt(d)).signum());
  }

  static boolean dyadic(double[]... ps) {
    for (double[] p : ps)
      for (double x : p) {
        double y = x * 256;
        if (y != Math.rint(y) || Math.abs(x) > 8192) return false;
      }
    return true;
  }
  /* dyadic points of few digits: every intermediate result is exact */
  public static Value PlainOrient(Value va, Value vb, Value vc) {
    double[] a = Exact.pt(va), b = Exact.pt(vb), c = Exact.pt(vc);
    if (dyadic(a, b, c)) return BoolValue.ValTrue;
    double m = mag(a, b, c), d = Exact.det2(a, b, c).abs().doubleValue();
    return Exact.b(d > 1e-13 && d > 1e-14 * m * m);
  }
  public static Value PlainInCircle(Value va, Value vb, Value vc, Value vd) {
    double[] a = Exact.pt(va), b = Exact.pt(vb), c = Exact.pt(vc), d = Exact.pt(vd);
    double s = Math.max(mag(new double[] { a[0] - d[0], a[1] - d[1] }),
        Math.max(mag(new double[] { b[0] - d[0], b[1] - d[1] }), mag(new double[] { c[0] - d[0], c[1] - d[1] })));
    double x = Exact.value(a, b, c, d);
    /* differences of few digits: the determinant is exact */
    if (dyadic(a, b, c, d) && s <= 2048 && (x == 0 || Math.abs(x) > 1e-13)) {
      boolean grid = true;
      for (double[] p : new double[][] { a, b, c, d })
        for (double y : p) grid &= y * 4 == Math.rint(y * 4);
      if (grid || s <= 32) return BoolValue.ValTrue;
    }
    double m = mag(a, b, c, d);
    return Exact.b(Math.abs(x) > 1e-13 && Math.abs(x) > 1e-13 * Math.pow(s, 3) * m);
  }
  public static Value PlainDot(Value va, Value vb, Value vc) {
    double[] a = Exact.pt(va), b = Exact.pt(vb), c = Exact.pt(vc);
    if (dyadic(a, b, c)) return BoolValue.ValTrue;
    double m = mag(a, b, c), d = Exact.dot(c, a, c, b).abs().doubleValue();
    return Exact.b(d > 1e-13 && d > 1e-14 * m * m);
  }
}
