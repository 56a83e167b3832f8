import java.math.BigDecimal;
import java.math.MathContext;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;

/** TLC replacement of the operators of Exact.tla (same names, same meaning). */
public class Exact {
  static final ConcurrentHashMap<String, Double> CACHE = new ConcurrentHashMap<>();

  static double num(Value v) {
    if (v instanceof IntValue) return ((IntValue) v).val;
    String s = ((StringValue) v).getVal().toString();
    Double d = CACHE.get(s);
    if (d == null) { d = Double.parseDouble(s); CACHE.put(s, d); }
    return d;
  }
  static double[] pt(Value v) {
    TupleValue t = (TupleValue) (v instanceof TupleValue ? v : v.toTuple());
    return new double[] { num(t.elems[0]), num(t.elems[1]) };
  }
  static Value[] seq(Value v) { return ((TupleValue) (v instanceof TupleValue ? v : v.toTuple())).elems; }
  static int i(Value v) { return ((IntValue) v).val; }
  static IntValue r(int s) { return IntValue.gen(s); }
  static BoolValue b(boolean s) { return s ? BoolValue.ValTrue : BoolValue.ValFalse; }
  static BigDecimal D(double x) { return new BigDecimal(x); }
  static BigDecimal sub(double x, double y) { return D(x).subtract(D(y)); }
  static BigDecimal sq(BigDecimal x) { return x.multiply(x); }
  static BigDecimal eps(Value e) { return BigDecimal.ONE.scaleByPowerOfTen(-i(e)); }

  static BigDecimal det2(double[] a, double[] b, double[] c) {
    return sub(b[0], a[0]).multiply(sub(c[1], a[1])).subtract(sub(b[1], a[1]).multiply(sub(c[0], a[0])));
  }
  static int orient(double[] a, double[] b, double[] c) {
    double l = (b[0] - a[0]) * (c[1] - a[1]), q = (b[1] - a[1]) * (c[0] - a[0]), d = l - q;
    double err = 4e-16 * (Math.abs(l) + Math.abs(q)) + 1e-290;
    if (d > err) return 1;
    if (d < -err) return -1;
    return det2(a, b, c).signum();
  }
  static BigDecimal dot(double[] a, double[] b, double[] c, double[] d) {
    return sub(b[0], a[0]).multiply(sub(d[0], c[0])).add(sub(b[1], a[1]).multiply(sub(d[1], c[1])));
  }
  static BigDecimal len2(double[] a, double[] b) { return dot(a, b, a, b); }

  public static Value Sgn(Value n) { return r(Integer.signum(i(n))); }
  public static Value Orient(Value a, Value b, Value c) { return r(orient(pt(a), pt(b), pt(c))); }

  static int incircle(double[] a, double[] b, double[] c, double[] d, int e) {
    double ax = a[0] - d[0], ay = a[1] - d[1], bx = b[0] - d[0], by = b[1] - d[1], cx = c[0] - d[0], cy = c[1] - d[1];
    double as = ax * ax + ay * ay, bs = bx * bx + by * by, cs = cx * cx + cy * cy;
    double det = as * (bx * cy - by * cx) - bs * (ax * cy - ay * cx) + cs * (ax * by - ay * bx);
    double perm = as * (Math.abs(bx * cy) + Math.abs(by * cx)) + bs * (Math.abs(ax * cy) + Math.abs(ay * cx))
        + cs * (Math.abs(ax * by) + Math.abs(ay * bx));
    double err = 4e-15 * perm + 1e-280;
    if (e > 0) {
      double tol = Math.pow(10, -e) * perm;
      if (Math.abs(det) <= tol) return 0;
      if (Math.abs(det) > err) return det > 0 ? 1 : -1;
    } else {
      if (det > err) return 1;
      if (det < -err) return -1;
    }
    return big(a, b, c, d).signum();
  }
  static double value(double[] a, double[] b, double[] c, double[] d) { return big(a, b, c, d).doubleValue(); }
  static BigDecimal big(double[] a, double[] b, double[] c, double[] d) {
    BigDecimal Ax = sub(a[0], d[0]), Ay = sub(a[1], d[1]), Bx = sub(b[0], d[0]), By = sub(b[1], d[1]),
        Cx = sub(c[0], d[0]), Cy = sub(c[1], d[1]);
    BigDecimal As = sq(Ax).add(sq(Ay)), Bs = sq(Bx).add(sq(By)), Cs = sq(Cx).add(sq(Cy));
    return As.multiply(Bx.multiply(Cy).subtract(By.multiply(Cx)))
        .subtract(Bs.multiply(Ax.multiply(Cy).subtract(Ay.multiply(Cx))))
        .add(Cs.multiply(Ax.multiply(By).subtract(Ay.multiply(Bx))));
  }
  public static Value InCircle(Value a, Value b, Value c, Value d) { return r(incircle(pt(a), pt(b), pt(c), pt(d), 0)); }
  public static Value InCircleT(Value a, Value b, Value c, Value d, Value e) {
    return r(incircle(pt(a), pt(b), pt(c), pt(d), i(e)));
  }
  public static Value DotAt(Value a, Value b, Value c) { double[] p = pt(c); return r(dot(p, pt(a), p, pt(b)).signum()); }
  public static Value DotAtT(Value a, Value b, Value c, Value e) {
    double[] p = pt(c), q = pt(a), s = pt(b);
    BigDecimal d = dot(p, q, p, s);
    if (d.abs().compareTo(eps(e).multiply(len2(q, s))) <= 0) return r(0);
    return r(d.signum());
  }
  public static Value Along(Value a, Value b, Value p, Value q) {
    return r(dot(pt(a), pt(b), pt(p), pt(q)).signum());
  }
  public static Value CmpX(Value a, Value b) { return r(Double.compare(pt(a)[0] + 0.0, pt(b)[0] + 0.0)); }
  public static Value CmpY(Value a, Value b) { return r(Double.compare(pt(a)[1] + 0.0, pt(b)[1] + 0.0)); }
  static boolean onseg(double[] a, double[] b, double[] p) {
    if (p[0] < Math.min(a[0], b[0]) || p[0] > Math.max(a[0], b[0]) || p[1] < Math.min(a[1], b[1]) || p[1] > Math.max(a[1], b[1]))
      return false;
    return orient(a, b, p) == 0;
  }
  public static Value OnSeg(Value a, Value b, Value p) { return b(onseg(pt(a), pt(b), pt(p))); }
  public static Value OnSegT(Value va, Value vb, Value vp, Value e) {
    double[] a = pt(va), b = pt(vb), p = pt(vp);
    BigDecimal l = len2(a, b), t = eps(e);
    BigDecimal d = dot(a, b, a, p), m = t.multiply(l);
    if (d.compareTo(m.negate()) < 0 || d.compareTo(l.add(m)) > 0) return b(false);
    return b(det2(a, b, p).abs().compareTo(m) <= 0);
  }
  public static Value OnLineT(Value va, Value vb, Value vp, Value e) {
    double[] a = pt(va), b = pt(vb), p = pt(vp);
    return b(det2(a, b, p).abs().compareTo(eps(e).multiply(len2(a, b).add(len2(a, p)))) <= 0);
  }
  public static Value CmpLen(Value a, Value b, Value c, Value d) {
    return r(len2(pt(a), pt(b)).compareTo(len2(pt(c), pt(d))));
  }
  public static Value Sharp(Value vv, Value va, Value vb) {
    double[] v = pt(vv), a = pt(va), b = pt(vb);
    BigDecimal d = dot(v, a, v, b);
    return b(d.signum() > 0 && D(4).multiply(sq(d)).compareTo(len2(v, a).multiply(len2(v, b))) > 0);
  }
  static BigDecimal loop(Value l) {
    Value[] s = seq(l);
    BigDecimal t = BigDecimal.ZERO;
    for (int k = 0; k < s.length; k++) {
      double[] p = pt(s[k]), q = pt(s[(k + 1) % s.length]);
      t = t.add(D(p[0]).multiply(D(q[1]))).subtract(D(q[0]).multiply(D(p[1])));
    }
    return t;
  }
  public static Value LoopSign(Value l) { return r(loop(l).signum()); }
  public static Value AreaEq(Value ts, Value outs, Value ins, Value e) {
    BigDecimal s = BigDecimal.ZERO, w = BigDecimal.ZERO;
    for (Value t : seq(ts)) { Value[] q = seq(t); s = s.add(det2(pt(q[0]), pt(q[1]), pt(q[2]))); }
    for (Value l : seq(outs)) w = w.add(loop(l));
    for (Value l : seq(ins)) w = w.subtract(loop(l));
    BigDecimal d = s.subtract(w).abs();
    if (i(e) == 0) return b(d.signum() == 0);
    return b(d.compareTo(eps(e).multiply(w.abs())) <= 0);
  }
  public static Value RatioCmp(Value va, Value vb, Value vc, Value n, Value dd, Value e) {
    double[] a = pt(va), b = pt(vb), c = pt(vc);
    BigDecimal l1 = len2(a, b), l2 = len2(b, c), l3 = len2(c, a), s = l1.min(l2).min(l3);
    BigDecimal x = l1.multiply(l2).multiply(l3).multiply(sq(D(num(dd))));
    BigDecimal y = sq(D(num(n))).multiply(s).multiply(D(4)).multiply(sq(det2(a, b, c)));
    return r(cmp(x, y, e));
  }
  public static Value AreaCmp(Value a, Value b, Value c, Value n, Value d, Value e) {
    return r(cmp(det2(pt(a), pt(b), pt(c)).multiply(D(num(d))), D(2).multiply(D(num(n))), e));
  }
  static int cmp(BigDecimal x, BigDecimal y, Value e) {
    if (i(e) > 0 && x.subtract(y).abs().compareTo(eps(e).multiply(y.abs())) <= 0) return 0;
    return x.compareTo(y);
  }
}
