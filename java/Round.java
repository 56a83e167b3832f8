import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC replacement of Center of Round.tla (integers of any size). */
public class Round {
  static BigInteger b(long x) { return BigInteger.valueOf(x); }
  static int nearest(BigInteger n, BigInteger d) {
    if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
    BigInteger[] q = n.shiftLeft(1).add(d).divideAndRemainder(d.shiftLeft(1));
    return (q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0]).intValueExact();
  }
  static long[] ints(Value v) {
    Value[] c = ((TupleValue) v.toTuple()).elems;
    return new long[] {((IntValue) c[0]).val, ((IntValue) c[1]).val};
  }
  public static Value Center(Value va, Value vb, Value vc) {
    long[] a = ints(va), p = ints(vb), q = ints(vc);
    BigInteger ux = b(p[0] - a[0]), uy = b(p[1] - a[1]), vx = b(q[0] - a[0]), vy = b(q[1] - a[1]);
    BigInteger d = ux.multiply(vy).subtract(uy.multiply(vx)).shiftLeft(1);
    BigInteger s = ux.multiply(ux).add(uy.multiply(uy)), t = vx.multiply(vx).add(vy.multiply(vy));
    int x = nearest(vy.multiply(s).subtract(uy.multiply(t)), d), y = nearest(ux.multiply(t).subtract(vx.multiply(s)), d);
    return new TupleValue(IntValue.gen((int) a[0] + x), IntValue.gen((int) a[1] + y));
  }
}
