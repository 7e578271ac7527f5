package vo;

import java.math.BigDecimal;
import java.math.BigInteger;

/** The decimal specified for Double.toString since JDK 19, by exact search over digit counts. */
public final class Shortest {
  public static BigDecimal of(double v) {
    long bits = Double.doubleToRawLongBits(v);
    int be = (int) (bits >>> 52);
    long frac = bits & ((1L << 52) - 1);
    long c = be == 0 ? frac : frac | 1L << 52;
    int q = (be == 0 ? 1 : be) - 1075;
    boolean even = (c & 1) == 0;
    boolean irregular = frac == 0 && be > 1;
    // all in units of 2^(q-2)
    BigInteger mid = BigInteger.valueOf(c).shiftLeft(2);
    BigInteger lo = mid.subtract(BigInteger.valueOf(irregular ? 1 : 2));
    BigInteger hi = mid.add(BigInteger.valueOf(2));
    BigInteger num = BigInteger.ONE, den = BigInteger.ONE;
    if (q - 2 >= 0) num = num.shiftLeft(q - 2);
    else den = den.shiftLeft(2 - q);
    // value = mid*num/den
    int e10 = (int) Math.floor((c == 0 ? 0 : Math.log10((double) c) + q * Math.log10(2)));
    for (int n = 2; n <= 17; n++) {
      BigDecimal best = null;
      // R_n: decimals d*10^i with d of n digits (2 digits allowed when 1 suffices)
      for (int i = e10 - n + 2; i >= e10 - n; i--) {
        BigInteger a = num.multiply(i < 0 ? BigInteger.TEN.pow(-i) : BigInteger.ONE);
        BigInteger b = den.multiply(i > 0 ? BigInteger.TEN.pow(i) : BigInteger.ONE);
        // d in [lo*a/b, hi*a/b]
        BigInteger[] l = lo.multiply(a).divideAndRemainder(b);
        BigInteger[] h = hi.multiply(a).divideAndRemainder(b);
        BigInteger dl = l[1].signum() != 0 || !even ? l[0].add(BigInteger.ONE) : l[0];
        BigInteger dh = h[1].signum() == 0 && !even ? h[0].subtract(BigInteger.ONE) : h[0];
        if (dl.signum() == 0) dl = BigInteger.ONE;
        if (dl.compareTo(dh) > 0) continue;
        BigInteger[] m = mid.multiply(a).divideAndRemainder(b);
        BigInteger d0 = m[0], d1 = m[0].add(BigInteger.ONE);
        BigInteger pick;
        int cmp = m[1].shiftLeft(1).compareTo(b);
        boolean in0 = d0.compareTo(dl) >= 0 && d0.compareTo(dh) <= 0;
        boolean in1 = d1.compareTo(dl) >= 0 && d1.compareTo(dh) <= 0;
        if (in0 && in1) pick = cmp < 0 || cmp == 0 && !d0.testBit(0) ? d0 : d1;
        else if (in0) pick = d0;
        else if (in1) pick = d1;
        else continue;
        if (pick.toString().length() > n && !pick.mod(BigInteger.TEN.pow(pick.toString().length() - n)).equals(BigInteger.ZERO)) continue;
        BigDecimal cand = new BigDecimal(pick, -i);
        if (best == null || closer(cand, best, v)) best = cand;
      }
      if (best != null) return best;
    }
    throw new AssertionError("no shortest decimal for " + v);
  }

  private static boolean closer(BigDecimal a, BigDecimal b, double v) {
    BigDecimal x = new BigDecimal(v);
    return a.subtract(x).abs().compareTo(b.subtract(x).abs()) < 0;
  }
}
