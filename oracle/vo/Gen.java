package vo;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.*;

/** Random and corner-case inputs. */
final class Gen {
  final Random r;

  Gen(long seed) { r = new Random(seed * 0x9E3779B97F4A7C15L + 12345); for (int i = 0; i < 3; i++) r.nextInt(); }

  int pick(int n) { return r.nextInt(n); }

  boolean p(int percent) { return r.nextInt(100) < percent; }

  <T> T one(T[] a) { return a[r.nextInt(a.length)]; }

  String flags() {
    if (p(25)) return "";
    List<Character> f = new ArrayList<>(Arrays.asList('-', '#', '+', ' ', '0'));
    Collections.shuffle(f, r);
    StringBuilder sb = new StringBuilder();
    int n = 1 + pick(p(80) ? 2 : 5);
    for (int i = 0; i < n; i++) sb.append(f.get(i));
    return sb.toString();
  }

  int width() {
    int k = pick(100);
    if (k < 2) return new int[] {65536, 65535, 4096, 300}[pick(4)];
    if (k < 4) return (1 << (4 + pick(8))) + pick(3) - 1;
    if (k < 8) return 40 + pick(200);
    return 1 + pick(30);
  }

  String widthText() { return p(40) ? "" : Integer.toString(width()); }

  String precText() {
    if (p(40)) return "";
    int k = pick(100);
    if (k < 2) return "." + new int[] {65536, 1000, 400}[pick(3)];
    if (k < 4) return "." + ((1 << (4 + pick(7))) + pick(3) - 1);
    if (k < 10) return "." + (20 + pick(330));
    if (k < 15) return ".";
    return "." + pick(k < 60 ? 8 : 22);
  }

  String spec(String among) { return String.valueOf(among.charAt(pick(among.length()))); }

  String directive(String specs) { return "%" + flags() + widthText() + precText() + spec(specs); }

  long longValue() {
    switch (pick(10)) {
      case 0: return pick(3) - 1;
      case 1: return new long[] {Long.MIN_VALUE, Long.MAX_VALUE, Long.MIN_VALUE + 1, Integer.MIN_VALUE, Integer.MAX_VALUE, 0x80000000L, 0xFFFFFFFFL, 0x100000000L, -0x80000001L}[pick(9)];
      case 2: {
        long v = 1;
        for (int i = pick(19); i > 0; i--) v *= 10;
        return (p(50) ? 1 : -1) * (v + pick(3) - 1);
      }
      case 3: return (p(50) ? 1 : -1) * ((1L << pick(64)) + pick(3) - 1);
      default: return r.nextLong() >> pick(64);
    }
  }

  BigInteger big() {
    if (p(30)) return BigInteger.valueOf(longValue());
    BigInteger b = new BigInteger(1 + pick(p(90) ? 90 : 500), r);
    if (p(10)) b = BigInteger.TEN.pow(pick(40)).subtract(BigInteger.valueOf(pick(3)));
    return p(50) ? b : b.negate();
  }

  String integer() {
    boolean prim = p(50);
    String q = prim ? "p" : "";
    switch (pick(8)) {
      case 0: return q + "b:" + (byte) longValue();
      case 1: return q + "h:" + (short) longValue();
      case 2: return q + "i:" + (int) longValue();
      case 3: return q + "l:" + longValue();
      case 4: return "bi:" + big();
      case 5: return q + "c:" + Integer.toHexString(chr());
      case 6: return q + "i:" + (pick(300) - 150);
      default: return q + "i:" + (int) longValue();
    }
  }

  double dbl() {
    double v;
    switch (pick(14)) {
      case 0: v = Double.longBitsToDouble(r.nextLong()); break;
      case 1: v = pick(100000) / Math.pow(10, pick(8)); break;
      case 2: v = new double[] {0.0, -0.0, Double.NaN, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, Double.MIN_VALUE, Double.MAX_VALUE, Double.MIN_NORMAL, 1, 2e-44, 9.5, 0.5, 1.5, 2.5, 4.9e-324, 2.0E-323, 1e22, 1e23, 9007199254740993.0}[pick(19)]; break;
      case 3: v = Double.parseDouble("9." + rep('9', pick(17)) + pick(10) + "e" + (pick(40) - 20)); break;
      case 4: v = Double.parseDouble(pick(1000) + "." + pick(1000) + "5e" + (pick(30) - 15)); break;
      case 5: v = Double.longBitsToDouble((long) pick(2047) << 52 | (p(50) ? 0 : p(50) ? (1L << 52) - 1 : 1)); break;
      case 6: v = Double.longBitsToDouble(r.nextLong() >>> (12 + pick(50))); break;
      case 7: v = Math.scalb(pick(1 << 20), pick(80) - 40); break;
      case 8: v = Double.parseDouble("1e" + (pick(617) - 308)); break;
      case 9: v = Math.nextAfter(Double.parseDouble("1e" + (pick(40) - 20)), p(50) ? 0 : 1e300); break;
      case 10: v = r.nextLong() >> pick(64); break;
      case 11: v = r.nextDouble() * Math.pow(10, pick(25) - 12); break;
      case 12: { // decimals next to a %g notation switch or a rounding carry
        String s = pick(2) == 0 ? "0.0000" + rep('9', pick(9)) + pick(10) : rep('9', 1 + pick(9)) + "." + pick(10) + pick(10);
        v = Double.parseDouble(s); break;
      }
      default: v = Float.intBitsToFloat(r.nextInt()); break;
    }
    return p(30) ? -v : v;
  }

  static String rep(char c, int n) { char[] a = new char[n]; Arrays.fill(a, c); return new String(a); }

  String floatArg() {
    String q = p(50) ? "p" : "";
    if (p(8)) return q + "f:" + Integer.toHexString(Float.floatToRawIntBits(p(50) ? Float.intBitsToFloat(r.nextInt()) : (float) dbl()));
    if (p(5)) return integer();
    return q + "d:" + Long.toHexString(Double.doubleToRawLongBits(dbl()));
  }

  String dec() {
    BigInteger u;
    switch (pick(5)) {
      case 0: u = BigInteger.TEN.pow(pick(40)).subtract(BigInteger.valueOf(pick(6))); break;
      case 1: u = BigInteger.valueOf(pick(1000)); break;
      case 2: u = new BigInteger(rep('9', 1 + pick(20)) + pick(10)); break;
      case 3: u = BigInteger.ZERO; break;
      default: u = new BigInteger(1 + pick(200), r);
    }
    if (p(30)) u = u.multiply(BigInteger.TEN.pow(pick(8)));
    int scale = p(70) ? pick(50) - 15 : pick(500) - 250;
    if (p(15)) scale = 0;
    return "bd:" + (p(30) ? u.negate() : u) + "," + scale;
  }

  char chr() {
    int k = pick(100);
    if (k < 50) return (char) (32 + pick(95));
    if (k < 70) return "az{`AZ@[mM09-".charAt(pick(13));
    if (k < 80) return "µßàÿıſаαǆẞａéĀšƀ".charAt(pick(15));
    if (k < 90) return (char) pick(0x180);
    return (char) pick(65536);
  }

  String str() {
    int n = p(5) ? 0 : p(80) ? pick(12) : p(95) ? pick(60) : (1 << (6 + pick(6))) + pick(3) - 1;
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < n; i++) sb.append(chr());
    return sb.toString();
  }

  String textArg() {
    switch (pick(9)) {
      case 0: return "n:";
      case 1: return "sb:" + Arg.esc(str());
      case 2: return "cb:" + Arg.esc(str());
      case 3: case 4: return "sq:" + Arg.esc(str());
      case 5: return p(50) ? "obj:" + Arg.esc(str()) : anyArg();
      default: return "s:" + Arg.esc(str());
    }
  }

  String temporal() {
    long ms = p(50) ? r.nextLong() >> 22 : Math.abs(r.nextLong() >> 21);
    ms = ms % 8000000000000L;
    java.time.Instant in = java.time.Instant.ofEpochMilli(ms).plusNanos(p(30) ? pick(1000000) : 0);
    java.time.ZoneId z = java.time.ZoneId.of(one(new String[] {"UTC", "Europe/Paris", "Asia/Kolkata", "America/New_York"}));
    String q = p(50) ? "p" : "";
    switch (pick(13)) {
      case 0: return "in:" + in;
      case 1: return "zd:" + in.atZone(z);
      case 2: return "od:" + in.atZone(z).toOffsetDateTime();
      case 3: return "ld:" + in.atZone(z).toLocalDateTime();
      case 4: return "da:" + in.atZone(z).toLocalDate();
      case 5: return "dt:" + ms;
      case 6: return "cal:" + ms;
      case 7: return q + "i:" + (int) longValue();
      case 8: return q + "l:" + (p(10) ? longValue() : Math.abs(longValue() % 4000000000000L));
      case 9: return q + "l:" + new long[] {0, 1, 0xFFFFFFFFL, 0x100000000L, 0xFFFFFFFEL, 0x7FFFFFFFL, 0x80000000L, -1}[pick(8)];
      case 10: return "bi:" + Math.abs(longValue() % 4000000000000L);
      case 11: return "al:" + Math.abs(longValue() % 4000000000000L);
      default: return p(50) ? "lt:" + in.atZone(z).toLocalTime() : anyArg();
    }
  }

  String anyArg() {
    switch (pick(12)) {
      case 0: case 1: case 2: return integer();
      case 3: case 4: return floatArg();
      case 5: return dec();
      case 6: return (p(50) ? "p" : "") + "z:" + p(50);
      case 7: return p(50) ? "s:" + Arg.esc(Long.toString(longValue())) : "sb:" + Arg.esc(Double.toString(dbl()));
      case 8: return p(50) ? "ai:" + (int) longValue() : "al:" + longValue();
      case 9: return p(30) ? "n:" : "s:" + Arg.esc(str());
      case 10: return one(new String[] {"ia:1,2,-3", "ia:", "ba:1,2,3,4", "ba:", "ca:xyz", "oa:a|b", "oa:", "obj:thing"});
      default: return temporal();
    }
  }

  String datePattern() {
    if (p(15)) return "";
    return "{" + one(new String[] {"yyyy-MM-dd", "HH:mm:ss", "uuuu-MM-dd'T'HH:mm:ss.SSS", "'}'yyyy", "yyyy''MM", "'a''}'dd", "dd MMM yyyy", "HH", "VV", "'x}'''yyyy'y'", "EEE"}) + "}";
  }
}
