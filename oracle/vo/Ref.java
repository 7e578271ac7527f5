package vo;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import java.time.*;
import java.time.format.DateTimeFormatter;
import java.time.temporal.TemporalAccessor;
import java.util.*;

/**
 * Executable form of the contracts: what a format call has to return. Written from the property
 * statements, on exact BigInteger/BigDecimal arithmetic and plain Strings; shares no code with the
 * library.
 */
public final class Ref {
  public static final class Fail extends RuntimeException {
    public final String kind; // syntax, printf, iae (IllegalArgumentException), any
    public Fail(String kind) {
      super(kind, null, false, false);
      this.kind = kind;
    }
  }

  public static final int MAX = 65536;
  static final String FLAGS = "-#+ 0";
  static final String SPECS = "diuoxXfFeEgGaAcsStTnp%";

  public static final class Dir {
    public String literal; // non-null for literal text
    public boolean left, alt, plus, space, zero;
    public int width = -1, prec = -1; // -1 unset
    public boolean starW, starP;
    public char spec;
    public String pattern;

    Dir copy() {
      Dir d = new Dir();
      d.left = left; d.alt = alt; d.plus = plus; d.space = space; d.zero = zero;
      d.width = width; d.prec = prec; d.spec = spec; d.pattern = pattern;
      return d;
    }
  }

  static boolean digit(char c) { return c >= '0' && c <= '9'; }

  static int number(String digits) {
    BigInteger v = new BigInteger(digits);
    if (v.bitLength() > 31) throw new Fail("syntax");
    return v.intValue();
  }

  public static List<Dir> parse(String s) {
    List<Dir> out = new ArrayList<>();
    int n = s.length(), i = 0;
    while (i < n) {
      if (s.charAt(i) != '%') {
        int j = s.indexOf('%', i);
        if (j < 0) j = n;
        Dir d = new Dir();
        d.literal = s.substring(i, j);
        out.add(d);
        i = j;
        continue;
      }
      i++;
      if (i >= n) throw new Fail("syntax");
      if (s.charAt(i) == '%') {
        Dir d = new Dir();
        d.literal = "%";
        out.add(d);
        i++;
        continue;
      }
      Dir d = new Dir();
      boolean[] seen = new boolean[5];
      while (i < n) {
        int f = FLAGS.indexOf(s.charAt(i));
        if (f < 0) break;
        if (seen[f]) throw new Fail("syntax");
        seen[f] = true;
        i++;
      }
      d.left = seen[0]; d.alt = seen[1]; d.plus = seen[2]; d.space = seen[3]; d.zero = seen[4];
      if (i >= n) throw new Fail("syntax");
      if (s.charAt(i) == '*') {
        d.starW = true;
        i++;
      } else {
        int j = i;
        while (j < n && digit(s.charAt(j))) j++;
        if (j > i) d.width = number(s.substring(i, j));
        i = j;
      }
      if (i < n && s.charAt(i) == '.') {
        i++;
        if (i >= n) throw new Fail("syntax");
        if (s.charAt(i) == '*') {
          d.starP = true;
          i++;
        } else {
          int j = i;
          while (j < n && digit(s.charAt(j))) j++;
          d.prec = j > i ? number(s.substring(i, j)) : 0;
          i = j;
        }
      }
      if (i >= n || SPECS.indexOf(s.charAt(i)) < 0) throw new Fail("syntax");
      d.spec = s.charAt(i++);
      if ((d.spec == 't' || d.spec == 'T') && i < n && s.charAt(i) == '{') {
        int j = i + 1;
        boolean quoted = false;
        int end = -1;
        while (j < n) {
          char c = s.charAt(j);
          if (c == '\'') {
            if (j + 1 < n && s.charAt(j + 1) == '\'') j++;
            else quoted = !quoted;
          } else if (c == '}' && !quoted) {
            end = j;
            break;
          }
          j++;
        }
        if (end < 0 || end == i + 1) throw new Fail("syntax");
        d.pattern = s.substring(i + 1, end);
        try {
          DateTimeFormatter.ofPattern(d.pattern);
        } catch (IllegalArgumentException e) {
          throw new Fail("syntax");
        }
        i = end + 1;
      }
      if (d.width > MAX || d.prec > MAX) throw new Fail("printf");
      out.add(d);
    }
    return out;
  }

  public static String format(String fmt, List<Object> args) {
    return format(parse(fmt), args);
  }

  public static String format(List<Dir> dirs, List<Object> args) {
    StringBuilder sb = new StringBuilder();
    Iterator<Object> it = args.iterator();
    for (Dir d : dirs) {
      if (d.literal != null) {
        sb.append(d.literal);
        continue;
      }
      Dir r = d.copy();
      if (d.starW) {
        if (!it.hasNext()) throw new Fail("printf");
        long w = toInt(it.next());
        if (w < 0) {
          r.left = true;
          w = -w;
        }
        if (w > MAX) throw new Fail("printf");
        r.width = (int) w;
      }
      if (d.starP) {
        if (!it.hasNext()) throw new Fail("printf");
        int p = toInt(it.next());
        if (p > MAX) throw new Fail("printf");
        r.prec = p < 0 ? -1 : p;
      }
      if (!it.hasNext()) throw new Fail("printf");
      sb.append(piece(r, it.next()));
    }
    return sb.toString();
  }

  // ---------------------------------------------------------------- conversions of arguments

  /** Marks an argument given through a primitive put method. */
  public static final class Prim {
    public final Object v;
    public Prim(Object v) { this.v = v; }
  }

  static Object strip(Object o) { return o instanceof Prim ? ((Prim) o).v : o; }

  static int toInt(Object o) {
    o = strip(o);
    if (o == null) throw new Fail("printf");
    if (o instanceof Boolean) return (Boolean) o ? 1 : 0;
    if (o instanceof Character) return (Character) o;
    if (o instanceof Byte || o instanceof Short || o instanceof Integer) return ((Number) o).intValue();
    if (o instanceof Long) return (int) (long) (Long) o;
    if (o instanceof Float) return Math.round((Float) o);
    if (o instanceof Double) return (int) Math.round((Double) o);
    if (o instanceof CharSequence) {
      try {
        return Integer.parseInt(o.toString());
      } catch (NumberFormatException e) {
        throw new Fail("printf");
      }
    }
    if (o instanceof BigInteger || o instanceof BigDecimal) return ((Number) o).intValue();
    if (o instanceof TemporalAccessor) {
      try {
        return (int) Instant.from((TemporalAccessor) o).getEpochSecond();
      } catch (DateTimeException e) {
        throw new Fail("printf");
      }
    }
    if (o instanceof Number) return ((Number) o).intValue();
    if (o instanceof Date) return (int) (((Date) o).getTime() / 1000);
    if (o instanceof Calendar) return (int) (((Calendar) o).getTimeInMillis() / 1000);
    throw new Fail("printf");
  }

  static final class IntArg {
    BigInteger v;
    int bits; // 0: unbounded
    IntArg(BigInteger v, int bits) { this.v = v; this.bits = bits; }
  }

  static IntArg toInteger(Object o) {
    o = strip(o);
    if (o == null) throw new Fail("printf");
    if (o instanceof Boolean) return new IntArg(BigInteger.valueOf((Boolean) o ? 1 : 0), 32);
    if (o instanceof Character) return new IntArg(BigInteger.valueOf((Character) o), 32);
    if (o instanceof Byte) return new IntArg(BigInteger.valueOf((Byte) o), 8);
    if (o instanceof Short) return new IntArg(BigInteger.valueOf((Short) o), 16);
    if (o instanceof Integer) return new IntArg(BigInteger.valueOf((Integer) o), 32);
    if (o instanceof Long) return new IntArg(BigInteger.valueOf((Long) o), 64);
    if (o instanceof Float) return new IntArg(BigInteger.valueOf((int) (float) (Float) o), 32);
    if (o instanceof Double) return new IntArg(BigInteger.valueOf((long) (double) (Double) o), 64);
    if (o instanceof CharSequence) {
      try {
        return new IntArg(BigInteger.valueOf(Long.parseLong(o.toString())), 64);
      } catch (NumberFormatException e) {
        throw new Fail("printf");
      }
    }
    if (o instanceof BigInteger) return new IntArg((BigInteger) o, 0);
    if (o instanceof BigDecimal) return new IntArg(((BigDecimal) o).toBigInteger(), 0);
    if (o instanceof TemporalAccessor) {
      try {
        return new IntArg(BigInteger.valueOf(Instant.from((TemporalAccessor) o).toEpochMilli()), 64);
      } catch (DateTimeException e) {
        throw new Fail("printf");
      }
    }
    if (o instanceof Number) return new IntArg(BigInteger.valueOf(((Number) o).longValue()), 64);
    if (o instanceof Date) return new IntArg(BigInteger.valueOf(((Date) o).getTime()), 64);
    if (o instanceof Calendar) return new IntArg(BigInteger.valueOf(((Calendar) o).getTimeInMillis()), 64);
    throw new Fail("printf");
  }

  static Object toFloat(Object o) { // Double or BigDecimal
    o = strip(o);
    if (o == null) throw new Fail("printf");
    if (o instanceof Boolean) return (Boolean) o ? 1.0 : 0.0;
    if (o instanceof Character) return (double) (Character) o;
    if (o instanceof BigInteger) return new BigDecimal((BigInteger) o);
    if (o instanceof BigDecimal) return o;
    if (o instanceof CharSequence) {
      try {
        return Double.parseDouble(o.toString());
      } catch (NumberFormatException e) {
        throw new Fail("printf");
      }
    }
    if (o instanceof Number) return ((Number) o).doubleValue();
    if (o instanceof TemporalAccessor) {
      try {
        Instant i = Instant.from((TemporalAccessor) o);
        return i.getEpochSecond() + i.getNano() / 1e9;
      } catch (DateTimeException e) {
        throw new Fail("printf");
      }
    }
    if (o instanceof Date) return ((Date) o).getTime() / 1000D;
    if (o instanceof Calendar) return ((Calendar) o).getTimeInMillis() / 1000D;
    throw new Fail("printf");
  }

  static Instant epoch(long v) {
    if (v < 0) throw new Fail("iae");
    return v <= 0xFFFFFFFFL ? Instant.ofEpochSecond(v) : Instant.ofEpochMilli(v);
  }

  static TemporalAccessor toTemporal(Object o) {
    o = strip(o);
    if (o == null || o instanceof Boolean || o instanceof Character || o instanceof Float
        || o instanceof Double || o instanceof CharSequence || o instanceof BigDecimal)
      throw new Fail("printf");
    if (o instanceof Byte || o instanceof Short) throw new Fail("printf");
    if (o instanceof Integer) return epoch(((Integer) o) & 0xFFFFFFFFL);
    if (o instanceof Long) return epoch((Long) o);
    if (o instanceof BigInteger) return epoch(((BigInteger) o).longValue());
    if (o instanceof TemporalAccessor) return (TemporalAccessor) o;
    if (o instanceof Date) return Instant.ofEpochMilli(((Date) o).getTime());
    if (o instanceof Calendar) return Instant.ofEpochMilli(((Calendar) o).getTimeInMillis());
    if (o instanceof Number) return epoch(((Number) o).longValue());
    throw new Fail("printf");
  }

  static String text(Object o) {
    o = strip(o);
    if (o == null) return "null";
    if (o instanceof byte[]) return Base64.getEncoder().encodeToString((byte[]) o);
    if (o instanceof char[]) return new String((char[]) o);
    if (o instanceof boolean[]) return Arrays.toString((boolean[]) o);
    if (o instanceof short[]) return Arrays.toString((short[]) o);
    if (o instanceof int[]) return Arrays.toString((int[]) o);
    if (o instanceof long[]) return Arrays.toString((long[]) o);
    if (o instanceof float[]) return Arrays.toString((float[]) o);
    if (o instanceof double[]) return Arrays.toString((double[]) o);
    if (o instanceof Object[]) return Arrays.toString((Object[]) o);
    return o.toString();
  }

  static char toChar(Object o) {
    o = strip(o);
    if (o instanceof CharSequence) {
      if (((CharSequence) o).length() == 0) throw new Fail("printf");
      return ((CharSequence) o).charAt(0);
    }
    if (o instanceof TemporalAccessor) throw new Fail("printf");
    return (char) toInt(o);
  }

  // ---------------------------------------------------------------- pieces

  public static String upper(String s) {
    StringBuilder sb = new StringBuilder();
    for (char c : s.toCharArray()) sb.append(c >= 'a' && c <= 'z' ? (char) (c - 32) : c);
    return sb.toString();
  }

  static String rep(char c, int n) {
    if (n <= 0) return "";
    char[] a = new char[n];
    Arrays.fill(a, c);
    return new String(a);
  }

  static String spaces(Dir d, String s) {
    String pad = rep(' ', d.width - s.length());
    return d.left ? s + pad : pad + s;
  }

  /** head (sign and prefix) + body, padded to the width. */
  static String field(Dir d, String head, String body, boolean zeroFill) {
    if (zeroFill && d.zero && !d.left) body = rep('0', d.width - head.length() - body.length()) + body;
    return spaces(d, head + body);
  }

  static String signOf(Dir d, boolean neg) { return neg ? "-" : d.plus ? "+" : d.space ? " " : ""; }

  public static String piece(Dir d, Object arg) {
    switch (d.spec) {
      case 'X': case 'F': case 'E': case 'G': case 'A': case 'S': case 'T': {
        Dir l = d.copy();
        l.spec = (char) (d.spec + 32);
        return upper(piece(l, arg));
      }
      case 'n': return "";
      case '%': return "%";
      case 'd': case 'i': {
        BigInteger v = toInteger(arg).v;
        String digits = v.signum() == 0 && d.prec == 0 ? "" : v.abs().toString();
        digits = rep('0', d.prec - digits.length()) + digits;
        return field(d, signOf(d, v.signum() < 0), digits, d.prec < 0);
      }
      case 'u': case 'o': case 'x': {
        IntArg a = toInteger(arg);
        BigInteger v = a.v;
        if (v.signum() < 0) {
          if (a.bits == 0) throw new Fail("printf");
          v = v.add(BigInteger.ONE.shiftLeft(a.bits));
        }
        String digits = v.signum() == 0 && d.prec == 0 ? "" : v.toString(d.spec == 'u' ? 10 : d.spec == 'o' ? 8 : 16);
        digits = rep('0', d.prec - digits.length()) + digits;
        String head = "";
        if (d.alt && d.spec == 'x' && v.signum() != 0) head = "0x";
        if (d.alt && d.spec == 'o' && !(v.signum() == 0 && d.prec < 0 && d.zero)) {
          // raised precision: the first digit has to be 0
          String filled = d.prec < 0 && d.zero && !d.left ? rep('0', d.width - digits.length()) + digits : digits;
          if (!filled.startsWith("0")) digits = "0" + digits;
        }
        return field(d, head, digits, d.prec < 0);
      }
      case 'f': case 'e': case 'g': case 'a': return fl(d, toFloat(arg));
      case 'c': return spaces(d, String.valueOf(toChar(arg)));
      case 's': {
        String s = text(arg);
        if (d.prec >= 0 && d.prec < s.length()) s = s.substring(0, d.prec);
        return spaces(d, s);
      }
      case 'p': {
        if (arg instanceof Prim) throw new Fail("printf");
        return spaces(d, arg == null ? "null"
            : arg.getClass().getName() + "@" + Integer.toHexString(System.identityHashCode(arg)));
      }
      case 't': {
        TemporalAccessor t = toTemporal(arg);
        DateTimeFormatter f;
        if (d.pattern != null) f = DateTimeFormatter.ofPattern(d.pattern);
        else if (t instanceof Instant) {
          t = ((Instant) t).atZone(ZoneId.systemDefault());
          f = DateTimeFormatter.ISO_OFFSET_DATE_TIME;
        } else if (t instanceof OffsetDateTime || t instanceof ZonedDateTime) f = DateTimeFormatter.ISO_OFFSET_DATE_TIME;
        else if (t instanceof LocalDateTime) f = DateTimeFormatter.ISO_LOCAL_DATE_TIME;
        else if (t instanceof LocalDate) f = DateTimeFormatter.ISO_LOCAL_DATE;
        else throw new Fail("printf");
        String s;
        try {
          s = f.format(t);
        } catch (DateTimeException e) {
          throw new Fail("any");
        }
        return spaces(d, s);
      }
      default: throw new AssertionError();
    }
  }

  static String fl(Dir d, Object num) {
    BigDecimal v;
    boolean neg;
    if (num instanceof Double) {
      double x = (Double) num;
      if (Double.isNaN(x)) return spaces(d, "NaN");
      if (Double.isInfinite(x)) return spaces(d, signOf(d, x < 0) + "Infinity");
      neg = Double.doubleToRawLongBits(x) < 0;
      if (d.spec == 'a') return hex(d, x, neg);
      v = x == 0 ? BigDecimal.ZERO : Shortest.of(Math.abs(x));
    } else {
      if (d.spec == 'a') throw new Fail("printf");
      v = (BigDecimal) num;
      neg = v.signum() < 0;
      v = v.abs();
    }
    String sign = signOf(d, neg);
    String body;
    if (d.spec == 'f') {
      int p = d.prec < 0 ? 6 : d.prec;
      body = v.setScale(p, RoundingMode.HALF_UP).toPlainString();
      if (p == 0 && d.alt) body += ".";
    } else if (d.spec == 'e') {
      body = sci(v, d.prec < 0 ? 6 : d.prec, d.alt);
    } else {
      int p = d.prec < 0 ? 6 : d.prec == 0 ? 1 : d.prec;
      int x = v.signum() == 0 ? 0 : exponent(round(v, p));
      if (v.signum() == 0 || -4 <= x && x < p) {
        body = v.setScale(p - 1 - x, RoundingMode.HALF_UP).toPlainString();
        if (!d.alt) body = trim(body);
        else if (body.indexOf('.') < 0) body += ".";
      } else {
        String s = sci(v, p - 1, false);
        int e = s.indexOf('e');
        body = (d.alt ? s.substring(0, e) : trim(s.substring(0, e))) + s.substring(e);
      }
    }
    return field(d, sign, body, true);
  }

  static String trim(String s) {
    if (s.indexOf('.') < 0) return s;
    int e = s.length();
    while (s.charAt(e - 1) == '0') e--;
    if (s.charAt(e - 1) == '.') e--;
    return s.substring(0, e);
  }

  static BigDecimal round(BigDecimal v, int digits) {
    return v.round(new java.math.MathContext(digits, RoundingMode.HALF_UP));
  }

  /** Decimal exponent of a non-zero value: 10^x <= v < 10^(x+1). */
  static int exponent(BigDecimal v) { return v.precision() - v.scale() - 1; }

  static String sci(BigDecimal v, int p, boolean alt) {
    int x = 0;
    String digits;
    if (v.signum() == 0) digits = rep('0', p + 1);
    else {
      BigDecimal r = round(v, p + 1);
      x = exponent(r);
      digits = r.unscaledValue().toString();
      if (digits.length() > p + 1) digits = digits.substring(0, p + 1); // only zeros dropped
      digits += rep('0', p + 1 - digits.length());
    }
    String m = digits.substring(0, 1) + (p > 0 ? "." + digits.substring(1) : alt ? "." : "");
    String e = Integer.toString(Math.abs(x));
    return m + "e" + (x < 0 ? "-" : "+") + (e.length() < 2 ? "0" : "") + e;
  }

  /** %a on the exact value: half-even rounding of the normalised significand. */
  static String hex(Dir d, double x, boolean neg) {
    long bits = Double.doubleToRawLongBits(x) & Long.MAX_VALUE;
    int be = (int) (bits >>> 52);
    long frac = bits & ((1L << 52) - 1);
    int p = d.prec == 0 ? 1 : d.prec;
    String body;
    if (bits == 0) {
      body = "0." + rep('0', Math.max(p, 1)) + "p+0";
    } else if (p < 0 || p >= 13) { // exact, subnormals keep 0.xxx p-1022
      String h = Long.toHexString(frac | 1L << 60).substring(3);
      if (p < 0) {
        h = h.replaceAll("0+$", "");
        if (h.isEmpty()) h = "0";
      } else h += rep('0', p - 13);
      if (p >= 13) {
        String t = Long.toHexString(frac | 1L << 60).substring(3).replaceAll("0+$", "");
        if (t.isEmpty()) t = "0";
        h = t + rep('0', p - t.length());
      }
      int e = be == 0 ? -1022 : be - 1023;
      body = (be == 0 ? "0." : "1.") + h + "p" + (e < 0 ? "" : "+") + e;
    } else {
      BigInteger sig = BigInteger.valueOf(be == 0 ? frac : frac | 1L << 52);
      int e = (be == 0 ? -1022 : be - 1023) - 52; // value = sig * 2^e
      int len = sig.bitLength();
      int keep = 1 + 4 * p;
      int ex = e + len - 1; // exponent of leading bit
      // m = sig / 2^(len-keep), rounded half even
      int sh = len - keep;
      BigInteger m;
      if (sh <= 0) m = sig.shiftLeft(-sh);
      else {
        m = sig.shiftRight(sh);
        BigInteger rest = sig.subtract(m.shiftLeft(sh));
        int c = rest.shiftLeft(1).compareTo(BigInteger.ONE.shiftLeft(sh));
        if (c > 0 || c == 0 && m.testBit(0)) m = m.add(BigInteger.ONE);
      }
      if (m.bitLength() > keep) {
        m = m.shiftRight(1);
        ex++;
      }
      String h = m.toString(16); // leading digit 1
      body = "1." + h.substring(1) + "p" + (ex < 0 ? "" : "+") + ex;
    }
    return field(d, signOf(d, neg) + "0x", body, true);
  }
}
