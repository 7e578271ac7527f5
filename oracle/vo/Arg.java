package vo;

import io.fastprintf.Args;
import io.fastprintf.seq.AtomicSeq;
import io.fastprintf.seq.Seq;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.nio.CharBuffer;
import java.time.*;
import java.time.temporal.TemporalAccessor;
import java.util.*;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** One argument, written as a code such as i:42 or d:3ff0000000000000 so that cases can be replayed. */
public final class Arg {
  public final String code;
  /** What the reference sees (Prim-wrapped for primitive puts). */
  public final Object ref;
  /** What the library gets. */
  public final Object lib;

  private Arg(String code, Object ref, Object lib) {
    this.code = code;
    this.ref = ref;
    this.lib = lib;
  }

  @Override
  public String toString() { return code; }

  public static String esc(String s) {
    StringBuilder sb = new StringBuilder();
    for (char c : s.toCharArray()) {
      if (c == '\\' || c < 33 || c > 126 || c == ',' || c == ';') sb.append(String.format(Locale.ROOT, "\\u%04x", (int) c));
      else sb.append(c);
    }
    return sb.toString();
  }

  public static String unesc(String s) {
    StringBuilder sb = new StringBuilder();
    for (int i = 0; i < s.length(); i++) {
      if (s.charAt(i) == '\\') {
        sb.append((char) Integer.parseInt(s.substring(i + 2, i + 6), 16));
        i += 5;
      } else sb.append(s.charAt(i));
    }
    return sb.toString();
  }

  public static Arg parse(String code) {
    int k = code.indexOf(':');
    String t = code.substring(0, k), v = code.substring(k + 1);
    boolean prim = t.startsWith("p");
    Object o;
    Object lib = null;
    switch (prim ? t.substring(1) : t) {
      case "n": o = null; break;
      case "z": o = Boolean.valueOf(v); break;
      case "c": o = (char) Integer.parseInt(v, 16); break;
      case "b": o = Byte.valueOf(v); break;
      case "h": o = Short.valueOf(v); break;
      case "i": o = Integer.valueOf(v); break;
      case "l": o = Long.valueOf(v); break;
      case "f": o = Float.intBitsToFloat((int) Long.parseLong(v, 16)); break;
      case "d": o = Double.longBitsToDouble(Long.parseUnsignedLong(v, 16)); break;
      case "s": o = unesc(v); break;
      case "sb": o = unesc(v); lib = new StringBuilder((String) o); break;
      case "cb": o = unesc(v); lib = CharBuffer.wrap(((String) o).toCharArray()); break;
      case "sq": o = unesc(v); lib = seq((String) o); break;
      case "bi": o = new BigInteger(v); break;
      case "bd": {
        int c = v.indexOf(',');
        o = new BigDecimal(new BigInteger(v.substring(0, c)), Integer.parseInt(v.substring(c + 1)));
        break;
      }
      case "ai": o = new AtomicInteger(Integer.parseInt(v)); break;
      case "al": o = new AtomicLong(Long.parseLong(v)); break;
      case "dt": o = new Date(Long.parseLong(v)); break;
      case "cal": {
        Calendar cal = Calendar.getInstance(TimeZone.getTimeZone("UTC"));
        cal.setTimeInMillis(Long.parseLong(v));
        o = cal;
        break;
      }
      case "in": o = Instant.parse(v); break;
      case "zd": o = ZonedDateTime.parse(v); break;
      case "od": o = OffsetDateTime.parse(v); break;
      case "ld": o = LocalDateTime.parse(v); break;
      case "da": o = LocalDate.parse(v); break;
      case "lt": o = LocalTime.parse(v); break;
      case "obj": o = new Named(unesc(v)); break;
      case "ia": o = ints(v); break;
      case "ba": {
        int[] x = ints(v);
        byte[] y = new byte[x.length];
        for (int i = 0; i < y.length; i++) y[i] = (byte) x[i];
        o = y;
        break;
      }
      case "ca": o = unesc(v).toCharArray(); break;
      case "oa": o = v.isEmpty() ? new Object[0] : unesc(v).split("\\|"); break;
      default: throw new IllegalArgumentException(code);
    }
    if (lib == null) lib = o;
    return new Arg(code, prim ? new Ref.Prim(o) : lib == o || lib instanceof Seq ? (lib instanceof Seq ? o : o) : o, lib);
  }

  static int[] ints(String v) {
    if (v.isEmpty()) return new int[0];
    String[] p = v.split(",");
    int[] r = new int[p.length];
    for (int i = 0; i < r.length; i++) r[i] = Integer.parseInt(p[i]);
    return r;
  }

  /** A composite sequence with the given text: mixes slices, repeats, arrays and lazy parts. */
  static Seq seq(String s) {
    Seq out = Seq.empty();
    Random r = new Random(s.hashCode());
    int i = 0;
    while (i < s.length()) {
      int n = Math.min(s.length() - i, 1 + r.nextInt(5));
      String part = s.substring(i, i + n);
      AtomicSeq a;
      switch (r.nextInt(4)) {
        case 0: a = Seq.wrap("<" + part + ">", 1, 1 + n); break;
        case 1: a = Seq.forArray(("[[" + part + "]").toCharArray(), 2, n); break;
        case 2: a = Seq.lazy(b -> b.append(part), n); break;
        default: a = Seq.wrap(part);
      }
      out = r.nextBoolean() ? out.append(a) : Seq.concat(out, a);
      i += n;
    }
    return out;
  }

  public static final class Named {
    final String name;
    Named(String name) { this.name = name; }
    @Override
    public String toString() { return name; }
  }

  /** Adds the argument through the typed method that fits (or put(Object)). */
  public void putTyped(Args a) {
    Object o = lib;
    if (ref instanceof Ref.Prim) {
      if (o instanceof Boolean) a.putBoolean((Boolean) o);
      else if (o instanceof Character) a.putChar((Character) o);
      else if (o instanceof Byte) a.putByte((Byte) o);
      else if (o instanceof Short) a.putShort((Short) o);
      else if (o instanceof Integer) a.putInt((Integer) o);
      else if (o instanceof Long) a.putLong((Long) o);
      else if (o instanceof Float) a.putFloat((Float) o);
      else if (o instanceof Double) a.putDouble((Double) o);
      else throw new IllegalStateException(code);
    } else a.put(o);
  }

  /** Adds a nullable reference argument through its OrNull or reference-typed method. */
  public void putBoxed(Args a) {
    Object o = lib;
    if (o instanceof Boolean) a.putBooleanOrNull((Boolean) o);
    else if (o instanceof Character) a.putCharOrNull((Character) o);
    else if (o instanceof Byte) a.putByteOrNull((Byte) o);
    else if (o instanceof Short) a.putShortOrNull((Short) o);
    else if (o instanceof Integer) a.putIntOrNull((Integer) o);
    else if (o instanceof Long) a.putLongOrNull((Long) o);
    else if (o instanceof Float) a.putFloatOrNull((Float) o);
    else if (o instanceof Double) a.putDoubleOrNull((Double) o);
    else if (o instanceof String && o.hashCode() % 2 == 0) a.putString((String) o);
    else if (o instanceof CharSequence) a.putCharSequence((CharSequence) o);
    else if (o instanceof BigInteger) a.putBigInteger((BigInteger) o);
    else if (o instanceof BigDecimal) a.putBigDecimal((BigDecimal) o);
    else if (o instanceof TemporalAccessor) a.putDateTime((TemporalAccessor) o);
    else a.put(o);
  }
}
