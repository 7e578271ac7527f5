package vo;

import io.fastprintf.*;
import io.fastprintf.appender.DefaultAppender;
import io.fastprintf.seq.Seq;
import java.io.*;
import java.math.BigDecimal;
import java.util.*;
import java.util.concurrent.*;

/** The executable contracts, one entry per property. */
final class Props {
  static String show(String s) { return s.length() > 300 ? Arg.esc(s.substring(0, 300)) + "...(" + s.length() + ")" : "[" + s.replace("\n", "\\n") + "]"; }

  static String line(String fmt, List<Arg> args) {
    StringBuilder sb = new StringBuilder("fmt\t" + Arg.esc(fmt));
    for (Arg a : args) sb.append("\t").append(a.code);
    return sb.toString();
  }

  static Main.Failure fail(String fmt, List<Arg> args, String msg) { return new Main.Failure(line(fmt, args), msg); }

  /** Expected result, or the kind of failure prefixed with '!'. */
  static Object expected(String fmt, List<Arg> args) {
    try {
      List<Object> l = new ArrayList<>();
      for (Arg a : args) l.add(a.ref);
      return Ref.format(fmt, l);
    } catch (Ref.Fail f) {
      return f;
    }
  }

  static Args libArgs(List<Arg> args) {
    Args a = Args.create();
    for (Arg x : args) x.putTyped(a);
    return a;
  }

  static boolean kindOk(String kind, Throwable t) {
    switch (kind) {
      case "syntax": return t instanceof PrintfSyntaxException;
      case "printf": return t instanceof PrintfException;
      case "iae": return t instanceof IllegalArgumentException && !(t instanceof PrintfSyntaxException);
      default: return t instanceof RuntimeException;
    }
  }

  static void compare(String fmt, List<Arg> args, Object exp, String got, Throwable t, String how) throws Main.Failure {
    if (exp instanceof Ref.Fail) {
      String kind = ((Ref.Fail) exp).kind;
      if (t == null) throw fail(fmt, args, how + ": expected " + kind + " failure, got " + show(got));
      if (!kindOk(kind, t)) throw fail(fmt, args, how + ": expected " + kind + " failure, got " + t);
    } else {
      if (t != null) throw fail(fmt, args, how + ": expected " + show((String) exp) + ", threw " + t);
      if (!exp.equals(got)) throw fail(fmt, args, how + ": expected " + show((String) exp) + ", got " + show(got));
    }
  }

  /** One format call against the reference. */
  static void fmt(String fmt, List<Arg> args) throws Main.Failure {
    Object exp = expected(fmt, args);
    FastPrintf fp;
    try {
      fp = FastPrintf.compile(fmt);
    } catch (Throwable t) {
      if (t instanceof PrintfSyntaxException) {
        PrintfSyntaxException e = (PrintfSyntaxException) t;
        if (e.getIndex() < 0 || e.getIndex() > fmt.length() || !fmt.equals(e.getPattern()))
          throw fail(fmt, args, "bad error index " + e.getIndex());
      }
      boolean parses = true;
      String kind = "";
      try {
        Ref.parse(fmt);
      } catch (Ref.Fail f) {
        parses = false;
        kind = f.kind;
      }
      if (parses) throw fail(fmt, args, "well-formed format rejected: " + t);
      if (!kindOk(kind, t)) throw fail(fmt, args, "compile: expected " + kind + " failure, got " + t);
      return;
    }
    try {
      Ref.parse(fmt);
    } catch (Ref.Fail f) {
      throw fail(fmt, args, "malformed format accepted, expected " + f.kind);
    }
    String got = null;
    Throwable t = null;
    try {
      got = fp.format(libArgs(args));
    } catch (Throwable e) {
      t = e;
    }
    compare(fmt, args, exp, got, t, "format");
  }

  static List<Arg> args(String... codes) {
    List<Arg> l = new ArrayList<>();
    for (String c : codes) l.add(Arg.parse(c));
    return l;
  }

  static final String[][] CORNERS = {
    {"C01", "%", ""}, {"C01", "%%%%", ""}, {"C01", "%5", ""}, {"C01", "%.", ""}, {"C01", "%-", ""}, {"C01", "abc%", ""},
    {"C01", "%--d", ""}, {"C01", "%00d", ""}, {"C01", "%2147483647d", ""}, {"C01", "%2147483648d", ""}, {"C01", "%65536d", "i:1"},
    {"C01", "%65537d", "i:1"}, {"C01", "%.65536d", "i:1"}, {"C01", "%.65537d", "i:1"}, {"C01", "%t{", ""}, {"C01", "%t{}", ""}, {"C01", "%t{'}", ""},
    {"C01", "%t{yyyy", ""}, {"C01", "%t{jjj}", ""}, {"C01", "%s{x}", "s:a"}, {"C01", "%T{yyyy'}'}", "l:5"}, {"C01", "%.*d", "i:3,i:4"},
    {"C01", "%*.*d", "i:7,i:3,i:4"}, {"C01", "%-*d|", "i:7,i:4"}, {"C01", "%**d", ""}, {"C01", "%5*d", ""}, {"C01", "%.-5d", ""}, {"C01", "%d%", ""},
    {"C01", "%i %d", "i:1,i:2"}, {"C01", "%5.s|", "s:abc"}, {"C01", "%k", ""}, {"C01", "%\u0131", ""}, {"C01", "%5%|", "i:1"}, {"C01", "%n|", "i:1"},
    {"C01", "%t{''}", ""}, {"C01", "%t{yy''yy}", "l:5"}, {"C01", "%t{'''}'}", "l:5"}, {"C01", "%l", ""}, {"C01", "%ld", ""}, {"C01", "%\u0665d", ""},
    {"C02", "%d", ""}, {"C02", "%*d", ""}, {"C02", "%*d", "i:1"}, {"C02", "%.*d", ""}, {"C02", "%.*d", "i:1"}, {"C02", "%*.*d", "i:1"},
    {"C02", "%*.*d", "i:1,i:2"}, {"C02", "%*.*d", "i:9,i:2,i:3,i:4"}, {"C02", "a%nb", ""}, {"C02", "a%nb%d", "i:1,i:2"}, {"C02", "%%", ""}, {"C02", "%s %s", "s:x"},
    {"C03", "%*d|", "i:-2147483648,i:5"}, {"C03", "%*d|", "i:-1,i:5"}, {"C03", "%*d|", "i:65536,i:5"}, {"C03", "%*d|", "i:-65536,i:5"}, {"C03", "%*d|", "i:-65537,i:5"},
    {"C03", "%*d|", "i:65537,i:5"}, {"C03", "%.*d|", "i:-2147483648,i:5"}, {"C03", "%.*d|", "i:65537,i:5"}, {"C03", "%.*d|", "i:65536,i:5"}, {"C03", "%0.*d|", "i:-1,i:5"},
    {"C03", "%0*d|", "i:-8,i:5"}, {"C03", "%*d|", "i:0,i:5"}, {"C03", "%.*d|", "i:0,i:0"}, {"C03", "%*.*f|", "i:-12,i:-3,pd:3ff8000000000000"}, {"C03", "%*d|", "i:2147483647,i:5"},
    {"C03", "%.*s|", "i:-1,s:hello"}, {"C03", "%.*s|", "i:0,s:hello"}, {"C03", "%*s|", "i:1,s:hello"},
  };

  static void run(String prop, String line, long seed, int n) throws Main.Failure {
    int c = 0;
    for (String[] k : CORNERS)
      if (k[0].equals(prop) && c++ == n) {
        fmt(k[1], k[2].isEmpty() ? args() : args(k[2].split(",")));
        return;
      }
    Gen g = new Gen(seed);
    switch (prop) {
      case "C01": c01(g, n); return;
      case "C02": c02(g); return;
      case "C03": c03(g); return;
      case "C04": fmt(g.directive("di"), args(g.integer())); return;
      case "C05": fmt(g.directive("uoxX"), args(g.integer())); return;
      case "C06": c06(g); return;
      case "C07": fmt(g.directive("fFeE"), args(g.floatArg())); return;
      case "C08": fmt(g.directive("gG"), args(g.floatArg())); return;
      case "C09": fmt(g.directive("aA"), args(g.p(3) ? g.dec() : g.floatArg())); return;
      case "C10": fmt(g.directive("fFeEgG"), args(g.p(20) ? "bi:" + g.big() : g.dec())); return;
      case "C11": c11(g); return;
      case "C12": SeqProps.run(line, seed); return;
      case "C13": C13.run(line, g, n); return;
      case "C14": c14(g, line); return;
      case "C15": c15(g); return;
      case "C16": c16(g); return;
      case "C17": C17.run(line, g, n); return;
      default: throw new IllegalArgumentException(prop);
    }
  }

  static void c01(Gen g, int n) throws Main.Failure {
    if (n == 60) { // many directives and literals in one format
      StringBuilder sb = new StringBuilder();
      for (int i = 0; i < 30000; i++) sb.append(i % 3 == 0 ? "%%" : i % 3 == 1 ? "a" : "%5.1s");
      List<Arg> l = new ArrayList<>();
      for (int i = 0; i < 10000; i++) l.add(Arg.parse("s:xy"));
      fmt(sb.toString(), l);
      return;
    }
    StringBuilder sb = new StringBuilder();
    List<Arg> args = new ArrayList<>();
    int parts = 1 + g.pick(4);
    for (int i = 0; i < parts; i++) {
      if (g.p(40)) sb.append(g.p(80) ? g.str().replace("%", "") : "%%");
      if (g.p(15)) { // noise
        for (int k = g.pick(6); k >= 0; k--) sb.append("%-#+ 0123459.*dxsft{}'yH%".charAt(g.pick(25)));
        continue;
      }
      sb.append('%').append(g.flags());
      if (g.p(4)) sb.append(g.flags());
      boolean sw = g.p(12), sp = g.p(12);
      sb.append(sw ? "*" : g.p(3) ? "99999999999".substring(g.pick(9)) : g.widthText());
      sb.append(sp ? ".*" : g.p(3) ? ".0000000000000000000" + g.pick(9) : g.precText());
      String spec = g.p(97) ? g.spec("diuoxXfFeEgGaAcsStTnp%") : String.valueOf(g.chr());
      sb.append(spec);
      if (g.p(30) && "tT".contains(spec)) sb.append(g.datePattern());
      else if (g.p(25) && "tT".contains(spec)) {
        sb.append('{');
        for (int k = g.pick(7); k > 0; k--) sb.append("yMdH''}' {-".charAt(g.pick(11)));
        if (g.p(60)) sb.append('}');
      }
      if (sw) args.add(Arg.parse("i:" + (g.pick(30) - 8)));
      if (sp) args.add(Arg.parse("i:" + (g.pick(20) - 4)));
      args.add(Arg.parse("tT".contains(spec) ? "pl:1234567" : "p".equals(spec) ? "n:" : "pi:" + g.pick(1000)));
    }
    String f = sb.toString();
    if (g.p(5) && f.length() > 1) f = f.substring(0, g.pick(f.length()));
    for (int i = 0; i < 6; i++) args.add(Arg.parse("pi:" + g.pick(30)));
    fmt(f, args);
  }

  static void c02(Gen g) throws Main.Failure {
    StringBuilder sb = new StringBuilder();
    List<Arg> args = new ArrayList<>();
    int parts = g.p(97) ? g.pick(6) : g.pick(40);
    for (int i = 0; i < parts; i++) {
      if (g.p(50)) sb.append(g.one(new String[] {"a", " ", "%%", "x=%%,", "longer text "}));
      String spec = g.spec("dsxcn%fS");
      boolean sw = g.p(35), sp = g.p(35);
      sb.append('%').append(g.p(20) ? "-" : "").append(sw ? "*" : spec.equals("%") ? "7" : "").append(sp ? ".*" : "").append(spec);
      if (sw) args.add(Arg.parse("i:" + (g.pick(20) - 5)));
      if (sp) args.add(Arg.parse("i:" + (g.pick(9) - 2)));
      args.add(Arg.parse("s".equalsIgnoreCase(spec) ? "s:v" + i : "i:" + (40 + i)));
    }
    int k = g.pick(10);
    if (k < 3 && !args.isEmpty()) args = args.subList(0, g.pick(args.size()));
    else if (k < 5) args.add(Arg.parse("i:77"));
    fmt(sb.toString(), new ArrayList<>(args));
  }

  static int starInt(Gen g) {
    if (g.p(70)) return g.pick(40) - 15;
    return (int) g.longValue();
  }

  static void c03(Gen g) throws Main.Failure {
    boolean sw = g.p(70), sp = !sw || g.p(50);
    String flags = g.flags();
    String spec = g.spec("diuoxXfFeEgGaAcsS");
    String f = "%" + flags + (sw ? "*" : g.widthText()) + (sp ? ".*" : g.precText()) + spec + "|";
    List<Arg> a = new ArrayList<>();
    String starType = g.p(80) ? "i:" : g.p(50) ? "pi:" : "l:";
    if (sw) a.add(Arg.parse(starType + starInt(g)));
    if (sp) a.add(Arg.parse(starType + starInt(g)));
    String v = "sS".contains(spec) ? "s:" + Arg.esc(g.str()) : "c".equals(spec) ? "c:" + Integer.toHexString(g.chr()) : "fFeEgGaA".contains(spec) ? g.floatArg() : g.integer();
    a.add(Arg.parse(v));
    fmt(f, a);
    // the formatter keeps its written flags: a second call behaves like a first one
    FastPrintf fp = FastPrintf.compile(f);
    for (int i = 0; i < 3; i++) {
      List<Arg> b = new ArrayList<>(a);
      if (sw) b.set(0, Arg.parse("i:" + (i == 1 ? -9 : 9)));
      if (sp) b.set(sw ? 1 : 0, Arg.parse("i:" + (i == 1 ? -1 : 3)));
      Object exp = expected(f, b);
      String got = null;
      Throwable t = null;
      try {
        got = fp.format(libArgs(b));
      } catch (RuntimeException e) {
        t = e;
      }
      compare(f, b, exp, got, t, "repeated call " + i);
    }
  }

  static void c06(Gen g) throws Main.Failure {
    String spec = g.spec("diuoxXfFeEgGaAcsStTp");
    String arg = "sS".contains(spec) ? g.textArg() : "c".equals(spec) ? "c:" + Integer.toHexString(g.chr()) : "tT".contains(spec) ? g.temporal() : "p".equals(spec) ? "obj:x"
        : "fFeEgG".contains(spec) ? (g.p(20) ? g.dec() : g.floatArg()) : "aA".contains(spec) ? g.floatArg() : g.integer();
    String flags = g.flags(), prec = g.precText(), w = Integer.toString(g.width());
    String pat = "tT".contains(spec) && g.p(50) ? g.datePattern() : "";
    List<Arg> a = args(arg);
    String fw = "%" + flags + w + prec + spec + pat, f0 = "%" + flags + prec + spec + pat;
    fmt(fw, a);
    String base;
    try {
      base = FastPrintf.compile(f0).format(libArgs(a));
    } catch (PrintfException | IllegalArgumentException | java.time.DateTimeException e) {
      return;
    }
    String got = FastPrintf.compile(fw).format(libArgs(a));
    int width = Integer.parseInt(w);
    if (got.length() != Math.max(width, base.length())) throw fail(fw, a, "length " + got.length() + " for width " + width + " and text " + show(base));
  }

  static void c11(Gen g) throws Main.Failure {
    String spec = g.spec("ssSScSsp");
    String arg = "c".equals(spec) ? (g.p(50) ? "c:" + Integer.toHexString(g.chr()) : g.p(50) ? "s:" + Arg.esc(g.str()) : g.integer()) : g.textArg();
    if ("p".equals(spec)) arg = g.p(50) ? "obj:x" : g.p(50) ? "pi:4" : "n:";
    List<Arg> a = args(arg);
    fmt(g.directive(spec), a);
    if (g.p(30)) { // upper-case twin
      String up = g.spec("XEFGAST");
      String low = up.toLowerCase(Locale.ROOT);
      String v = "S".equals(up) ? g.textArg() : "T".equals(up) ? g.temporal() : "X".equals(up) ? g.integer() : g.floatArg();
      String head = "%" + g.flags() + g.widthText() + g.precText();
      String pat = "T".equals(up) ? g.datePattern() : "";
      List<Arg> b = args(v);
      String l;
      try {
        l = FastPrintf.compile(head + low + pat).format(libArgs(b));
      } catch (RuntimeException e) {
        return;
      }
      String u = FastPrintf.compile(head + up + pat).format(libArgs(b));
      if (!u.equals(Ref.upper(l))) throw fail(head + up + pat, b, "upper-case form " + show(u) + " of " + show(l));
    }
  }

  static void c14(Gen g, String caseLine) throws Main.Failure {
    String spec = g.spec("diuoxXfFeEgGcsStT");
    String head = "%" + g.flags() + g.widthText() + g.precText() + spec;
    if (g.p(10)) head = "%*d";
    String code = g.p(85) ? g.anyArg() : g.textArg();
    List<Arg> a = args(code);
    if (head.equals("%*d")) a.add(Arg.parse("i:5"));
    Object exp = expected(head, a);
    Arg x = a.get(0);
    List<Object> vals = new ArrayList<>();
    for (Arg y : a) vals.add(y.lib);
    for (int route = 0; route < 7; route++) {
      Args args;
      switch (route) {
        case 0: args = Args.of(vals.toArray()); break;
        case 1: args = Args.of(vals); break;
        case 2: args = Args.of((Iterable<Object>) () -> vals.iterator()); break;
        case 3: {
          args = Args.create();
          for (Arg y : a) y.putTyped(args);
          break;
        }
        case 4: {
          args = Args.createWithExpectedSize(g.pick(3));
          for (Arg y : a) y.putBoxed(args);
          break;
        }
        case 5: {
          args = Args.create();
          for (Object v : vals) args = args.put(v);
          break;
        }
        default: {
          args = Args.create();
          for (Arg y : a) if (y.lib == null) nullPut(g, args); else y.putBoxed(args);
        }
      }
      List<Object> got = args.values();
      if (got.size() != vals.size()) throw new Main.Failure(caseLine, "values() has " + got.size() + " elements, route " + route);
      for (int i = 0; i < vals.size(); i++)
        if (!Objects.equals(got.get(i), vals.get(i))) throw new Main.Failure(caseLine, "values() returns " + got + " for " + vals + ", route " + route);
      String res = null;
      Throwable t = null;
      try {
        res = FastPrintf.compile(head).format(args);
      } catch (Throwable e) {
        t = e;
      }
      try {
        compare(head, a, exp, res, t, "route " + route);
      } catch (Main.Failure f) {
        throw new Main.Failure(caseLine, f.caseLine + " " + f.getMessage());
      }
    }
    // order
    Args many = Args.create();
    StringBuilder want = new StringBuilder();
    StringBuilder f = new StringBuilder();
    List<Object> order = new ArrayList<>();
    for (int i = 0; i < g.pick(12); i++) {
      Arg y = Arg.parse(g.p(50) ? g.integer() : "s:" + i);
      if (g.p(50)) y.putTyped(many); else y.putBoxed(many);
      order.add(y.lib);
      f.append("%s;");
      want.append(Ref.text(y.lib)).append(';');
    }
    String res = FastPrintf.compile(f.toString()).format(many);
    if (!res.equals(want.toString())) throw new Main.Failure(caseLine, "order: expected " + want + ", got " + res);
    if (!many.values().equals(order)) throw new Main.Failure(caseLine, "values(): expected " + order + ", got " + many.values());
  }

  static void nullPut(Gen g, Args a) {
    switch (g.pick(14)) {
      case 0: a.putNull(); break;
      case 1: a.putBooleanOrNull(null); break;
      case 2: a.putCharOrNull(null); break;
      case 3: a.putByteOrNull(null); break;
      case 4: a.putShortOrNull(null); break;
      case 5: a.putIntOrNull(null); break;
      case 6: a.putLongOrNull(null); break;
      case 7: a.putFloatOrNull(null); break;
      case 8: a.putDoubleOrNull(null); break;
      case 9: a.putString(null); break;
      case 10: a.putCharSequence(null); break;
      case 11: a.putBigInteger(null); break;
      case 12: a.putBigDecimal(null); break;
      default: a.putDateTime(null);
    }
  }

  static void c15(Gen g) throws Main.Failure {
    double v;
    do v = Math.abs(g.dbl()); while (v == 0 || Double.isNaN(v) || Double.isInfinite(v));
    c15one(v);
  }

  static void c15one(double v) throws Main.Failure {
    List<Arg> a = args("pd:" + Long.toHexString(Double.doubleToRawLongBits(v)));
    String s = FastPrintf.compile("%.20e").format(libArgs(a));
    BigDecimal want = Shortest.of(v);
    if (new BigDecimal(s).compareTo(want) != 0) throw fail("%.20e", a, "shortest decimal is " + want + ", got " + s);
    if (Double.parseDouble(s) != v) throw fail("%.20e", a, "does not read back: " + s);
  }

  static void c16(Gen g) throws Main.Failure {
    String spec = g.spec("ttT");
    String f = "%" + g.flags() + g.widthText() + g.precText() + spec + (g.p(50) ? g.datePattern() : "");
    fmt(f, args(g.temporal()));
  }
}
