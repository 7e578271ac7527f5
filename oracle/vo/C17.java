package vo;

import io.fastprintf.*;
import io.fastprintf.appender.DefaultAppender;
import io.fastprintf.seq.Seq;
import java.util.*;
import java.util.concurrent.*;

/** C17: formatting changes nothing shared. */
final class C17 {
  static void run(String line, Gen g, int n) throws Main.Failure {
    // flag sets are copies
    EnumSet<Flag> flags = EnumSet.noneOf(Flag.class);
    for (Flag f : Flag.values()) if (g.p(40)) flags.add(f);
    EnumSet<Flag> given = EnumSet.copyOf(flags);
    int w = g.p(50) ? -1 : g.pick(40), p = g.p(50) ? -1 : g.pick(12);
    FormatContext ctx = FormatContext.create(given, w, p, null);
    given.add(Flag.values()[g.pick(5)]);
    given.remove(Flag.values()[g.pick(5)]);
    same(line, flags, ctx, "after the caller changed its set");
    EnumSet<Flag> out = ctx.getFlags();
    out.clear();
    if (g.p(50)) out.addAll(EnumSet.allOf(Flag.class));
    same(line, flags, ctx, "after the returned set was changed");
    Flag add = Flag.values()[g.pick(5)];
    FormatContext c2 = ctx.addFlag(add);
    EnumSet<Flag> plus = EnumSet.copyOf(flags);
    plus.add(add);
    same(line, flags, ctx, "after addFlag");
    same(line, plus, c2, "of the addFlag result");
    FormatContext c3 = ctx.setWidth(7), c4 = ctx.setPrecision(3);
    FormatContext c5 = c3.addFlag(Flag.PLUS), c6 = c4.addFlag(Flag.ALTERNATE);
    same(line, flags, ctx, "after setWidth and setPrecision");
    same(line, flags, c3, "of setWidth result");
    same(line, flags, c4, "of setPrecision result");
    if (ctx.getWidth() != w || ctx.getPrecision() != p || c3.getWidth() != 7 || c3.getPrecision() != p || c4.getPrecision() != 3 || c4.getWidth() != w
        || c2.getWidth() != w || c2.getPrecision() != p) throw new Main.Failure(line, "width or precision changed");
    // derived formatters leave the receiver alone; argument containers can be reused
    String f = "%" + g.flags() + g.widthText() + g.precText() + g.spec("dxfges") + "|%*d|%.*f|%s";
    int more = g.p(10) ? g.pick(60) : 0;
    List<Arg> a = Props.args("pi:" + (int) g.longValue(), "i:" + (g.pick(20) - 10), "i:5", "i:" + (g.pick(9) - 3), "pd:" + Long.toHexString(Double.doubleToRawLongBits(g.dbl())), g.textArg());
    for (int i = 0; i < more; i++) {
      f = i % 3 == 0 ? "%d" + f : "," + i + f + "%d";
      a.add(i % 3 == 0 ? 0 : a.size(), Arg.parse("pi:" + i));
    }
    FastPrintf fp = FastPrintf.compile(f);
    Args args = Props.libArgs(a);
    Object exp = Props.expected(f, a);
    if (exp instanceof Ref.Fail) return;
    List<Object> vals = new ArrayList<>(args.values());
    for (int i = 0; i < 3; i++) {
      String got = (i == 1 ? fp.enableThreadLocalCache() : i == 2 ? fp.setStringBuilderInitialCapacity(5) : fp).format(args);
      if (!got.equals(exp)) throw Props.fail(f, a, "call " + i + " with a reused container: expected " + exp + ", got " + got);
      if (!args.values().equals(vals)) throw Props.fail(f, a, "the argument container changed");
      args.values().clear();
    }
    if (!fp.format(args).equals(exp)) throw Props.fail(f, a, "after derived formatters were used");
    if (n % 400 == 7) threads(line, g);
  }

  static void same(String line, EnumSet<Flag> want, FormatContext c, String what) throws Main.Failure {
    if (!c.getFlags().equals(want)) throw new Main.Failure(line, "flags " + c.getFlags() + " instead of " + want + " " + what);
    for (Flag f : Flag.values()) if (c.hasFlag(f) != want.contains(f)) throw new Main.Failure(line, "hasFlag(" + f + ") wrong " + what);
  }

  static void threads(String line, Gen g) throws Main.Failure {
    FastPrintf base = FastPrintf.compile("%d %08.3f %-10s|%x %e %g %S");
    FastPrintf[] fs = {base, base.enableThreadLocalCache()};
    int nt = 4;
    ExecutorService ex = Executors.newFixedThreadPool(nt);
    try {
      List<Future<String>> fut = new ArrayList<>();
      for (int t = 0; t < nt; t++) {
        int id = t;
        fut.add(ex.submit(() -> {
          for (int i = 0; i < 300; i++) {
            int v = id * 1000003 + i;
            double d = v / 7.0;
            Object[] in = {v, d, "s" + v, v, d, d, "abc" + v};
            Object want = Ref.format("%d %08.3f %-10s|%x %e %g %S", Arrays.asList(in));
            String got = fs[i & 1].format(in);
            if (!want.equals(got)) return "expected " + want + ", got " + got;
          }
          return null;
        }));
      }
      for (Future<String> x : fut) {
        String s = x.get();
        if (s != null) throw new Main.Failure(line, "shared between threads: " + s);
      }
    } catch (InterruptedException | ExecutionException e) {
      throw new Main.Failure(line, "shared between threads: " + e);
    } finally {
      ex.shutdownNow();
    }
  }
}
