package vo;

import io.fastprintf.*;
import io.fastprintf.seq.Seq;
import java.io.*;
import java.util.*;
import java.util.concurrent.*;

/** C13: sink, capacity, cache and history do not change the text. */
final class C13 {
  static final class Bad {
    @Override
    public String toString() { throw new IllegalStateException("bad argument"); }
  }

  /** Renders through the same formatter while it is being formatted. */
  static final class Nested {
    final FastPrintf fp;
    final int depth;
    Nested(FastPrintf fp, int depth) { this.fp = fp; this.depth = depth; }
    @Override
    public String toString() { return depth == 0 ? "leaf" : fp.format(args(fp, depth)); }
    static Args args(FastPrintf fp, int depth) { return Args.of(7, new Nested(fp, depth - 1), "end"); }
  }

  static void run(String line, Gen g, int n) throws Main.Failure {
    StringBuilder f = new StringBuilder();
    List<Arg> args = new ArrayList<>();
    for (int i = g.p(95) ? g.pick(4) : g.pick(40); i >= 0; i--) {
      if (g.p(50)) f.append(g.str().replace("%", ""));
      String spec = g.spec("dsSxXfeEgac");
      f.append("%" + g.flags() + (g.p(60) ? g.widthText() : "") + (g.p(50) ? g.precText() : "") + spec);
      args.add(Arg.parse("sS".contains(spec) ? g.textArg() : "c".equals(spec) ? "s:q" : "dxX".contains(spec) ? "pi:" + (int) g.longValue() : g.floatArg()));
    }
    String fmt = f.toString();
    FastPrintf fp = FastPrintf.compile(fmt);
    String want;
    try {
      want = fp.format(Props.libArgs(args));
    } catch (RuntimeException e) {
      return;
    }
    Object exp = Props.expected(fmt, args);
    if (!want.equals(exp)) throw Props.fail(fmt, args, "expected " + exp + ", got " + Props.show(want));
    FastPrintf cur = fp;
    for (int step = 0; step < 8; step++) {
      int op = g.pick(9);
      String what;
      try {
        switch (op) {
          case 0: cur = cur.enableThreadLocalCache(); what = "enableThreadLocalCache"; break;
          case 1: cur = cur.setStringBuilderInitialCapacity(new int[] {1, 16, 33, 70000, 65536, 65537, 4000}[g.pick(7)]); what = "capacity"; break;
          case 2: { // failed call
            what = "failed call";
            List<Object> l = new ArrayList<>();
            for (Arg a : args) l.add(a.lib);
            if (g.p(50)) l.set(g.pick(l.size()), new Bad()); else l = l.subList(0, g.pick(l.size()));
            try { cur.format(Args.of(l)); } catch (RuntimeException e) { /* expected */ }
            break;
          }
          case 3: case 4: {
            what = "StringBuilder sink";
            StringBuilder sb = new StringBuilder("pre");
            if (cur.format(sb, Props.libArgs(args)) != sb) throw new Main.Failure(line, "returned another sink");
            cmp(line, "pre" + want, sb.toString(), what);
            break;
          }
          case 5: {
            what = "Appendable sink";
            SeqProps.Sink sink = new SeqProps.Sink();
            sink.append("pre");
            if (cur.format(sink, Props.libArgs(args)) != sink) throw new Main.Failure(line, "returned another sink");
            cmp(line, "pre" + want, sink.sb.toString(), what);
            break;
          }
          case 6: {
            what = "StringBuffer and Writer sink";
            StringBuffer sb = new StringBuffer("pre");
            cur.format(sb, Props.libArgs(args));
            cmp(line, "pre" + want, sb.toString(), what);
            StringWriter w = new StringWriter();
            cur.format(w, Props.libArgs(args));
            cmp(line, want, w.toString(), what);
            break;
          }
          case 7: {
            what = "nested call";
            FastPrintf nf = FastPrintf.compile("<%d|%s|%s>").enableThreadLocalCache();
            if (g.p(50)) nf = nf.setStringBuilderInitialCapacity(1 + g.pick(40));
            int depth = 1 + g.pick(4);
            String w = "leaf";
            for (int i = 0; i < depth; i++) w = "<7|" + w + "|end>";
            cmp(line, w, nf.format(Nested.args(nf, depth)), what);
            cmp(line, w, nf.format(Nested.args(nf, depth)), what);
            break;
          }
          default: { // oversized result, other thread
            what = "oversized call and other thread";
            FastPrintf big = FastPrintf.compile("%s%65536d|%65536d").enableThreadLocalCache();
            if (g.p(20)) {
              String r = big.format("x", 1, 2);
              if (r.length() != 131074) throw new Main.Failure(line, "oversized result has length " + r.length());
              cmp(line, r, big.format("x", 1, 2), what);
            }
            if (n % 50 == 0) {
              FastPrintf c = cur;
              FutureTask<String> t = new FutureTask<>(() -> c.format(Props.libArgs(args)));
              Thread th = new Thread(t);
              th.start();
              cmp(line, want, t.get(), what);
            }
          }
        }
        cmp(line, want, cur.format(Props.libArgs(args)), "String after " + what);
        if (g.p(30)) cmp(line, want, fp.format(Props.libArgs(args)), "original formatter after " + what);
      } catch (InterruptedException | ExecutionException | RuntimeException e) {
        throw new Main.Failure(line, "step " + op + " threw " + e + " for " + Props.line(fmt, args));
      }
    }
  }

  static void cmp(String line, String want, String got, String what) throws Main.Failure {
    if (!want.equals(got)) throw new Main.Failure(line, what + ": expected " + Props.show(want) + ", got " + Props.show(got));
  }
}
