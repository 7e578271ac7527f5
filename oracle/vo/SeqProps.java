package vo;

import io.fastprintf.seq.*;
import java.io.IOException;
import java.util.*;

/** C12: every sequence behaves as one fixed string. */
final class SeqProps {
  static final class Node {
    final Seq seq;
    final String model;
    final String how;
    Node(Seq seq, String model, String how) {
      this.seq = seq;
      this.model = model;
      this.how = how;
    }
  }

  /** An Appendable that is neither a StringBuilder nor a Writer. */
  static final class Sink implements Appendable {
    final StringBuilder sb = new StringBuilder();
    @Override
    public Appendable append(CharSequence c) { sb.append(c); return this; }
    @Override
    public Appendable append(CharSequence c, int s, int e) { sb.append(c.subSequence(s, e)); return this; }
    @Override
    public Appendable append(char c) { sb.append(c); return this; }
  }

  static String q(String s) { return "\"" + Arg.esc(s) + "\""; }

  static Node leaf(Gen g) {
    String s = g.str();
    switch (g.pick(8)) {
      case 0: return new Node(Seq.wrap(s), s, "wrap(" + q(s) + ")");
      case 1: {
        int a = g.pick(s.length() + 1), b = a + g.pick(s.length() - a + 1);
        return new Node(Seq.wrap(s, a, b), s.substring(a, b), "wrap(" + q(s) + "," + a + "," + b + ")");
      }
      case 2: {
        int a = g.pick(s.length() + 1);
        return new Node(Seq.wrap(s, a), s.substring(a), "wrap(" + q(s) + "," + a + ")");
      }
      case 3: {
        char c = g.chr();
        int n = g.p(20) ? 1 : 1 + g.pick(40);
        return new Node(Seq.repeated(c, n), Gen.rep(c, n), "repeated(" + (int) c + "," + n + ")");
      }
      case 4: {
        int a = g.pick(s.length() + 1), n = g.pick(s.length() - a + 1);
        return new Node(Seq.forArray(s.toCharArray(), a, n), s.substring(a, a + n), "forArray(" + q(s) + "," + a + "," + n + ")");
      }
      case 5: return new Node(Seq.forArray(s.toCharArray()), s, "forArray(" + q(s) + ")");
      case 6: return new Node(Seq.lazy(b -> b.append(s), s.length()), s, "lazy(" + q(s) + ")");
      default: {
        char c = g.chr();
        return g.p(80) ? new Node(Seq.ch(c), String.valueOf(c), "ch(" + (int) c + ")") : new Node(Seq.empty(), "", "empty()");
      }
    }
  }

  static Node tree(Gen g, int depth) {
    if (depth == 0 || g.p(20)) return leaf(g);
    switch (g.pick(9)) {
      case 0: case 1: {
        Node a = tree(g, depth - 1), b = tree(g, depth - 1);
        return new Node(Seq.concat(a.seq, b.seq), a.model + b.model, "concat(" + a.how + "," + b.how + ")");
      }
      case 2: {
        Node a = tree(g, depth - 1), b = tree(g, depth - 1);
        return new Node(a.seq.append(b.seq), a.model + b.model, a.how + ".append(" + b.how + ")");
      }
      case 3: {
        Node a = tree(g, depth - 1), b = tree(g, depth - 1);
        return new Node(a.seq.prepend(b.seq), b.model + a.model, a.how + ".prepend(" + b.how + ")");
      }
      case 4: case 5: {
        Node a = tree(g, depth - 1);
        int n = a.model.length();
        int s = g.pick(n + 1), e = s + g.pick(n - s + 1);
        return new Node(a.seq.subSequence(s, e), a.model.substring(s, e), a.how + ".sub(" + s + "," + e + ")");
      }
      case 6: {
        Node a = tree(g, depth - 1);
        return new Node(a.seq.upperCase(), Ref.upper(a.model), a.how + ".upper()");
      }
      case 7: {
        List<AtomicSeq> l = new ArrayList<>();
        StringBuilder m = new StringBuilder(), h = new StringBuilder("join(");
        for (int k = g.pick(5); k > 0; k--) {
          Node a = leaf(g);
          l.add((AtomicSeq) a.seq);
          m.append(a.model);
          h.append(a.how).append(';');
        }
        return new Node(Seq.join(l), m.toString(), h + ")");
      }
      default: {
        Node a = tree(g, depth - 1);
        return new Node(a.seq.dup(), a.model, a.how + ".dup()");
      }
    }
  }

  static void run(String line, long seed) throws Main.Failure {
    Gen g = new Gen(seed);
    Node n;
    try {
      n = tree(g, g.pick(6));
    } catch (RuntimeException | Error e) {
      throw new Main.Failure(line, "building a sequence threw " + e);
    }
    observe(line, g, n);
  }

  /** A case from a solver model: class, "text", start, length, places to cut, arguments of the call. */
  static void expr(String line, String[] p) throws Main.Failure {
    String base = Arg.unesc(p[2].substring(1, p[2].length() - 1));
    int start = Integer.parseInt(p[3]), len = Integer.parseInt(p[4]);
    for (int seed = 0; seed < 24; seed++) {
      Gen g = new Gen(seed);
      String t = base;
      if (seed % 3 > 0) {
        StringBuilder sb = new StringBuilder();
        for (int i = 0; i < base.length(); i++) sb.append(seed % 3 == 1 ? (char) ('a' + i % 26) : g.chr());
        t = sb.toString();
      }
      int more = seed < 8 ? 0 : g.pick(3);
      char c = (char) Integer.parseInt(p[6].split(",")[0]);
      t = t.substring(0, start + len) + "mNk".substring(0, more) + (seed % 2 == 0 ? "" : String.valueOf(c)) + t.substring(start + len) + c + "zZ";
      for (String cut : p[5].split(",")) {
        Node n = made(g, p[1], t, start, len + more, Math.min(len + more, Integer.parseInt(cut)));
        if (g.p(30)) n = new Node(n.seq.upperCase(), Ref.upper(n.model), n.how + ".upper()");
        if (seed % 2 == 0) calls(line, n, p[6].split(","));
        observe(line, g, n);
        calls(line, n, p[6].split(","));
      }
    }
  }

  static Node made(Gen g, String cls, String t, int start, int len, int cut) {
    String m = t.substring(start, start + len);
    switch (cls) {
      case "CharArray": return new Node(Seq.forArray(t.toCharArray(), start, len), m, "forArray(" + q(t) + "," + start + "," + len + ")");
      case "Repeated": {
        char c = m.isEmpty() ? 'x' : m.charAt(0);
        return len == 0 ? new Node(Seq.empty(), "", "empty()") : new Node(Seq.repeated(c, len), Gen.rep(c, len), "repeated(" + (int) c + "," + len + ")");
      }
      case "EmptySeq": return new Node(Seq.empty(), "", "empty()");
      case "LazySeq": return new Node(Seq.lazy(b -> b.append(m), len), m, "lazy(" + q(m) + ")");
      case "Concat": {
        Seq l = Seq.wrap(t, start, start + cut), r = Seq.forArray(t.toCharArray(), start + cut, len - cut);
        if (len - cut > 2 && g.p(50)) r = Seq.concat(Seq.wrap(m.substring(cut, cut + 2)), Seq.wrap(m.substring(cut + 2)));
        return new Node(Seq.concat(l, r), m, "concat at " + cut);
      }
      case "SeqArray": {
        List<AtomicSeq> l = new ArrayList<>();
        int at = 0;
        while (at < len) {
          int e = Math.min(len, at + (at < cut ? cut - at : 1 + g.pick(len)));
          l.add((AtomicSeq) Seq.wrap(m, at, e));
          at = e;
        }
        return new Node(Seq.join(l), m, "join of " + l.size());
      }
      default: return new Node(Seq.wrap(t, start, start + len), m, "wrap(" + q(t) + "," + start + "," + (start + len) + ")");
    }
  }

  static void calls(String line, Node n, String[] args) throws Main.Failure {
    String m = n.model;
    int len = m.length(), a = Integer.parseInt(args[0]), b = args.length > 1 ? Integer.parseInt(args[1]) : len;
    String why = null;
    try {
      if (n.seq.indexOf((char) a) != m.indexOf((char) a)) why = "indexOf(" + a + ") " + n.seq.indexOf((char) a);
      else if (n.seq.startsWith((char) a) != (len > 0 && m.charAt(0) == (char) a)) why = "startsWith(" + a + ")";
      else if (0 <= a && a < len ? n.seq.charAt(a) != m.charAt(a) : !throwsAny(() -> n.seq.charAt(a))) why = "charAt(" + a + ")";
      else if (0 <= a && a <= b && b <= len ? !n.seq.subSequence(a, b).toString().equals(m.substring(a, b)) : !throwsAny(() -> n.seq.subSequence(a, b))) why = "subSequence(" + a + "," + b + ")";
    } catch (RuntimeException | Error e) {
      why = "threw " + e;
    }
    if (why != null) throw new Main.Failure(line, why + " for " + n.how + " which denotes " + q(m));
  }

  static void observe(String line, Gen g, Node n) throws Main.Failure {
    String why;
    try {
      why = check(g, n.seq, n.model);
    } catch (IOException | RuntimeException | Error e) {
      why = "threw " + e;
    }
    if (why != null) throw new Main.Failure(line, why + " for " + n.how + " which denotes " + q(n.model));
  }

  static String check(Gen g, Seq s, String m) throws IOException {
    // a first observation in random order must not disturb later ones
    for (int k = 0; k < 10; k++) {
      switch (k < 4 ? g.pick(10) : k) {
        case 0: if (s.length() != m.length()) return "length " + s.length(); break;
        case 1: if (s.isEmpty() != m.isEmpty()) return "isEmpty " + s.isEmpty(); break;
        case 2:
          for (int i = 0; i < m.length(); i++) if (s.charAt(i) != m.charAt(i)) return "charAt(" + i + ") " + s.charAt(i);
          break;
        case 3: if (!s.toString().equals(m)) return "toString " + q(s.toString()); break;
        case 4: {
          StringBuilder sb = new StringBuilder("x");
          s.appendTo(sb);
          if (!sb.toString().equals("x" + m)) return "appendTo(StringBuilder) " + q(sb.toString());
          break;
        }
        case 5: {
          Sink sink = new Sink();
          sink.append('x');
          s.appendTo((Appendable) sink);
          if (!sink.sb.toString().equals("x" + m)) return "appendTo(Appendable) " + q(sink.sb.toString());
          StringBuilder sb = new StringBuilder("y");
          s.appendTo((Appendable) sb);
          if (!sb.toString().equals("y" + m)) return "appendTo((Appendable) StringBuilder) " + q(sb.toString());
          break;
        }
        case 6: {
          for (int i = 0; i < 6; i++) {
            char c = g.p(60) && !m.isEmpty() ? m.charAt(g.pick(m.length())) : g.chr();
            if (i == 5 && !m.isEmpty()) c = Character.toLowerCase(m.charAt(g.pick(m.length())));
            if (s.indexOf(c) != m.indexOf(c)) return "indexOf(" + (int) c + ") " + s.indexOf(c);
            if (s.startsWith(c) != (!m.isEmpty() && m.charAt(0) == c)) return "startsWith(" + (int) c + ") " + s.startsWith(c);
          }
          if (!m.isEmpty() && !s.startsWith(m.charAt(0))) return "startsWith(first) false";
          break;
        }
        case 7: {
          if (s instanceof AtomicSeqIterable) {
            StringBuilder sb = new StringBuilder();
            int len = 0;
            for (AtomicSeq a : (AtomicSeqIterable) s) {
              sb.append(a.toString());
              len += a.length();
            }
            if (!sb.toString().equals(m) || len != m.length()) return "iteration " + q(sb.toString());
          }
          break;
        }
        case 8: {
          int a = g.pick(m.length() + 1), b = a + g.pick(m.length() - a + 1);
          Seq t = s.subSequence(a, b);
          if (!t.toString().equals(m.substring(a, b)) || t.length() != b - a) return "subSequence(" + a + "," + b + ") " + q(t.toString()) + " length " + t.length();
          Seq u = s.upperCase();
          if (!u.toString().equals(Ref.upper(m)) || u.length() != m.length()) return "upperCase " + q(u.toString());
          break;
        }
        default: {
          if (!throwsAny(() -> s.charAt(-1)) || !throwsAny(() -> s.charAt(m.length())) || !throwsAny(() -> s.charAt(m.length() + 1 + g.pick(3)))) return "charAt out of range";
          if (!throwsAny(() -> s.subSequence(-1, m.length())) || !throwsAny(() -> s.subSequence(0, m.length() + 1))) return "subSequence out of range";
          if (m.length() > 0 && !throwsAny(() -> s.subSequence(1, 0))) return "subSequence out of range";
          if (!throwsAny(() -> s.charAt(Integer.MAX_VALUE)) || !throwsAny(() -> s.subSequence(0, Integer.MIN_VALUE))) return "out of range";
        }
      }
    }
    return null;
  }

  static boolean throwsAny(Runnable r) {
    try {
      r.run();
      return false;
    } catch (RuntimeException e) {
      return true;
    }
  }
}
