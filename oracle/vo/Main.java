package vo;

import io.fastprintf.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/**
 * Runs the contracts of one property as assertions on the real classes.
 *
 * <p>usage: Main run PROP SEED COUNT MAXMS [CANDIDATES] | Main replay FILE
 *
 * <p>Prints "CASES n" and for the first failing input "FAIL <case line>" plus an explanation.
 */
public final class Main {
  static final class Failure extends Exception {
    final String caseLine;
    Failure(String caseLine, String msg) {
      super(msg);
      this.caseLine = caseLine;
    }
  }

  public static void main(String[] a) throws Exception {
    settings();
    if (a[0].equals("run")) System.exit(run(a));
    if (a[0].equals("replay")) System.exit(replay(a[1]));
    if (a[0].equals("lines")) System.exit(lines(a[1], a[2], new HashSet<>()));
    throw new IllegalArgumentException(a[0]);
  }

  /** The default zone and locale differ from one Java version to the next. */
  static void settings() {
    String v = System.getProperty("java.specification.version");
    boolean is21 = v.equals("21"), is8 = v.equals("1.8");
    TimeZone.setDefault(TimeZone.getTimeZone(is21 ? "UTC" : is8 ? "Asia/Kathmandu" : "America/St_Johns"));
    Locale.setDefault(is21 ? new Locale("tr", "TR") : is8 ? Locale.forLanguageTag("ar-EG-u-nu-arab") : Locale.US);
  }

  static volatile String at;

  /** Ends the run when one case makes no progress for half a minute: the library does not return. */
  static void watch() {
    Thread t = new Thread(() -> {
      String last = null;
      for (int same = 0; ; ) {
        try {
          Thread.sleep(1000);
        } catch (InterruptedException e) {
          return;
        }
        same = at == last ? same + 1 : 0;
        last = at;
        if (last != null && same >= 30) {
          report(new Failure(last, "does not return within 30 s"));
          System.out.flush();
          Runtime.getRuntime().halt(1);
        }
      }
    });
    t.setDaemon(true);
    t.start();
  }

  static int run(String[] a) throws Exception {
    String prop = a[1];
    long seed = Long.parseLong(a[2]);
    int count = Integer.parseInt(a[3]);
    long end = System.currentTimeMillis() + Long.parseLong(a[4]);
    Set<String> known = new HashSet<>();
    if (a.length > 6) known.addAll(Files.readAllLines(Paths.get(a[6]), StandardCharsets.UTF_8));
    if (a.length > 5 && Files.exists(Paths.get(a[5]))) {
      int rc = lines(prop, a[5], known);
      if (rc != 0) return rc;
    }
    int n = 0;
    watch();
    for (; n < count && System.currentTimeMillis() < end; n++) {
      String line = "gen " + prop + " " + (seed * 1000003L + n);
      at = line;
      try {
        try {
          Props.run(prop, line, seed * 1000003L + n, n);
        } catch (RuntimeException | AssertionError e) {
          throw escaped(line, e);
        }
      } catch (Failure f) {
        if (known.contains(f.caseLine)) continue;
        System.out.println("CASES " + n);
        report(f);
        return 1;
      }
    }
    System.out.println("CASES " + n);
    return 0;
  }

  /** An exception nobody expected: the library's if it came from there, otherwise a fault of the oracle. */
  static Failure escaped(String line, Throwable e) {
    for (StackTraceElement x : e.getStackTrace()) {
      if (x.getClassName().startsWith("io.fastprintf.")) return new Failure(line, "unexpected exception " + e + " at " + x);
      if (x.getClassName().startsWith("vo.")) break;
    }
    if (e instanceof Error) throw (Error) e;
    throw (RuntimeException) e;
  }

  /** Candidate cases (for instance from solver models), one per line. */
  static int lines(String prop, String file, Set<String> known) throws Exception {
    int n = 0;
    watch();
    for (String line : Files.readAllLines(Paths.get(file), StandardCharsets.UTF_8)) {
      if (line.trim().isEmpty() || known.contains(line)) continue;
      n++;
      at = line;
      try {
        one(prop, line);
      } catch (Failure f) {
        report(f);
        return 1;
      } catch (RuntimeException | Error e) {
        System.out.println("skipped: " + line + " " + e);
      }
    }
    System.out.println("CANDIDATES " + n);
    return 0;
  }

  static void one(String prop, String line) throws Failure {
    String[] p = line.split("\t");
    if (line.startsWith("gen ")) {
      String[] q = line.split(" ");
      try {
        Props.run(q[1], line, Long.parseLong(q[2]), 1 << 20);
      } catch (RuntimeException | AssertionError e) {
        throw escaped(line, e);
      }
    } else if (p[0].equals("fmt")) {
      List<Arg> args = new ArrayList<>();
      for (int i = 2; i < p.length; i++) args.add(Arg.parse(p[i]));
      Props.fmt(Arg.unesc(p[1]), args);
    } else if (p[0].equals("seqx")) {
      if (prop.isEmpty() || prop.equals("C12")) SeqProps.expr(line, p);
    }
    else throw new IllegalArgumentException(line);
  }

  static int replay(String file) throws Exception {
    for (String line : Files.readAllLines(Paths.get(file), StandardCharsets.UTF_8)) {
      if (!line.startsWith("case: ")) continue;
      line = line.substring(6);
      try {
        one("", line);
        System.out.println("passes: " + line);
      } catch (Failure f) {
        report(f);
        return 1;
      }
    }
    return 0;
  }

  static void report(Failure f) {
    System.out.println("FAIL " + f.caseLine);
    System.out.println("WHY " + f.getMessage().replace('\n', ' '));
  }
}
