From 6c67e2829a20e94be479dcc5a69053a4f6e53878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:00 +0000
Subject: [PATCH 01/11] fix: subSequence of a composite sequence reports the
 requested length

The loop over the parts moves start and end, so end - start was no longer
the length of the slice. Padding computed from length() came out wrong.
---
 src/main/java/io/fastprintf/seq/AtomicSeqIterable.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
index ce19602..9febfb2 100644
--- a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
+++ b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
@@ -34,6 +34,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     Preconditions.checkPositionIndexes(start, end, length);
     if (start == end) return Seq.empty();
     if (start == 0 && end == length) return this;
+    int subLength = end - start;
     List<AtomicSeq> buffer = new ArrayList<>();
     for (AtomicSeq seq : this) {
       int seqLength = seq.length();
@@ -53,7 +54,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     if (buffer.size() == 1) {
       return buffer.get(0);
     }
-    return new SeqArray(buffer.toArray(new AtomicSeq[0]), end - start);
+    return new SeqArray(buffer.toArray(new AtomicSeq[0]), subLength);
   }
 
   /**
-- 
2.43.0


From 034279fe2221d367d977bce882a9265203bc1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:09 +0000
Subject: [PATCH 02/11] fix: keep the leading space when % .0d prints zero as
 no digits

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f4c995a..4f9bc67 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -73,8 +73,7 @@ public final class SeqFormatter {
   static Seq d(FormatContext context, IntForm value) {
     int signum = value.signum();
     if (signum == 0 && context.getPrecision() == 0) {
-      Seq v0 = context.hasFlag(Flag.PLUS) ? Seq.ch('+') : Seq.empty();
-      return spaceJustify(context, v0);
+      return spaceJustify(context, sign(context, Seq.empty(), false));
     }
     Seq v0 = Seq.wrap(value.toDecimalString());
     int precision = 1;
-- 
2.43.0


From ec912f4e115575f19a1ec9d8b901c924fc8a084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:17 +0000
Subject: [PATCH 03/11] fix: do not reserve room for a prefix when # is used
 with zero

%#05x, %#05o and %#.3o of 0 came out one or two digits short, and %#.0o of 0
printed nothing.
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 4f9bc67..02e216b 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -111,7 +111,12 @@ public final class SeqFormatter {
       FormatContext context, IntForm value, Function<IntForm, String> toString, String prefix) {
     int signum = value.signum();
     if (signum == 0 && context.getPrecision() == 0) {
-      return spaceJustify(context, Seq.empty());
+      // "%#.0o" still prints the leading zero of the alternate octal form.
+      boolean octal = context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix);
+      return spaceJustify(context, octal ? Seq.ch('0') : Seq.empty());
+    }
+    if (signum == 0) {
+      prefix = ""; // zero has no prefix, so none must be reserved in width or precision
     }
     Seq v0 = Seq.wrap(toString.apply(value));
     int precision = 1;
-- 
2.43.0


From dd04a30fd0249a08a0c02f8ae931a1994c1bffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:26 +0000
Subject: [PATCH 04/11] fix: honour the space flag for positive infinity

---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 02e216b..5efdb7f 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -153,6 +153,8 @@ public final class SeqFormatter {
         v0 = Seq.wrap("-Infinity");
       } else if (context.hasFlag(Flag.PLUS)) {
         v0 = Seq.wrap("+Infinity");
+      } else if (context.hasFlag(Flag.LEADING_SPACE)) {
+        v0 = Seq.wrap(" Infinity");
       } else {
         v0 = Seq.wrap("Infinity");
       }
-- 
2.43.0


From 878bd642893e3648194676af9b0fa17416846e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:34 +0000
Subject: [PATCH 05/11] fix: pad the mantissa of %#g in scientific notation to
 the precision

Trailing zeros were missing when the value has fewer digits than requested,
for example Double.MIN_VALUE or a BigDecimal of 1E+10.
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index 5efdb7f..31b0357 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -271,10 +271,12 @@ public final class SeqFormatter {
   }
 
   /** Formats the mantissa and exponent for %g when it chooses scientific representation. */
-  private static Seq formatGScientific(FormatContext context, FloatLayout layout) {
+  private static Seq formatGScientific(FormatContext context, FloatLayout layout, int precision) {
     Seq mantissa = layout.getMantissa();
     if (!context.hasFlag(Flag.ALTERNATE)) {
       mantissa = stripTrailingZeros(mantissa);
+    } else if (precision > 1) {
+      mantissa = padToPrecision(mantissa, precision);
     }
     return mantissa.append(Seq.ch('e')).append(layout.getExponent());
   }
@@ -300,7 +302,7 @@ public final class SeqFormatter {
       v0 = formatGDecimal(context, layout, precision);
     } else {
       // Use scientific ('e'-style) representation
-      v0 = formatGScientific(context, layout);
+      v0 = formatGScientific(context, layout, precision);
     }
 
     return signAndJustify(context, v0, value.isNegative());
-- 
2.43.0


From 76be142203cdd488e19c0471bda577f7e160c732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:43 +0000
Subject: [PATCH 06/11] fix: reject Integer.MIN_VALUE as a * width

Its negation overflows to the internal marker for a width taken from the
arguments, so it was silently ignored.
---
 src/main/java/io/fastprintf/appender/DefaultAppender.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/io/fastprintf/appender/DefaultAppender.java b/src/main/java/io/fastprintf/appender/DefaultAppender.java
index e947ff1..7f64c7b 100644
--- a/src/main/java/io/fastprintf/appender/DefaultAppender.java
+++ b/src/main/java/io/fastprintf/appender/DefaultAppender.java
@@ -103,6 +103,9 @@ public final class DefaultAppender implements Appender {
       if (w >= 0) {
         context = context.setWidth(w);
       } else {
+        if (-w < 0) { // -Integer.MIN_VALUE overflows
+          throw new PrintfException("Width %s is out of range", w);
+        }
         context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(-w);
       }
     }
-- 
2.43.0


From 79ad5360fb5141119ce0a30c0dda423c17e63898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:51 +0000
Subject: [PATCH 07/11] fix: compile format strings with many directives
 without overflowing the stack

The parser recursed once per directive. It now loops.
---
 src/main/java/io/fastprintf/Compiler.java | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index a3514a6..2bfbfed 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -21,7 +21,9 @@ final class Compiler {
   }
 
   void compile() {
-    parseNext();
+    while (!endOfSource()) {
+      parseNext();
+    }
   }
 
   private boolean endOfSource() {
@@ -29,7 +31,6 @@ final class Compiler {
   }
 
   private void parseNext() {
-    if (endOfSource()) return;
     char c = source.charAt(lookahead);
     if (c == '%') {
       lookahead++;
@@ -45,7 +46,6 @@ final class Compiler {
     if (c == '%') {
       lookahead++;
       appenders.add(new FixedStringAppender("%"));
-      parseNext();
       return;
     }
     // %[flags][width][.precision]specifier[{date-time-formatter}]
@@ -59,7 +59,6 @@ final class Compiler {
     }
     FormatContext context = FormatContext.create(flags, width, precision, dateTimeFormatter);
     appenders.add(new DefaultAppender(specifier, context));
-    parseNext();
   }
 
   private EnumSet<Flag> flags() {
-- 
2.43.0


From 7e49961434059fa7e95e06779631c56928cba7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:05:59 +0000
Subject: [PATCH 08/11] fix: make cached formatters safe to re-enter while an
 argument is rendered

A nested call on the same thread cleared the builder of the outer call.
---
 src/main/java/io/fastprintf/FastPrintfImpl.java | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/FastPrintfImpl.java b/src/main/java/io/fastprintf/FastPrintfImpl.java
index 0533ce1..303e64f 100644
--- a/src/main/java/io/fastprintf/FastPrintfImpl.java
+++ b/src/main/java/io/fastprintf/FastPrintfImpl.java
@@ -33,6 +33,8 @@ final class FastPrintfImpl implements FastPrintf {
       this.stringBuilderFactory =
           requiredCapacity -> {
             StringBuilder builder = threadLocalBuilder.get();
+            // Taken out while in use, so that a nested call gets a builder of its own.
+            threadLocalBuilder.remove();
             int currentCapacity = builder.capacity();
 
             // This is the core logic:
@@ -48,7 +50,6 @@ final class FastPrintfImpl implements FastPrintf {
               // The buffer is too big and we don't need it this time.
               // Create a new, reasonably-sized builder and replace the old one.
               builder = new StringBuilder(requiredCapacity);
-              threadLocalBuilder.set(builder);
 
             } else {
               // In all other cases, we reuse the existing builder:
@@ -87,7 +88,11 @@ final class FastPrintfImpl implements FastPrintf {
     for (Appender appender : appenders) {
       appender.append(consumer, iterator);
     }
-    return builder.toString();
+    String result = builder.toString();
+    if (threadLocalBuilder != null) {
+      threadLocalBuilder.set(builder);
+    }
+    return result;
   }
 
   @Override
-- 
2.43.0


From 8aacb5ade1262aa864b79e2f798e37f6d5f145a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:07 +0000
Subject: [PATCH 09/11] fix: print a BigDecimal zero as zero whatever its scale

%f of 0E+5 printed six integer zeros, %e and %g of 0.00 an exponent of -02.
---
 .../java/io/fastprintf/number/BigDecimalWrapper.java     | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index cea869e..b69da8a 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -13,15 +13,20 @@ public final class BigDecimalWrapper implements FloatForm {
   private final int signum;
 
   public BigDecimalWrapper(BigDecimal value) {
-    this.value = value.abs();
+    this.value = normalizeZero(value.abs());
     this.signum = value.signum();
   }
 
   public BigDecimalWrapper(BigInteger unscaledValue, int scale) {
-    this.value = new BigDecimal(unscaledValue.abs(), scale);
+    this.value = normalizeZero(new BigDecimal(unscaledValue.abs(), scale));
     this.signum = unscaledValue.signum();
   }
 
+  // A zero prints the same whatever its scale is.
+  private static BigDecimal normalizeZero(BigDecimal value) {
+    return value.signum() == 0 ? BigDecimal.ZERO : value;
+  }
+
   private static Seq insertDotAfterFirstChar(String unscaledString) {
     int length = unscaledString.length();
     Seq mant = Seq.ch(unscaledString.charAt(0));
-- 
2.43.0


From 260a28fa513ff86aa455877066caf94052ad9e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:15 +0000
Subject: [PATCH 10/11] fix: choose the notation of %g for a BigDecimal after
 rounding

999999.9 printed as 1000000 instead of 1e+06.
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index b69da8a..8d66eee 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -119,10 +119,12 @@ public final class BigDecimalWrapper implements FloatForm {
   public FloatLayout generalLayout(int precision) {
     BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
     BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
+    // The notation is chosen by the exponent of the value rounded to the precision.
+    BigDecimal rounded = value.round(new MathContext(precision));
     if ((value.equals(BigDecimal.ZERO))
-        || ((value.compareTo(tenToTheNegFour) >= 0) && (value.compareTo(tenToThePrec) < 0))) {
+        || ((rounded.compareTo(tenToTheNegFour) >= 0) && (rounded.compareTo(tenToThePrec) < 0))) {
 
-      int e = -value.scale() + (value.unscaledValue().toString().length() - 1);
+      int e = -rounded.scale() + (rounded.unscaledValue().toString().length() - 1);
 
       // xxx.yyy
       //   g precision (# sig digits) = #x + #y
-- 
2.43.0


From 567a9465c29aba494341e77e8f832bc866744419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:19:28 +0000
Subject: [PATCH 11/11] fix: print two exponent digits for ten-digit integers
 in %e

A BigDecimal or BigInteger with scale zero and exactly ten digits has
exponent nine, which was printed as +9 instead of +09.
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 8d66eee..43041ac 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -43,7 +43,7 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale == 0) {
       if (length > 1) {
         Seq mant = insertDotAfterFirstChar(unscaledString);
-        Seq exp = length < 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
+        Seq exp = length <= 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
         return new FloatLayout(mant, exp);
       } else {
         return new FloatLayout(Seq.wrap(unscaledString), Seq.wrap("+00"));
-- 
2.43.0

