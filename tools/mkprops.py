# Writes /verif/properties.jsonl (kept as a script so that the wording stays reviewable).
import json, os
M = "src/main/java/io/fastprintf/"
def P(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": [M + f for f in files],
         "mechanism": [{"name": n, "where": M + w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": M + w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

props = [
P("C01", "Every format string compiles to exactly what it says, or fails cleanly",
  "Compiling a non-null format string of any length either succeeds, and the formatter then consists of exactly the literal runs (with %% standing for one percent sign) and the directives %[flags][width][.precision]specifier[{pattern}] of the string in their written order, each directive carrying exactly the flags, width, precision, specifier and date pattern that were written; or it fails with a syntax exception (or, for a width or precision above 65536, the library's own exception). A repeated flag, an unknown specifier, a directive cut off by the end of the string, a number that does not fit an int, and an empty, unclosed or malformed {pattern} are always rejected, with an error index inside the string (0 to its length), and nothing well formed is ever rejected. The flag characters are - # + space 0; the specifiers are d i u o x X f F e E g G a A c s S t T n p %; a bare '.' means precision 0; '*' means 'taken from the arguments'; a {pattern} is only read after t and T, a quoted brace does not close it.",
  ["inputs"], "all non-null Java strings as format strings",
  "The tests compile a few dozen format strings; the format language is infinite and errors hide in rare orderings (quote handling in patterns, digits running to the end of the string, many directives in one string).",
  ["Compiler.java", "Flag.java", "Specifier.java", "FormatContext.java", "PrintfSyntaxException.java", "appender/FixedStringAppender.java"],
  [("recursive-descent scan over one cursor", "Compiler.java"), ("flag and specifier tables", "Flag.java"), ("range check of width and precision", "FormatContext.java")],
  ["FastPrintf.compile", "FastPrintf.format of the compiled formatter"],
  [("lookahead", "cursor: everything before it has been turned into appenders", "Compiler.java")]),

P("C02", "Arguments are consumed left to right, one per directive and one per *",
  "Formatting walks the directives in order: literal text consumes no argument; each directive consumes, in this order, one argument for a * width if it has one, one argument for a .* precision if it has one, and then exactly one value argument (also for %n, which prints nothing, and for a percent directive with flags, width or precision such as %5%, which prints a percent sign). If the arguments run out, the call throws the library's PrintfException; surplus arguments are ignored, and the output is the concatenation of the pieces in format order.",
  ["inputs", "programs"], "all compiled formats and all argument lists of any length",
  "Tests use short fixed pairs of formats and arguments; they do not cover every interleaving of literals, * widths, .* precisions and short or long argument lists.",
  ["appender/DefaultAppender.java", "appender/FixedStringAppender.java", "FastPrintfImpl.java", "ArgsImpl.java"],
  [("one iterator threaded through all appenders", "FastPrintfImpl.java"), ("nextInt and hasNext checks", "appender/DefaultAppender.java")],
  ["FastPrintf.format"]),

P("C03", "A * width or .* precision acts like the same number written inline",
  "A directive whose width or precision comes from an int argument formats its value exactly as the directive with that number written in the format string would: a negative width means the - flag with the absolute value as width, and a negative precision means no precision at all. A width whose magnitude exceeds 65536, or a precision above 65536, is rejected with PrintfException for every int including the most negative one. The compiled directive itself is unchanged by such a call, so the next call starts from the written flags again.",
  ["inputs", "histories"], "all int values for dynamic width and precision, all flag sets, all specifiers, any number of calls on one formatter",
  "Equivalence has to hold for all 2^32 ints and all flag sets; tests try a few small values and one limit.",
  ["appender/DefaultAppender.java", "FormatContext.java"],
  [("resolution of preceding width and precision into a new context", "appender/DefaultAppender.java"), ("copy-on-write contexts with a range check", "FormatContext.java")],
  ["FastPrintf.format"]),

P("C04", "%d and %i print every integer with exact sign, precision, zero and width rules",
  "For every byte, short, char, int, long and BigInteger value and every combination of flags, width and precision, %d and %i print the decimal digits of the magnitude, padded with leading zeros to the precision (default 1; precision 0 prints no digits for zero), preceded by - for negative values, otherwise by + under the + flag, otherwise by a space under the space flag. The result is then space-padded to the width, on the left by default and on the right under -; the 0 flag, when there is no precision and no - flag, instead fills with zeros between sign and digits up to the width.",
  ["inputs", "configurations"], "all integral values (including the minimum values), all 32 flag sets, all widths and precisions in range",
  "The value space is unbounded and interacts with 32 flag sets and two numeric parameters; tests pick a few hundred points.",
  ["appender/SeqFormatter.java", "appender/DefaultAppender.java", "number/IntForm.java", "number/IntWrapper.java", "number/LongWrapper.java", "number/ByteWrapper.java", "number/ShortWrapper.java", "number/BigIntegerWrapper.java"],
  [("magnitude strings with MIN_VALUE special cases", "number/IntWrapper.java"), ("precision/zero-pad arithmetic", "appender/SeqFormatter.java")],
  ["FastPrintf.format"]),

P("C05", "%u %o %x %X print the unsigned value with exact prefix, zero and width rules",
  "For every byte, short, int and long, %u, %o and %x print the two's-complement value at that type's own width as an unsigned number (char and non-negative BigInteger as they are; a negative BigInteger is rejected with PrintfException) in base 10, 8 or 16 with lower-case digits and leading zeros up to the precision; %X is the upper-case form. Under # a non-zero value gets the prefix 0x (0X), and an octal result is made to start with 0 by raising the precision if needed, also for zero; precision 0 prints no digits for zero. Signs are never printed, padding to the width follows the same rules as for %d, with zero fill placed after the prefix.",
  ["inputs", "configurations"], "all integral values, all flag sets, all widths and precisions in range, four specifiers",
  "Corner cases such as zero with #, 0 and a width are outside the sampled points of the tests.",
  ["appender/SeqFormatter.java", "appender/DefaultAppender.java", "number/IntWrapper.java", "number/LongWrapper.java", "number/ByteWrapper.java", "number/ShortWrapper.java", "number/BigIntegerWrapper.java"],
  [("prefix and precision arithmetic", "appender/SeqFormatter.java"), ("unsigned renderings per type", "number/ByteWrapper.java")],
  ["FastPrintf.format"]),

P("C06", "Field width: never truncates, pads to exactly the width on the right side",
  "For every directive that prints a value (all specifiers except n and %), the printed piece is the text the same directive produces without width, padded to exactly the width when it is shorter and left untouched when it is not. The padding is spaces in front by default, spaces behind under the - flag, and, for numeric conversions of finite numbers under the 0 flag (and without -, and for integers without a precision), zeros inserted right after the sign and the 0x prefix; text, character, pointer and date conversions, NaN and infinities are only ever padded with spaces.",
  ["inputs", "configurations"], "all specifiers, flag sets, widths, precisions and values",
  "The relation between the padded and the unpadded result has to hold for every value of every type; tests check fixed expected strings.",
  ["appender/SeqFormatter.java", "appender/DefaultAppender.java", "FormatContext.java"],
  [("spaceJustify, sign, signAndJustify", "appender/SeqFormatter.java")],
  ["FastPrintf.format"]),

P("C07", "%f and %e round the shortest decimal half up at every precision",
  "For every finite double (and float or integer argument converted to double), %f prints the value's shortest round-trip decimal (the one Double.toString denotes) rounded half up to exactly the requested number of fraction digits (default 6), and %e prints one non-zero leading digit (zero for zero), the requested number of fraction digits rounded the same way with carries adjusting the exponent, and e followed by the sign and at least two exponent digits. No decimal point is printed at precision 0 unless # is given; negative values and negative zero get a minus sign, others the + or space the flags ask for; the infinities print as Infinity or -Infinity with the same sign flags and NaN prints as NaN, never signed. %E is the upper-case form of %e, %F of %f.",
  ["inputs", "configurations"], "all 2^64 double values, precisions 0 to 65536, all flag sets",
  "Rounding carries, exponent-width changes and padding beyond 17 digits occur at sparse inputs among 2^64; tests compare a few thousand values with the JDK.",
  ["util/internal/FormattedFPDecimal.java", "number/DoubleWrapper.java", "appender/SeqFormatter.java", "number/FloatLayout.java", "util/internal/MathUtils.java"],
  [("round() of the decimal triple", "util/internal/FormattedFPDecimal.java"), ("digit layout", "util/internal/FormattedFPDecimal.java"), ("zero extension", "appender/SeqFormatter.java")],
  ["FastPrintf.format"]),

P("C08", "%g picks fixed or scientific by the rounded exponent and trims zeros",
  "For every finite double and precision P (default 6, 0 taken as 1), let X be the decimal exponent of the shortest round-trip decimal after rounding half up to P significant digits: %g prints fixed notation when -4 <= X < P and scientific notation otherwise, showing those P significant digits. Without # trailing zeros of the fraction, and a then trailing decimal point, are removed; with # all P significant digits are kept, with a decimal point in fixed notation and, when P > 1, in scientific notation. Zero prints as 0 (with # as 0. followed by P-1 zeros), %G is the upper-case form, and sign flags, NaN and infinities are as for %f.",
  ["inputs", "configurations"], "all finite doubles, precisions 0 to 65536, all flag sets",
  "The switch between notations depends on the rounded value; the boundary cases are sparse.",
  ["util/internal/FormattedFPDecimal.java", "number/DoubleWrapper.java", "appender/SeqFormatter.java"],
  [("general()", "util/internal/FormattedFPDecimal.java"), ("stripTrailingZeros and padToPrecision", "appender/SeqFormatter.java")],
  ["FastPrintf.format"]),

P("C09", "%a prints the exact or correctly rounded hexadecimal value",
  "For every finite double %a without precision prints 0x followed by exactly the digits of Double.toHexString with an explicit exponent sign; with a precision of 1 to 12 hex digits (0 counts as 1) it prints the value rounded to that many fraction digits half to even, normalised to a leading 1 also for subnormals, and with 13 or more it pads the exact form with zeros. Sign flags, # and width apply, with zero fill between 0x and the first digit; %A is the upper-case form, and decimal arguments of arbitrary precision are rejected with PrintfException.",
  ["inputs", "configurations"], "all doubles, all precisions, all flag sets",
  "Rounding to even, carries into the exponent and subnormal normalisation each need specific bit patterns.",
  ["number/DoubleWrapper.java", "appender/SeqFormatter.java", "util/internal/DoubleConsts.java"],
  [("hexLayout bit rounding", "number/DoubleWrapper.java")],
  ["FastPrintf.format"]),

P("C10", "Big decimals print exactly: %f %e %g round half up at the asked digit",
  "For every BigDecimal (and BigInteger) argument %f, %e and %g print the exact mathematical value rounded half up at the requested digit, in the same textual shape, with the same sign, #, zero-trimming and notation-choice rules as for doubles and with no loss of digits before that position. The text depends only on the numeric value, not on the scale it happens to be stored with; in particular every zero prints as zero with exponent +00.",
  ["inputs", "configurations"], "all BigDecimal values with scales far from the int limits, precisions 0 to 65536, all flag sets",
  "Unscaled value and scale are unbounded and the layout code has separate branches for negative, small and large scales and for carries.",
  ["number/BigDecimalWrapper.java", "appender/SeqFormatter.java", "traits/BigIntegerTraits.java", "traits/BigDecimalTraits.java"],
  [("decimalLayout, scientificLayout, generalLayout", "number/BigDecimalWrapper.java")],
  ["FastPrintf.format"]),

P("C11", "Text conversions and upper-case forms change only what they say",
  "%s prints the argument's text cut to at most precision characters (all of it without a precision), %c its character, and a null prints as null. Every upper-case specifier (X E F G A S T) prints exactly the text of its lower-case twin with the letters a to z replaced by A to Z and every other character, including non-ASCII letters, unchanged. Sign, # and 0 flags have no effect on text and character conversions.",
  ["inputs", "configurations"], "all texts (String, any CharSequence, any object), all characters, all flag sets, widths and precisions",
  "Holds for every character sequence of every length and representation; tests use short ASCII samples.",
  ["appender/SeqFormatter.java", "appender/DefaultAppender.java", "util/Utils.java", "traits/CharSequenceTraits.java", "traits/ObjectTraits.java", "seq/StrView.java", "seq/CharArray.java", "seq/Repeated.java", "seq/LazySeq.java"],
  [("s() and c()", "appender/SeqFormatter.java"), ("ASCII case mapping", "util/Utils.java")],
  ["FastPrintf.format"]),

P("C12", "Every character sequence the library builds behaves as one fixed string",
  "Any sequence obtained from the public sequence factories and operations (wrap, ch, repeated, forArray, lazy, concat, join, append, prepend, subSequence, upperCase) denotes one fixed string as long as the caller's array or producer stays unchanged: length, charAt, isEmpty, startsWith, indexOf, toString, both appendTo forms and iteration over the parts all agree with it. Concatenation, slicing and upper-casing denote the concatenation, the slice and the ASCII upper-casing of the operands' strings for every index; out-of-range charAt or subSequence arguments throw instead of returning something.",
  ["inputs", "programs", "histories"], "all trees of sequence operations of any depth and all indices",
  "The state space is all operation trees; tests cover trees of two to four leaves and never compare all observers on one object.",
  ["seq/Seq.java", "seq/AtomicSeq.java", "seq/AtomicSeqIterable.java", "seq/Concat.java", "seq/SeqArray.java", "seq/StrView.java", "seq/CharArray.java", "seq/Repeated.java", "seq/LazySeq.java", "seq/EmptySeq.java"],
  [("leaf views with offset, length and case flag", "seq/StrView.java"), ("right-leaning tree and trampolined iterator", "seq/Concat.java"), ("default methods over the leaf iterator", "seq/AtomicSeqIterable.java")],
  ["Seq", "AtomicSeq"]),

P("C13", "Output does not depend on sink, buffer settings, cache or earlier calls",
  "For one compiled format and equal arguments the text is the same whether it is returned as a String, appended to a StringBuilder or written to any other Appendable, whatever initial capacity is set and whether or not the per-thread cache is enabled; appending adds exactly that text after what the sink already held and returns the same sink. Earlier calls on the formatter, including calls that failed half way, oversized results, calls on other threads and nested calls made while an argument is being rendered, never influence the text.",
  ["inputs", "histories", "configurations"], "all formats and arguments, all capacities, all histories of successful, failed and nested calls",
  "Leaks from a reused buffer show up only after particular call sequences (a failed call, an oversized result, re-entrance).",
  ["FastPrintfImpl.java", "FastPrintf.java", "seq/Seq.java", "seq/StrView.java", "seq/CharArray.java", "seq/Repeated.java", "seq/LazySeq.java", "seq/AtomicSeqIterable.java"],
  [("buffer factory and reset", "FastPrintfImpl.java"), ("separate StringBuilder and Appendable paths", "seq/Seq.java")],
  ["FastPrintf.format", "FastPrintf.enableThreadLocalCache", "FastPrintf.setStringBuilderInitialCapacity"],
  [("threadLocalBuilder", "buffer kept per thread between calls", "FastPrintfImpl.java")]),

P("C14", "Arguments keep their order and value however they are supplied",
  "An argument supplied through a typed put method, its OrNull twin, put(Object) or the varargs and iterable factories formats identically under every specifier except p, arguments keep the order in which they were added, values() returns them (boxed) in that order, and null formats as null under %s and is rejected with PrintfException by numeric and date conversions. The numeric value used by integer, float, char and */.* conversions is Java's own conversion of the argument: widening for integers, truncation toward zero for a double or float under integer conversions, 0 or 1 for booleans, parsed decimal text for strings (rejected with PrintfException when it is not a number), longValue or doubleValue for other numbers, and for dates the epoch milliseconds under integer conversions and the epoch seconds elsewhere; char and */.* conversions round a float or double with Math.round and keep the low bits of wider integers.",
  ["inputs", "configurations"], "all argument values of all supported types and all ways to supply them",
  "Each type has its own class and its own cached or lazy shortcuts; equality must hold for every value, tests sample a few per type.",
  ["Args.java", "ArgsImpl.java", "traits/FormatTraits.java", "traits/IntTraits.java", "traits/LongTraits.java", "traits/ByteTraits.java", "traits/ShortTraits.java", "traits/CharacterTraits.java", "traits/BooleanTraits.java", "traits/FloatTraits.java", "traits/DoubleTraits.java", "traits/BigIntegerTraits.java", "traits/BigDecimalTraits.java", "traits/CharSequenceTraits.java", "traits/NullTraits.java", "traits/ObjectTraits.java", "traits/TemporalAccessorTraits.java", "traits/RefSlot.java", "util/Utils.java"],
  [("type dispatch", "ArgsImpl.java"), ("per-type traits", "traits/IntTraits.java"), ("digit counting for lazy text", "util/Utils.java")],
  ["Args", "FastPrintf.format"]),

P("C15", "Doubles are turned into the unique shortest decimal that reads back equal",
  "For every finite positive double the decimal used by %f, %e and %g (before rounding to the requested precision) lies in the rounding interval of that double, so it reads back as the same double; no decimal with fewer digits does, and among those of minimal length (two digits are allowed when one suffices) it is the closest, ties going to the even digit. This is the decimal specified for Double.toString since JDK 19, independent of the JDK the library runs on.",
  ["inputs"], "all finite positive doubles (about 9.2e18)",
  "The computation is exact integer arithmetic over a 617-entry table; one wrong table bit or comparison affects a handful of inputs that sampling does not meet.",
  ["util/internal/DoubleToDecimal.java", "util/internal/MathUtils.java", "util/internal/MultiplyHigh.java"],
  [("Schubfach selection", "util/internal/DoubleToDecimal.java"), ("table of powers of ten", "util/internal/MathUtils.java"), ("128-bit multiply fallback", "util/internal/MultiplyHigh.java")],
  ["FastPrintf.format with %e and a precision of 17 or more digits"]),

P("C16", "Date and time conversions pick the documented instant and pattern",
  "%t{pattern} prints the argument formatted by exactly that java.time pattern, and plain %t uses the ISO offset form for zoned and offset values and for instants (in the system default zone), the ISO local forms for local date-times and dates, and rejects other temporal types with PrintfException; %T is the upper-case form. A Date or Calendar is taken as its instant; a non-negative integer is taken as epoch seconds when it fits 32 unsigned bits (ints always, as unsigned) and as epoch milliseconds when it is larger, and a negative long is rejected.",
  ["inputs", "configurations"], "all temporal arguments, all non-negative integers, all valid patterns, flags and widths",
  "The seconds/milliseconds boundary, unsigned ints and the per-type default need specific values; tests use current times.",
  ["appender/SeqFormatter.java", "util/Utils.java", "traits/TemporalAccessorTraits.java", "traits/ObjectTraits.java", "traits/IntTraits.java", "traits/LongTraits.java", "traits/BigIntegerTraits.java"],
  [("t()", "appender/SeqFormatter.java"), ("longToInstant", "util/Utils.java")],
  ["FastPrintf.format"]),

P("C17", "Formatting changes nothing that another call or thread can see",
  "A compiled formatter and the argument container are never modified by formatting: calling enableThreadLocalCache or setStringBuilderInitialCapacity returns a new formatter and leaves the receiver's behaviour alone, and a format call writes only to the sink it was given, to objects it created itself during the call, to its own thread's buffer, and to write-once caches whose content is a function of immutable data. The flag sets handed out by or to a directive are copies, so mutating them does not change the directive.",
  ["inputs", "histories", "schedules"], "all calls, any number of threads (as a frame condition on each call)",
  "Interference needs a particular schedule or a caller that mutates what it was handed; tests run single calls.",
  ["FastPrintfImpl.java", "FormatContext.java", "ArgsImpl.java", "appender/DefaultAppender.java", "appender/FixedStringAppender.java", "seq/LazySeq.java", "seq/CharArray.java", "util/internal/FormattedFPDecimal.java", "util/internal/DoubleToDecimal.java"],
  [("final fields and defensive copies", "FormatContext.java"), ("fresh working objects per call", "util/internal/FormattedFPDecimal.java")],
  ["FastPrintf", "FormatContext.getFlags"]),
]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
