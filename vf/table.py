"""Which units decide which property."""

TRUSTED = [
    "javac (class files are what runs)",
    "class-file semantics as implemented in /verif/vf (engine.py, loops.py)",
    "z3",
    "models of the Java library methods listed here (/verif/vf/jdk.py)",
]

ASSUMPTIONS = [
    "texts and sequences are shorter than 2^31 characters, numbers have at most 2^30 digits, and memory suffices",
    "loops and recursion terminate (partial correctness)",
    "exception message texts are not part of any property",
    "no class outside the library implements its interfaces",
]

INT_WRAP = ["IntForm(%s)" % k for k in ("byte", "short", "int", "long", "BigInteger")]

SEQS = ["Seq %s" % c for c in ("StrView", "CharArray", "Repeated", "Repeated (JDK 21)", "EmptySeq", "LazySeq", "Concat", "SeqArray", "factories")]

APPEND = ["append %%%s" % c for c in "diuoxXfFeEgGaAcsStTnp%"]
FORMAT = ["FastPrintfImpl.format (%s)" % w for w in ("plain", "capacity", "cache", "capacity+cache", "cache+capacity")]


GS = ["SeqFormatter.g (%s)" % n for n in ("zero", "integer", "fixed", "fixed below 1", "one digit and exponent", "scientific")]
FORMATTERS = ["SeqFormatter." + c for c in "duoxfeacspt"] + GS


def appends(letters):
    return ["append %%%s" % c for c in letters]


CHAIN = ("a formatter is reached from FastPrintf.compile by enableThreadLocalCache and setStringBuilderInitialCapacity only; "
         "each of these is proved to depend on the receiver's own fields, so five configurations stand for all chains")
NESTED = ("a nested call made while an argument is rendered is modelled as an arbitrary change of this thread's buffer; "
          "other threads reach a formatter only through its final fields")

ROUND = ["FormattedFPDecimal.round (%s)" % n for n in ("to 9 digits", "10 to 13 digits", "14 to 17 digits")]
SPLIT = (["DoubleToDecimal.split (exponents %d to %d)" % (lo, min(lo + 255, 2046)) for lo in (1025, 1, 257, 513, 769, 1281, 1537, 1793)]
         + ["DoubleToDecimal.split (subnormal)", "DoubleToDecimal.rop", "DoubleToDecimal.toChars", "MultiplyHigh", "Farey lemma"])

KINDS = ("boolean", "char", "byte", "short", "int", "long", "float", "double", "String", "CharSequence", "Seq", "BigInteger", "BigDecimal", "TemporalAccessor",
         "Date", "Calendar", "Number", "Object", "null")

PROPS = {
    "C01": {"level": "proof", "note": "Compiler.compile proved against the grammar for every format string: the compiled items cover the string in order, each is the literal run or the directive written there, "
                                      "malformed strings and only those are rejected with a syntax error whose index lies in the string.",
            "own": ["Compiler", "Specifier.valueOf", "FormatContext", "append literal"], "deps": SEQS,
            "assumptions": ["Integer.parseInt on ASCII digits yields their value or NumberFormatException above 2147483647",
                            "DateTimeFormatter.ofPattern accepts or rejects as a function of the pattern text",
                            "the format string is shorter than 2^30 characters"]},
    "C02": {"level": "proof", "note": "DefaultAppender.append for every specifier and FixedStringAppender.append proved against their argument-consumption contracts; "
                                      "FastPrintfImpl.format proved to run the appenders in order on one argument iterator and to join the pieces.",
            "own": APPEND + ["append literal", "Args order"] + FORMAT[:1], "deps": SEQS},
    "C03": {"level": "proof", "note": "For every specifier the formatter call made for a * width or precision is proved to be the call made for the same number written inline, "
                                      "for every int; the compiled context is proved unchanged.",
            "own": APPEND + ["FormatContext"], "deps": SEQS},
    "C13": {"level": "proof", "note": "FastPrintfImpl.format proved for all five configurations and every state an earlier or nested call can leave in the thread's buffer.",
            "own": FORMAT + ["FastPrintfImpl configuration"], "deps": SEQS, "assumptions": [CHAIN, NESTED]},
    "C17": {"level": "proof", "note": "Frame conditions: no proof unit lets a write to a pre-existing object pass other than the named sink, buffer and write-once caches.",
            "own": FORMAT + ["FastPrintfImpl configuration", "FormatContext"] + APPEND + ["append literal"], "deps": SEQS, "assumptions": [CHAIN, NESTED]},
    "C04": {"level": "proof", "note": "SeqFormatter.d and all IntForm implementations proved for every flag set, width, precision and value; the Seq operations are used through their contracts, which the Seq units prove.",
            "own": ["SeqFormatter.d"] + appends("di") + INT_WRAP, "deps": SEQS},
    "C05": {"level": "proof", "note": "SeqFormatter.u, o, x and all IntForm implementations proved for every flag set, width, precision and value; the Seq operations are used through their contracts, which the Seq units prove.",
            "own": ["SeqFormatter.u", "SeqFormatter.o", "SeqFormatter.x"] + appends("uoxX") + INT_WRAP, "deps": SEQS},
    "C06": {"level": "proof", "note": "Every SeqFormatter conversion proved against a contract that fixes the text for every width, and the width law proved as a lemma over those contracts; "
                                      "the dispatch to the conversion and upper-casing are proved per specifier.",
            "own": FORMATTERS + ["width law"], "deps": SEQS + appends("diuoxXfFeEgGaAcsStTp")},
    "C07": {"level": "proof", "note": "SeqFormatter.f and e, the DoubleWrapper layouts and FormattedFPDecimal.round proved for every double, precision and flag set: "
                                      "the text is the shortest decimal rounded half up at the asked digit.",
            "own": ["SeqFormatter.f", "SeqFormatter.e", "DoubleWrapper.decimalLayout", "DoubleWrapper.scientificLayout", "DoubleWrapper sign"] + ROUND + appends("fFeE"),
            "deps": SEQS + SPLIT},
    "C08": {"level": "proof", "note": "SeqFormatter.g, DoubleWrapper.generalLayout and FormattedFPDecimal.round proved for every double, precision and flag set.",
            "own": GS + ["DoubleWrapper.generalLayout", "DoubleWrapper sign"] + ROUND + appends("gG"), "deps": SEQS + SPLIT},
    "C09": {"level": "proof", "note": "SeqFormatter.a and DoubleWrapper.hexLayout proved for every double and precision: digits exact or rounded half to even, subnormals normalised when rounded; "
                                      "BigDecimalWrapper.hexLayout proved to refuse with PrintfException.",
            "own": ["DoubleWrapper.hexLayout (%s)" % n for n in ("1 to 4 digits", "5 to 8 digits", "9 to 12 digits", "exact")] + ["SeqFormatter.a", "DoubleWrapper sign", "BigDecimalWrapper sign"] + appends("aA"),
            "deps": SEQS, "assumptions": ["Double.toHexString prints as documented; multiplying a subnormal double by 2^54 is exact"]},
    "C10": {"level": "proof", "note": "The BigDecimalWrapper layouts and signs proved for every unscaled value, scale and precision: the digits are those of the value rounded half up at the asked digit, "
                                      "laid out as for doubles; SeqFormatter.f, e and g proved over that layout contract.",
            "own": ["BigDecimalWrapper.%s" % m for m in ("decimalLayout", "scientificLayout", "generalLayout")] + ["BigDecimalWrapper sign", "SeqFormatter.f", "SeqFormatter.e"] + GS
                   + ["Args.put BigDecimal", "Args.put BigInteger"] + appends("fFeEgG"), "deps": SEQS,
            "assumptions": ["BigDecimal.round, setScale and the constructor with a MathContext round as documented; a value rounded half up by dropping k digits has its digit count less k, "
                            "or one more when the dropped part carries through all kept digits",
                            "scale and digit count lie within 5*10^8"]},
    "C11": {"level": "proof", "note": "SeqFormatter.s and c proved for every text, character, flag set, width and precision; every upper-case directive proved to be the upper-casing of its lower-case formatter's text.",
            "own": ["SeqFormatter.s", "SeqFormatter.c"] + appends("csSXFEGAT") + ["Args.put %s as text" % k for k in KINDS], "deps": SEQS},
    "C14": {"level": "proof", "note": "For every kind of argument and every way to supply it, the one element added at the end of the container is proved to give the required integer, float, text, character, int and date views "
                                      "and the argument itself; the varargs and iterable factories, iterator() and values() are proved to keep the order.",
            "own": ["Args.put %s" % k for k in KINDS] + ["Args order"], "deps": SEQS,
            "assumptions": ["arrays as arguments of %s are covered by the bounded cross-check only",
                            "temporal arguments lie within 9*10^15 seconds of the epoch",
                            "Float.toString and Double.toString, the number parsers and the primitive float conversions are functions of their operand"]},
    "C15": {"level": "proof", "note": "DoubleToDecimal.split proved for every positive double, exponent by exponent: the decimal is the shortest and closest one in the rounding interval; "
                                      "the table of powers of ten, rop, toChars and both multiplyHigh implementations proved precise enough for it.",
            "own": SPLIT, "deps": [],
            "assumptions": ["the multiple of 10^(k+1) in the rounding interval, or else the multiple of 10^k nearest to the double, is the decimal of Double.toString (paper lemma, DESIGN.md C15); "
                            "significands below 1000 and powers of two are checked against the definition itself",
                            "the Farey-neighbour certificate of each power of ten is evaluated in exact rational arithmetic; the inequalities it rests on are discharged as obligations"]},
    "C16": {"level": "proof", "note": "SeqFormatter.t proved for every temporal family, with and without a pattern; the date view of every kind of argument proved to be the documented instant or a rejection.",
            "own": ["SeqFormatter.t"] + appends("tT") + ["Args.put %s as date" % k for k in KINDS], "deps": SEQS,
            "assumptions": ["DateTimeFormatter.format is a function of the formatter and the temporal value"]},
    "C12": {"level": "proof", "note": "Every method of every Seq implementation, their iterators, the unfold trampoline and the public factories proved against one contract "
                                      "over the denoted text, for all texts, indices and tree shapes.",
            "own": SEQS, "deps": [],
            "assumptions": ["the caller's array and the lazy producer stay unchanged and the producer appends a text of the declared length (stated in the property)",
                            "the total length and the number of parts of a concatenation fit an int"]},
}

# seconds allowed in the quick tier where more than the default is needed
BUDGET = {"Compiler": 420}

NOT_APPLICABLE = {}
