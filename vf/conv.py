"""SeqFormatter s, c, p, t and f, e, g, a over the contracts of FormatTraits and FloatForm, and the law of field widths."""
import re
import struct
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Lam, Cls, Dbl, Maybe, State, Ob
from .core import P, SEQ, ATOMIC, Root, find, view, mk_seq, build
from . import ints, dispatch
from .ints import CTX, SF, Ctx, MAXW, pad, sign_text, zeros, spec_d, spec_unsigned, ctx_text, ival, printf_exc
from .dispatch import TRAITS, FLOATFORM, mk_traits

LAYOUT = P + "number/FloatLayout"
SLOT = P + "traits/RefSlot"


# ---------------------------------------------------------------- contract of FloatForm

def digits_text(st, p, lo=1, hi=MAXI, first=False, hexa=False):
    """Unknown run of digits; first: the leading one is not 0."""
    n = var(fresh_name("n_" + p), (lo, hi))
    st.add(n >= lo, n <= hi)
    t = Opq(fresh_name(p), n, (48, 102) if hexa else (48, 57))
    if first:
        st.add(t.at(0) != 48)
    return t


class Layout:
    """What a layout method may return: mantissa text, its dot, its significant digits, exponent text."""

    def __init__(self, M, dot, sig, exp=None):
        self.M, self.dot, self.sig, self.exp = M, dot, sig, exp


def nodot(L):
    return not is_z(L.dot) and L.dot == -1


def shapes(st, kind, p):
    """[(state, Layout)]: the contract of decimalLayout (f), scientificLayout (e), generalLayout (g), hexLayout (a).

    f: digits, or digits.digits with at most p fraction digits, no dot when p is 0.
    e: one digit, or one digit followed by a dot and at most p digits (no dot when p is 0), and an exponent text.
    g: digits with at most p significant ones, in fixed notation without an exponent or as for e with p - 1.
    a: digits.digits with one to p fraction digits and an exponent text.
    """
    out = []

    def exponent(s):
        x = jdk.unknown_text(s, "expo", 2)
        s.add(le(x.len(), 32))
        return x

    def case(fn):
        s = st.fork()
        out.append((s, fn(s)))

    def plain(s, dot, maxfrac, first, one=False, exp=False, hexa=False, minfrac=0):
        I = digits_text(s, "int", 1, 1 if one else MAXI // 8, first, hexa)
        x = exponent(s) if exp else None
        if not dot:
            return Layout(I, -1, I.len(), x)
        F = digits_text(s, "frac", minfrac, MAXI // 8, hexa=hexa)
        s.add(le(F.len(), maxfrac))
        return Layout(cat(I, Lit("."), F), I.len(), add(I.len(), F.len()), x)

    def dotted(**k):
        def fn(s):
            s.add(lt(0, k["maxfrac"]))
            return plain(s, True, **k)
        return fn
    if kind == "f":
        case(lambda s: plain(s, False, 0, False))
        case(dotted(maxfrac=p, first=False))
    elif kind == "e":
        case(lambda s: plain(s, False, 0, False, one=True, exp=True))
        case(dotted(maxfrac=p, first=False, one=True, exp=True))
    elif kind == "a":
        case(lambda s: plain(s, True, p, False, exp=True, hexa=True, minfrac=1))
    elif kind == "g":
        def fixed(s, dot):
            L = plain(s, dot, p, True)
            s.add(le(L.sig, p))
            return L

        def small(s):
            k = var(fresh_name("k"), (0, MAXI // 8))
            s.add(k >= 0, k <= MAXI // 8)
            T = digits_text(s, "sigd", 1, MAXI // 8, True)
            s.add(le(T.len(), p))
            return Layout(cat(Lit("0."), Rep(48, k), T), 1, T.len())
        case(lambda s: Layout(Lit("0"), -1, 1))
        case(lambda s: fixed(s, False))
        case(lambda s: fixed(s, True))
        case(small)
        case(lambda s: plain(s, False, 0, True, one=True, exp=True))
        case(dotted(maxfrac=sub(p, 1), first=True, one=True, exp=True))
    return out


KIND = {"decimalLayout": "f", "scientificLayout": "e", "generalLayout": "g", "hexLayout": "a"}


def mk_floatform(E, st):
    nan, inf, neg = z3.Bool("isnan"), z3.Bool("isinf"), z3.Bool("isneg")
    sg = var("signum", (-1, 1))
    st.add(Not(And(nan, inf)), in_range(sg, (-1, 1)), neg == (sg < 0))
    return st.new(FLOATFORM, {}, {"abs": "floatform", "nan": nan, "inf": inf, "sg": sg}), nan, inf, neg


def h_floatform(E, st, ref, name, desc, args):
    d = st.obj(ref).d
    if "nan" not in d:
        return NotImplemented
    if name == "isNaN":
        return If(d["nan"], 1, 0)
    if name == "isInfinite":
        return If(d["inf"], 1, 0)
    if name == "signum":
        return d["sg"]
    if name == "isNegative":
        return If(d["sg"] < 0, 1, 0)
    if name in KIND:
        E.oblige(st, "%s is asked of a finite number with a precision in range" % name, And(Not(d["nan"]), Not(d["inf"]), le(0, args[0]), le(args[0], MAXW)))
        if "layout" in st.ghost:
            raise Unsupported("more than one layout is asked for")
        out = []
        allowed = shapes(st, KIND[name], args[0])
        only = getattr(E, "only_shape", None)
        for s, L in allowed if only is None else allowed[only:only + 1]:
            if check(s.pc) == "unsat":
                continue
            m = mk_seq(E, s, L.M)
            x = None if L.exp is None else mk_seq(E, s, L.exp)
            s.ghost["layout"] = (KIND[name], args[0], L)
            out.append(Out("ret", s, s.new(LAYOUT, {}, {"abs": "layout", "m": m, "x": x})))
        return out
    return NotImplemented


def h_layout(E, st, ref, name, desc, args):
    d = st.obj(ref).d
    if name == "getMantissa":
        return d["m"]
    if name == "getExponent":
        return d["x"]
    return NotImplemented


# ---------------------------------------------------------------- what is printed

def justify(cx, sg, pre, digits, fill):
    """Sign, prefix and digits in the field: zeros after the prefix when fill, else spaces."""
    inner = sub(sub(sub(cx.w, sg.len()), pre.len()), digits.len())
    return pad(cx, cat(sg, pre, ite(And(fill, Not(cx.left)), zeros(inner), EMPTY), digits))


def spec_special(cx, nan, neg):
    return pad(cx, ite(nan, Lit("NaN"), cat(sign_text(cx, neg), Lit("Infinity"))))


def with_fraction(cx, L, p):
    """Mantissa with exactly p fraction digits; no dot at p = 0 unless #."""
    if nodot(L):
        return cat(L.M, ite(Or(lt(0, p), cx.alt), Lit("."), EMPTY), zeros(p))
    k = sub(sub(L.M.len(), L.dot), 1)
    return cat(L.M, zeros(sub(p, k)))


def trimmed(st, L):
    """Mantissa without trailing zeros of the fraction, nor a dot then left at the end."""
    if nodot(L):
        return L.M
    a, n = L.dot, L.M.len()
    r = var(fresh_name("trim"), (0, MAXI))
    st.add(le(0, r), le(r, n), Or(eq(r, a), And(lt(add(a, 1), r), L.M.at(sub(r, 1)) != 48)),
           smt.Q(imax(r, add(a, 1)), n, lambda k: eq(L.M.at(k), 48), jdk.triggers(L.M)))
    return substr(L.M, 0, r)


def core_of(cx, st, letter, L, p):
    """Digits part of a finite number (after sign and prefix)."""
    if letter == "f":
        return with_fraction(cx, L, p)
    if letter == "e":
        return cat(with_fraction(cx, L, p), Lit("e"), L.exp)
    if letter == "a":
        return cat(ite(eq(cx.p, -1), L.M, with_fraction(cx, L, p)), Lit("p"), L.exp)
    full = cat(L.M, Lit(".") if nodot(L) else EMPTY, zeros(sub(p, L.sig)))
    if L.exp is None:
        return ite(cx.alt, full, trimmed(st, L))
    return cat(ite(cx.alt, ite(lt(1, p), full, L.M), trimmed(st, L)), Lit("e"), L.exp)


def effective(letter, cx):
    if letter in "fe":
        return If(cx.p == -1, 6, cx.p)
    if letter == "g":
        return If(cx.p == -1, 6, If(cx.p == 0, 1, cx.p))
    return If(cx.p == -1, 13, If(cx.p == 0, 1, cx.p))


# ---------------------------------------------------------------- units

def engine(prog, **k):
    E = dispatch.engine(prog, **k)
    E.abs.update({"floatform": h_floatform, "layout": h_layout, "thing": lambda *a: NotImplemented, "temporal": h_temporal, "dtf": h_dtf})
    return E


def bits(x):
    return "d:%016x" % struct.unpack(">Q", struct.pack(">d", x))[0]


SAMPLES = [0.0, -0.0, 1.5, -123.456, 0.1, 1e-5, 1.2345e-4, 100.0, 1e6, 999999.5, 9.9999995, 1e22, 5e-324, 1.7976931348623157e308, 0.5, 2.5, 1e15,
           float("nan"), float("inf"), float("-inf"), 12345.678, 3.0, 0.00012, 1000000.0]


def sized(mod):
    """Decimals with as many digits before and after the point as the layouts of a solver model have."""
    ni, nf = [], []
    for d in mod.decls():
        v = mod[d]
        if d.arity() == 0 and z3.is_int_value(v) and 0 <= v.as_long() <= 400:
            (ni if d.name().startswith("n_int") else nf if d.name().startswith("n_frac") else []).append(v.as_long())
    out = []
    for i in dict.fromkeys(ni or [1]):
        for f in dict.fromkeys(nf or [0]):
            for t in ("1234567890", "9", "5", "1", "10"):
                digits = (t * (i + f + 1))[:max(1, i + f)]
                for sign in ("", "-"):
                    out.append("bd:%s%s,%d" % (sign, digits, f))
                    try:
                        out.append(bits(float("%s%se-%d" % (sign, digits, f))))
                    except OverflowError:
                        pass
    return out


def float_unit(letter, shape=None):
    def run(prog):
        E = engine(prog)
        E.only_shape = shape
        m = find(prog, SF, letter, "(L%s;L%s;)L%s;" % (CTX, FLOATFORM, SEQ))
        st = State()
        cx = Ctx(E, st)
        ff, nan, inf, neg = mk_floatform(E, st)
        E.candidates = lambda mod: ["fmt\t%s\t%s" % (ctx_text(mod, cx, letter), x) for x in [bits(x) for x in SAMPLES] + sized(mod)]
        r = Root(E, "SeqFormatter." + letter)

        def post(o):
            if o.kind == "throw":
                E.oblige(o.st, "%s: throws nothing" % r.name, False)
                return
            if o.v is None:
                E.oblige(o.st, "%s: result is not null" % r.name, False)
                return
            got = view(E, o.st, o.v)
            for s, special in E.split(o.st, Or(nan, inf)):
                if special:
                    E.oblige_text(s, "%s: NaN and infinities" % r.name, got, spec_special(cx, nan, neg))
                    continue
                if "layout" not in s.ghost:
                    E.oblige(s, "%s: prints the layout of the number" % r.name, False)
                    continue
                kind, p, L = s.ghost["layout"]
                want = effective(letter, cx)
                E.oblige(s, "%s: uses the layout of its specifier" % r.name, kind == letter)
                E.oblige(s, "%s: layout for the effective precision" % r.name, eq(p, want))
                core = core_of(cx, s, letter, L, want)
                pre = Lit("0x") if letter == "a" else EMPTY
                E.oblige_text(s, "%s: result text" % r.name, got, justify(cx, sign_text(cx, neg), pre, core, cx.zero))
        r.run(m, st, [cx.ref, ff], post)
        return E
    run.functions = [SF + "." + letter]
    return run


def of_length(n):
    t = ("abcXYZ\\u00e9" * ((n or 0) // 7 + 1))
    t = "".join(re.findall(r"\\u....|.", t)[:n or 0]) if n is not None and n <= 5000 else "abc"
    return ["%s:%s" % (k, t) for k in ("s", "sb", "sq", "cb", "obj")]


def text_unit(letter):
    """SeqFormatter.s and c."""
    def run(prog):
        E = engine(prog)
        m = find(prog, SF, letter, "(L%s;L%s;)L%s;" % (CTX, TRAITS, SEQ))
        st = State()
        cx = Ctx(E, st)
        tr = mk_traits(E, st, 0)
        d = st.obj(tr).d
        st.ghost = {}
        T = d["text"]
        cut = If(And(cx.p >= 0, lt(cx.p, T.len())), cx.p, T.len())
        want = pad(cx, substr(T, 0, cut) if letter == "s" else ch(d["c"]))
        r = Root(E, "SeqFormatter." + letter)
        samples = ["s:", "s:a", "s:Hello", "s:hi\\u00e9", "n:", "s:%s" % ("x" * 40)] if letter == "s" else ["c:61", "i:65", "c:0"]
        E.candidates = lambda mod: ["fmt\t%s\t%s" % (ctx_text(mod, cx, letter), a) for a in samples + (of_length(ival(mod, T.len())) if letter == "s" else [])]

        def post(o):
            if o.kind == "throw":
                E.oblige(o.st, "%s: fails only when the argument has no such value" % r.name, "arg-failed" in o.st.ghost)
                return
            if o.v is None:
                E.oblige(o.st, "%s: result is not null" % r.name, False)
                return
            E.oblige_text(o.st, "%s: result text" % r.name, view(E, o.st, o.v), want)
        r.run(m, st, [cx.ref, tr], post)
        return E
    run.functions = [SF + "." + letter]
    return run


def p_unit(prog):
    """SeqFormatter.p: class name and identity hash of an object, null as null, primitives refused."""
    E = engine(prog)
    m = find(prog, SF, "p", "(L%s;L%s;)L%s;" % (CTX, TRAITS, SEQ))
    for kind in ("primitive", "null", "object"):
        st = State()
        cx = Ctx(E, st)
        E.ensure_init(SLOT)
        E.heap_base(st)
        obj = None
        if kind == "object":
            obj = st.new("java/lang/Object", {}, {"abs": "thing", "cname": jdk.unknown_text(st, "cname", 1)})
        fac = find(prog, SLOT, *{"primitive": ("ofPrimitive", "()L%s;" % SLOT), "null": ("ofNull", "()L%s;" % SLOT),
                                 "object": ("of", "(Ljava/lang/Object;)L%s;" % SLOT)}[kind])
        E.depth = 1
        outs = [o for o in E.call_method(st, fac, [obj] if obj else []) if check(o.st.pc) != "unsat"]
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Unsupported("RefSlot factory splits")
        st = outs[0].st
        slot = outs[0].v
        tr = mk_traits(E, st, 0)
        st.mut(tr).d["ref"] = slot
        st.ghost = {}
        r = Root(E, "SeqFormatter.p (%s)" % kind)
        E.candidates = lambda mod, cx=cx: ["fmt\t%s\t%s" % (ctx_text(mod, cx, "p"), a) for a in ("n:", "i:1", "s:x", "d:0", "bi:7")]

        def post(o):
            if o.kind == "throw":
                E.oblige(o.st, "%s: only primitives are refused, with the library's exception" % r.name, kind == "primitive" and printf_exc(E, o.st, o.v))
                return
            E.oblige(o.st, "%s: primitives are refused" % r.name, kind != "primitive")
            if kind == "primitive":
                return
            if kind == "null":
                core = Lit("null")
            else:
                h = var("idhash_%s" % obj.id, "I")
                o.st.add(in_range(h, "I"))
                core = cat(o.st.obj(obj).d["cname"], Lit("@"), jdk.digits(16, jdk.unsigned(h, 32)))
            E.oblige_text(o.st, "%s: result text" % r.name, view(E, o.st, o.v), pad(cx, core))
        r.run(m, st, [cx.ref, tr], post)
    return E


p_unit.functions = [SF + ".p", SLOT + ".isPrimitive", SLOT + ".get", SLOT + ".of", SLOT + ".ofNull", SLOT + ".ofPrimitive"]


# --- dates

JT = "java/time/"
FAMILIES = {JT + "OffsetDateTime": "ISO_OFFSET_DATE_TIME", JT + "ZonedDateTime": "ISO_OFFSET_DATE_TIME", JT + "LocalDateTime": "ISO_LOCAL_DATE_TIME",
            JT + "LocalDate": "ISO_LOCAL_DATE", JT + "Instant": "ISO_OFFSET_DATE_TIME", JT + "LocalTime": None, JT + "Year": None}


def h_temporal(E, st, ref, name, desc, args):
    o = st.obj(ref)
    if name == "instanceof":
        return [(st, E.prog.subclass(o.d.get("cls", o.cls), desc))]
    if name == "atZone" and o.d.get("cls") == JT + "Instant":
        z = args[0]
        if isinstance(z, Ref) and "zone" in st.obj(z).d:
            return st.new(JT + "ZonedDateTime", {}, {"abs": "temporal", "cls": JT + "ZonedDateTime", "of": ("at-%s-zone" % st.obj(z).d["zone"], o.d["of"])})
        return NotImplemented
    if name in ("getEpochSecond", "toEpochMilli", "getNano") and o.d.get("cls") == JT + "Instant":
        lo, hi = (0, 999999999) if name == "getNano" else (jdk.INST_LO, jdk.INST_HI) if name == "getEpochSecond" else RANGE["J"]
        v = var("%s_%s" % (name, o.d["of"]), (lo, hi))
        st.add(v >= lo, v <= hi)
        st.weak.append("Instant." + name)
        return v
    return NotImplemented


def h_dtf(E, st, ref, name, desc, args):
    return NotImplemented


def formatted(dtf, of):
    """The text java.time gives for a formatter and a temporal."""
    return Opq("fmt_%s_%s" % (dtf, of), var("nfmt_%s_%s" % (dtf, of), (0, MAXI)))


def t_unit(prog):
    """SeqFormatter.t: the given pattern, or the default formatter of the temporal's type."""
    E = engine(prog)
    m = find(prog, SF, "t", "(L%s;L%s;)L%s;" % (CTX, TRAITS, SEQ))
    for cls, dflt in FAMILIES.items():
        for given in (False, True):
            st = State()
            dtf = st.new("java/time/format/DateTimeFormatter", {}, {"abs": "dtf", "name": "given"}) if given else None
            cx = Ctx(E, st, dtf=dtf)
            tr = mk_traits(E, st, 0)
            ta = st.new(cls, {}, {"abs": "temporal", "cls": cls, "of": "arg"})
            st.mut(tr).d["ta"] = ta
            st.ghost = {}
            nm = cls.split("/")[-1]
            r = Root(E, "SeqFormatter.t %s%s" % (nm, " with pattern" if given else ""))
            E.candidates = lambda mod, cx=cx: t_cases(mod, cx)
            if given:
                want, of = "given", "arg"
            else:
                want, of = dflt, "('at-system-zone', 'arg')" if nm == "Instant" else "arg"

            def post(o):
                if o.kind == "throw":
                    if "arg-failed" in o.st.ghost or "no-format" in o.st.ghost:
                        E.oblige(o.st, "%s: a failure of the argument or the pattern is passed on" % r.name, True)
                        return
                    E.oblige(o.st, "%s: refused with the library's exception only without a default" % r.name,
                             want is None and printf_exc(E, o.st, o.v))
                    return
                E.oblige(o.st, "%s: refused without a default" % r.name, want is not None)
                if want is not None:
                    t = formatted(want, of)
                    o.st.add(t.len() >= 0, t.len() <= MAXI)
                    E.oblige_text(o.st, "%s: result text" % r.name, view(E, o.st, o.v), pad(cx, t))
            r.run(m, st, [cx.ref, tr], post)
    return E


t_unit.functions = [SF + ".t"]


def t_cases(mod, cx):
    f = ctx_text(mod, cx, "t")
    return ["fmt\t%s%s\t%s" % (f, p, a) for p in ("", "{yyyy}") for a in ("l:1700000000", "i:5", "l:99999999999")]


# --- the law of field widths, a lemma over the contracts of all value-printing conversions

def width_law(prog):
    """Every contract text with a width is the one without it, padded as the property says."""
    import copy
    E = engine(prog)
    E.candidates = lambda mod: []
    st = State()
    cx = Ctx(E, st)
    c0 = copy.copy(cx)
    c0.w = -1
    v, u, neg, nan = z3.Int("v"), z3.Int("u"), z3.Bool("neg"), z3.Bool("nan")
    st.add(u >= 0)
    digits = jdk.unknown_text(st, "digits")

    def law(name, make, head, fill):
        t0, t1 = make(c0), make(cx)
        n = t0.len()
        more = sub(cx.w, n)
        h = head.len()
        sp = Rep(32, more)
        padded = ite(cx.left, cat(t0, sp), ite(fill, cat(substr(t0, 0, h), Rep(48, more), substr(t0, h, n)), cat(sp, t0)))
        s = st.fork()
        E.oblige_text(s, "width law, %s: head of the text without width" % name, substr(t0, 0, h), head)
        short = s.fork()
        short.add(le(cx.w, n))
        E.oblige_text(short, "width law, %s: a width not above the length changes nothing" % name, t1, t0)
        s.add(lt(n, cx.w))
        E.oblige_text(s, "width law, %s: padded to exactly the width" % name, t1, padded)
    intfill = And(cx.zero, cx.p == -1)
    law("d", lambda c: spec_d(c, v), sign_text(cx, v < 0), intfill)
    law("u", lambda c: spec_unsigned(c, u, 10), EMPTY, intfill)
    law("o", lambda c: spec_unsigned(c, u, 8), EMPTY, intfill)
    law("x", lambda c: spec_unsigned(c, u, 16), ite(And(cx.alt, u != 0), Lit("0x"), EMPTY), intfill)
    law("f e g", lambda c: justify(c, sign_text(c, neg), EMPTY, digits, c.zero), sign_text(cx, neg), cx.zero)
    law("a", lambda c: justify(c, sign_text(c, neg), Lit("0x"), digits, c.zero), cat(sign_text(cx, neg), Lit("0x")), cx.zero)
    law("NaN and infinities", lambda c: spec_special(c, nan, neg), EMPTY, False)
    law("s c p t", lambda c: pad(c, digits), EMPTY, False)
    return E


width_law.functions = []


G_SHAPES = ("zero", "integer", "fixed", "fixed below 1", "one digit and exponent", "scientific")
UNITS = {"SeqFormatter." + l: float_unit(l) for l in "fea"}
UNITS.update({"SeqFormatter.g (%s)" % n: float_unit("g", k) for k, n in enumerate(G_SHAPES)})
UNITS.update({"SeqFormatter.s": text_unit("s"), "SeqFormatter.c": text_unit("c"), "SeqFormatter.p": p_unit, "SeqFormatter.t": t_unit, "width law": width_law})
