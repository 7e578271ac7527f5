"""Doubles: DoubleWrapper and FormattedFPDecimal over the contract of DoubleToDecimal.split.

The contract of split: for a finite v > 0 it hands set() the integers f, e, n of the shortest decimal f 10^e of v, with
10^(n-1) <= f < 10^n and n <= 17; for 0 it leaves the fields at 0. The contract of round(p), proved here for every n
and p: (f, e, n) becomes the normal form of f 10^e rounded half up to its p leading digits.
"""
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Lam, Cls, Dbl, Maybe, State, Ob
from .core import P, SEQ, ATOMIC, Root, find, view, mk_seq, build
from . import ints, conv
from .ints import MAXW, ival
from .conv import FLOATFORM, LAYOUT, SAMPLES, bits

FD = P + "util/internal/FormattedFPDecimal"
DTD = P + "util/internal/DoubleToDecimal"
EXPS = (-400, 400)


def field(st, ref, n):
    o = st.obj(ref)
    if n not in o.f:
        raise Unsupported("field %s of FormattedFPDecimal is gone" % n)
    return o.f[n]


def c_split(E, st, args):
    v, fd = args
    b = v.bits
    E.oblige(st, "DoubleToDecimal.split is given a finite non-negative number", And(le(0, b), lt(b, jdk.EXPM)))
    out = []
    for s, zero in E.split(st, eq(b, 0)):
        if zero:
            s.ghost["split"] = None
            out.append(Out("ret", s, None))
            continue
        f, e, n = var("dec_f", (1, 10**17 - 1)), var("dec_e", EXPS), var("dec_n", (1, 17))
        s.add(in_range(f, (1, 10**17 - 1)), in_range(e, EXPS), in_range(n, (1, 17)), eq(jdk.digits(10, f).len(), n))
        if "split" in s.ghost:
            raise Unsupported("a number is split twice")
        s.ghost["split"] = (f, e, n)
        out += E.call_key(s, FD, "set", "(JII)V", [fd, f, e, n])
    return out


def c_round(E, st, args):
    fd, pp = args
    f, e, n = [field(st, fd, k) for k in "fen"]
    E.oblige(st, "round is called on a normal form", Or(And(eq(n, 0), eq(f, 0)), And(lt(0, f), eq(jdk.digits(10, Z(f)).len(), n), le(1, n), le(n, 17), in_range(e, EXPS))))
    out = []

    def res(s, f2, e2, n2):
        if "round" in s.ghost:
            raise Unsupported("rounded twice")
        s.ghost["round"] = (pp, f2, e2, n2)
        o = s.mut(fd)
        o.f.update(f=f2, e=e2, n=n2)
        if check(s.pc) != "unsat":
            out.append(Out("ret", s, None))
    cut = Or(eq(n, 0), lt(pp, 0))
    s = st.fork()
    s.add(cut)
    res(s, 0, 0, 1)
    s = st.fork()
    s.add(Not(cut), le(n, pp))
    res(s, f, e, n)
    mid = st.fork()
    mid.add(Not(cut), lt(pp, n))
    s = mid.fork()
    s.add(eq(pp, 0))
    res(s, 0, 0, 1)
    s = mid.fork()
    s.add(eq(pp, 0))
    res(s, 1, add(e, n), 1)
    for carry in (0, 1):
        s = mid.fork()
        s.add(lt(0, pp))
        r = var(fresh_name("rnd"), (1, 10**17 - 1))
        s.add(in_range(r, (1, 10**17 - 1)), eq(jdk.digits(10, r).len(), pp))
        res(s, r, add(sub(add(e, n), pp), carry), pp)
    return out


def contracts(E):
    E.contracts["%s.split(DL%s;)V" % (DTD, FD)] = c_split
    E.contracts["%s.round(J)V" % FD] = c_round


# ---------------------------------------------------------------- round

def rounding(f, s):
    """f / 10^s rounded half up."""
    return fdiv(add(f, 10**s // 2), 10**s)


def round_unit(lo, hi):
    """round(pp) for every number of digits n and every pp."""
    def run(prog):
        E = conv.engine(prog)
        m = find(prog, FD, "round", "(J)V")

        def go(name, st, f, e, n, pp, want):
            fd = st.new(FD, E.blank(FD))
            for k, v in zip("fen", (f, e, n)):
                field(st, fd, k)
                st.mut(fd).f[k] = v
            r = Root(E, name)
            E.candidates = lambda mod: cases(mod, f, e)

            def post(o):
                if o.kind == "throw":
                    E.oblige(o.st, name + ": throws nothing", False)
                    return
                got = [field(o.st, fd, k) for k in "fen"]
                for k, g, w in zip("fen", got, want):
                    E.oblige(o.st, name + ": " + k, eq(g, w))
            r.run(m, st, [fd, pp], post, modifies=[fd])

        def sym(n=None):
            st = State()
            f, e = var("f", "J"), var("e", "I")
            st.add(in_range(e, EXPS))
            nn = n
            if n is None:
                nn = var("n", (1, 17))
                st.add(in_range(nn, (1, 17)), f >= 1, eq(jdk.digits(10, f).len(), nn))
            else:
                st.add(f >= 10**(n - 1), f < 10**n)
            return st, f, e, nn
        if lo == 0:
            st = State()
            pp = var("pp", "J")
            st.add(in_range(pp, "J"))
            go("round(pp) of zero", st, 0, 0, 0, pp, (0, 0, 1))
            st, f, e, n = sym()
            st.add(in_range(pp, "J"), pp < 0)
            go("round(pp) above all digits", st, f, e, n, pp, (0, 0, 1))
            st, f, e, n = sym()
            st.add(in_range(pp, "J"), pp >= n)
            go("round(pp) below all digits", st, f, e, n, pp, (f, e, n))
        for n in range(max(lo, 1), hi):
            for p in range(0, n):
                st, f, e, _ = sym(n)
                R = rounding(f, n - p)
                if p == 0:
                    want = (R, If(R == 0, 0, add(e, n)), 1)
                else:
                    carry = R == 10**p
                    want = (If(carry, 10**(p - 1), R), add(add(e, n - p), If(carry, 1, 0)), p)
                go("round(%d) of %d digits" % (p, n), st, f, e, n, p, want)
        return E
    run.functions = [FD + ".round"]
    return run


def cases(mod, f, e):
    import struct
    out = []
    x, y = ival(mod, Z(f)), ival(mod, Z(e))
    vals = list(SAMPLES) + [0.5, 1.5, 2.5, 0.05, 0.15, 9.5, 99.5, 0.95, 0.995, 9.999999, 0.9999999, 5e-5, 4.999e-5, 1e17, 123456789.125]
    if x is not None and y is not None:
        for ee in (y, 0, -3, -10, -20):
            try:
                vals.append(float("%de%d" % (x, ee)))
            except (ValueError, OverflowError):
                pass
    for v in vals:
        for fm in ("%.0f", "%.1f", "%.2f", "%.6f", "%.20f", "%.0e", "%.1e", "%.3e", "%.16e", "%.20e", "%.1g", "%.2g", "%.6g", "%.17g", "%#.3g", "%#g"):
            out.append("fmt\t%s\t%s" % (fm, bits(v)))
    return out


# ---------------------------------------------------------------- layouts

def plain_text(f, e, n):
    """f 10^e in fixed notation; f has n digits."""
    T = jdk.digits(10, Z(f)) if is_z(f) else Lit(str(f))
    a = add(n, e)
    return ite(le(0, e), cat(T, zrep(e)), ite(lt(0, a), cat(substr(T, 0, a), Lit("."), substr(T, a, n)), cat(Lit("0."), zrep(sub(0, a)), T)))


def zrep(n):
    return Rep(48, n)


def scientific_text(f, n, prec):
    T = jdk.digits(10, Z(f)) if is_z(f) else Lit(str(f))
    return ite(eq(prec, 0), substr(T, 0, 1), cat(substr(T, 0, 1), Lit("."), substr(T, 1, n)))


def exponent_text(er):
    a = If(lt(er, 0), sub(0, er), er)
    return cat(ite(lt(er, 0), Lit("-"), Lit("+")), ite(lt(a, 10), Lit("0"), EMPTY), jdk.digits(10, a))


METHOD = {"f": "decimalLayout", "e": "scientificLayout", "g": "generalLayout"}


def layout_of(E, prog, st, ref):
    """(mantissa text, exponent text or None) of a FloatLayout through its getters."""
    out = []
    for g in ("getMantissa", "getExponent"):
        d0, E.depth = E.depth, 1
        try:
            os_ = [o for o in E.call_key(st, LAYOUT, g, "()L%s;" % SEQ, [ref]) if check(o.st.pc) != "unsat"]
        finally:
            E.depth = d0
        if len(os_) != 1 or os_[0].kind != "ret":
            raise Unsupported("FloatLayout.%s splits" % g)
        st = os_[0].st
        out.append(None if os_[0].v is None else view(E, st, os_[0].v))
    return st, out[0], out[1]


def make_double(E, prog, st, b):
    m = find(prog, FLOATFORM, "valueOf", "(D)L%s;" % FLOATFORM)
    E.depth = 1
    outs = [o for o in E.call_method(st, m, [Dbl(b)]) if check(o.st.pc) != "unsat"]
    if len(outs) != 1 or outs[0].kind != "ret" or outs[0].v is None:
        raise Unsupported("FloatForm.valueOf(double) splits")
    return outs[0].st, outs[0].v


def layout_unit(letter):
    def run(prog):
        jdk.LINK.append(1)
        E = conv.engine(prog)
        contracts(E)
        st = State()
        b = var("bits", "J")
        prec = var("prec", (0 if letter != "g" else 1, MAXW))
        st.add(in_range(b, "J"), jdk_finite(b), prec >= (1 if letter == "g" else 0), prec <= MAXW)
        st, w = make_double(E, prog, st, b)
        st.ghost = {}
        m = prog.resolve(st.obj(w).cls, METHOD[letter], "(I)L%s;" % LAYOUT)
        if m is None:
            raise Unsupported("no " + METHOD[letter])
        zero = Or(eq(b, 0), eq(b, MINL))
        r = Root(E, "DoubleWrapper." + METHOD[letter])

        def cand(mod):
            x, p = ival(mod, b), ival(mod, prec)
            fs = ["%%.%d%s" % (p, letter), "%%#.%d%s" % (p, letter)]
            return ["fmt\t%s\t%s" % (f, a) for f in fs for a in ["d:%016x" % (x & (2**64 - 1))] + [bits(v) for v in SAMPLES]]
        E.candidates = cand

        def post(o):
            nm = r.name
            if o.kind == "throw":
                E.oblige(o.st, nm + ": throws nothing", False)
                return
            if o.v is None:
                E.oblige(o.st, nm + ": result is not null", False)
                return
            s, M, X = layout_of(E, prog, o.st, o.v)
            if M is None:
                E.oblige(s, nm + ": mantissa is not null", False)
                return
            for s2, z in E.split(s, zero):
                if z:
                    E.oblige_text(s2, nm + ": zero", M, Lit("0"))
                    if letter == "e":
                        E.oblige(s2, nm + ": zero has an exponent", X is not None)
                        if X is not None:
                            E.oblige_text(s2, nm + ": exponent of zero", X, Lit("+00"))
                    else:
                        E.oblige(s2, nm + ": zero has no exponent", X is None)
                    continue
                nonzero(s2, M, X)

        def nonzero(s, M, X):
            nm = r.name
            if "round" not in s.ghost or not s.ghost.get("split"):
                raise Unsupported("the decimal is not rounded by round()")
            pp, f2, e2, n2 = s.ghost["round"]
            f, e, n = s.ghost["split"]
            digits = {"f": add(add(n, e), prec), "e": add(prec, 1), "g": prec}[letter]
            E.oblige(s, nm + ": rounded at the asked digit", eq(pp, digits))
            if letter == "f":
                E.oblige(s, nm + ": no exponent", X is None)
                E.oblige_text(s, nm + ": text", M, plain_text(f2, e2, n2))
                E.oblige(s, nm + ": at most the asked fraction digits", le(sub(0, e2), prec))
                return
            er = sub(add(n2, e2), 1)
            fixed = And(le(-4, er), lt(er, prec)) if letter == "g" else False
            for s2, fx in E.split(s, fixed):
                if fx:
                    E.oblige(s2, nm + ": fixed notation has no exponent", X is None)
                    E.oblige_text(s2, nm + ": fixed text", M, plain_text(f2, e2, n2))
                    E.oblige(s2, nm + ": at most the asked significant digits", le(imax(n2, add(n2, e2)), prec))
                    continue
                E.oblige(s2, nm + ": scientific notation has an exponent", X is not None)
                if X is None:
                    continue
                fr = prec if letter == "e" else sub(prec, 1)
                E.oblige_text(s2, nm + ": scientific text", M, scientific_text(f2, n2, fr))
                E.oblige(s2, nm + ": at most the asked digits", le(sub(n2, 1), fr))
                E.oblige_text(s2, nm + ": exponent", X, exponent_text(er))
        r.run(m, st, [w, prec], post)
        return E
    run.functions = [FD + ".valueOf", P + "number/DoubleWrapper." + METHOD[letter]]
    return run


def jdk_finite(b):
    return lt(jdk.d_abs(b), jdk.EXPM)


def sign_unit(prog):
    """DoubleWrapper: signum, isNegative, isNaN, isInfinite."""
    E = conv.engine(prog)
    for name, desc in (("signum", "()I"), ("isNegative", "()Z"), ("isNaN", "()Z"), ("isInfinite", "()Z")):
        st = State()
        b = var("bits", "J")
        st.add(in_range(b, "J"))
        st, w = make_double(E, prog, st, b)
        m = prog.resolve(st.obj(w).cls, name, desc)
        if m is None:
            raise Unsupported("no " + name)
        r = Root(E, "DoubleWrapper." + name)
        E.candidates = lambda mod: ["fmt\t%s\t%s" % (f, a) for f in ("%f", "%+.1e", "% g", "%a") for a in ["d:%016x" % (ival(mod, b) & (2**64 - 1))] + [bits(v) for v in SAMPLES]]

        def post(o):
            if o.kind == "throw":
                E.oblige(o.st, r.name + ": throws nothing", False)
                return
            v = Z(o.v)
            if name == "isNaN":
                E.oblige(o.st, r.name, (v != 0) == Z(jdk.d_nan(b)))
            elif name == "isInfinite":
                E.oblige(o.st, r.name, (v != 0) == Z(jdk.d_inf(b)))
            else:
                got = v < 0 if name == "signum" else v != 0
                E.oblige(o.st, r.name + ": negative exactly with the sign bit, negative zero included", Implies(Not(jdk.d_nan(b)), got == (b < 0)))
                if name == "signum":
                    E.oblige(o.st, r.name + ": is -1, 0 or 1", And(v >= -1, v <= 1))
        r.run(m, st, [w], post)
    return E


sign_unit.functions = [P + "number/DoubleWrapper." + n for n in ("signum", "isNegative", "isNaN", "isInfinite")]


UNITS = {"DoubleWrapper." + METHOD[l]: layout_unit(l) for l in "feg"}
UNITS["DoubleWrapper sign"] = sign_unit
UNITS["FormattedFPDecimal.round (to 9 digits)"] = round_unit(0, 10)
UNITS["FormattedFPDecimal.round (10 to 13 digits)"] = round_unit(10, 14)
UNITS["FormattedFPDecimal.round (14 to 17 digits)"] = round_unit(14, 18)
