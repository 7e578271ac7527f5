"""Big decimals: BigDecimalWrapper over a model of java.math.BigDecimal as unscaled value u and scale s.

Rounding is a documented library operation; the model keeps, for a value rounded half up, how many digits k were dropped
and the resulting pair. With n the number of digits of u: rounding carries into a new digit exactly when k reaches nc(u),
a function of u; for k > n the result is 0.
"""
import decimal
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Lam, Cls, Dbl, Maybe, State, Ob
from .core import P, SEQ, ATOMIC, Root, find, view, mk_seq, build
from . import ints, conv, fp
from .ints import MAXW, ival, printf_exc
from .conv import FLOATFORM, LAYOUT
from .fp import plain_text, exponent_text, METHOD, layout_of

BI, BD, MC, RM = jdk.BI, jdk.BD, "java/math/MathContext", "java/math/RoundingMode"
LIM = 5 * 10**8
model = jdk.model


def mk(st, u, s, **d):
    return st.new(BD, {}, dict(d, u=u, s=s))


def us(st, r):
    if r is None:
        raise Unsupported("null decimal")
    d = st.obj(r).d
    if "u" not in d:
        raise Unsupported("decimal of unknown make")
    return d["u"], d["s"]


def count(u):
    return jdk.digits(10, u).len()


def sign_cases(E, st, u):
    return E.fork(st, [(lt(u, 0), -1), (eq(u, 0), 0), (lt(0, u), 1)]) if is_z(u) else [(st, (u > 0) - (u < 0))]


def fits(E, st, s):
    if not prove(st.pc, in_range(Z(s), "I")):
        raise Unsupported("the scale may overflow")


@model(BD, "abs()Ljava/math/BigDecimal;")
def _(E, st, d, a):
    u, s = us(st, a[0])
    out = []
    for s2, sg in sign_cases(E, st, u):
        out.append(Out("ret", s2, a[0] if sg >= 0 else mk(s2, simp(-u) if is_z(u) else -u, s)))
    return out


@model(BD, "negate()Ljava/math/BigDecimal;")
def _(E, st, d, a):
    u, s = us(st, a[0])
    return mk(st, simp(-u) if is_z(u) else -u, s)


@model(BD, "signum")
def _(E, st, d, a):
    u, s = us(st, a[0])
    return If(lt(u, 0), -1, If(eq(u, 0), 0, 1)) if is_z(u) else (u > 0) - (u < 0)


@model(BD, "unscaledValue")
def _(E, st, d, a):
    return jdk.bi(st, us(st, a[0])[0])


@model(BD, "scale")
def _(E, st, d, a):
    return us(st, a[0])[1]


@model(BD, "precision")
def _(E, st, d, a):
    u, s = us(st, a[0])
    if not is_z(u):
        return len(str(abs(u)))
    return count(u) if prove(st.pc, u >= 0) else count(If(u < 0, -u, u))


@model(BD, "<init>(Ljava/math/BigInteger;)V", "<init>(Ljava/math/BigInteger;I)V", "<init>(Ljava/math/BigInteger;ILjava/math/MathContext;)V",
       "<init>(Ljava/math/BigInteger;Ljava/math/MathContext;)V")
def _(E, st, d, a):
    if a[1] is None:
        return E.throw(st, "NullPointerException")
    u = jdk.biv(st, a[1])
    s = a[2] if "I" in d else 0
    o = st.mut(a[0])
    o.d.pop("fresh", None)
    if not d.endswith("MathContext;)V"):
        o.d.update(u=u, s=s)
        return None
    out = []
    for s2, r in to_precision(E, st, u, s, a[-1]):
        s2.mut(a[0]).d.update(u=r[0], s=r[1])
        out.append(Out("ret", s2, None))
    return out


@model(BD, "valueOf(JI)Ljava/math/BigDecimal;", "valueOf(J)Ljava/math/BigDecimal;")
def _(E, st, d, a):
    return mk(st, a[0], a[1] if len(a) > 1 else 0)


@model(BD, "scaleByPowerOfTen(I)Ljava/math/BigDecimal;")
def _(E, st, d, a):
    u, s = us(st, a[0])
    t = sub(s, a[1])
    fits(E, st, t)
    return mk(st, u, t)


@model(MC, "<init>(I)V", "<init>(ILjava/math/RoundingMode;)V")
def _(E, st, d, a):
    def ok(s):
        o = s.mut(a[0])
        o.d.pop("fresh", None)
        o.d.update(prec=a[1], mode="HALF_UP" if len(a) < 3 else mode(s, a[2]))
        return None
    return jdk.range_check(E, st, le(0, a[1]), ok, "IllegalArgumentException")


def mode(st, r):
    n = st.obj(r).d.get("name") if isinstance(r, Ref) else None
    if n is None:
        raise Unsupported("rounding mode")
    return n


NC = z3.Function("nc10", z3.IntSort(), z3.IntSort())
RH = z3.Function("rh10", z3.IntSort(), z3.IntSort(), z3.IntSort())


def carry(u, k):
    """Dropping k of the digits of u (half up) carries into a new digit; 1 <= k <= count(u)."""
    return le(NC(Z(u)), k)


def dropped(E, st, u, s, k, md, keep):
    """[(state, (u', s'))]: k digits dropped; keep: in case of a carry the digit count is kept (rounding to a precision)."""
    if not prove(st.pc, Z(u) >= 0):
        raise Unsupported("rounding a negative decimal")
    if any(r["u"] is not u and not same(st, r["u"], u) for r in st.ghost.get("rounds", ())) or st.ghost.get("inexact") is not None and u is not st.ghost["inexact"]:
        raise Unsupported("a rounded decimal is rounded again")
    out = []
    n = count(u)
    t = sub(s, k)
    fits(E, st, t)
    c = carry(u, k) if md == "HALF_UP" else fresh_bool("carry")
    for s2, what in E.fork(st, [(And(lt(k, n), Not(c)), "cut"), (And(lt(k, n), c), "carry"), (And(eq(k, n), Not(c)), "none"), (And(eq(k, n), c), "one"), (lt(n, k), "none")]):
        s2.add(NC(Z(u)) >= 1, le(NC(Z(u)), add(n, 1)))
        if what == "cut":
            r = RH(Z(u), Z(k)) if md == "HALF_UP" else fresh_int("rounded")
            s2.add(r >= 1, eq(count(r), sub(n, k)))
            res = (r, t)
        elif what == "carry":
            r = fresh_int("ten")
            if keep:
                s2.add(r >= 1, eq(count(r), sub(n, k)))
                res = (r, sub(t, 1))
            else:
                s2.add(r >= 1, eq(count(r), add(sub(n, k), 1)))
                res = (r, t)
        else:
            res = (0 if what == "none" else 1, t)
        s2.ghost["rounds"] = s2.ghost.get("rounds", ()) + ({"u": u, "k": k, "mode": md, "res": res, "what": what},)
        out.append((s2, res))
    return out


def same(st, a, b):
    return prove(st.pc, Z(a) == Z(b))


def to_precision(E, st, u, s, mc):
    if mc is None:
        raise Unsupported("null MathContext")
    m = st.obj(mc).d
    if "prec" not in m:
        raise Unsupported("MathContext")
    p = m["prec"]
    out = []
    n = count(u) if is_z(u) else len(str(abs(u)))
    for s2, cut in E.split(st, And(lt(0, p), lt(p, n))):
        out += dropped(E, s2, u, s, sub(n, p), m["mode"], True) if cut else [(s2, (u, s))]
    return out


@model(BD, "round")
def _(E, st, d, a):
    u, s = us(st, a[0])
    return [Out("ret", s2, mk(s2, *r)) for s2, r in to_precision(E, st, u, s, a[1])]


@model(BD, "setScale(ILjava/math/RoundingMode;)Ljava/math/BigDecimal;")
def _(E, st, d, a):
    u, s = us(st, a[0])
    out = []
    for s2, cut in E.split(st, lt(a[1], s)):
        if cut:
            out += [Out("ret", s3, mk(s3, *r)) for s3, r in dropped(E, s2, u, s, sub(s, a[1]), mode(s2, a[2]), False)]
            continue
        for s3, eqs in E.split(s2, eq(a[1], s)):
            if not eqs:
                raise Unsupported("a larger scale")
            out.append(Out("ret", s3, a[0]))
    return out


@model(BD, "equals")
def _(E, st, d, a):
    if a[1] is None or E.cls_of(st, a[1]) != BD:
        return 0
    (u, s), (v, t) = us(st, a[0]), us(st, a[1])
    return If(And(eq(u, v), eq(s, t)), 1, 0)


@model(BD, "compareTo(Ljava/math/BigDecimal;)I", "compareTo")
def _(E, st, d, a):
    (u, s), (v, t) = us(st, a[0]), us(st, a[1])
    if not is_z(v) and v == 0:
        return If(lt(u, 0), -1, If(eq(u, 0), 0, 1))
    if is_z(v) or v != 1:
        raise Unsupported("comparison of decimals")
    # against a power of ten: by the exponents, then by being one itself
    out = []
    for s2, sg in sign_cases(E, st, u):
        if sg <= 0:
            out.append(Out("ret", s2, -1))
            continue
        e1, e2 = sub(sub(count(u), 1), s), sub(0, t)
        eqp = z3.Function("ispow10", z3.IntSort(), z3.BoolSort())(Z(u))
        out.append(Out("ret", s2, If(lt(e1, e2), -1, If(lt(e2, e1), 1, If(eqp, 0, 1)))))
    return out


# ---------------------------------------------------------------- units

DECIMALS = ["0", "0.000", "0E+5", "1", "9.5", "9.96", "99.5", "0.0009996", "0.00009996", "123456.789", "999999.5", "1E+20", "1.50", "100", "1E+2", "0.05", "0.5", "0.15", "2.5", "5E-5",
            "12345678901234567890.12345678901234567890", "0.99999999999999999999", "1E-30", "9.9999E+9", "95", "0.95", "10.00", "7E+9", "1E+10", "4.5E-10"]


def bd(d, sign=""):
    """The argument code of a decimal."""
    t = decimal.Decimal(sign + d).as_tuple()
    return "bd:%s%s,%d" % ("-" if t.sign else "", int("".join(map(str, t.digits))), -t.exponent)


def number(E, prog, st, kind):
    """A wrapper of a positive, negative or zero decimal."""
    sc = var("scale", (-LIM, LIM))
    st.add(sc >= -LIM, sc <= LIM)
    u = z3.Int("unscaled")
    if kind == "zero":
        U = 0
    else:
        st.add(u >= 1, le(count(u), LIM))
        U = u if kind == "positive" else simp(-u)
    v = mk(st, U, sc)
    m = find(prog, FLOATFORM, "valueOf", "(L%s;)L%s;" % (BD, FLOATFORM))
    E.root, E.depth = None, 1
    outs = [o for o in E.call_method(st, m, [v]) if check(o.st.pc) != "unsat"]
    E.depth = 0
    if len(outs) != 1 or outs[0].kind != "ret" or outs[0].v is None:
        raise Unsupported("FloatForm.valueOf(BigDecimal) splits")
    outs[0].st.ghost = {}
    return outs[0].st, outs[0].v, u, sc


def cases(prec, letter):
    def cand(mod):
        p = ival(mod, prec)
        fs = ["%%.%d%s" % (q, letter) for q in {p, 0, 1, 2, 3, 6, 10} if q is not None and q <= 1000]
        return ["fmt\t%s\t%s" % (f, bd(d)) for f in fs for d in DECIMALS]
    return cand


def layout_unit(letter):
    def run(prog):
        E = conv.engine(prog)
        for kind in ("zero", "positive", "negative"):
            one(E, prog, kind)
        return E

    def one(E, prog, kind):
        st = State()
        prec = var("prec", (0 if letter != "g" else 1, MAXW))
        st.add(prec >= (1 if letter == "g" else 0), prec <= MAXW)
        st, w, u, sc = number(E, prog, st, kind)
        m = prog.resolve(st.obj(w).cls, METHOD[letter], "(I)L%s;" % LAYOUT)
        if m is None:
            raise Unsupported("no " + METHOD[letter])
        r = Root(E, "BigDecimalWrapper.%s (%s)" % (METHOD[letter], kind))
        E.candidates = cases(prec, letter)
        nm = r.name

        def post(o):
            if o.kind == "throw":
                E.oblige(o.st, nm + ": throws nothing", False)
                return
            if o.v is None:
                E.oblige(o.st, nm + ": result is not null", False)
                return
            s, M, X = layout_of(E, prog, o.st, o.v)
            if M is None:
                E.oblige(s, nm + ": mantissa is not null", False)
                return
            if kind == "zero":
                E.oblige_text(s, nm + ": text", M, Lit("0"))
                E.oblige(s, nm + ": exponent only in scientific notation", (X is not None) == (letter == "e"))
                if X is not None and letter == "e":
                    E.oblige_text(s, nm + ": exponent", X, Lit("+00"))
                return
            n = count(u)
            # digits to drop so that the asked ones are left
            k = {"f": sub(sc, prec), "e": sub(n, add(prec, 1)), "g": sub(n, prec)}[letter]
            for s2, exact in E.split(s, le(k, 0)):
                if exact:
                    finish(s2, M, X, (u, sc), False)
                    continue
                rs = s2.ghost.get("rounds", ())
                if not rs:
                    E.oblige(s2, nm + ": is rounded", False)
                    continue
                d = rs[-1]
                ok = eq(d["k"], k)
                if letter == "g":
                    ok = Or(ok, And(carry(u, k), eq(d["k"], add(k, 1))))
                E.oblige(s2, nm + ": rounded at the asked digit", ok)
                E.oblige(s2, nm + ": rounded half up", d["mode"] == "HALF_UP")
                finish(s2, M, X, d["res"], True)

        def finish(s, M, X, res, rounded):
            f, sc2 = res
            n2 = count(f) if is_z(f) else len(str(f))
            e2 = sub(0, sc2)
            if letter == "f":
                E.oblige(s, nm + ": no exponent", X is None)
                E.oblige_text(s, nm + ": text", M, plain_text(f, e2, n2))
                E.oblige(s, nm + ": at most the asked fraction digits", le(sc2, prec))
                return
            er = sub(add(n2, e2), 1)
            fixed = And(le(-4, er), lt(er, prec)) if letter == "g" else False
            for s2, fx in E.split(s, fixed):
                if fx:
                    E.oblige(s2, nm + ": fixed notation has no exponent", X is None)
                    E.oblige_text(s2, nm + ": fixed text", M, plain_text(f, e2, n2))
                    E.oblige(s2, nm + ": at most the asked significant digits", le(imax(n2, add(n2, e2)), prec))
                    continue
                E.oblige(s2, nm + ": scientific notation has an exponent", X is not None)
                if X is None:
                    continue
                fr = prec if letter == "e" else sub(prec, 1)
                T = jdk.digits(10, Z(f)) if is_z(f) else Lit(str(f))
                bare = Or(eq(fr, 0), And(eq(n2, 1), eq(M.len(), 1)))
                E.oblige_text(s2, nm + ": scientific text", M, ite(bare, substr(T, 0, 1), cat(substr(T, 0, 1), Lit("."), substr(T, 1, n2))))
                E.oblige(s2, nm + ": at most the asked digits", le(sub(n2, 1), fr))
                E.oblige_text(s2, nm + ": exponent", X, exponent_text(er))
        r.run(m, st, [w, prec], post)
    run.functions = [P + "number/BigDecimalWrapper." + METHOD[letter]]
    return run


def sign_unit(prog):
    """BigDecimalWrapper: signum, isNegative, isNaN, isInfinite, and no hexadecimal form."""
    E = conv.engine(prog)
    for kind, sg in (("zero", 0), ("positive", 1), ("negative", -1)):
        for name, desc in (("signum", "()I"), ("isNegative", "()Z"), ("isNaN", "()Z"), ("isInfinite", "()Z"), ("hexLayout", "(I)L%s;" % LAYOUT)):
            st, w, u, sc = number(E, prog, State(), kind)
            m = prog.resolve(st.obj(w).cls, name, desc)
            if m is None:
                raise Unsupported("no " + name)
            r = Root(E, "BigDecimalWrapper.%s (%s)" % (name, kind))
            E.candidates = lambda mod: ["fmt\t%s\t%s" % (f, bd(d, s)) for f in ("%f", "%+.1e", "% g", "%a") for d in DECIMALS for s in ("", "-")]

            def post(o):
                if name == "hexLayout":
                    E.oblige(o.st, r.name + ": is refused", o.kind == "throw" and printf_exc(E, o.st, o.v))
                    return
                if o.kind == "throw":
                    E.oblige(o.st, r.name + ": throws nothing", False)
                    return
                v = Z(o.v)
                if name == "signum":
                    E.oblige(o.st, r.name, And(v >= -1, v <= 1, (v < 0) == (sg < 0)))
                elif name == "isNegative":
                    E.oblige(o.st, r.name, (v != 0) == (sg < 0))
                else:
                    E.oblige(o.st, r.name, v == 0)
            r.run(m, st, [w] + ([5] if name == "hexLayout" else []), post)
    return E


sign_unit.functions = [P + "number/BigDecimalWrapper." + n for n in ("signum", "isNegative", "isNaN", "isInfinite", "hexLayout")]

UNITS = {"BigDecimalWrapper." + METHOD[l]: layout_unit(l) for l in "feg"}
UNITS["BigDecimalWrapper sign"] = sign_unit
