"""%a: DoubleWrapper.hexLayout over the documented text of Double.toHexString.

hexfrac(m), for a 52-bit fraction m, is its 13 hexadecimal digits without trailing zeros, at least one digit; the
normal form of a subnormal fraction m is norm(m) = m 2^shift(m) with 2^52 <= norm(m) < 2^53.
"""
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Dbl, State
from .core import P, Root, find
from . import conv, fp
from .ints import MAXW, ival
from .conv import LAYOUT, SAMPLES, bits
from .fp import layout_of, make_double

I = z3.IntSort()
HLEN = z3.Function("hexfrac_len", I, I)
NORM, SHIFT = z3.Function("norm53", I, I), z3.Function("shift53", I, I)
FR = 2**52


def setup():
    if HLEN.name() in smt.AXIOMS:
        return
    for f, lo, hi in ((HLEN, 1, 13), (NORM, FR, 2 * FR - 1), (SHIFT, 1, 52)):
        smt.AXIOMS[f.name()] = []
        BOUND[f.name()] = (lo, hi)
        smt.axiom(f, lambda a, f=f, lo=lo, hi=hi: [f(a) >= lo, f(a) <= hi])


def hexfrac(m):
    if not is_z(m):
        return Lit(("%013x" % m).rstrip("0") or "0")
    return Opq("hexfrac", HLEN(m), (48, 102), [m])


def signed(e):
    return ite(lt(e, 0), cat(Lit("-"), jdk.digits(10, sub(0, e))), jdk.digits(10, e)) if is_z(e) else Lit(str(e))


def explicit(e):
    """Exponent with its sign always shown."""
    return cat(ite(lt(e, 0), Lit("-"), Lit("+")), jdk.digits(10, If(lt(e, 0), sub(0, e), e) if is_z(e) else abs(e)))


def parts(E, st, x):
    """[(state, exponent, fraction)] of the bits of a normal number; a carry from the fraction is a case of its own."""
    if not is_z(x):
        return [(st, x // FR - 1023, x % FR)]
    c, ts = lin(x)
    q, r = unlin(c // FR, [(k // FR, t) for k, t in ts if k % FR == 0]), unlin(c % FR, [t for t in ts if t[0] % FR])
    b = lin_bounds(*lin(r))
    if not b or b[0] < 0 or b[1] >= 2 * FR:
        e, m = var(fresh_name("hexp"), (-1022, 1023)), var(fresh_name("hfrac"), (0, FR - 1))
        st.add(in_range(e, (-1022, 1023)), in_range(m, (0, FR - 1)), eq(x, add((e + 1023) * FR, m)))
        return [(st, e, m)]
    out = []
    for s, up in E.split(st, le(FR, r)):
        f = sub(r, FR) if up else r
        if up and prove(s.pc, eq(r, FR)):
            f = 0
        out.append((s, simp(sub(q, 1022 if up else 1023)), f))
    return out


@jdk.model("Double", "toHexString")
def _(E, st, d, a):
    setup()
    b = a[0].bits
    out = []
    for s, neg in E.split(st, lt(b, 0)):
        x = simp(add(b, 2**63) if neg else b)
        sg = "-" if neg else ""
        for s2, what in E.fork(s, [(lt(jdk.EXPM, x), "nan"), (eq(x, jdk.EXPM), "inf"), (eq(x, 0), "zero"), (And(lt(0, x), lt(x, FR)), "sub"), (And(le(FR, x), lt(x, jdk.EXPM)), "norm")]):
            if what in ("nan", "inf"):
                t = Lit("NaN" if what == "nan" else sg + "Infinity")
            elif what == "zero":
                t = Lit(sg + "0x0.0p0")
            elif what == "sub":
                t = cat(Lit(sg + "0x0."), hexfrac(x), Lit("p-1022"))
            else:
                for s3, e, m in parts(E, s2, x):
                    for s4, n in E.split(s3, lt(e, 0)):
                        y = cat(Lit("-"), jdk.digits(10, sub(0, e))) if n else jdk.digits(10, e)
                        s4.ghost["hex"] = s4.ghost.get("hex", ()) + ((y, e, m),)
                        out.append(Out("ret", s4, Str(cat(Lit(sg + "0x1."), hexfrac(m), Lit("p"), y))))
                continue
            s2.ghost["hex"] = s2.ghost.get("hex", ())
            out.append(Out("ret", s2, Str(t)))
    return out


def parse_exponent(E, st, t):
    for y, e, _ in st.ghost.get("hex", ()):
        if same_text(st.pc, t, y) or all(prove(st.pc, Z(g)) for _, g in text_eq_goals(t, y)):
            return e
    raise Unsupported("parseInt of this text")


def double_op(E, st, op, a, b):
    """Multiplication by a power of two that leaves a normal number."""
    setup()
    if op == "dmul":
        if not is_z(a.bits):
            a, b = b, a
        if not is_z(b.bits) and b.bits % FR == 0 and 0 < b.bits < jdk.EXPM:
            k = b.bits // FR - 1023
            x = jdk.d_abs(a.bits)
            sg = sub(a.bits, x)
            if k >= 52 and prove(st.pc, And(lt(0, x), lt(x, FR))):
                x = simp(x)
                n = NORM(Z(x))
                if E.normal and n.eq(E.normal[0]):
                    n = E.normal[1]
                return Dbl(simp(add(sg, add((k + 1 - SHIFT(Z(x)) - 1) * FR, n))))
            if prove(st.pc, And(le(FR, x), le(FR, add(x, k * FR)), lt(add(x, k * FR), jdk.EXPM))):
                return Dbl(simp(add(a.bits, k * FR)))
    raise Unsupported("arithmetic on doubles")


def cases(prec, value):
    def cand(mod):
        vs = []
        for t in value:
            x = ival(mod, Z(t))
            if x is not None:
                vs.append("d:%016x" % (x & (2**64 - 1)))
        p = ival(mod, Z(prec))
        return ["fmt\t%s\t%s" % (f, a) for f in {"%%.%da" % min(max(p or 0, 0), 1000), "%a", "%.1a", "%.3a", "%.12a", "%.13a"}
                for a in vs + [bits(v) for v in SAMPLES + [1.9999999, 4.9e-324, 2.2250738585072014e-308, 1.03125, 1.09375, 1.15625, 0.99999]]]
    return cand


def unit(lo, hi):
    """hexLayout for precisions lo to hi - 1 (13: every precision of 13 or more)."""
    def run(prog):
        setup()
        LINEAR.append(1)
        E = conv.engine(prog)
        E.abs["parse-int"] = parse_exponent
        E.abs["double-op"] = double_op
        E.ensure_init(P + "number/DoubleWrapper")
        for neg in (0, 1):
            for kind in ("normal", "subnormal", "zero"):
                for p in range(lo, hi):
                    one(E, prog, kind, neg, p)
        return E

    def one(E, prog, kind, neg, p):
        st = State()
        prec = p
        if p == 13:
            prec = var("prec", (13, MAXW))
            st.add(prec >= 13, prec <= MAXW)
        E.normal = None
        X, sg = var("xp", (1, 2046)), MINL if neg else 0
        m = var("frac", (0, FR - 1))
        st.add(in_range(m, (0, FR - 1)))
        # the digits kept and the part below them
        u = 16**(13 - p) if p < 13 else 1
        q, t = var("kept", (0, 16**p - 1)), var("below", (0, u - 1))
        if p < 13:
            st.add(in_range(q, (0, 16**p - 1)), in_range(t, (0, u - 1)))
        if kind == "normal":
            st.add(in_range(X, (1, 2046)))
            if p < 13:
                m = simp(q * u + t)
            b = simp(sg + X * FR + m)
        elif kind == "subnormal":
            st.add(m >= 1)
            if p < 13:
                E.normal = (NORM(m), FR + q * u + t)
                st.add(eq(*E.normal))
            b = simp(sg + m)
        else:
            b = sg
        st, w = make_double(E, prog, st, b)
        st.ghost = {}
        E.heap_base(st)
        mt = prog.resolve(st.obj(w).cls, "hexLayout", "(I)L%s;" % LAYOUT)
        if mt is None:
            raise Unsupported("no hexLayout")
        r = Root(E, "DoubleWrapper.hexLayout (%s%s, %s digits)" % ("negative " if neg else "", kind, "13 or more" if p == 13 else p))
        nm = r.name
        E.candidates = cases(prec, [b])

        def post(o):
            if o.kind == "throw":
                E.oblige(o.st, nm + ": throws nothing", False)
                return
            if o.v is None:
                E.oblige(o.st, nm + ": result is not null", False)
                return
            if "hex" not in o.st.ghost and not (kind == "normal" and p < 13):
                raise Unsupported("hexadecimal digits not made by Double.toHexString")
            s, M, T = layout_of(E, prog, o.st, o.v)
            if M is None or T is None:
                E.oblige(s, nm + ": mantissa and exponent are not null", False)
                return
            lead = 1
            if kind == "zero":
                lead, f, e = 0, 0, 0
            elif p == 13:
                lead, f, e = (1, m, sub(X, 1023)) if kind == "normal" else (0, m, -1022)
            else:
                e0 = sub(X, 1023) if kind == "normal" else sub(-1022, SHIFT(m))
                up = Or(lt(u // 2, t), And(eq(t, u // 2), eq(fmod(q, 2), 1)))
                R = add(q, If(up, 1, 0))
                full = eq(R, 16**p)
                f, e = If(full, 0, R * u), add(e0, If(full, 1, 0))
                if s.ghost.get("hex"):
                    y, e1, f1 = s.ghost["hex"][-1]
                    E.oblige(s, nm + ": fraction rounded half to even", eq(f1, f))
                    s.add(eq(f1, f), Implies(eq(fmod(f1, u), 0), le(HLEN(f1), p)))
                    f = f1
                else:
                    for s2, z in E.split(s, full):
                        E.oblige(s2, nm + ": only a full carry has no digits", z)
                    f = 0
                h = var(fresh_name("wexp"), (-1074, 1024))
                s.add(eq(h, e), in_range(h, (-1074, 1024)))
                e = h
            E.oblige_text(s, nm + ": mantissa", M, cat(Lit("%d." % lead), hexfrac(f)))
            E.oblige(s, nm + ": no more digits than asked", le(sub(M.len(), 2), prec))
            E.oblige_text(s, nm + ": exponent", T, explicit(e))
        r.run(mt, st, [w, prec], post)
    run.functions = [P + "number/DoubleWrapper." + n for n in ("hexLayout", "simpleHexLayout", "addPlus", "startsWithMinus")]
    return run


UNITS = {"DoubleWrapper.hexLayout (1 to 4 digits)": unit(1, 5), "DoubleWrapper.hexLayout (5 to 8 digits)": unit(5, 9),
         "DoubleWrapper.hexLayout (9 to 12 digits)": unit(9, 13), "DoubleWrapper.hexLayout (exact)": unit(13, 14)}
