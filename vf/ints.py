"""Integer conversions: contracts of IntForm, FormatContext use, and SeqFormatter d, u, o, x."""
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Lam, Cls, Dbl, Maybe, State, Ob
from .core import P, SEQ, ATOMIC, Root, find, view, mk_seq, build

CTX = P + "FormatContext"
FLAG = P + "Flag"
FLAGS = ("LEFT_JUSTIFY", "ALTERNATE", "PLUS", "LEADING_SPACE", "ZERO_PAD")
INTFORM = P + "number/IntForm"
SF = P + "appender/SeqFormatter"
MAXW = 65536


class Ctx:
    """A symbolic format context and the spec-level names of its parts."""

    def __init__(self, E, st, dyn=False, dtf=None):
        E.ensure_init(FLAG)
        E.heap_base(st)
        self.flag = {}
        bits = {}
        for n in FLAGS:
            r = E.static_fields.get((FLAG, n))
            if r is None:
                raise Unsupported("flag %s is gone" % n)
            self.flag[n] = z3.Bool("flag_" + n)
            bits[r.id] = self.flag[n]
        self.left, self.alt, self.plus, self.space, self.zero = [self.flag[n] for n in FLAGS]
        self.w, self.p = var("width", "I"), var("prec", "I")
        for v in (self.w, self.p):
            ok = And(v >= -1, v <= MAXW)
            st.add(Or(ok, v == MINI) if dyn else ok)
        fs = st.new("java/util/EnumSet", {}, {"bits": bits, "enum": FLAG})
        self.given = fs
        m = find(E.prog, CTX, "create", "(Ljava/util/EnumSet;IILjava/time/format/DateTimeFormatter;)L%s;" % CTX)
        # the context is made by the program's own factory, so no field layout is assumed
        d0, E.depth = E.depth, 1
        try:
            outs = [o for o in E.call_method(st.fork(), m, [fs, self.w, self.p, dtf]) if check(o.st.pc) != "unsat"]
        finally:
            E.depth = d0
        rets = [o for o in outs if o.kind == "ret"]
        if len(rets) != 1:
            raise Unsupported("FormatContext.create splits")
        st.heap, st.pc = rets[0].st.heap, rets[0].st.pc
        self.ref = rets[0].v
        self.dtf = dtf
        # for a context in range creation succeeds
        for o in outs:
            if o.kind == "throw":
                E.oblige(o.st, "FormatContext.create accepts every width and precision in range", False)


def pad(cx, core, width=None):
    """Space padding of a core text to the field width."""
    w = imax(cx.w, 0) if width is None else width
    n = imax(sub(w, core.len()), 0)
    sp = Rep(32, n)
    return ite(cx.left, cat(core, sp), cat(sp, core))


def sign_text(cx, neg):
    return ite(neg, Lit("-"), ite(cx.plus, Lit("+"), ite(cx.space, Lit(" "), EMPTY)))


def zeros(n):
    return Rep(48, imax(n, 0))


def spec_d(cx, v):
    mag = jdk.digits(10, If(v < 0, -v, v) if is_z(v) else abs(v))
    digits = ite(And(eq(v, 0), eq(cx.p, 0)), EMPTY, cat(zeros(sub(cx.p, mag.len())), mag))
    sg = sign_text(cx, lt(v, 0))
    fill = And(cx.zero, Not(cx.left), eq(cx.p, -1))
    inner = sub(sub(cx.w, sg.len()), digits.len())
    core = cat(sg, ite(fill, zeros(inner), EMPTY), digits)
    return pad(cx, core)


def spec_unsigned(cx, u, base):
    mag = jdk.digits(base, u)
    zero = eq(u, 0)
    if base == 8:
        # under # the first printed digit is a 0: the precision is raised when the digits need it
        need = And(cx.alt, Not(zero))
        prec = imax(cx.p, If(need, add(mag.len(), 1), 0))
        digits = ite(And(zero, eq(cx.p, 0)), ite(cx.alt, Lit("0"), EMPTY), cat(zeros(sub(prec, mag.len())), mag))
        pre = EMPTY
    else:
        digits = ite(And(zero, eq(cx.p, 0)), EMPTY, cat(zeros(sub(cx.p, mag.len())), mag))
        pre = ite(And(cx.alt, Not(zero)), Lit("0x"), EMPTY) if base == 16 else EMPTY
    fill = And(cx.zero, Not(cx.left), eq(cx.p, -1))
    inner = sub(sub(cx.w, pre.len()), digits.len())
    core = cat(pre, ite(fill, zeros(inner), EMPTY), digits)
    return pad(cx, core)


# ---------------------------------------------------------------- IntForm

def mk_intform(E, st, v, u, big):
    """Abstract IntForm: v its value, u its unsigned rendering, big when negatives are refused."""
    return st.new(INTFORM, {}, {"abs": "intform", "v": v, "u": u, "big": big})


def sym_intform(E, st, name="iv"):
    v, u, big = z3.Int(name), z3.Int(name + "_u"), z3.Bool(name + "_big")
    st.add(u >= 0, Implies(v >= 0, u == v), Implies(v < 0, u > 0))
    return mk_intform(E, st, v, u, big), v, u, big


def h_intform(E, st, ref, name, desc, args):
    o = st.obj(ref)
    v, u, big = o.d["v"], o.d["u"], o.d["big"]
    if name == "signum":
        return If(v < 0, -1, If(v > 0, 1, 0)) if is_z(v) else (v > 0) - (v < 0)
    if name == "isNegative":
        return If(lt(v, 0), 1, 0)
    if name == "toDecimalString":
        return Str(jdk.digits(10, If(v < 0, -v, v)))
    base = {"toHexString": 16, "toOctalString": 8, "toUnsignedDecimalString": 10}.get(name)
    if base:
        out = []
        for s2, bad in E.split(st, And(big, lt(v, 0))):
            out.append(E.throw(s2, P + "PrintfException") if bad else Out("ret", s2, Str(jdk.digits(base, u))))
        return out
    if name == "instanceof":
        return NotImplemented
    return NotImplemented


def printf_exc(E, st, exc, sub="PrintfException"):
    return E.prog.subclass(st.obj(exc).cls, P + sub)


# ---------------------------------------------------------------- units

def engine(prog, **k):
    E = build(prog, **k)
    E.abs["intform"] = h_intform
    return E


def int_unit(letter):
    """SeqFormatter.<letter>(FormatContext, IntForm) against its contract."""
    def run(prog):
        E = engine(prog)
        m = find(prog, SF, letter, "(L%s;L%s;)L%s;" % (CTX, INTFORM, SEQ))
        st = State()
        cx = Ctx(E, st)
        iv, v, u, big = sym_intform(E, st)
        want = spec_d(cx, v) if letter == "d" else spec_unsigned(cx, u, {"o": 8, "x": 16, "u": 10}[letter])
        r = Root(E, "SeqFormatter." + letter)

        def post(o):
            if o.kind == "throw":
                if letter == "d":
                    E.oblige(o.st, "%s: throws nothing" % r.name, False)
                else:
                    ok = printf_exc(E, o.st, o.v)
                    E.oblige(o.st, "%s: throws only PrintfException, only for a negative BigInteger" % r.name, And(ok, And(big, v < 0)))
                return
            if o.v is None:
                E.oblige(o.st, "%s: result is not null" % r.name, False)
                return
            if letter != "d":
                E.oblige(o.st, "%s: a negative BigInteger is refused" % r.name, Not(And(big, v < 0)))
            E.oblige_text(o.st, "%s: result text" % r.name, view(E, o.st, o.v), want)
        r.run(m, st, [cx.ref, iv], post)
        E.candidates = lambda mod: model_case(E, mod, letter, cx, v, u, big)
        return E
    run.functions = [SF + "." + letter]
    return run


def flags_of(mod, cx):
    s = ""
    for n, c in zip(FLAGS, "-#+ 0"):
        if z3.is_true(mod.eval(cx.flag[n], model_completion=True)):
            s += c
    return s


def ival(mod, e):
    if not is_z(e):
        return e
    v = mod.eval(e, model_completion=True)
    return v.as_long() if z3.is_int_value(v) else None


def ctx_text(mod, cx, letter):
    w, p = ival(mod, cx.w), ival(mod, cx.p)
    fs = flags_of(mod, cx)
    s = "%" + fs.replace(" ", "\\u0020")
    if w is not None and w >= 0 and not (w == 0):
        s += str(w)
    if p is not None and p >= 0:
        s += "." + str(p)
    return s + letter


def model_case(E, mod, letter, cx, v, u, big):
    """Oracle case lines for a solver model."""
    x = ival(mod, v)
    if x is None:
        return []
    f = ctx_text(mod, cx, letter)
    out = []
    for ty, lo, hi in (("i", MINI, MAXI), ("l", MINL, MAXL)):
        if lo <= x <= hi:
            out.append("fmt\t%s\t%s" % (f, arg(ty, x)))
    out.append("fmt\t%s\t%s" % (f, arg("I", x)))
    for y in (0, 1, -1, 7, -255, 12345):
        out.append("fmt\t%s\t%s" % (f, arg("i", y)))
    return out


def arg(ty, x):
    return "%s:%d" % ({"s": "h", "I": "bi"}.get(ty, ty), x)


# --- wrappers

def big_int(E, st, v):
    return st.new("java/math/BigInteger", {}, {"v": v})


KINDS = (("B", "byte", 8), ("S", "short", 16), ("I", "int", 32), ("J", "long", 64), ("Ljava/math/BigInteger;", "BigInteger", None))


def wrapper_unit(kind):
    desc, nm, bits = kind

    def run(prog):
        E = engine(prog)
        E.candidates = lambda mod: []
        fac = find(prog, INTFORM, "valueOf", "(%s)L%s;" % (desc, INTFORM))
        for name in ("signum", "toDecimalString", "toHexString", "toOctalString", "toUnsignedDecimalString", "isNegative"):
            st = State()
            v = var("v", desc) if bits else z3.Int("v")
            if bits:
                st.add(in_range(v, desc))
            a = v if bits else big_int(E, st, v)
            E.root, E.depth = fac, 0
            for o in E.call_method(st, fac, [a]):
                if o.kind == "throw":
                    E.oblige(o.st, "IntForm.valueOf(%s): throws nothing" % nm, False)
                    continue
                cls = o.st.obj(o.v).cls
                m = prog.resolve(cls, name, "()" + ("Ljava/lang/String;" if name.startswith("to") else "I" if name == "signum" else "Z"))
                if m is None:
                    raise Unsupported("%s.%s" % (cls, name))
                u = v % 2**bits if bits else v
                r = Root(E, "%s.%s" % (cls.split("/")[-1], name))
                base = {"toHexString": 16, "toOctalString": 8, "toUnsignedDecimalString": 10}.get(name)
                E.candidates = lambda mod, v=v: wrap_case(mod, v, desc)

                def post(q, base=base, r=r, name=name):
                    neg_big = And(bits is None, v < 0)
                    if q.kind == "throw":
                        E.oblige(q.st, "%s: throws only PrintfException, for a negative BigInteger" % r.name,
                                 And(base is not None, printf_exc(E, q.st, q.v), neg_big))
                        return
                    if name == "signum":
                        s = q.v
                        E.oblige(q.st, "%s: sign" % r.name, And(eq(lt(s, 0), v < 0) if False else (Z(s) < 0) == (v < 0), (Z(s) == 0) == (v == 0)))
                    elif name == "isNegative":
                        E.oblige(q.st, "%s: value" % r.name, (Z(q.v) != 0) == (v < 0))
                    elif base:
                        E.oblige(q.st, "%s: a negative BigInteger is refused" % r.name, Not(neg_big))
                        E.oblige_text(q.st, "%s: text" % r.name, q.v.t, jdk.digits(base, u))
                    else:
                        E.oblige_text(q.st, "%s: text" % r.name, q.v.t, jdk.digits(10, If(v < 0, -v, v)))
                r.run(m, o.st, [o.v], post)
        return E
    run.functions = [INTFORM + ".valueOf(" + desc + ")"]
    return run


def wrap_case(mod, v, desc):
    x = ival(mod, v)
    ty = {"B": "b", "S": "s", "I": "i", "J": "l"}.get(desc, "I")
    return ["fmt\t%s\t%s" % (f, arg(ty, x)) for f in ("%d", "%x", "%o", "%u", "%#x", "%+d")] if x is not None else []


UNITS = {
    "SeqFormatter.d": int_unit("d"), "SeqFormatter.u": int_unit("u"), "SeqFormatter.o": int_unit("o"), "SeqFormatter.x": int_unit("x"),
}
for _k in KINDS:
    UNITS["IntForm(%s)" % _k[1]] = wrapper_unit(_k)
