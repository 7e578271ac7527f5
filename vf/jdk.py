"""Models of the Java library methods the code under test calls. These are the trusted contracts."""
import re
import struct
import z3
from . import smt, terms
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Dbl, Flt, Lam, Cls, Maybe, dbl, dval, fval, Obj

M = {}
L = "java/lang/"


def model(cls, *names):
    def d(fn):
        for c in cls.split():
            c = c if "/" in c else L + c
            for n in names:
                M[(c, n)] = fn
        return fn
    return d


def call(E, st, cls, name, desc, args, static_cls=None):
    for c in [cls] + [x for x in E.prog.supers(cls) if x != cls] + ([static_cls] if static_cls else []):
        fn = M.get((c, name + desc)) or M.get((c, name))
        if fn:
            E.trusted.add("%s.%s" % (c.replace("/", "."), name))
            return fn(E, st, desc, args)
    raise Unsupported("library method %s.%s%s" % (cls, name, desc))


def construct(E, st, cls, desc, args):
    r = st.new(cls, {}, {"fresh": True})
    out = []
    if cls == L + "String":
        return E.norm(st, string_init(E, st, desc, args))
    for o in E.norm(st, init(E, st, r, desc, args)):
        out.append(Out("ret", o.st, r) if o.kind == "ret" else o)
    return out


def init(E, st, recv, desc, args):
    cls = st.obj(recv).cls
    if E.prog.subclass(cls, L + "Throwable"):
        st.mut(recv).d.update(exc=True)
        return None
    fn = M.get((cls, "<init>" + desc)) or M.get((cls, "<init>"))
    if not fn:
        raise Unsupported("constructor %s%s" % (cls, desc))
    E.trusted.add(cls.replace("/", "."))
    return fn(E, st, desc, [recv] + args)


def super_init(E, st, recv, cls, desc, args):
    o = st.mut(recv)
    if E.prog.subclass(cls, L + "Throwable"):
        o.d["exc"] = True
        return
    if cls == L + "Enum":
        o.f["$name"], o.f["$ordinal"] = args[0], args[1]
        return
    raise Unsupported("superclass %s" % cls)


def static(E, st, cls, n):
    k = (cls, n)
    if k in STATICS:
        return STATICS[k](E, st)
    raise Unsupported("library field %s.%s" % k)


def singleton(cls, key, **d):
    def f(E, st):
        r = E.lib_refs.setdefault(key, Ref()) if hasattr(E, "lib_refs") else None
        if r is None:
            E.lib_refs = {key: Ref()}
            r = E.lib_refs[key]
        if r.id not in st.heap:
            st.heap[r.id] = Obj(cls, {}, dict(d))
        return r
    return f


STATICS = {
    (L + "Integer", "MIN_VALUE"): lambda E, st: MINI,
    (L + "Integer", "MAX_VALUE"): lambda E, st: MAXI,
    ("java/math/BigDecimal", "ZERO"): singleton("java/math/BigDecimal", "bd0", u=0, s=0),
    ("java/math/BigInteger", "ZERO"): singleton("java/math/BigInteger", "bi0", v=0),
    ("java/math/BigInteger", "ONE"): singleton("java/math/BigInteger", "bi1", v=1),
    ("java/math/BigInteger", "TEN"): singleton("java/math/BigInteger", "bi10", v=10),
    ("java/math/BigDecimal", "ONE"): singleton("java/math/BigDecimal", "bd1", u=1, s=0),
    ("java/math/BigDecimal", "TEN"): singleton("java/math/BigDecimal", "bd10", u=10, s=0),
    **{("java/math/RoundingMode", n): singleton("java/math/RoundingMode", n.lower().replace("_", ""), name=n) for n in ("UP", "CEILING", "FLOOR", "HALF_DOWN", "UNNECESSARY")},
    ("java/math/RoundingMode", "HALF_UP"): singleton("java/math/RoundingMode", "halfup", name="HALF_UP"),
    ("java/math/RoundingMode", "HALF_EVEN"): singleton("java/math/RoundingMode", "halfeven", name="HALF_EVEN"),
    ("java/math/RoundingMode", "DOWN"): singleton("java/math/RoundingMode", "down", name="DOWN"),
}
for _n in ("Boolean", "Character", "Byte", "Short", "Integer", "Long", "Float", "Double"):
    STATICS[(L + _n, "TYPE")] = lambda E, st, _n=_n: Cls(_n)
for _n in ("ISO_OFFSET_DATE_TIME", "ISO_LOCAL_DATE_TIME", "ISO_LOCAL_DATE", "ISO_LOCAL_TIME", "ISO_INSTANT", "ISO_DATE_TIME"):
    STATICS[("java/time/format/DateTimeFormatter", _n)] = singleton("java/time/format/DateTimeFormatter", _n, name=_n)


def opaque(p="txt", lo=0):
    n = var(fresh_name("n_" + p), (lo, MAXI))
    return Opq(fresh_name(p), n), [n >= lo, n <= MAXI]


def unknown_text(st, p="txt", lo=0):
    t, fs = opaque(p, lo)
    st.add(*fs)
    return t


# ---------------------------------------------------------------- digit texts

_len = {}


def digits(base, x):
    """Text of the non-negative number x in a base, without leading zeros."""
    if not is_z(x):
        s = ""
        y = x
        while True:
            s = "0123456789abcdef"[y % base] + s
            y //= base
            if y == 0:
                return Lit(s)
    lf = _len.get(base)
    if lf is None:
        lf = _len[base] = z3.Function("len%d" % base, z3.IntSort(), z3.IntSort())
        BOUND["len%d" % base] = (1, 2**30)

        def lax(a):
            n = lf(a)
            ks = range(1, 21) if base == 10 else (1, 2, 8, 16) if base == 16 else (1, 3, 11, 22)
            fs = [n >= 1, n <= 2**30]  # a BigInteger has less than 2^31 bits
            for k in ks:
                fs.append(z3.Implies(a >= 0, (a < base**k) == (n <= k)))
            return fs
        smt.axiom(lf, lax)
        hi = {8: 55, 10: 57, 16: 102}[base]
        f = z3.Function("dig%d" % base, z3.IntSort(), z3.IntSort(), z3.IntSort())
        smt.AXIOMS[f.name()] = []
        BOUND[f.name()] = (48, hi)

        def dax(a, i):
            v = f(a, i)
            fs = [v >= 48, v <= hi, z3.Implies(z3.And(a > 0, i == 0), v != 48), z3.Implies(a == 0, v == 48)]
            if base == 16:
                fs.append(z3.Or(v <= 57, v >= 97))
            if base == 10 or base == 8 or base == 16:
                fs.append(z3.Implies(z3.And(a >= 0, a < min(base, 10)), v == 48 + a))
            if base == 10 and LINK:
                fs.append(z3.Implies(z3.And(a >= 0, i >= 0, i < lf(a)), v == 48 + shifted(10, a, lf(a) - 1 - i) % 10))
            return fs
        smt.axiom(f, dax)
    return Opq("dig%d" % base, lf(x), None, [x])


LINK = []  # non-empty: characters of a decimal text are tied to divisions of the number
_shift = {}


def shifted(c, x, j):
    """x divided j times by the constant c (x >= 0)."""
    f = _shift.get(c)
    if f is None:
        f = _shift[c] = z3.Function("div%d_" % c, z3.IntSort(), z3.IntSort(), z3.IntSort())
        smt.AXIOMS[f.name()] = []

        def ax(a, i):
            v = f(a, i)
            fs = [z3.Implies(a >= 0, z3.And(v >= 0, v <= a)), z3.Implies(i == 0, v == a)]
            fs += [z3.Implies(z3.And(a >= 0, i == k), v == a / c**k) for k in (1, 2)]
            if c == 10 and LINK:
                n = digits(10, a).len()
                fs += [z3.Implies(z3.And(a > 0, i == n - 1), z3.And(v >= 1, v <= 9)), z3.Implies(z3.And(a >= 0, i >= n), v == 0)]
            return fs
        smt.axiom(f, ax)

        def pair(p, q):
            (a, i), (b, j) = p, q
            if not a.eq(b):
                return []
            return [z3.Implies(z3.And(a >= 0, i >= 0, j == i + 1), f(a, j) == f(a, i) / c),
                    z3.Implies(z3.And(a >= 0, j >= 0, i == j + 1), f(a, i) == f(a, j) / c)]
        smt.pair_axiom(f, pair)
    x = Z(x)
    if z3.is_app(x) and x.decl().eq(f):
        return f(x.arg(0), Z(simp(add(x.arg(1), j))))
    return f(x, Z(simp(j)))


def signed_text(x):
    if not is_z(x):
        return Lit(str(x))
    b = bounds(x)
    if b and b[0] >= 0:
        return digits(10, x)
    return ite(x < 0, cat(Lit("-"), digits(10, If(x < 0, -x, x))), digits(10, If(x < 0, -x, x)))


def unsigned(x, bits):
    return x % 2**bits if not is_z(x) else If(x < 0, x + 2**bits, x)


# ---------------------------------------------------------------- Object, Class, Enum

@model("Object", "getClass")
def _(E, st, d, a):
    c = Cls(E.cls_of(st, a[0]))
    o = st.obj(a[0]) if isinstance(a[0], Ref) else None
    if o is not None and "cname" in o.d:
        c.text = o.d["cname"]
    return c


@model("Object", "toString")
def _(E, st, d, a):
    return Str(unknown_text(st, "tostr"))


@model("Object", "hashCode")
def _(E, st, d, a):
    v = var(fresh_name("hash"), "I")
    st.add(in_range(v, "I"))
    return v


@model("Object", "equals")
def _(E, st, d, a):
    r = E.same_ref(st, a[0], a[1])
    return If(r, 1, 0)


@model("Class", "getName", "getTypeName")
def _(E, st, d, a):
    if hasattr(a[0], "text"):
        return Str(a[0].text)
    return Str(Lit(a[0].name.replace("/", ".")))


@model("Class", "getSimpleName")
def _(E, st, d, a):
    if hasattr(a[0], "text"):
        return Str(unknown_text(st, "simplename"))
    return Str(Lit(re.split("[/$]", a[0].name)[-1]))


@model("Class", "isArray")
def _(E, st, d, a):
    return 1 if a[0].name.startswith("[") else 0


@model("Class", "getComponentType")
def _(E, st, d, a):
    n = a[0].name
    if not n.startswith("["):
        return None
    return Cls(n[2:-1] if n[1] == "L" else n[1:])


@model("Class", "desiredAssertionStatus")
def _(E, st, d, a):
    return 0


@model("Enum", "ordinal")
def _(E, st, d, a):
    return st.obj(a[0]).f["$ordinal"]


@model("Enum", "name", "toString")
def _(E, st, d, a):
    return st.obj(a[0]).f["$name"]


@model("Enum", "valueOf")
def _(E, st, d, a):
    raise Unsupported("Enum.valueOf by name")


@model("Enum", "compareTo")
def _(E, st, d, a):
    return st.obj(a[0]).f["$ordinal"] - st.obj(a[1]).f["$ordinal"]


def clone_array(E, st, d, a):
    o = st.obj(a[0])
    return st.new(o.cls, {}, dict(o.d))


for _t in ("[C", "[I", "[J", "[B", "[S", "[Z"):
    M[(_t, "clone")] = clone_array
M[(L + "Object", "clone")] = clone_array


@model("Objects java/util/Objects", "requireNonNull")
def _(E, st, d, a):
    if a[0] is None:
        return E.throw(st, "NullPointerException")
    if isinstance(a[0], Maybe):
        out = []
        for s2, isn in E.split(st, a[0].isnull):
            out.append(E.throw(s2, "NullPointerException") if isn else Out("ret", s2, a[0].v))
        return out
    return a[0]


@model("java/util/Objects", "equals")
def _(E, st, d, a):
    if a[0] is None or a[1] is None:
        return If(E.same_ref(st, a[0], a[1]), 1, 0)
    return E.call_key(st, L + "Object", "equals", "(Ljava/lang/Object;)Z", a)


# ---------------------------------------------------------------- String

def T(E, st, v):
    """Text of a CharSequence value."""
    if isinstance(v, Str):
        return v.t
    if v is None:
        return None
    if isinstance(v, Ref):
        o = st.obj(v)
        if "text" in o.d:
            return o.d["text"]
        h = E.abs.get("text-of")
        if h:
            t = h(E, st, v)
            if t is not None:
                return t
    raise Unsupported("text of %s" % v)


def range_check(E, st, cond, ok, exc="StringIndexOutOfBoundsException"):
    """Outcomes of an operation that needs cond; ok(st) gives its value."""
    out = []
    for s2, c in E.split(st, cond):
        out.append(Out("ret", s2, ok(s2)) if c else E.throw(s2, exc))
    return out


@model("String StringBuilder StringBuffer", "length")
def _(E, st, d, a):
    return T(E, st, a[0]).len()


@model("String", "isEmpty")
def _(E, st, d, a):
    return If(eq(T(E, st, a[0]).len(), 0), 1, 0)


@model("String StringBuilder StringBuffer", "charAt")
def _(E, st, d, a):
    t = T(E, st, a[0])
    return range_check(E, st, And(le(0, a[1]), lt(a[1], t.len())), lambda s: t.at(a[1]))


@model("String StringBuilder", "substring", "subSequence")
def _(E, st, d, a):
    t = T(E, st, a[0])
    s, e = a[1], a[2] if len(a) > 2 else t.len()
    return range_check(E, st, And(le(0, s), le(s, e), le(e, t.len())), lambda st: Str(substr(t, s, e)))


def base_of(t):
    """(underlying unknown text, offset) for triggers of bounded facts."""
    off = 0
    while isinstance(t, SubT):
        off, t = add(off, t.a), t.s
    return t, off


def triggers(t, off=0):
    if isinstance(t, Opq):
        return [(t.name, Z(off))]
    if isinstance(t, SubT):
        return triggers(t.s, add(off, t.a))
    if isinstance(t, MapT):
        return triggers(t.s, off)
    if isinstance(t, IteT):
        return triggers(t.a, off) + triggers(t.b, off)
    if isinstance(t, UpdT):
        return triggers(t.s, off)
    if isinstance(t, Cat):
        out, o = [], 0
        for p in t.parts:
            out += triggers(p, sub(off, o))
            o = add(o, p.len())
        return out
    if isinstance(t, Gen):
        i = z3.Int("trig!")
        e = t.at(i)
        out = []
        if is_z(e):
            for x in smt.apps(e).values():
                k = x.arg(x.num_args() - 1)
                from .loops import free_consts
                if "trig!" in free_consts(k):
                    o = z3.simplify(k - i)
                    if "trig!" not in free_consts(o):
                        out.append((x.decl().name(), add(o, off)))
        return out
    return []


def lacks(t, c):
    """c certainly does not occur in t."""
    if isinstance(t, Lit):
        return chr(c) not in t.s
    if isinstance(t, Rep):
        return not is_z(t.c) and t.c != c
    if isinstance(t, Opq):
        b = t.lohi or BOUND.get(t.name)
        return b is not None and not b[0] <= c <= b[1]
    if isinstance(t, SubT):
        return lacks(t.s, c)
    if isinstance(t, IteT):
        return lacks(t.a, c) and lacks(t.b, c)
    if isinstance(t, Cat):
        return all(lacks(p, c) for p in t.parts)
    return False


def first_known(t, c):
    """First index of c when the parts of t show it, else None."""
    o = 0
    for p in (t.parts if isinstance(t, Cat) else [t]):
        if isinstance(p, Lit) and chr(c) in p.s:
            return add(o, p.s.index(chr(c)))
        if not lacks(p, c):
            return None
        o = add(o, p.len())
    return -1


def index_of(E, st, t, c, frm=0):
    """Outcomes for the first index >= frm at which c occurs."""
    n = t.len()
    if isinstance(t, Lit) and not is_z(c) and not is_z(frm):
        return [Out("ret", st, t.s.find(chr(c), max(frm, 0)))]
    if isinstance(t, Lit) and not is_z(frm) and len(t.s) <= 24:
        out, seen = [], []
        for k in range(max(frm, 0), len(t.s)):
            x = ord(t.s[k])
            if x in seen:
                continue
            s1 = st.fork()
            s1.add(eq(c, x))
            seen.append(x)
            if check(s1.pc) != "unsat":
                out.append(Out("ret", s1, k))
        st.add(*[Not(eq(c, x)) for x in seen])
        if check(st.pc) != "unsat":
            out.append(Out("ret", st, -1))
        return out
    if not is_z(frm) and frm <= 0 and not is_z(c):
        k = first_known(t, c)
        if k is not None:
            return [Out("ret", st, k)]
    frm = imax(frm, 0)
    out = []
    s1 = st.fork()
    r = var(fresh_name("pos"), (0, MAXI))
    s1.add(le(frm, r), lt(r, n), eq(t.at(r), c), smt.Q(frm, r, lambda k: Not(eq(t.at(k), c)), triggers(t)))
    if check(s1.pc) != "unsat":
        out.append(Out("ret", s1, r))
    st.add(smt.Q(frm, n, lambda k: Not(eq(t.at(k), c)), triggers(t)))
    if check(st.pc) != "unsat":
        out.append(Out("ret", st, -1))
    return out


@model("String", "indexOf(I)I", "indexOf(II)I")
def _(E, st, d, a):
    return index_of(E, st, T(E, st, a[0]), a[1], a[2] if len(a) > 2 else 0)


@model("String", "lastIndexOf(I)I")
def _(E, st, d, a):
    t, c = T(E, st, a[0]), a[1]
    if isinstance(t, Lit) and not is_z(c):
        return t.s.rfind(chr(c))
    n = t.len()
    s1 = st.fork()
    r = var(fresh_name("pos"), (0, MAXI))
    s1.add(le(0, r), lt(r, n), eq(t.at(r), c), smt.Q(add(r, 1), n, lambda k: Not(eq(t.at(k), c)), triggers(t)))
    st.add(smt.Q(0, n, lambda k: Not(eq(t.at(k), c)), triggers(t)))
    return [Out("ret", s, v) for s, v in ((s1, r), (st, -1)) if check(s.pc) != "unsat"]


@model("String", "equals")
def _(E, st, d, a):
    if a[1] is None or not isinstance(a[1], Str):
        return 0
    x, y = T(E, st, a[0]), T(E, st, a[1])
    if isinstance(x, Lit) and isinstance(y, Lit):
        return 1 if x.s == y.s else 0
    for p, q in ((x, y), (y, x)):
        if isinstance(p, Lit) and len(p.s) < 12:
            return If(And(eq(q.len(), len(p.s)), *[eq(q.at(i), ord(c)) for i, c in enumerate(p.s)]), 1, 0)
    raise Unsupported("equality of unknown strings")


@model("String", "startsWith(Ljava/lang/String;)Z", "endsWith(Ljava/lang/String;)Z")
def _(E, st, d, a):
    x, y = T(E, st, a[0]), T(E, st, a[1])
    if isinstance(x, Lit) and isinstance(y, Lit):
        return 1 if x.s.startswith(y.s) else 0
    if isinstance(y, Lit):
        return If(And(le(len(y.s), x.len()), *[eq(x.at(i), ord(c)) for i, c in enumerate(y.s)]), 1, 0)
    raise Unsupported("startsWith")


@model("String", "contains")
def _(E, st, d, a):
    x, y = T(E, st, a[0]), T(E, st, a[1])
    if isinstance(x, Lit) and isinstance(y, Lit):
        return 1 if y.s in x.s else 0
    if isinstance(y, Lit) and len(y.s) == 1:
        out = index_of(E, st, x, ord(y.s))
        return [Out("ret", o.st, If(le(0, o.v), 1, 0)) for o in out]
    raise Unsupported("contains")


@model("String", "toString", "intern")
def _(E, st, d, a):
    return a[0]


@model("String", "hashCode")
def _(E, st, d, a):
    v = var(fresh_name("hash"), "I")
    st.add(in_range(v, "I"))
    return v


@model("String", "concat")
def _(E, st, d, a):
    return Str(cat(T(E, st, a[0]), T(E, st, a[1])))


@model("String", "toCharArray")
def _(E, st, d, a):
    t = T(E, st, a[0])
    return st.new("[C", {}, {"t": Vals([ord(c) for c in t.s]) if isinstance(t, Lit) else t})


def blit(dst, dpos, src, spos, n):
    """dst with n values of src copied to dpos."""
    if isinstance(dst, Vals) and not any(is_z(x) for x in (dpos, spos, n)):
        v = list(dst.v)
        v[dpos:dpos + n] = [src.at(spos + i) for i in range(n)]
        return Vals(v)
    if not is_z(dpos) and dpos == 0 and eq(n, dst.len()) is True:
        return substr(src, spos, add(spos, n))
    return Gen(dst.len(), lambda k: If(And(le(dpos, k), lt(k, add(dpos, n))), src.at(add(sub(k, dpos), spos)), dst.at(k)))


@model("String", "getChars(II[CI)V")
def _(E, st, d, a):
    t, s, e, arr, p = T(E, st, a[0]), a[1], a[2], a[3], a[4]
    n = sub(e, s)
    dst = st.obj(arr).d["t"]

    def ok(s2):
        s2.mut(arr).d["t"] = blit(dst, p, t, s, n)
    return range_check(E, st, And(le(0, s), le(s, e), le(e, t.len()), le(0, p), le(add(p, n), dst.len())), ok)


def arr_text(st, arr):
    return st.obj(arr).d["t"]


def string_init(E, st, desc, args):
    E.trusted.add("java.lang.String")
    if desc == "()V":
        return Str(EMPTY)
    if desc in ("([C)V", "([CII)V"):
        return call(E, st, L + "String", "valueOf", desc[:-1] + "Ljava/lang/String;", args)
    if desc in ("(Ljava/lang/String;)V", "(Ljava/lang/StringBuilder;)V"):
        if args[0] is None:
            return E.throw(st, "NullPointerException")
        return Str(T(E, st, args[0]))
    raise Unsupported("constructor java/lang/String%s" % desc)


@model("String", "valueOf([C)Ljava/lang/String;", "copyValueOf([C)Ljava/lang/String;")
def _(E, st, d, a):
    if a[0] is None:
        return E.throw(st, "NullPointerException")
    return Str(arr_text(st, a[0]))


@model("String", "valueOf([CII)Ljava/lang/String;", "copyValueOf([CII)Ljava/lang/String;")
def _(E, st, d, a):
    t = arr_text(st, a[0])
    return range_check(E, st, And(le(0, a[1]), le(0, a[2]), le(add(a[1], a[2]), t.len())),
                       lambda s: Str(substr(t, a[1], add(a[1], a[2]))))


@model("String", "valueOf(C)Ljava/lang/String;")
def _(E, st, d, a):
    return Str(ch(a[0]))


@model("Character", "toString(C)Ljava/lang/String;")
def _(E, st, d, a):
    return Str(ch(a[0]))


@model("String", "valueOf(I)Ljava/lang/String;", "valueOf(J)Ljava/lang/String;")
def _(E, st, d, a):
    return Str(signed_text(a[0]))


@model("String", "valueOf(Z)Ljava/lang/String;")
def _(E, st, d, a):
    return Str(ite(eq(a[0], 0), Lit("false"), Lit("true")))


@model("Boolean", "toString(Z)Ljava/lang/String;")
def _(E, st, d, a):
    return Str(ite(eq(a[0], 0), Lit("false"), Lit("true")))


@model("String", "valueOf(Ljava/lang/Object;)Ljava/lang/String;")
def _(E, st, d, a):
    if a[0] is None:
        return Str("null")
    return to_string(E, st, a[0])


@model("String", "format")
def _(E, st, d, a):
    return Str(unknown_text(st, "fmt"))


def to_string(E, st, v):
    if isinstance(v, Str):
        return v
    return E.call_key(st, L + "Object", "toString", "()Ljava/lang/String;", [v])


# ---------------------------------------------------------------- StringBuilder

@model("StringBuilder StringBuffer", "<init>")
def _(E, st, d, a):
    o = st.mut(a[0])
    o.d.pop("fresh", None)
    o.d["model"] = "sb"
    o.d["text"] = EMPTY
    if d == "()V":
        return None
    if d == "(I)V":
        return range_check(E, st, le(0, a[1]), lambda s: None, "NegativeArraySizeException")
    if a[1] is None:
        return E.throw(st, "NullPointerException")
    o.d["text"] = T(E, st, a[1])


def sb_append(E, st, r, t):
    if isinstance(r, Maybe):
        raise Unsupported("append to a maybe-null builder")
    o = st.mut(r)
    o.d["text"] = cat(o.d["text"], t)
    return r


@model("StringBuilder StringBuffer Appendable", "append")
def _(E, st, d, a):
    ad = E.desc(d)[0]
    r = a[0]
    if len(ad) == 3:
        if ad[0] == "[C":
            t = arr_text(st, a[1])
            return range_check(E, st, And(le(0, a[2]), le(0, a[3]), le(add(a[2], a[3]), t.len())),
                               lambda s: sb_append(E, s, r, substr(t, a[2], add(a[2], a[3]))), "IndexOutOfBoundsException")
        t = T(E, st, a[1]) if a[1] is not None else Lit("null")
        return range_check(E, st, And(le(0, a[2]), le(a[2], a[3]), le(a[3], t.len())),
                           lambda s: sb_append(E, s, r, substr(t, a[2], a[3])), "IndexOutOfBoundsException")
    t, v = ad[0], a[1]
    if t == "C":
        return sb_append(E, st, r, ch(v))
    if t in ("I", "J"):
        return sb_append(E, st, r, signed_text(v))
    if t == "Z":
        return sb_append(E, st, r, ite(eq(v, 0), Lit("false"), Lit("true")))
    if t == "[C":
        return sb_append(E, st, r, arr_text(st, v))
    if t in ("D", "F"):
        return sb_append(E, st, r, unknown_text(st, "dbl"))
    if v is None:
        return sb_append(E, st, r, Lit("null"))
    if isinstance(v, Str):
        return sb_append(E, st, r, v.t)
    if t in ("Ljava/lang/CharSequence;", "Ljava/lang/StringBuffer;", "Ljava/lang/StringBuilder;"):
        return sb_append(E, st, r, T(E, st, v))
    out = []
    for o in E.norm(st, to_string(E, st, v)):
        if o.kind == "ret":
            o = Out("ret", o.st, sb_append(E, o.st, r, o.v.t if o.v is not None else Lit("null")))
        out.append(o)
    return out


@model("StringBuilder StringBuffer", "toString")
def _(E, st, d, a):
    return Str(T(E, st, a[0]))


@model("StringBuilder StringBuffer", "ensureCapacity", "trimToSize")
def _(E, st, d, a):
    return None


@model("StringBuilder StringBuffer", "capacity")
def _(E, st, d, a):
    v = var(fresh_name("cap"), (0, MAXI))
    st.add(v >= 0, v <= MAXI, le(T(E, st, a[0]).len(), v))
    return v


@model("StringBuilder StringBuffer", "setLength")
def _(E, st, d, a):
    t = T(E, st, a[0])
    out = []
    for s2, neg_ in E.split(st, lt(a[1], 0)):
        if neg_:
            out.append(E.throw(s2, "StringIndexOutOfBoundsException"))
            continue
        for s3, short in E.split(s2, le(a[1], t.len())):
            s3.mut(a[0]).d["text"] = substr(t, 0, a[1]) if short else cat(t, rep(0, sub(a[1], t.len())))
            out.append(Out("ret", s3, None))
    return out


@model("StringBuilder StringBuffer", "repeat(II)Ljava/lang/StringBuilder;")
def _(E, st, d, a):
    return range_check(E, st, le(0, a[2]), lambda s: sb_append(E, s, a[0], rep(a[1], a[2])), "IllegalArgumentException")


@model("StringBuilder StringBuffer", "insert(ILjava/lang/String;)Ljava/lang/StringBuilder;", "insert(IC)Ljava/lang/StringBuilder;")
def _(E, st, d, a):
    t = T(E, st, a[0])
    x = ch(a[2]) if "IC" in d else a[2].t

    def ok(s):
        s.mut(a[0]).d["text"] = cat(substr(t, 0, a[1]), x, substr(t, a[1], t.len()))
        return a[0]
    return range_check(E, st, And(le(0, a[1]), le(a[1], t.len())), ok)


@model("StringBuilder StringBuffer", "delete")
def _(E, st, d, a):
    t = T(E, st, a[0])
    n = t.len()
    b = imin(a[2], n)

    def ok(s):
        s.mut(a[0]).d["text"] = cat(substr(t, 0, a[1]), substr(t, b, n))
        return a[0]
    return range_check(E, st, And(le(0, a[1]), le(a[1], b)), ok)


@model("StringBuilder StringBuffer", "deleteCharAt")
def _(E, st, d, a):
    t = T(E, st, a[0])

    def ok(s):
        s.mut(a[0]).d["text"] = cat(substr(t, 0, a[1]), substr(t, add(a[1], 1), t.len()))
        return a[0]
    return range_check(E, st, And(le(0, a[1]), lt(a[1], t.len())), ok)


@model("StringBuilder StringBuffer", "replace(IILjava/lang/String;)Ljava/lang/StringBuilder;")
def _(E, st, d, a):
    t = T(E, st, a[0])
    n = t.len()
    b = imin(a[2], n)

    def ok(s):
        s.mut(a[0]).d["text"] = cat(substr(t, 0, a[1]), a[3].t, substr(t, b, n))
        return a[0]
    return range_check(E, st, And(le(0, a[1]), le(a[1], b)), ok)


@model("StringBuilder StringBuffer", "setCharAt")
def _(E, st, d, a):
    t = T(E, st, a[0])

    def ok(s):
        s.mut(a[0]).d["text"] = UpdT(t, a[1], a[2])
    return range_check(E, st, And(le(0, a[1]), lt(a[1], t.len())), ok)


@model("StringBuilder StringBuffer", "reverse")
def _(E, st, d, a):
    t = T(E, st, a[0])
    n = t.len()
    st.mut(a[0]).d["text"] = Gen(n, lambda k: t.at(sub(sub(n, 1), k)))
    return a[0]


# ---------------------------------------------------------------- numbers

@model("Math", "max")
def _(E, st, d, a):
    if "D" in d or "F" in d:
        raise Unsupported("Math.max of doubles")
    return imax(a[0], a[1])


@model("Math", "min")
def _(E, st, d, a):
    if "D" in d or "F" in d:
        raise Unsupported("Math.min of doubles")
    return imin(a[0], a[1])


@model("Math", "abs(I)I", "abs(J)J")
def _(E, st, d, a):
    return E.fit(st, If(lt(a[0], 0), -a[0], a[0]), d[1])


@model("Math", "abs(D)D")
def _(E, st, d, a):
    b = a[0].bits
    return Dbl(b % 2**63 if not is_z(b) else If(b < 0, b + 2**63, b))


@model("Math", "addExact", "subtractExact", "multiplyExact", "negateExact", "toIntExact")
def _(E, st, d, a):
    raise Unsupported("exact arithmetic")


def exact(fn):
    def f(E, st, d, a):
        t = E.desc(d)[1]
        v = fn(*a)
        return range_check(E, st, in_range(v, t), lambda s: v, "ArithmeticException")
    return f


M[(L + "Math", "addExact")] = exact(add)
M[(L + "Math", "subtractExact")] = exact(sub)
M[(L + "Math", "multiplyExact")] = exact(lambda a, b: a * b)
M[(L + "Math", "negateExact")] = exact(lambda a: -a)
M[(L + "Math", "toIntExact")] = exact(lambda a: a)


@model("Math", "multiplyHigh")
def _(E, st, d, a):
    return high_half(E, st, a[0], a[1])


def high_half(E, st, x, y):
    p = E.abs["mul"](E, st, x, y) if is_z(x) and is_z(y) and "mul" in E.abs else x * y
    return fdiv(p, 2**64)


def floor_op(fn):
    def f(E, st, d, a):
        c = E.concrete(st, a[1])
        if c is None or c <= 0:
            raise Unsupported("floor division by an unknown or negative number")
        return simp(fn(Z(a[0]), c))
    return f


for _d in ("(II)I", "(JJ)J"):
    M[(L + "Math", "floorDiv" + _d)] = floor_op(lambda x, c: x / c)
    M[(L + "Math", "floorMod" + _d)] = floor_op(lambda x, c: x % c)


@model("Integer Long", "signum")
def _(E, st, d, a):
    return If(lt(a[0], 0), -1, If(eq(a[0], 0), 0, 1))


@model("Integer Long Short Byte", "toString(I)Ljava/lang/String;", "toString(J)Ljava/lang/String;", "toString(S)Ljava/lang/String;", "toString(B)Ljava/lang/String;")
def _(E, st, d, a):
    return Str(signed_text(a[0]))


def radix(base):
    def f(E, st, d, a):
        return Str(digits(base, unsigned(a[0], 32 if "(I)" in d else 64)))
    return f


for _c in ("Integer", "Long"):
    M[(L + _c, "toHexString")] = radix(16)
    M[(L + _c, "toOctalString")] = radix(8)
    M[(L + _c, "toUnsignedString(%s)Ljava/lang/String;" % ("I" if _c == "Integer" else "J"))] = radix(10)


@model("Integer Long", "toString(II)Ljava/lang/String;", "toString(JI)Ljava/lang/String;", "toUnsignedString(II)Ljava/lang/String;", "toUnsignedString(JI)Ljava/lang/String;")
def _(E, st, d, a):
    raise Unsupported("radix conversion")


@model("Byte", "toUnsignedInt", "toUnsignedLong")
def _(E, st, d, a):
    return unsigned(a[0], 8)


@model("Short", "toUnsignedInt", "toUnsignedLong")
def _(E, st, d, a):
    return unsigned(a[0], 16)


@model("Integer", "toUnsignedLong")
def _(E, st, d, a):
    return unsigned(a[0], 32)


@model("Integer Long", "compare")
def _(E, st, d, a):
    return If(lt(a[0], a[1]), -1, If(eq(a[0], a[1]), 0, 1))


@model("Long", "compareUnsigned")
def _(E, st, d, a):
    x, y = unsigned(a[0], 64), unsigned(a[1], 64)
    return If(lt(x, y), -1, If(eq(x, y), 0, 1))


@model("Long", "numberOfLeadingZeros")
def _(E, st, d, a):
    x = a[0]
    b = bounds(x)
    if b and b[0] < 0 and not is_z(x):
        return 0
    if b and b[0] >= 0 and b[0].bit_length() == b[1].bit_length():
        return 64 - b[0].bit_length()
    return [Out("ret", s, v) for s, v in E.fork(st, [(And(le(2**k // 2, x), lt(x, 2**k)) if k < 64 else lt(x, 0), 64 - k) for k in range(65)])]


@model("Long", "numberOfTrailingZeros", "bitCount", "reverse")
def _(E, st, d, a):
    raise Unsupported("bit counting")


@model("Integer", "parseInt(Ljava/lang/String;)I")
def _(E, st, d, a):
    if a[0] is None:
        return E.throw(st, "NumberFormatException")
    t = a[0].t
    if isinstance(t, Lit):
        try:
            v = int(t.s)
            if "_" in t.s or not MINI <= v <= MAXI or not t.s.strip() == t.s:
                raise ValueError
            return v
        except ValueError:
            return E.throw(st, "NumberFormatException")
    h = E.abs.get("parse-int")
    if h:
        return h(E, st, t)
    raise Unsupported("parseInt")


def parser(kind, lo, hi):
    def f(E, st, d, a):
        if a[0] is None:
            return E.throw(st, "NumberFormatException" if kind != "double" else "NullPointerException")
        h = E.abs.get("parse-" + kind)
        if not h:
            raise Unsupported("parsing a number")
        return h(E, st, a[0].t)
    return f


M[(L + "Long", "parseLong(Ljava/lang/String;)J")] = parser("long", MINL, MAXL)
M[(L + "Double", "parseDouble(Ljava/lang/String;)D")] = parser("double", None, None)


def float_text(kind, bits):
    """The text Float.toString or Double.toString gives."""
    n = z3.Function("len_of_" + kind, z3.IntSort(), z3.IntSort())
    c = z3.Function("text_of_" + kind, z3.IntSort(), z3.IntSort(), z3.IntSort())
    k = ("ftext", kind, bits.get_id() if is_z(bits) else bits)
    if k not in _FT:
        b = Z(bits)
        _FT[k] = (Opq("%s(%s)" % (kind, bits), n(b), (1, 32)), b)
    return _FT[k][0]


_FT = {}


@model("Float Double", "toString(F)Ljava/lang/String;", "toString(D)Ljava/lang/String;")
def _(E, st, d, a):
    t = float_text("Float" if d[1] == "F" else "Double", a[0].bits)
    st.add(t.len() >= 1, t.len() <= 32)
    return Str(t)


M[(L + "String", "valueOf(F)Ljava/lang/String;")] = M[(L + "Float", "toString(F)Ljava/lang/String;")]
M[(L + "String", "valueOf(D)Ljava/lang/String;")] = M[(L + "Double", "toString(D)Ljava/lang/String;")]


@model("Float Double", "toString()Ljava/lang/String;")
def _(E, st, d, a):
    v = st.obj(a[0]).d["v"]
    t = float_text("Float" if isinstance(v, Flt) else "Double", v.bits)
    st.add(t.len() >= 1, t.len() <= 32)
    return Str(t)


@model("Boolean", "toString()Ljava/lang/String;")
def _(E, st, d, a):
    return Str(ite(eq(st.obj(a[0]).d["v"], 0), Lit("false"), Lit("true")))


def box(cls, t):
    def value_of(E, st, d, a):
        return st.new(L + cls, {}, {"v": a[0]})

    def unbox(E, st, d, a):
        v = st.obj(a[0]).d["v"]
        return v
    M[(L + cls, "valueOf(%s)Ljava/lang/%s;" % (t, cls))] = value_of
    nm = {"Z": "boolean", "C": "char", "B": "byte", "S": "short", "I": "int", "J": "long", "F": "float", "D": "double"}[t]
    M[(L + cls, nm + "Value")] = unbox


for _c, _t in (("Boolean", "Z"), ("Character", "C"), ("Byte", "B"), ("Short", "S"), ("Integer", "I"), ("Long", "J"), ("Float", "F"), ("Double", "D")):
    box(_c, _t)


@model("Integer Long Short Byte", "toString()Ljava/lang/String;")
def _(E, st, d, a):
    return Str(signed_text(st.obj(a[0]).d["v"]))


@model("Character", "toString()Ljava/lang/String;")
def _(E, st, d, a):
    return Str(ch(st.obj(a[0]).d["v"]))


@model("Character", "isDigit(C)Z", "isLetter(C)Z", "isUpperCase(C)Z", "isLowerCase(C)Z", "toUpperCase(C)C", "toLowerCase(C)C")
def _(E, st, d, a):
    c = a[0]
    if not is_z(c):
        raise Unsupported("Character predicate")
    v = var(fresh_name("chr"), E.desc(d)[1])
    st.add(in_range(v, E.desc(d)[1]))
    raise Unsupported("Character predicate")


# ---------------------------------------------------------------- doubles

EXPM = 2047 * 2**52


def d_abs(b):
    return b % 2**63 if not is_z(b) else If(lt(b, 0), add(b, 2**63), b)


def d_nan(b):
    return lt(EXPM, d_abs(b))


def d_inf(b):
    return eq(d_abs(b), EXPM)


def d_key(b):
    """Order-preserving integer of a non-NaN double (both zeros are 0)."""
    if not is_z(b):
        return b if b >= 0 else -(b + 2**63)
    return If(le(0, b), b, -(b + 2**63))


@model("Double", "isNaN(D)Z")
def _(E, st, d, a):
    return If(d_nan(a[0].bits), 1, 0)


@model("Double", "isInfinite(D)Z")
def _(E, st, d, a):
    return If(d_inf(a[0].bits), 1, 0)


@model("Double", "isFinite(D)Z")
def _(E, st, d, a):
    return If(lt(d_abs(a[0].bits), EXPM), 1, 0)


@model("Double", "doubleToRawLongBits", "doubleToLongBits")
def _(E, st, d, a):
    return a[0].bits


def _bits_nan(E, st, d, a):
    b = a[0].bits
    return If(d_nan(b), 0x7ff8000000000000, b)


M[(L + "Double", "doubleToLongBits")] = _bits_nan


@model("Double", "longBitsToDouble")
def _(E, st, d, a):
    return Dbl(a[0])


@model("Double", "compare")
def _(E, st, d, a):
    x, y = a[0].bits, a[1].bits
    # total order: -0.0 below 0.0, NaN above everything
    kx = If(d_nan(x), MAXL, If(lt(x, 0), sub(-(2**63) - 1, x), x)) if is_z(x) else (MAXL if d_nan(x) else x if x >= 0 else -(2**63) - 1 - x)
    ky = If(d_nan(y), MAXL, If(lt(y, 0), sub(-(2**63) - 1, y), y)) if is_z(y) else (MAXL if d_nan(y) else y if y >= 0 else -(2**63) - 1 - y)
    return If(lt(kx, ky), -1, If(eq(kx, ky), 0, 1))


@model("Math", "getExponent(D)I")
def _(E, st, d, a):
    return sub(fmod(fdiv(a[0].bits, 2**52), 2048), 1023)


@model("Math", "scalb(DI)D")
def _(E, st, d, a):
    import math
    if is_z(a[0].bits) or is_z(a[1]):
        raise Unsupported("scalb")
    return dbl(math.ldexp(dval(a[0]), a[1]))


@model("Math", "round(D)J")
def _(E, st, d, a):
    return uf(E, st, "round_d", [a[0].bits], "J")


@model("Math", "round(F)I")
def _(E, st, d, a):
    return uf(E, st, "round_f", [a[0].bits], "I")


def uf(E, st, name, args, t):
    f = z3.Function(name, *([z3.IntSort()] * (len(args) + 1)))
    lo, hi = RANGE[t] if isinstance(t, str) else t
    if name not in smt.AXIOMS:
        smt.AXIOMS[name] = []
        smt.axiom(f, lambda *x: [f(*x) >= lo, f(*x) <= hi])
        BOUND[name] = (lo, hi)
        if name == "i2d":
            g = z3.Function("l2d", z3.IntSort(), z3.IntSort())
            uf(E, st, "l2d", [0], "J")
            smt.axiom(f, lambda x: [f(x) == g(x)])
        if name == "l2d":
            smt.axiom(f, lambda x: [z3.Implies(x == 0, f(x) == 0), z3.Implies(x == 1, f(x) == dbl(1.0).bits)])
    return f(*[Z(x) for x in args])


def fop(name, fn):
    def f(E, st, s):
        fn(E, st, s)
        return None
    return f


FLOAT_OPS = {}


def dcmp(nan):
    def f(E, st, s):
        b, a = s.pop(), s.pop()
        x, y = a.bits, b.bits
        isn = Or(d_nan(x), d_nan(y))
        s.append(If(isn, nan, If(lt(d_key(x), d_key(y)), -1, If(eq(d_key(x), d_key(y)), 0, 1))))
    return f


FLOAT_OPS["dcmpl"], FLOAT_OPS["dcmpg"] = dcmp(-1), dcmp(1)


def dneg(E, st, s):
    b = s.pop().bits
    s.append(Dbl(If(lt(b, 0), add(b, 2**63), sub(b, 2**63)) if is_z(b) else (b + 2**63 if b < 0 else b - 2**63)))


FLOAT_OPS["dneg"] = dneg


def darith(op):
    def f(E, st, s):
        b, a = s.pop(), s.pop()
        if not is_z(a.bits) and not is_z(b.bits):
            x, y = dval(a), dval(b)
            s.append(dbl({"dadd": lambda: x + y, "dsub": lambda: x - y, "dmul": lambda: x * y, "ddiv": lambda: x / y}[op]()))
            return
        h = E.abs.get("double-op")
        r = h(E, st, op, a, b) if h else None
        s.append(r if r is not None else Dbl(uf(E, st, op, [a.bits, b.bits], "J")))
    return f


for _o in ("dadd", "dsub", "dmul", "ddiv"):
    FLOAT_OPS[_o] = darith(_o)


def conv(op, src, dst):
    def f(E, st, s):
        v = s.pop()
        x = v if src in "IJ" else v.bits
        if op == "i2d" and not is_z(x):
            s.append(dbl(float(x)))
            return
        if op == "i2f" and not is_z(x) or op == "l2d" and not is_z(x):
            s.append(dbl(float(x)) if dst == "D" else Flt(struct.unpack(">i", struct.pack(">f", float(x)))[0]))
            return
        r = uf(E, st, op, [x], {"I": "I", "J": "J", "D": "J", "F": "I"}[dst])
        s.append(r if dst in "IJ" else Dbl(r) if dst == "D" else Flt(r))
    return f


for _o, _s, _d in (("i2d", "I", "D"), ("l2d", "J", "D"), ("i2f", "I", "F"), ("l2f", "J", "F"), ("f2d", "F", "D"), ("d2f", "D", "F"),
                   ("d2i", "D", "I"), ("d2l", "D", "J"), ("f2i", "F", "I"), ("f2l", "F", "J")):
    FLOAT_OPS[_o] = conv(_o, _s, _d)


# ---------------------------------------------------------------- arrays

@model("java/util/Arrays", "fill([CC)V", "fill([II)V", "fill([JJ)V", "fill([BB)V")
def _(E, st, d, a):
    o = st.mut(a[0])
    n = o.d["t"].len()
    o.d["t"] = Vals([a[1]] * n) if not is_z(n) and n < 4096 else rep(a[1], n)


@model("java/util/Arrays", "fill([CIIC)V", "fill([BIIB)V")
def _(E, st, d, a):
    t = st.obj(a[0]).d["t"]
    n = t.len()

    def ok(s):
        s.mut(a[0]).d["t"] = blit(t, a[1], Rep(a[3], sub(a[2], a[1])), 0, sub(a[2], a[1]))
    out = []
    for s2, bad in E.split(st, lt(a[2], a[1])):
        out += [E.throw(s2, "IllegalArgumentException")] if bad else range_check(
            E, s2, And(le(0, a[1]), le(a[2], n)), ok, "ArrayIndexOutOfBoundsException")
    return out


def fill_objects(E, st, arr, lo, hi, v):
    o = st.obj(arr)
    if "elems" in o.d:
        lo, hi = E.concrete(st, lo), E.concrete(st, hi)
        if lo is None or hi is None:
            raise Unsupported("fill of an unknown range of objects")
        e = list(o.d["elems"])
        if lo > hi or lo < 0 or hi > len(e):
            return E.throw(st, "IllegalArgumentException" if lo > hi else "ArrayIndexOutOfBoundsException")
        e[lo:hi] = [v] * (hi - lo)
        st.mut(arr).d["elems"] = e
        return None
    if "n" not in o.d or "make" not in o.d:
        raise Unsupported("fill of objects")

    def ok(s):
        for s2, empty in E.split(s, eq(lo, hi)):
            if not empty:
                def make(E, st, i):
                    raise Unsupported("element of an overwritten array")
                s2.mut(arr).d["make"] = make
                s2.weak.append("Arrays.fill")
            yield Out("ret", s2, None)
    out = []
    for s2, good in E.split(st, And(le(0, lo), le(lo, hi), le(hi, o.d["n"]))):
        out += list(ok(s2)) if good else [E.throw(s2, "ArrayIndexOutOfBoundsException")]
    return out


@model("java/util/Arrays", "fill([Ljava/lang/Object;Ljava/lang/Object;)V")
def _(E, st, d, a):
    return fill_objects(E, st, a[0], 0, E.alen(st, a[0]), a[1])


@model("java/util/Arrays", "fill([Ljava/lang/Object;IILjava/lang/Object;)V")
def _(E, st, d, a):
    return fill_objects(E, st, a[0], a[1], a[2], a[3])


@model("java/util/Arrays", "copyOfRange")
def _(E, st, d, a):
    o = st.obj(a[0])
    if "t" not in o.d:
        raise Unsupported("copyOfRange of objects")
    t = o.d["t"]
    n = t.len()
    out = []
    for s2, ok in E.split(st, And(le(0, a[1]), le(a[1], n), le(a[1], a[2]))):
        if not ok:
            out.append(E.throw(s2, "ArrayIndexOutOfBoundsException"))
            continue
        for s3, fits in E.split(s2, le(a[2], n)):
            v = substr(t, a[1], a[2]) if fits else cat(substr(t, a[1], n), rep(0, sub(a[2], n)))
            out.append(Out("ret", s3, s3.new(o.cls, {}, {"t": v})))
    return out


@model("java/util/Arrays", "copyOf")
def _(E, st, d, a):
    o = st.obj(a[0])
    if "elems" in o.d:
        if is_z(a[1]):
            raise Unsupported("copyOf")
        e = o.d["elems"]
        return st.new(o.cls, {}, {"elems": (e + [None] * a[1])[:a[1]]})
    if "t" in o.d:
        t, n = o.d["t"], o.d["t"].len()
        out = []
        for s2, neg_ in E.split(st, lt(a[1], 0)):
            if neg_:
                out.append(E.throw(s2, "NegativeArraySizeException"))
                continue
            for s3, short in E.split(s2, le(a[1], n)):
                v = substr(t, 0, a[1]) if short else cat(t, rep(0, sub(a[1], n)))
                out.append(Out("ret", s3, s3.new(o.cls, {}, {"t": v})))
        return out
    if "n" in o.d and eq(a[1], o.d["n"]) is True:
        return st.new(o.cls, {}, dict(o.d))
    raise Unsupported("copyOf")


@model("System", "arraycopy")
def _(E, st, d, a):
    src, sp, dst, dp, n = a
    so, do = st.obj(src), st.obj(dst)
    if "t" not in so.d or "t" not in do.d:
        if "elems" in so.d and "elems" in do.d and not any(is_z(x) for x in (sp, dp, n)):
            if sp < 0 or dp < 0 or n < 0 or sp + n > len(so.d["elems"]) or dp + n > len(do.d["elems"]):
                return E.throw(st, "ArrayIndexOutOfBoundsException")
            e = list(do.d["elems"])
            e[dp:dp + n] = so.d["elems"][sp:sp + n]
            st.mut(dst).d["elems"] = e
            return None
        raise Unsupported("arraycopy of objects")
    s, t = so.d["t"], do.d["t"]

    def ok(s2):
        s2.mut(dst).d["t"] = blit(t, dp, s, sp, n)
    return range_check(E, st, And(le(0, sp), le(0, dp), le(0, n), le(add(sp, n), s.len()), le(add(dp, n), t.len())), ok,
                       "ArrayIndexOutOfBoundsException")


@model("System", "lineSeparator")
def _(E, st, d, a):
    return Str(Opq("linesep", z3.Int("linesep_n")))


@model("System", "identityHashCode")
def _(E, st, d, a):
    key = a[0].id if isinstance(a[0], Ref) else 0
    v = var("idhash_%s" % key, "I")
    st.add(in_range(v, "I"))
    return v


# ---------------------------------------------------------------- sets of flags

@model("java/util/EnumSet", "noneOf")
def _(E, st, d, a):
    return st.new("java/util/EnumSet", {}, {"bits": {}, "enum": a[0].name})


@model("java/util/EnumSet", "allOf")
def _(E, st, d, a):
    c = a[0].name
    E.ensure_init(c)
    E.heap_base(st)
    vals = [v for (k, n), v in E.static_fields.items() if k == c and isinstance(v, Ref) and st.obj(v).cls == c]
    return st.new("java/util/EnumSet", {}, {"bits": {v.id: True for v in vals}, "enum": c})


@model("java/util/EnumSet", "copyOf")
def _(E, st, d, a):
    if a[0] is None:
        return E.throw(st, "NullPointerException")
    o = st.obj(a[0])
    if "bits" not in o.d:
        raise Unsupported("EnumSet.copyOf")
    return st.new("java/util/EnumSet", {}, {"bits": dict(o.d["bits"]), "enum": o.d["enum"]})


@model("java/util/EnumSet", "clone")
def _(E, st, d, a):
    o = st.obj(a[0])
    return st.new("java/util/EnumSet", {}, {"bits": dict(o.d["bits"]), "enum": o.d["enum"]})


@model("java/util/EnumSet", "of(Ljava/lang/Enum;)Ljava/util/EnumSet;")
def _(E, st, d, a):
    return st.new("java/util/EnumSet", {}, {"bits": {a[0].id: True}, "enum": st.obj(a[0]).cls})


@model("java/util/EnumSet", "contains")
def _(E, st, d, a):
    if a[1] is None:
        return 0
    return If(st.obj(a[0]).d["bits"].get(a[1].id, False), 1, 0)


@model("java/util/EnumSet", "add")
def _(E, st, d, a):
    if a[1] is None:
        return E.throw(st, "NullPointerException")
    o = st.mut(a[0])
    b = dict(o.d["bits"])
    was = b.get(a[1].id, False)
    b[a[1].id] = True
    o.d["bits"] = b
    return If(was, 0, 1)


@model("java/util/EnumSet", "remove")
def _(E, st, d, a):
    o = st.mut(a[0])
    b = dict(o.d["bits"])
    was = b.get(a[1].id, False)
    b[a[1].id] = False
    o.d["bits"] = b
    return If(was, 1, 0)


@model("java/util/EnumSet", "isEmpty")
def _(E, st, d, a):
    return If(Or(*st.obj(a[0]).d["bits"].values()), 0, 1)


@model("java/util/EnumSet", "clear")
def _(E, st, d, a):
    st.mut(a[0]).d["bits"] = {}


# ---------------------------------------------------------------- lists and deques

def is_seq(E, st, v):
    return isinstance(v, Ref) and "text-of" in E.abs and E.prog.subclass(st.obj(v).cls, "io/fastprintf/seq/Seq")


def mk_list(cls):
    def f(E, st, d, a):
        o = st.mut(a[0])
        o.d.pop("fresh", None)
        o.d["model"] = "list"
        if d.startswith("(I") and len(a) > 1:
            o.d["elems"] = []
            return range_check(E, st, le(0, a[1]), lambda s: None, "IllegalArgumentException")
        if len(a) > 1:
            src = st.obj(a[1])
            if "elems" in src.d:
                o.d["elems"] = list(src.d["elems"])
                return None
            if "seg" in src.d or "cat" in src.d:
                for k in ("n", "cat", "V", "off", "seg", "make"):
                    if k in src.d:
                        o.d[k] = src.d[k]
                return None
            raise Unsupported("list copy")
        o.d["elems"] = []
    return f


M[("java/util/ArrayList", "<init>")] = mk_list("java/util/ArrayList")
M[("java/util/ArrayDeque", "<init>")] = mk_list("java/util/ArrayDeque")
M[("java/util/LinkedList", "<init>")] = mk_list("java/util/LinkedList")

# symbolic lists of sequences keep their size n and the concatenation cat of their texts


def listify(E, st, rid):
    """Forgets the elements of a list of sequences, keeping size and concatenated text."""
    o = st.heap[rid].copy()
    if "elems" not in o.d:
        return False
    es = o.d["elems"]
    if not all(is_seq(E, st, e) for e in es):
        return False
    t = EMPTY
    for e in es:
        t = cat(t, E.abs["text-of"](E, st, e))
    o.d.pop("elems")
    o.d["n"], o.d["cat"], o.d["seg"] = len(es), t, "list"
    st.heap[rid] = o
    return True


@model("java/util/ArrayList java/util/LinkedList java/util/List java/util/Collection", "add(Ljava/lang/Object;)Z")
def _(E, st, d, a):
    list_add(E, st, a[0], a[1])
    return 1


def list_add(E, st, r, v, front=False):
    o = st.mut(r)
    if "elems" in o.d:
        o.d["elems"] = [v] + o.d["elems"] if front else o.d["elems"] + [v]
    elif "cat" in o.d:
        if not is_seq(E, st, v):
            raise Unsupported("adding %r to a list of sequences" % v)
        t = E.abs["text-of"](E, st, v)
        o.d["cat"] = cat(t, o.d["cat"]) if front else cat(o.d["cat"], t)
        o.d["n"] = add(o.d["n"], 1)
    elif "h" in o.d:
        o.d["h"].add(E, st, r, v)
    else:
        raise Unsupported("list add")


@model("java/util/ArrayDeque java/util/Deque java/util/LinkedList", "push", "addFirst", "offerFirst")
def _(E, st, d, a):
    if a[1] is None:
        return E.throw(st, "NullPointerException")
    list_add(E, st, a[0], a[1], front=True)
    return 1


@model("java/util/ArrayDeque java/util/Deque", "add", "addLast", "offer", "offerLast")
def _(E, st, d, a):
    if a[1] is None:
        return E.throw(st, "NullPointerException")
    list_add(E, st, a[0], a[1])
    return 1


def take(E, st, r, empty, front=True, remove=True):
    o = st.obj(r)
    if "elems" in o.d:
        e = o.d["elems"]
        if not e:
            return empty(st)
        if remove:
            st.mut(r).d["elems"] = e[1:] if front else e[:-1]
        return [Out("ret", st, e[0] if front else e[-1])]
    out = []
    for s2, z in E.split(st, eq(o.d["n"], 0)):
        if z:
            out += empty(s2)
            continue
        V = o.d["cat"]
        k = var(fresh_name("k"), (0, MAXI))
        s2.add(k >= 0, le(k, V.len()))
        part = substr(V, 0, k) if front else substr(V, k, V.len())
        rest = substr(V, k, V.len()) if front else substr(V, 0, k)
        v = E.abs["make-seq"](E, s2, part, o.d.get("elemcls", "io/fastprintf/seq/Seq"))
        s2.add(Implies(eq(o.d["n"], 1), eq(rest.len(), 0)))
        if remove:
            o2 = s2.mut(r)
            o2.d["n"], o2.d["cat"] = sub(o.d["n"], 1), rest
        out.append(Out("ret", s2, v))
    return out


@model("java/util/ArrayDeque java/util/Deque", "pop", "removeFirst", "remove()Ljava/lang/Object;")
def _(E, st, d, a):
    return take(E, st, a[0], lambda s: [E.throw(s, "java/util/NoSuchElementException")])


@model("java/util/ArrayDeque java/util/Deque", "getFirst", "element")
def _(E, st, d, a):
    return take(E, st, a[0], lambda s: [E.throw(s, "java/util/NoSuchElementException")], remove=False)


@model("java/util/ArrayDeque java/util/Deque", "poll", "pollFirst")
def _(E, st, d, a):
    return take(E, st, a[0], lambda s: [Out("ret", s, None)])


@model("java/util/ArrayDeque java/util/Deque", "peek", "peekFirst")
def _(E, st, d, a):
    return take(E, st, a[0], lambda s: [Out("ret", s, None)], remove=False)


@model("java/util/ArrayList java/util/ArrayDeque java/util/List java/util/Deque java/util/Collection", "isEmpty")
def _(E, st, d, a):
    o = st.obj(a[0])
    if "elems" in o.d:
        return 0 if o.d["elems"] else 1
    return If(eq(o.d["n"], 0), 1, 0)


@model("java/util/ArrayList java/util/ArrayDeque java/util/List java/util/Deque java/util/Collection", "size")
def _(E, st, d, a):
    o = st.obj(a[0])
    return len(o.d["elems"]) if "elems" in o.d else o.d["n"]


@model("java/util/ArrayList java/util/List", "get")
def _(E, st, d, a):
    o = st.obj(a[0])
    i = a[1]
    if "elems" in o.d:
        ic = E.concrete(st, i)
        if ic is None:
            raise Unsupported("List.get at an unknown index")
        if not 0 <= ic < len(o.d["elems"]):
            return E.throw(st, "IndexOutOfBoundsException")
        return o.d["elems"][ic]
    if "h" in o.d and ("make" not in o.d or o.d.get("added")):
        get = getattr(o.d["h"], "get", None)
        if get is None:
            raise Unsupported("List.get")
        return get(E, st, a[0], i)
    out = []
    for s2, ok in E.split(st, And(le(0, i), lt(i, o.d["n"]))):
        if not ok:
            out.append(E.throw(s2, "IndexOutOfBoundsException"))
            continue
        if "make" in o.d:
            out.append(Out("ret", s2, o.d["make"](E, s2, i)))
            continue
        if "off" in o.d:
            off = o.d["off"]
            out.append(Out("ret", s2, E.abs["make-seq"](E, s2, substr(o.d["V"], off(Z(i)), off(Z(i) + 1)), o.d.get("elemcls", "io/fastprintf/seq/AtomicSeq"))))
            continue
        V = o.d["cat"]
        p, q = var(fresh_name("k"), (0, MAXI)), var(fresh_name("k"), (0, MAXI))
        s2.add(p >= 0, p <= q, le(q, V.len()), Implies(eq(i, 0), p == 0), Implies(eq(i, sub(o.d["n"], 1)), eq(q, V.len())))
        out.append(Out("ret", s2, E.abs["make-seq"](E, s2, substr(V, p, q), o.d.get("elemcls", "io/fastprintf/seq/AtomicSeq"))))
    return out


@model("java/util/ArrayList java/util/List java/util/Collection java/util/ArrayDeque", "toArray")
def _(E, st, d, a):
    o = st.obj(a[0])
    cls = st.obj(a[1]).cls if len(a) > 1 else "[Ljava/lang/Object;"
    if "elems" in o.d:
        return st.new(cls, {}, {"elems": list(o.d["elems"])})
    if "off" in o.d:
        return st.new(cls, {}, {k: v for k, v in o.d.items() if k in ("n", "V", "off", "make")} | {"seg": "arr"})
    if "cat" in o.d:
        return E.abs["seg-array"](E, st, cls, o.d["n"], o.d["cat"])
    raise Unsupported("toArray")


@model("java/util/ArrayList java/util/List java/util/Collection Iterable java/util/ArrayDeque", "iterator")
def _(E, st, d, a):
    o = st.obj(a[0])
    if "elems" in o.d:
        return st.new("java/util/Iterator", {}, {"elems": list(o.d["elems"]), "idx": 0, "model": "it"})
    if "make" in o.d:
        return st.new("java/util/Iterator", {}, {"make": o.d["make"], "n": o.d["n"], "idx": 0, "model": "it"})
    if "V" in o.d or "cat" in o.d:
        more = Not(eq(o.d["n"], 0)) if is_z(o.d["n"]) else o.d["n"] > 0
        V = o.d.get("V") or o.d["cat"]
        return E.abs["make-iter"](E, st, V, more)
    raise Unsupported("iterator")


@model("java/util/Iterator", "hasNext")
def _(E, st, d, a):
    o = st.obj(a[0])
    if "make" in o.d:
        return If(lt(o.d["idx"], o.d["n"]), 1, 0)
    return 1 if o.d["idx"] < len(o.d["elems"]) else 0


@model("java/util/Iterator", "next")
def _(E, st, d, a):
    o = st.obj(a[0])
    i = o.d["idx"]
    if "make" in o.d:
        def ok(s):
            s.mut(a[0]).d["idx"] = add(i, 1)
            return o.d["make"](E, s, i)
        return range_check(E, st, lt(i, o.d["n"]), ok, "java/util/NoSuchElementException")
    if i >= len(o.d["elems"]):
        return E.throw(st, "java/util/NoSuchElementException")
    st.mut(a[0]).d["idx"] = i + 1
    return o.d["elems"][i]


@model("java/util/Collections", "unmodifiableList")
def _(E, st, d, a):
    return a[0]


# ---------------------------------------------------------------- thread locals
# The value of the running thread: null when there is none, any builder an earlier call may have left, or what was set.

@model("ThreadLocal", "withInitial")
def _(E, st, d, a):
    if a[0] is None:
        return E.throw(st, "NullPointerException")
    return st.new("java/lang/ThreadLocal", {}, {"model": "tl", "init": a[0], "cur": Maybe(True, None)})


@model("ThreadLocal", "get")
def _(E, st, d, a):
    o = st.obj(a[0])
    cur = o.d["cur"]
    out = []
    for s2, isn in E.split(st, cur.isnull):
        if not isn:
            v = cur.v
            if isinstance(v, Ref) and s2.obj(v).d.get("volatile"):
                b = s2.mut(v)
                b.d["volatile"] = False
                b.d["text"] = unknown_text(s2, "left")
            out.append(Out("ret", s2, v))
            continue
        if o.d["init"] is None:
            s2.mut(a[0]).d["cur"] = Maybe(True, None)
            out.append(Out("ret", s2, None))
            continue
        for x in E.call_key(s2, "java/util/function/Supplier", "get", "()Ljava/lang/Object;", [o.d["init"]]):
            if x.kind == "ret":
                x.st.mut(a[0]).d["cur"] = Maybe(x.v is None, x.v)
            out.append(x)
    return out


@model("ThreadLocal", "set")
def _(E, st, d, a):
    st.mut(a[0]).d["cur"] = a[1] if isinstance(a[1], Maybe) else Maybe(a[1] is None, a[1])


def leftover(E, st):
    """Any builder that calls of this thread may leave behind while we are not looking."""
    return Maybe(fresh_bool("empty"), st.new(L + "StringBuilder", {}, {"model": "sb", "text": opaque("left")[0], "volatile": True}))


@model("ThreadLocal", "remove")
def _(E, st, d, a):
    st.mut(a[0]).d["cur"] = leftover(E, st)


@model("ThreadLocal", "<init>")
def _(E, st, d, a):
    o = st.mut(a[0])
    o.d.pop("fresh", None)
    o.d.update(model="tl", init=None, cur=Maybe(True, None))


# ---------------------------------------------------------------- throwables and invocation

@model("Throwable", "getMessage", "getLocalizedMessage", "toString")
def _(E, st, d, a):
    return Str(unknown_text(st, "msg"))


@model("Throwable", "initCause", "fillInStackTrace", "getCause")
def _(E, st, d, a):
    return a[0]


@model("Throwable", "addSuppressed", "printStackTrace")
def _(E, st, d, a):
    return None


@model("java/lang/invoke/MethodHandles", "publicLookup", "lookup")
def _(E, st, d, a):
    return st.new("java/lang/invoke/MethodHandles$Lookup", {}, {"model": "lookup"})


@model("java/lang/invoke/MethodType", "methodType")
def _(E, st, d, a):
    return st.new("java/lang/invoke/MethodType", {}, {})


@model("java/lang/invoke/MethodHandles$Lookup", "findVirtual", "findStatic")
def _(E, st, d, a):
    nm = a[2].t.s if isinstance(a[2], Str) and isinstance(a[2].t, Lit) else None
    # the method is there on newer Java versions only; E.newer_jdk selects the case
    if not getattr(E, "newer_jdk", False):
        return E.throw(st, "NoSuchMethodException")
    return st.new("java/lang/invoke/MethodHandle", {}, {"mh": (a[1].name, nm)})


@model("java/lang/invoke/MethodHandle", "invokeExact", "invoke")
def _(E, st, d, a):
    cls, nm = st.obj(a[0]).d["mh"]
    if (cls, nm) == (L + "StringBuilder", "repeat"):
        return M[(L + "StringBuilder", "repeat(II)Ljava/lang/StringBuilder;")](E, st, d, a[1:])
    if (cls, nm) == (L + "Math", "multiplyHigh"):
        return high_half(E, st, a[1], a[2])
    raise Unsupported("method handle %s.%s" % (cls, nm))


# ---------------------------------------------------------------- BigInteger: a mathematical integer

BI = "java/math/BigInteger"
BD = "java/math/BigDecimal"


def bi(st, v):
    return st.new(BI, {}, {"v": v})


def biv(st, r):
    return st.obj(r).d["v"]


@model(BI, "abs")
def _(E, st, d, a):
    v = biv(st, a[0])
    return bi(st, If(lt(v, 0), -v, v))


@model(BI, "negate")
def _(E, st, d, a):
    return bi(st, -biv(st, a[0]))


@model(BI, "signum")
def _(E, st, d, a):
    v = biv(st, a[0])
    return If(lt(v, 0), -1, If(eq(v, 0), 0, 1))


@model(BI, "valueOf(J)Ljava/math/BigInteger;")
def _(E, st, d, a):
    return bi(st, a[0])


def bi_op(fn):
    def f(E, st, d, a):
        return bi(st, fn(biv(st, a[0]), biv(st, a[1])))
    return f


M[(BI, "add")] = bi_op(add)
M[(BI, "subtract")] = bi_op(sub)
M[(BI, "multiply")] = bi_op(lambda x, y: x * y)


@model(BI, "compareTo(Ljava/math/BigInteger;)I", "compareTo")
def _(E, st, d, a):
    x, y = biv(st, a[0]), biv(st, a[1])
    return If(lt(x, y), -1, If(eq(x, y), 0, 1))


@model(BI, "toString()Ljava/lang/String;")
def _(E, st, d, a):
    v = biv(st, a[0])
    if is_z(v) and prove(st.pc, v >= 0):
        return Str(digits(10, v))
    return Str(signed_text(v))


@model(BI, "toString(I)Ljava/lang/String;")
def _(E, st, d, a):
    v, b = biv(st, a[0]), E.concrete(st, a[1])
    if b not in (8, 10, 16):
        raise Unsupported("radix %s" % b)
    m = If(lt(v, 0), -v, v)
    return Str(ite(lt(v, 0), cat(Lit("-"), digits(b, m)), digits(b, m)))


@model(BI, "equals")
def _(E, st, d, a):
    if a[1] is None or E.cls_of(st, a[1]) != BI:
        return 0
    return If(eq(biv(st, a[0]), biv(st, a[1])), 1, 0)


def bi_exact(t):
    def f(E, st, d, a):
        v = biv(st, a[0])
        return range_check(E, st, in_range(v, t), lambda s: v, "ArithmeticException")
    return f


M[(BI, "intValueExact")] = bi_exact("I")
M[(BI, "longValueExact")] = bi_exact("J")
M[(BI, "max")] = bi_op(imax)
M[(BI, "min")] = bi_op(imin)


@model(BI, "bitLength")
def _(E, st, d, a):
    v = biv(st, a[0])
    if not is_z(v):
        return (v if v >= 0 else ~v).bit_length()
    n = var(fresh_name("bits"), "I")
    st.add(n >= 0)
    for k in (0, 1, 7, 8, 15, 16, 24, 31, 32, 33, 52, 53, 54, 62, 63, 64, 65, 127, 128):
        st.add((n <= k) == z3.And(v >= -2**k, v < 2**k))
    st.weak.append("BigInteger.bitLength")
    return n


@model(BI, "intValue")
def _(E, st, d, a):
    return E.fit(st, biv(st, a[0]), "I")


@model(BI, "longValue")
def _(E, st, d, a):
    return E.fit(st, biv(st, a[0]), "J")


# ---------------------------------------------------------------- dates

@model("java/time/format/DateTimeFormatter", "format")
def _(E, st, d, a):
    f, ta = st.obj(a[0]), a[1]
    if ta is None:
        return E.throw(st, "NullPointerException")
    o = st.obj(ta)
    if "name" not in f.d or "of" not in o.d:
        raise Unsupported("date formatting")
    from .conv import formatted
    t = formatted(f.d["name"], o.d["of"])
    s2 = st.fork()
    s2.ghost["no-format"] = True
    st.add(t.len() >= 0, t.len() <= MAXI)
    return [Out("ret", st, Str(t)), E.throw(s2, "java/time/DateTimeException")]


INST_LO, INST_HI = -31557014167219200, 31556889864403199


@model("java/time/Instant", "ofEpochSecond(J)Ljava/time/Instant;")
def _(E, st, d, a):
    return range_check(E, st, And(le(INST_LO, a[0]), le(a[0], INST_HI)), lambda s: mk_instant(s, sec=a[0]), "java/time/DateTimeException")


@model("java/time/Instant", "ofEpochMilli(J)Ljava/time/Instant;")
def _(E, st, d, a):
    return mk_instant(st, milli=a[0])


def mk_instant(st, sec=None, milli=None, nano=None):
    """An instant given as whole seconds, as whole milliseconds, or as seconds and nanoseconds."""
    return st.new("java/time/Instant", {}, {"abs": "instant", "sec": sec, "milli": milli, "nano": nano})


@model("java/time/Instant", "from")
def _(E, st, d, a):
    if a[0] is None:
        return E.throw(st, "NullPointerException")
    h = E.abs.get("instant-from")
    if not h:
        raise Unsupported("Instant.from")
    return h(E, st, a[0])


@model("java/time/ZoneId", "systemDefault")
def _(E, st, d, a):
    return st.new("java/time/ZoneId", {}, {"zone": "system"})


@model("java/time/ZonedDateTime", "ofInstant(Ljava/time/Instant;Ljava/time/ZoneId;)Ljava/time/ZonedDateTime;")
def _(E, st, d, a):
    if not isinstance(a[0], Ref):
        raise Unsupported("ZonedDateTime.ofInstant")
    h = E.abs.get(st.obj(a[0]).d.get("abs"))
    r = h(E, st, a[0], "atZone", "(Ljava/time/ZoneId;)Ljava/time/ZonedDateTime;", [a[1]]) if h else NotImplemented
    if r is NotImplemented:
        raise Unsupported("ZonedDateTime.ofInstant")
    return r


@model("java/util/TimeZone", "getDefault")
def _(E, st, d, a):
    return st.new("java/util/TimeZone", {}, {"zone": "system"})


@model("java/util/TimeZone", "toZoneId")
def _(E, st, d, a):
    if "zone" not in st.obj(a[0]).d:
        raise Unsupported("TimeZone.toZoneId")
    return st.new("java/time/ZoneId", {}, {"zone": st.obj(a[0]).d["zone"]})


@model("java/time/ZoneId", "of(Ljava/lang/String;)Ljava/time/ZoneId;")
def _(E, st, d, a):
    if not isinstance(a[0], Str) or not isinstance(a[0].t, Lit):
        raise Unsupported("ZoneId.of")
    st.weak.append("ZoneId.of")
    return st.new("java/time/ZoneId", {}, {"zone": "named %r" % a[0].t})


@model("java/time/format/DateTimeFormatter", "ofPattern(Ljava/lang/String;)Ljava/time/format/DateTimeFormatter;")
def _(E, st, d, a):
    h = E.abs.get("of-pattern")
    if not h or a[0] is None:
        raise Unsupported("DateTimeFormatter.ofPattern")
    return h(E, st, d, a)
