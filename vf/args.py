"""Arguments: every way to supply a value gives the same views of it, in the order supplied."""
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Lam, Cls, Dbl, Flt, Maybe, State, Ob
from .core import P, SEQ, Root, find, view, mk_seq, build, action_text
from . import ints, bigdec
from .ints import INTFORM, ival, printf_exc
from .dispatch import TRAITS, FLOATFORM

ARGS, IMPL = P + "Args", P + "ArgsImpl"
OBJ, STR, CS = "java/lang/Object", "java/lang/String", "java/lang/CharSequence"
TA, INSTANT = "java/time/temporal/TemporalAccessor", "java/time/Instant"
BI, BD = jdk.BI, jdk.BD
MAXU = 2**32 - 1
uf = jdk.uf


def wrap(v, bits):
    return sub(fmod(add(v, 2**(bits - 1)), 2**bits), 2**(bits - 1))


def low16(v):
    return fmod(v, 65536)


# ---------------------------------------------------------------- values

class Val:
    """One value and what each view of it must be. Views: ('int', bits or None, v), ('dbl', bits), ('bd', key), texts, ints, or FAIL."""


FAIL = "fail"


def instant(sec=None, milli=None, of=None):
    return ("instant", sec, milli, of)


def long_instant(v):
    """What an integer stands for as a date: [(guard, view)]."""
    return [(lt(v, 0), "negative"), (And(le(0, v), le(v, MAXU)), instant(sec=v)), (lt(MAXU, v), instant(milli=v))]


def prim(ty, cls, view):
    def make(E, st):
        if ty == "D":
            v = Dbl(var("v", "J"))
            st.add(in_range(v.bits, "J"))
        elif ty == "F":
            v = Flt(var("v", "I"))
            st.add(in_range(v.bits, "I"))
        elif ty == "Z":
            v = z3.Int("v")
            st.add(Or(v == 0, v == 1))
        else:
            v = var("v", ty)
            st.add(in_range(v, ty))
        s = view(E, st, v)
        s["box"] = (cls, v)
        return v, s
    return make


def v_bool(E, st, v):
    return {"iform": (32, v), "fform": ("dbl", uf(E, st, "i2d", [v], "J")), "text": ite(eq(v, 0), Lit("false"), Lit("true")), "int": v, "char": v, "ta": FAIL}


def v_int(bits):
    def view(E, st, v):
        op = "l2d" if bits == 64 else "i2d"
        return {"iform": (bits, v), "fform": ("dbl", uf(E, st, op, [v], "J")), "text": jdk.signed_text(v), "int": wrap(v, 32) if bits == 64 else v, "char": low16(v),
                "ta": long_instant(v) if bits == 64 else [(True, instant(sec=fmod(v, 2**32)))] if bits == 32 else FAIL}
    return view


def v_char(E, st, v):
    return {"iform": (32, v), "fform": ("dbl", uf(E, st, "i2d", [v], "J")), "text": ch(v), "int": v, "char": v, "ta": FAIL}


def v_float(E, st, v):
    r = uf(E, st, "round_f", [v.bits], "I")
    return {"iform": (32, uf(E, st, "f2i", [v.bits], "I")), "fform": ("dbl", uf(E, st, "f2d", [v.bits], "J")), "text": ("of", "Float", v.bits), "int": r, "char": low16(r), "ta": FAIL}


def v_double(E, st, v):
    r = uf(E, st, "round_d", [v.bits], "J")
    return {"iform": (64, uf(E, st, "d2l", [v.bits], "J")), "fform": ("dbl", v.bits), "text": ("of", "Double", v.bits), "int": wrap(r, 32), "char": low16(r), "ta": FAIL}


def parsed(T):
    """Decimal text: what the standard parsers make of it, as [(guard, view)]."""
    ok = {k: z3.Bool("parses_" + k) for k in ("int", "long", "double")}
    val = {k: var("parsed_" + k, {"int": "I", "long": "J", "double": "J"}[k]) for k in ok}
    return ok, val


def text_views(st, T):
    ok, val = parsed(T)
    st.add(*[in_range(val[k], {"int": "I"}.get(k, "J")) for k in ok])
    st.add(ok["int"] == And(ok["long"], in_range(val["long"], "I")), Implies(ok["int"], val["int"] == val["long"]))
    return {"iform": [(ok["long"], (64, val["long"])), (Not(ok["long"]), FAIL)], "fform": [(ok["double"], ("dbl", val["double"])), (Not(ok["double"]), FAIL)],
            "text": T, "int": [(ok["int"], val["int"]), (Not(ok["int"]), FAIL)], "char": [(lt(0, T.len()), lambda s: T.at(0)), (eq(T.len(), 0), FAIL)], "ta": FAIL}


def mk_string(E, st):
    T = jdk.unknown_text(st, "argtext")
    E.argtext = T
    return Str(T), dict(text_views(st, T), ref=True)


def mk_charseq(E, st):
    T = jdk.unknown_text(st, "argtext")
    E.argtext = T
    v = st.new("vf/OtherCharSequence", {}, {"abs": "value", "sup": (CS,), "text": T})
    return v, dict(text_views(st, T), ref=True)


def mk_seqarg(E, st):
    T = jdk.unknown_text(st, "argtext")
    E.argtext = T
    return mk_seq(E, st, T), dict(text_views(st, T), ref=True)


def mk_bigint(E, st):
    x = z3.Int("v")
    v = st.new(BI, {}, {"v": x})
    w = wrap(x, 64)
    return v, {"iform": (None, x), "fform": ("bdint", x), "text": jdk.signed_text(x), "int": wrap(x, 32), "char": low16(x), "ta": long_instant(w), "ref": True}


def mk_bigdec(E, st):
    T = jdk.unknown_text(st, "argtext")
    x = z3.Int("integer_part")
    v = st.new(BD, {}, {"abs": "value", "sup": (BD, "java/lang/Number"), "text": T, "trunc": x})
    return v, {"iform": (None, x), "fform": ("bd", v), "text": T, "int": wrap(x, 32), "char": low16(x), "ta": FAIL, "ref": True}


def mk_temporal(E, st):
    T = jdk.unknown_text(st, "argtext")
    v = st.new("vf/OtherTemporal", {}, {"abs": "value", "sup": (TA, "java/time/temporal/Temporal"), "text": T, "temporal": True})
    ok, sec, nano = z3.Bool("has_instant"), var("epoch_second", "J"), var("nano", "I")
    # instants outside the range of long milliseconds are excluded
    st.add(nano >= 0, nano <= 999999999, sec >= -9 * 10**15, sec <= 9 * 10**15)
    ms = add(sec * 1000, fdiv(nano, 10**6))
    E.instant_of = (ok, sec, nano)
    fl = uf(E, st, "dadd", [uf(E, st, "l2d", [sec], "J"), uf(E, st, "ddiv", [uf(E, st, "i2d", [nano], "J"), jdk.dbl(1e9).bits], "J")], "J")
    return v, {"iform": [(ok, (64, ms)), (Not(ok), FAIL)], "fform": [(ok, ("dbl", fl)), (Not(ok), FAIL)], "text": T,
               "int": [(ok, wrap(sec, 32)), (Not(ok), FAIL)], "char": FAIL, "ta": ("same", v), "ref": True}


def mk_date(cls, cal):
    def make(E, st):
        T = jdk.unknown_text(st, "argtext")
        ms = var("millis", "J")
        st.add(in_range(ms, "J"))
        v = st.new(cls, {}, {"abs": "value", "sup": (cls,), "text": T, "millis": ms, "cal": cal})
        q = If(ms >= 0, fdiv(ms, 1000), -fdiv(-ms, 1000))
        fl = uf(E, st, "ddiv", [uf(E, st, "l2d", [ms], "J"), jdk.dbl(1000.0).bits], "J")
        return v, {"iform": (64, ms), "fform": ("dbl", fl), "text": T, "int": wrap(q, 32), "char": low16(q), "ta": instant(milli=ms), "ref": True}
    return make


def mk_number(E, st):
    T = jdk.unknown_text(st, "argtext")
    l, i, d = var("long_value", "J"), var("int_value", "I"), var("double_value", "J")
    st.add(in_range(l, "J"), in_range(i, "I"), in_range(d, "J"))
    v = st.new("vf/OtherNumber", {}, {"abs": "value", "sup": ("java/lang/Number",), "text": T, "num": (l, i, d)})
    return v, {"iform": (64, l), "fform": ("dbl", d), "text": T, "int": i, "char": low16(i), "ta": long_instant(l), "ref": True}


def mk_object(E, st):
    T = jdk.unknown_text(st, "argtext")
    v = st.new("vf/OtherObject", {}, {"abs": "value", "sup": (), "text": T})
    return v, {"iform": FAIL, "fform": FAIL, "text": T, "int": FAIL, "char": FAIL, "ta": FAIL, "ref": True}


def mk_null(E, st):
    return None, {"iform": FAIL, "fform": FAIL, "text": Lit("null"), "int": FAIL, "char": FAIL, "ta": FAIL, "ref": True, "null": True}


L = "java/lang/"
PRIMS = {"boolean": ("Z", "Boolean", v_bool, "Boolean"), "char": ("C", "Character", v_char, "Char"), "byte": ("B", "Byte", v_int(8), "Byte"), "short": ("S", "Short", v_int(16), "Short"),
         "int": ("I", "Integer", v_int(32), "Int"), "long": ("J", "Long", v_int(64), "Long"), "float": ("F", "Float", v_float, "Float"), "double": ("D", "Double", v_double, "Double")}
REFS = {"String": (mk_string, [("putString", STR), ("putCharSequence", CS)]), "CharSequence": (mk_charseq, [("putCharSequence", CS)]), "Seq": (mk_seqarg, [("putCharSequence", CS)]),
        "BigInteger": (mk_bigint, [("putBigInteger", BI)]), "BigDecimal": (mk_bigdec, [("putBigDecimal", BD)]), "TemporalAccessor": (mk_temporal, [("putDateTime", TA)]),
        "Date": (mk_date("java/util/Date", False), []), "Calendar": (mk_date("java/util/Calendar", True), []), "Number": (mk_number, []), "Object": (mk_object, []),
        "null": (mk_null, [("putString", STR), ("putCharSequence", CS), ("putBigInteger", BI), ("putBigDecimal", BD), ("putDateTime", TA)]
                 + [("put%sOrNull" % p[3], L + p[1]) for p in PRIMS.values()])}


def h_value(E, st, ref, name, desc, args):
    """A value of a type outside the library, as its users see it."""
    o = st.obj(ref)
    d = o.d
    if name == "instanceof":
        return [(st, desc in d["sup"] or desc == OBJ)]
    if name == "toString":
        return Str(d["text"])
    if "num" in d and name in ("longValue", "intValue", "doubleValue"):
        return {"longValue": d["num"][0], "intValue": d["num"][1], "doubleValue": Dbl(d["num"][2])}[name]
    if name == "getTime" and d.get("cal") is False and desc == "()J" or name == "getTimeInMillis" and d.get("cal"):
        return d["millis"]
    if name == "getTime" and d.get("cal") and desc == "()Ljava/util/Date;":
        return st.new("java/util/Date", {}, {"abs": "value", "sup": ("java/util/Date",), "text": jdk.unknown_text(st, "date"), "millis": d["millis"], "cal": False})
    if name == "toInstant" and "millis" in d:
        return jdk.mk_instant(st, milli=d["millis"])
    if "trunc" in d:
        if name == "toBigInteger":
            return jdk.bi(st, d["trunc"])
        if name in ("intValue", "longValue"):
            return wrap(d["trunc"], 32 if name == "intValue" else 64)
    if CS in d["sup"]:
        T = d["text"]
        if name == "length":
            return T.len()
        if name == "charAt":
            return jdk.range_check(E, st, And(le(0, args[0]), lt(args[0], T.len())), lambda s: T.at(args[0]))
    if name == "getClass":
        return Cls(o.cls)
    return NotImplemented


def h_instant(E, st, ref, name, desc, args):
    o = st.obj(ref)
    if name == "instanceof":
        return [(st, desc in (INSTANT, TA, "java/time/temporal/Temporal", OBJ))]
    sec, nano = o.d["sec"], o.d["nano"]
    if nano is not None:
        if name == "getEpochSecond":
            return sec
        if name == "getNano":
            return nano
        if name == "toEpochMilli":
            return add(sec * 1000, fdiv(nano, 10**6))
    return NotImplemented


class Added:
    """A list with unknown contents that records what is added at its end."""

    def add(self, E, st, r, v):
        o = st.mut(r)
        o.d["added"] = o.d.get("added", ()) + (v,)

    def __eq__(self, o):
        return isinstance(o, Added)

    def __hash__(self):
        return 7


def parse_hook(kind, ty):
    def h(E, st, t):
        T = getattr(E, "argtext", None)
        if T is None or not (t is T or same_text(st.pc, t, T)):
            raise Unsupported("parsing a text that is not the argument's")
        ok, val = parsed(T)
        out = []
        for s, good in E.split(st, ok[kind]):
            out.append(Out("ret", s, Dbl(val[kind]) if kind == "double" else val[kind]) if good else E.throw(s, "NumberFormatException"))
        return out
    return h


def engine(prog):
    E = ints.engine(prog)
    E.abs.update({"value": h_value, "instant": h_instant, "parse-int": parse_hook("int", "I"), "parse-long": parse_hook("long", "J"), "parse-double": parse_hook("double", "J"),
                  "traits": h_added, "valiter": h_valiter, "iterable": h_iterable})

    def record(cls, desc, make):
        m = prog.classes[cls].methods.get(("<init>", desc)) if cls in prog.classes else None
        if m:
            def c(E, st, a):
                st.mut(a[0]).d["float"] = make(E, st, a[1])
                return [Out("ret", st, None)]
            E.contracts[m.key] = c
    record(P + "number/DoubleWrapper", "(D)V", lambda E, st, v: ("dbl", v.bits))
    record(P + "number/BigDecimalWrapper", "(L%s;)V" % BD, lambda E, st, v: ("bdint", st.obj(v).d["u"]) if st.obj(v).d.get("s") == 0 else ("bd", v))

    def instant_from(E, st, v):
        o = st.obj(v)
        if o.d.get("abs") == "instant":
            return v
        if not o.d.get("temporal"):
            raise Unsupported("Instant.from")
        ok, sec, nano = E.instant_of
        return [Out("ret", s, jdk.mk_instant(s, sec=sec, nano=nano)) if good else E.throw(s, "java/time/DateTimeException") for s, good in E.split(st, ok)]
    E.abs["instant-from"] = instant_from
    return E


def container(E, st):
    """A container that already holds anything."""
    m = find(E.prog, ARGS, "create", "()L%s;" % ARGS)
    E.depth = 1
    outs = E.call_method(st, m, [])
    E.depth = 0
    if len(outs) != 1 or outs[0].kind != "ret":
        raise Unsupported("Args.create")
    st, a = outs[0].st, outs[0].v
    lists = [v for v in st.obj(a).f.values() if isinstance(v, Ref) and E.prog.subclass(st.obj(v).cls, "java/util/List")]
    if len(lists) != 1 or len(st.obj(a).f) != 1:
        raise Unsupported("the container is not one list")
    o = st.mut(lists[0])
    E.oblige(st, "Args.create: the container starts empty", o.d.get("elems") == [])
    o.d.pop("elems", None)
    o.d["h"] = Added()
    o.d["n"] = var("earlier", (0, MAXI))
    st.add(o.d["n"] >= 0, o.d["n"] <= MAXI)
    return st, a, lists[0]


def method(E, st, a, name, *params):
    """The public method of the container, found by name and parameter."""
    cls = st.obj(a).cls
    for (n, d), m in E.prog.classes[ARGS].methods.items():
        if n == name and d.startswith("(%s)" % "".join(params)):
            r = E.prog.resolve(cls, n, d)
            if r is not None:
                return r
    raise Unsupported("no method Args.%s" % name)


CHECKS = (("asIntForm", "()L%s;" % INTFORM, "iform"), ("asFloatForm", "()L%s;" % FLOATFORM, "fform"), ("asString", "()L%s;" % STR, "text"), ("asSeq", "()L%s;" % SEQ, "text"),
          ("asInt", "()I", "int"), ("asChar", "()C", "char"), ("asTemporalAccessor", "()L%s;" % TA, "ta"), ("isNull", "()Z", "null"), ("asObject", "()L%s;" % OBJ, "obj"), ("ref", "()L%straits/RefSlot;" % P, "slot"))


def sub_call(E, st, ref, name, desc):
    d, E.depth = E.depth, 1
    try:
        return E.call_key(st, E.cls_of(st, ref), name, desc, [ref])
    finally:
        E.depth = d


def cases_of(w):
    if isinstance(w, list):
        return w
    return [(True, w)]


def check_view(E, o, nm, key, want, value, boxed):
    """Obliges that one outcome of a view is what the value demands."""
    for g, w in cases_of(want):
        s = o.st.fork()
        s.add(g)
        if g is not True and check(s.pc) == "unsat":
            continue
        if isinstance(w, str):
            E.oblige(s, nm + "is rejected", o.kind == "throw" and (printf_exc(E, s, o.v) if w == FAIL else E.prog.subclass(s.obj(o.v).cls, "java/lang/IllegalArgumentException")))
            continue
        if o.kind == "throw":
            E.oblige(s, nm + "is not rejected", False)
            continue
        v = o.v
        if callable(w):
            w = w(s)
        if key == "iform":
            same_intform(E, s, nm, v, *w)
        elif key == "fform":
            got = s.obj(v).d.get("float") if isinstance(v, Ref) else None
            if got is None:
                raise Unsupported("a float form of unknown make")
            if w[0] != got[0]:
                E.oblige(s, nm + "kind of number", False)
            elif w[0] == "bd":
                E.oblige(s, nm + "the decimal itself", isinstance(got[1], Ref) and got[1].id == w[1].id)
            else:
                E.oblige(s, nm + "value", eq(got[1], w[1]))
        elif key == "text":
            if isinstance(w, tuple):
                t = v.t if isinstance(v, Str) else view(E, s, v)
                E.oblige(s, nm + "text", t is not None and same_text(s.pc, t, jdk.float_text(w[1], w[2])))
            else:
                E.oblige_text(s, nm + "text", v.t if isinstance(v, Str) else view(E, s, v), w)
        elif key in ("int", "char"):
            E.oblige(s, nm + "value", eq(v, w))
        elif key == "ta":
            if w[0] == "same":
                E.oblige(s, nm + "the temporal itself", isinstance(v, Ref) and v.id == w[1].id)
                continue
            x = s.obj(v) if isinstance(v, Ref) else None
            ok = x is not None and x.cls == INSTANT and x.d.get("abs") == "instant"
            E.oblige(s, nm + "is an instant", ok)
            if ok and w[1] is not None:
                E.oblige(s, nm + "epoch seconds", eq(x.d["sec"], w[1]) if x.d["sec"] is not None else eq(x.d["milli"], w[1] * 1000))
            elif ok:
                E.oblige(s, nm + "epoch milliseconds", eq(x.d["milli"], w[2]) if x.d["milli"] is not None else eq(x.d["sec"] * 1000, w[2]))


def same_object(a, b):
    return (a is None and b is None) or (isinstance(a, Str) and isinstance(b, Str) and a.t is b.t) or (isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id)


def same_intform(E, st, nm, v, bits, x):
    """The form prints the number x held in so many bits: its texts say so."""
    if not isinstance(v, Ref):
        E.oblige(st, nm + "is a number", False)
        return
    u = fmod(x, 2**bits) if bits else x
    for name, base in (("toDecimalString", 0), ("toHexString", 16), ("toOctalString", 8), ("toUnsignedDecimalString", 10), ("signum", None)):
        for o in sub_call(E, st.fork(), v, name, "()I" if base is None else "()L%s;" % STR):
            if base is None:
                E.oblige(o.st, nm + "sign", o.kind == "ret" and And((Z(o.v) < 0) == (Z(x) < 0), (Z(o.v) == 0) == (Z(x) == 0)))
            elif base == 0:
                if o.kind != "ret":
                    E.oblige(o.st, nm + "decimal text", False)
                else:
                    E.oblige_text(o.st, nm + "decimal text", o.v.t, jdk.digits(10, If(lt(x, 0), -x, x)))
            else:
                if o.kind != "ret":
                    E.oblige(o.st, nm + name + " is refused for a negative big integer only", bits is None and lt(x, 0))
                    continue
                if bits is None:
                    E.oblige(o.st, nm + name + " is refused for a negative big integer", le(0, x))
                E.oblige_text(o.st, nm + name, o.v.t, jdk.digits(base, u))


def kind_unit(kind, views=None):
    """Every way to supply a value of one kind, and the views of it (all, or those named)."""
    def run(prog):
        E = engine(prog)
        ways = []
        if kind in PRIMS:
            ty, cls, view_, nm = PRIMS[kind]
            ways = [("put" + nm, ty, False), ("put%sOrNull" % nm, "L" + L + cls + ";", True), ("put", "L%s;" % OBJ, True)]
        else:
            ways = [(n, "L%s;" % d, False) for n, d in REFS[kind][1]] + [("put", "L%s;" % OBJ, False)]
        if kind == "null":
            ways.append(("putNull", "", False))
        for name, desc, boxed in ways:
            st0 = State()
            E.root = None
            st, a, lst = container(E, st0)
            if kind in PRIMS:
                v, spec = prim(ty, L + cls, view_)(E, st)
                arg = st.new(L + cls, {}, {"v": v}) if boxed else v
                spec["ref"] = boxed
            else:
                v, spec = REFS[kind][0](E, st)
                arg = v
            spec["null"] = 1 if kind == "null" else 0
            m = method(E, st, a, name, *([desc] if desc else []))
            r = Root(E, "Args.%s(%s)" % (name, kind))
            E.candidates = lambda mod, v=v: arg_cases(mod, kind, v)

            def post(o):
                nm = r.name + ": "
                if o.kind == "throw":
                    E.oblige(o.st, nm + "throws nothing", False)
                    return
                E.oblige(o.st, nm + "returns the container", isinstance(o.v, Ref) and o.v.id == a.id)
                added = o.st.obj(lst).d.get("added", ())
                E.oblige(o.st, nm + "adds one argument at the end", len(added) == 1)
                if len(added) != 1:
                    return
                tr = added[0]
                for vn, vd, key in CHECKS:
                    if views and key not in views:
                        continue
                    for q in sub_call(E, o.st.fork(), tr, vn, vd):
                        vnm = "%s%s: " % (nm, vn)
                        if key == "null":
                            E.oblige(q.st, vnm + "value", q.kind == "ret" and (Z(q.v) != 0) == bool(spec["null"]))
                        elif key == "slot":
                            if q.kind != "ret":
                                E.oblige(q.st, vnm + "throws nothing", False)
                                continue
                            for w in sub_call(E, q.st.fork(), q.v, "isPrimitive", "()Z"):
                                E.oblige(w.st, vnm + "knows whether the argument is an object", w.kind == "ret" and (Z(w.v) != 0) == (not spec["ref"]))
                            if spec["ref"]:
                                for w in sub_call(E, q.st.fork(), q.v, "get", "()L%s;" % OBJ):
                                    E.oblige(w.st, vnm + "the argument itself", w.kind == "ret" and same_object(w.v, arg))
                        elif key == "obj":
                            if q.kind != "ret":
                                E.oblige(q.st, vnm + "throws nothing", False)
                            elif spec["ref"]:
                                E.oblige(q.st, vnm + "the argument itself", same_object(q.v, arg))
                            else:
                                x = q.st.obj(q.v) if isinstance(q.v, Ref) else None
                                got = x.d.get("v") if x is not None and x.cls == spec["box"][0] else None
                                w = spec["box"][1]
                                E.oblige(q.st, vnm + "the argument boxed", got is not None and (eq(got.bits, w.bits) if isinstance(w, (Dbl, Flt)) else eq(got, w)))
                        else:
                            check_view(E, q, vnm, key, spec[key], v, boxed)
            r.run(m, st, [a] + ([arg] if desc else []), post, modifies=[lst])
        return E
    run.functions = [IMPL + ".put", TRAITS]
    return run


def arg_cases(mod, kind, v):
    """Oracle lines for the value in a counterexample."""
    code = {"int": "i", "long": "l", "byte": "b", "short": "h", "boolean": "z", "BigInteger": "bi"}
    fmts = ("%s", "%d", "%x", "%o", "%u", "%f", "%e", "%c", "%t{yyyy-MM-dd HH:mm:ss}", "%S")
    if kind in code:
        x = v if not isinstance(v, Ref) else z3.Int("v")
        n = ival(mod, x)
        if n is None:
            return []
        return ["fmt\t%s\t%s:%d" % (f, code[kind], n) for f in fmts]
    if kind == "char":
        n = ival(mod, v)
        return ["fmt\t%s\tc:%x" % (f, n) for f in fmts] if n is not None else []
    if kind in ("float", "double"):
        n = ival(mod, v.bits)
        w = 64 if kind == "double" else 32
        return ["fmt\t%s\t%s:%x" % (f, kind[0], n % 2**w) for f in fmts] if n is not None else []
    return []


# ---------------------------------------------------------------- order

def mk_elem(E, st, k):
    return Maybe(z3.Function("null_at", z3.IntSort(), z3.BoolSort())(Z(k)), st.new(OBJ, {}, {"abs": "value", "sup": (), "k": k, "text": None}))


def h_valiter(E, st, ref, name, desc, args):
    o = st.obj(ref)
    if name == "hasNext":
        return If(lt(o.d["pos"], o.d["n"]), 1, 0)
    if name == "next":
        out = []
        for s, more in E.split(st, lt(o.d["pos"], o.d["n"])):
            if not more:
                out.append(E.throw(s, "java/util/NoSuchElementException"))
                continue
            p = s.obj(ref).d["pos"]
            s.mut(ref).d["pos"] = add(p, 1)
            out.append(Out("ret", s, o.d["make"](E, s, p)))
        return out
    return NotImplemented


def h_iterable(E, st, ref, name, desc, args):
    o = st.obj(ref)
    if name == "instanceof":
        if desc == "java/util/Collection":
            return [(st, o.d["coll"])]
        return [(st, desc in ("java/lang/Iterable", OBJ))]
    if name == "iterator":
        return st.new("java/util/Iterator", {}, {"abs": "valiter", "pos": 0, "n": o.d["n"], "make": mk_elem})
    if name == "size" and o.d["coll"]:
        return o.d["n"]
    return NotImplemented


def h_added(E, st, ref, name, desc, args):
    """An argument already in the container."""
    o = st.obj(ref)
    if name == "asObject":
        return st.new(OBJ, {}, {"abs": "value", "sup": (), "k": o.d["k"], "text": None})
    return NotImplemented


class InOrder:
    """A list to which the elements of a source are to be added in order."""

    def add(self, E, st, r, v):
        o = st.obj(r)
        u = o.d["upto"]
        if isinstance(v, Maybe):
            v = v.v
        k = st.obj(v).d.get("k") if isinstance(v, Ref) else None
        if not E.discovering:
            E.oblige(st, "elements are added in their order", k is not None and eq(k, u))
        st.mut(r).d["upto"] = add(u, 1)

    def __eq__(self, o):
        return isinstance(o, InOrder)

    def __hash__(self):
        return 8


def order_unit(prog):
    """Args.of keeps the order; iterator() and values() give it back."""
    E = None
    engines = []
    for what in ("array", "list", "iterable", "null"):
        E = engine(prog)
        engines.append(E)
        E.candidates = lambda mod: ["fmt\t%d %s %x|%d\ti:1\ts:b\ti:3\ti:4"]
        put = prog.resolve(IMPL, "put", "(L%s;)L%s;" % (OBJ, ARGS))
        if put is None:
            raise Unsupported("ArgsImpl.put")

        def c_put(E, st, a):
            lst = [v for v in st.obj(a[0]).f.values() if isinstance(v, Ref)]
            if len(lst) != 1:
                raise Unsupported("the container is not one list")
            jdk.list_add(E, st, lst[0], a[1])
            return [Out("ret", st, a[0])]
        E.contracts[put.key] = c_put

        def listify(E, st, rid):
            o = st.heap[rid].copy()
            if o.d.get("elems") != []:
                return False
            o.d.pop("elems")
            o.d["h"], o.d["upto"] = InOrder(), 0
            st.heap[rid] = o
            return True
        E.abs["listify"] = listify
        E.abs["segarr"] = __import__("vf.core", fromlist=["h_segarr"]).h_segarr
        st = State()
        n = var("count", (0, MAXI))
        st.add(n >= 0, n <= MAXI)
        if what == "array":
            arg = st.new("[L%s;" % OBJ, {}, {"n": n, "seg": "arr", "make": mk_elem})
            m = find(prog, ARGS, "of", "([L%s;)L%s;" % (OBJ, ARGS))
        elif what == "null":
            arg = None
            m = find(prog, ARGS, "of", "([L%s;)L%s;" % (OBJ, ARGS))
        else:
            arg = st.new("vf/Iterable", {}, {"abs": "iterable", "n": n, "coll": what == "list"})
            m = find(prog, ARGS, "of", "(Ljava/lang/Iterable;)L%s;" % ARGS)
        r = Root(E, "Args.of(%s)" % what)

        def post(o):
            if o.kind == "throw":
                E.oblige(o.st, r.name + ": throws nothing", False)
                return
            lst = [v for v in o.st.obj(o.v).f.values() if isinstance(v, Ref)]
            if len(lst) != 1:
                raise Unsupported("the container is not one list")
            d = o.st.obj(lst[0]).d
            if what == "null":
                E.oblige(o.st, r.name + ": a null array is one null argument", len(d.get("elems", ())) == 1 and o.st.obj(d["elems"][0]).cls.endswith("NullTraits"))
                return
            E.oblige(o.st, r.name + ": every element is added", eq(d["upto"], n) if "upto" in d else eq(len(d["elems"]), n))
        r.run(m, st, [arg], post)
    # reading back
    for what in ("iterator", "values"):
        E = engine(prog)
        engines.append(E)
        E.candidates = lambda mod: ["fmt\t%d %s %x|%d\ti:1\ts:b\ti:3\ti:4"]
        st, a, lst = container(E, State())
        o = st.mut(lst)
        n = o.d["n"]
        mk_tr = lambda E, st, k: st.new(TRAITS, {}, {"abs": "traits", "k": k})
        o.d["make"] = mk_tr

        def listify2(E, st, rid):
            o = st.heap[rid].copy()
            if o.d.get("elems") != []:
                return False
            o.d.pop("elems")
            o.d["h"], o.d["upto"] = InOrder(), 0
            st.heap[rid] = o
            return True
        E.abs["listify"] = listify2
        m = method(E, st, a, what) if what == "values" else prog.resolve(st.obj(a).cls, "iterator", "()Ljava/util/Iterator;")
        if m is None:
            raise Unsupported(what)
        r = Root(E, "Args." + what)

        def post2(o, r=r, n=n, what=what, E=E, mk_tr=mk_tr):
            if o.kind == "throw":
                E.oblige(o.st, r.name + ": throws nothing", False)
                return
            x = o.st.obj(o.v)
            if what == "iterator":
                E.oblige(o.st, r.name + ": iterates over the arguments from the first on", And(x.d.get("make") is mk_tr, eq(x.d.get("idx", -1), 0), eq(x.d.get("n", -1), n)))
            else:
                E.oblige(o.st, r.name + ": all arguments", eq(x.d["upto"], n) if "upto" in x.d else eq(len(x.d["elems"]), n))
        r.run(m, st, [a], post2)
    return engines


order_unit.functions = [ARGS + ".of", IMPL + ".iterator", IMPL + ".values"]

UNITS = {"Args order": order_unit}
for _k in list(PRIMS) + list(REFS):
    UNITS["Args.put %s" % _k] = kind_unit(_k)
    UNITS["Args.put %s as date" % _k] = kind_unit(_k, ("ta",))
    UNITS["Args.put %s as text" % _k] = kind_unit(_k, ("text", "char", "null"))
