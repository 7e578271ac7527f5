"""One directive at work: DefaultAppender.append and FixedStringAppender.append."""
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Lam, Cls, Dbl, Maybe, State, Ob
from .core import P, SEQ, ATOMIC, Root, find, view, mk_seq, build
from . import ints
from .ints import CTX, FLAG, FLAGS, SF, INTFORM, Ctx, MAXW, ival, arg

TRAITS = P + "traits/FormatTraits"
FLOATFORM = P + "number/FloatForm"
SPEC = P + "Specifier"
DA = P + "appender/DefaultAppender"
FA = P + "appender/FixedStringAppender"
LETTERS = "diuoxXfFeEgGaAcsStTnp%"
LOWER = {"i": "d", "X": "x", "F": "f", "E": "e", "G": "g", "A": "a", "S": "s", "T": "t"}


# ---------------------------------------------------------------- abstract arguments

def mk_traits(E, st, k):
    i = var("arg%d" % k, "I")
    c = var("argc%d" % k, "C")
    st.add(in_range(i, "I"), in_range(c, "C"))
    iv, v, u, big = ints.sym_intform(E, st, "argv%d" % k)
    st.mut(iv).d["of"] = k
    ff = st.new(FLOATFORM, {}, {"abs": "floatform", "of": k})
    t = jdk.unknown_text(st, "argtext%d" % k)
    ta = st.new("java/time/temporal/TemporalAccessor", {}, {"abs": "temporal", "of": k})
    return st.new(TRAITS, {}, {"abs": "traits", "of": k, "i": i, "c": c, "iform": iv, "fform": ff, "text": t, "ta": ta})


def h_traits(E, st, ref, name, desc, args):
    """Contract of FormatTraits as its users see it: each view is a fixed value or an exception of the argument's own."""
    o = st.obj(ref)
    key = {"asInt": "i", "asChar": "c", "asIntForm": "iform", "asFloatForm": "fform", "asTemporalAccessor": "ta"}.get(name)
    if name == "asSeq":
        val = lambda s: mk_seq(E, s, o.d["text"])
    elif name == "ref" and "ref" in o.d:
        return o.d["ref"]
    elif name == "asObject":
        # nothing is known about the object behind an argument here
        st.weak.append("FormatTraits.asObject")
        s2, k = st.fork(), o.d.get("object")
        if k is None:
            k = st.new("java/lang/Object", {}, {"abs": "anyobject", "types": {}})
            st.mut(ref).d["object"] = k
        return [Out("ret", st, k)] + ([Out("ret", s2, None)] if "object" not in o.d else [])
    elif name == "asString":
        val = lambda s: Str(o.d["text"])
    elif key:
        val = lambda s: o.d[key]
    else:
        return NotImplemented
    out = []
    if o.d.get("fails", True) and name not in ("asSeq", "asString"):
        s2 = st.fork()
        s2.ghost["arg-failed"] = o.d["of"]
        out.append(E.throw(s2, P + "PrintfException"))
    return [Out("ret", st, val(st))] + out


def h_object(E, st, ref, name, desc, args):
    if name != "instanceof":
        return NotImplemented
    out = []
    for s, yes in ((st.fork(), True), (st, False)):
        s.mut(ref).d["types"] = dict(s.obj(ref).d["types"], **{desc: yes})
        out.append((s, yes))
    return out


def mk_titer(E, st, traits, n):
    return st.new("java/util/Iterator", {}, {"abs": "titer", "n": n, "pos": 0, "traits": traits})


def h_titer(E, st, ref, name, desc, args):
    o = st.obj(ref)
    n, pos = o.d["n"], o.d["pos"]
    if name == "hasNext":
        return If(lt(pos, n), 1, 0)
    if name == "next":
        out = []
        for s2, ok in E.split(st, lt(pos, n)):
            if not ok:
                out.append(E.throw(s2, "java/util/NoSuchElementException"))
                continue
            if pos >= len(o.d["traits"]):
                raise Unsupported("more arguments taken than any directive may take")
            s2.mut(ref).d["pos"] = pos + 1
            out.append(Out("ret", s2, o.d["traits"][pos]))
        return out
    return NotImplemented


def h_collect(E, st, ref, name, desc, args):
    if name == "accept":
        st.ghost["collected"] = st.ghost.get("collected", ()) + (args[0],)
        return None
    return NotImplemented


# ---------------------------------------------------------------- SeqFormatter through its signature

def ctx_read(E, st, ref):
    """Flags, width, precision and pattern of a context through its own getters."""
    def one(name, desc, *a):
        d0, E.depth = E.depth, E.depth + 1
        try:
            outs = [o for o in E.call_key(st.fork(), CTX, name, desc, [ref] + list(a)) if check(o.st.pc) != "unsat"]
        finally:
            E.depth = d0
        if len(outs) != 1 or outs[0].kind != "ret":
            raise Unsupported("%s of a context splits" % name)
        return outs[0].v
    fl = {n: one("hasFlag", "(L%s;)Z" % FLAG, E.static_fields[(FLAG, n)]) for n in FLAGS}
    return fl, one("getWidth", "()I"), one("getPrecision", "()I"), one("getDateTimeFormatter", "()Ljava/time/format/DateTimeFormatter;")


def formatter_contract(letter):
    def c(E, st, args):
        ctx, form = args
        if ctx is None or form is None or not isinstance(form, Ref):
            raise Unsupported("formatter called with null")
        fl, w, p, dtf = ctx_read(E, st, ctx)
        E.oblige(st, "SeqFormatter.%s is called with width and precision in range" % letter, And(le(-1, w), le(w, MAXW), le(-1, p), le(p, MAXW)))
        o = st.obj(form)
        outs = []
        if letter in "uoxcspt":
            s2 = st.fork()
            s2.ghost["arg-failed"] = o.d.get("of", -1)
            outs.append(E.throw(s2, P + "PrintfException"))
        V = jdk.unknown_text(st, "piece")
        st.ghost["calls"] = st.ghost.get("calls", ()) + ((letter, fl, w, p, dtf, o.d.get("of", -1), V),)
        return [Out("ret", st, mk_seq(E, st, V))] + outs
    return c


def engine(prog, **k):
    E = ints.engine(prog, **k)
    E.abs.update({"traits": h_traits, "titer": h_titer, "collect": h_collect, "anyobject": h_object, "floatform": lambda *a: NotImplemented,
                  "temporal": lambda *a: NotImplemented, "dtf": lambda *a: NotImplemented})
    return E


def sf_contracts(E):
    for l in "duox":
        E.contracts["%s.%s(L%s;L%s;)L%s;" % (SF, l, CTX, INTFORM, SEQ)] = formatter_contract(l)
    for l in "fega":
        E.contracts["%s.%s(L%s;L%s;)L%s;" % (SF, l, CTX, FLOATFORM, SEQ)] = formatter_contract(l)
    for l in "cspt":
        E.contracts["%s.%s(L%s;L%s;)L%s;" % (SF, l, CTX, TRAITS, SEQ)] = formatter_contract(l)


def specifier(E, st, letter):
    m = find(E.prog, SPEC, "valueOf", "(C)L%s;" % SPEC)
    E.ensure_init(SPEC)
    E.heap_base(st)
    d0, E.depth = E.depth, 1
    try:
        outs = E.call_method(st, m, [ord(letter)])
    finally:
        E.depth = d0
    if len(outs) != 1 or outs[0].kind != "ret" or outs[0].v is None:
        raise Unsupported("specifier %s" % letter)
    return outs[0].v


def construct(E, st, cls, desc, args):
    """Makes an object with the program's own constructor."""
    E.ensure_init(cls)
    E.heap_base(st)
    m = find(E.prog, cls, "<init>", desc)
    r = st.new(cls, E.blank(cls))
    d0, E.depth = E.depth, 1
    try:
        outs = [o for o in E.call_method(st, m, [r] + args) if check(o.st.pc) != "unsat"]
    finally:
        E.depth = d0
    if len(outs) != 1 or outs[0].kind != "ret":
        raise Unsupported("constructor of %s splits" % cls)
    st.heap, st.pc, st.ghost = outs[0].st.heap, outs[0].st.pc, outs[0].st.ghost
    return r


def append_unit(letter):
    """DefaultAppender.append for one specifier."""
    low = LOWER.get(letter, letter)

    def run(prog):
        E = engine(prog)
        sf_contracts(E)
        st = State()
        E.ensure_init(FLAG)
        dtf = st.new("java/time/format/DateTimeFormatter", {}, {"abs": "dtf"})
        cx = Ctx(E, st, dyn=True, dtf=dtf)
        tr = [mk_traits(E, st, k) for k in range(4)]
        n = var("nargs", (0, MAXI))
        st.add(n >= 0, n <= MAXI)
        it = mk_titer(E, st, tr, n)
        col = st.new("java/util/function/Consumer", {}, {"abs": "collect"})
        ap = construct(E, st, DA, "(L%s;L%s;)V" % (SPEC, CTX), [specifier(E, st, letter), cx.ref])
        st.ghost = {}
        m = find(prog, DA, "append", "(Ljava/util/function/Consumer;Ljava/util/Iterator;)V")
        r = Root(E, "DefaultAppender.append %%%s" % letter)
        iv = [st.obj(t).d["i"] for t in tr]

        def expected(sw, sp):
            W = iv[0] if sw else cx.w
            Pv = iv[1 if sw else 0] if sp else cx.p
            need = 1 + (1 if sw else 0) + (1 if sp else 0)
            left = Or(cx.left, W < 0) if sw else cx.left
            w2 = If(W < 0, -W, W) if sw else W
            p2 = If(Pv < 0, -1, Pv) if sp else Pv
            bad = Or(lt(n, need), And(lt(MAXW, w2)) if sw else False, lt(MAXW, p2) if sp else False)
            return need, left, w2, p2, bad

        def post(o):
            for sw in (False, True):
                for sp in (False, True):
                    s = o.st.fork()
                    s.add(eq(cx.w, MINI) if sw else Not(eq(cx.w, MINI)), eq(cx.p, MINI) if sp else Not(eq(cx.p, MINI)))
                    if check(s.pc) != "unsat":
                        case(o, s, sw, sp)

        def case(o, s, sw, sp):
            need, left, w2, p2, bad = expected(sw, sp)
            nm = r.name
            calls, coll = o.st.ghost.get("calls", ()), o.st.ghost.get("collected", ())
            if o.kind == "throw":
                k = o.st.ghost.get("arg-failed")
                if k is not None:
                    E.oblige(s, nm + ": fails only on an argument that is its own", lt(k, need))
                else:
                    E.oblige(s, nm + ": throws the library's exception", ints.printf_exc(E, s, o.v))
                    E.oblige(s, nm + ": throws only when arguments are missing or a number is out of range", bad)
                E.oblige(s, nm + ": emits nothing before failing", len(coll) == 0)
                return
            E.oblige(s, nm + ": rejects missing arguments and numbers out of range", Not(bad))
            E.oblige(s, nm + ": takes exactly its arguments", eq(s.obj(it).d["pos"], need))
            E.oblige(s, nm + ": emits exactly one piece", len(coll) == 1)
            if len(coll) != 1 or coll[0] is None:
                return
            got = view(E, s, coll[0])
            if low in "n%":
                E.oblige_text(s, nm + ": text", got, EMPTY if low == "n" else Lit("%"))
                return
            if len(calls) != 1:
                raise Unsupported("%s does not use SeqFormatter once" % nm)
            l, fl, w, p, d, of, V = calls[0]
            E.oblige(s, nm + ": uses the formatter of its specifier", l == low)
            E.oblige(s, nm + ": formats the value argument", of == need - 1)
            E.oblige(s, nm + ": effective width", eq(w, w2))
            E.oblige(s, nm + ": effective precision", eq(p, p2))
            E.oblige(s, nm + ": date pattern", isinstance(d, Ref) and d.id == dtf.id)
            for f in FLAGS:
                want = left if f == "LEFT_JUSTIFY" else cx.flag[f]
                E.oblige(s, nm + ": effective flag " + f, (Z(fl[f]) != 0) == Z(want))
            E.oblige_text(s, nm + ": text", got, upper(V) if letter.isupper() else V)
        r.run(m, st, [ap, col, it], post, modifies=[it, col])
        E.candidates = lambda mod: cases(mod, cx, iv, n, letter)
        return E
    run.functions = [DA + ".append"]
    return run


SAMPLE = {"s": "s:Hello", "S": "s:hi\\u00e9", "c": "c:61", "t": "l:1700000000", "T": "l:1700000000", "p": "n:", "n": "i:1", "%": "i:1"}


def cases(mod, cx, iv, n, letter):
    w, p, cnt = ival(mod, cx.w), ival(mod, cx.p), ival(mod, n)
    fs = ints.flags_of(mod, cx).replace(" ", "\\u0020")
    f = "%" + fs + ("*" if w == MINI else str(w) if w > 0 else "") + (".*" if p == MINI else ".%d" % p if p >= 0 else "") + letter
    xs = [ival(mod, v) for v in iv]
    dyn = (w == MINI) + (p == MINI)
    vals = [SAMPLE.get(letter, "i:42"), SAMPLE.get(letter, "i:-7"), SAMPLE.get(letter, "d:3ff4000000000000" if letter in "fFeEgGaA" else "i:0")]
    out = []
    for v in vals:
        for k in {min(cnt, dyn + 2), dyn + 1, dyn, dyn + 2}:
            a = (["i:%d" % x for x in xs[:dyn]] + [v, "i:9", "i:8"])[:k]
            out.append("\t".join(["fmt", f] + a))
    return out


def fixed_unit(prog):
    """FixedStringAppender.append: the literal text, no argument."""
    E = engine(prog)
    E.candidates = lambda mod: []
    st = State()
    t = jdk.unknown_text(st, "literal")
    ap = construct(E, st, FA, "(Ljava/lang/String;)V", [Str(t)])
    n = var("nargs", (0, MAXI))
    st.add(n >= 0)
    it = mk_titer(E, st, [mk_traits(E, st, k) for k in range(2)], n)
    col = st.new("java/util/function/Consumer", {}, {"abs": "collect"})
    st.ghost = {}
    r = Root(E, "FixedStringAppender.append")

    def post(o):
        if o.kind == "throw":
            E.oblige(o.st, r.name + ": throws nothing", False)
            return
        coll = o.st.ghost.get("collected", ())
        E.oblige(o.st, r.name + ": takes no argument", eq(o.st.obj(it).d["pos"], 0))
        E.oblige_text(o.st, r.name + ": text", cat(*[view(E, o.st, c) for c in coll]) if coll else EMPTY, t)
    r.run(find(prog, FA, "append", "(Ljava/util/function/Consumer;Ljava/util/Iterator;)V"), st, [ap, col, it], post, modifies=[it, col])
    return E


fixed_unit.functions = [FA + ".append"]


UNITS = {"append %" + l: append_unit(l) for l in LETTERS}
UNITS["append literal"] = fixed_unit
