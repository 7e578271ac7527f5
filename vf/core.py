"""Contracts of the sequence layer and helpers shared by all proof units."""
import z3
from . import smt, terms, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Engine, Unsupported, Budget, Out, Ref, Obj, Str, Lam, Cls, Dbl, Maybe, State, Ob

P = "io/fastprintf/"
SEQ = P + "seq/Seq"
ATOMIC = P + "seq/AtomicSeq"
ITERABLE = P + "seq/AtomicSeqIterable"
SB = "java/lang/StringBuilder"
MAXLEN = MAXI


class Spec:
    """Declared representation of a class: view and invariant over its fields."""

    def __init__(self, cls, fields, view, inv, fresh, calls=None, mutable=()):
        self.cls, self.fields, self._view, self._inv, self.fresh, self.mutable = cls, fields, view, inv, fresh, mutable
        self.calls = calls

    def get(self, st, ref):
        f = st.obj(ref).f
        for n in self.fields:
            if n not in f:
                raise Unsupported("class %s has no field %s" % (self.cls, n))
        return f

    def view(self, E, st, ref):
        return self._view(E, st, self.get(st, ref))

    def inv(self, E, st, ref):
        return self._inv(E, st, self.get(st, ref))


# ---------------------------------------------------------------- abstract sequences

def mk_seq(E, st, V, cls=SEQ, **d):
    n = V.len()
    if is_z(n):
        st.add(n >= 0, n <= MAXLEN)
    o = {"abs": "seq", "V": V, "types": {}}
    o.update(d)
    return st.new(cls, {}, o)


def view(E, st, v, why="sequence"):
    """Text of a sequence; for an object of a known class this obliges its invariant."""
    if v is None:
        raise Unsupported("view of null")
    if isinstance(v, Maybe):
        raise Unsupported("view of a maybe-null sequence")
    o = st.obj(v)
    if o.d.get("abs") == "seq":
        return o.d["V"]
    sp = E.class_specs.get(o.cls)
    if sp is None:
        raise Unsupported("no declared view for class %s" % o.cls)
    if not o.d.get("ok"):
        for n, g in sp.inv(E, st, v):
            E.oblige(st, "invariant of %s: %s" % (o.cls.split("/")[-1], n), g)
        if not o.cls.endswith("LazySeq"):
            st.mut(v).d["ok"] = True
    return sp.view(E, st, v)


def text_of(E, st, v):
    o = st.obj(v)
    if o.d.get("abs") == "seq" or o.cls in E.class_specs:
        return view(E, st, v)
    return o.d.get("text")


def elem_count(E, st, ref):
    o = st.obj(ref)
    if E.prog.subclass(o.cls, ATOMIC) or o.d.get("types", {}).get(ATOMIC):
        return 1
    if "elementCount" in o.f:
        return o.f["elementCount"]
    n = o.d.get("ec")
    if n is None:
        n = var(fresh_name("ec"), (0, MAXI))
        st.add(n >= 1, n <= MAXI)
        st.mut(ref).d["ec"] = n
    return n


def first_index(E, st, V, c):
    return jdk.index_of(E, st, V, c)


def seq_instance(E, st, ref, cls):
    """Outcomes of an instanceof test on an abstract sequence."""
    o = st.obj(ref)
    prog = E.prog
    if cls not in prog.classes:
        if cls in ("java/lang/Iterable",):
            cls2 = ITERABLE
            return seq_instance(E, st, ref, cls2)
        return [(st, False)]
    if cls in (ATOMIC, ITERABLE):
        other = ITERABLE if cls == ATOMIC else ATOMIC
        if prog.subclass(o.cls, other) or o.d["types"].get(other):
            return [(st, False)]
        if o.d["types"].get(other) is False:
            return [(st, True)]
        out = []
        for val in (True, False):
            s2 = st.fork()
            d = s2.mut(ref)
            t = dict(d.d["types"])
            t[cls], t[other] = val, not val
            d.d["types"] = t
            d.cls = cls if val else other
            out.append((s2, val))
        return out
    if not prog.subclass(cls, o.cls) and not prog.classes[cls].interface:
        return [(st, False)]
    sp = E.class_specs.get(cls)
    if sp is None or sp.fresh is None or prog.classes[cls].interface:
        raise Unsupported("type test of a sequence against %s" % cls)
    s1, s2 = st.fork(), st
    t = dict(o.d["types"])
    t[cls] = False
    s2.mut(ref).d["types"] = t
    out = [(s2, False)]
    if sp.fresh(E, s1, ref, o.d["V"]) and check(s1.pc) != "unsat":
        s1.mut(ref).d["refines"] = True
        out.append((s1, True))
    return out


def sink_append(E, st, sink, t):
    """Appends to a builder or an abstract sink."""
    o = st.mut(sink)
    o.d["text"] = cat(o.d["text"], t)


def index_error(E, st):
    return E.throw(st, "IndexOutOfBoundsException")


def h_seq(E, st, ref, name, desc, args, V=None):
    """The contract of interface Seq."""
    if name == "instanceof":
        return seq_instance(E, st, ref, desc)
    o = st.obj(ref)
    if V is None:
        V = o.d["V"]
    n = V.len()
    atomic = E.prog.subclass(o.cls, ATOMIC) or o.d.get("types", {}).get(ATOMIC)
    rc = ATOMIC if atomic else SEQ
    if name == "length":
        return n
    if name == "isEmpty":
        return If(eq(n, 0), 1, 0)
    if name == "charAt":
        i = args[0]
        return jdk.range_check(E, st, And(le(0, i), lt(i, n)), lambda s: V.at(i), "IndexOutOfBoundsException")
    if name == "subSequence":
        a, b = args
        return jdk.range_check(E, st, And(le(0, a), le(a, b), le(b, n)), lambda s: mk_seq(E, s, substr(V, a, b), rc),
                               "IndexOutOfBoundsException")
    if name == "upperCase":
        return mk_seq(E, st, upper(V), rc)
    if name == "toString":
        return Str(V)
    if name == "appendTo":
        k = args[0]
        if k is None:
            raise Unsupported("append to null")
        if st.obj(k).d.get("abs") == "sink":
            out = sink_outcomes(E, st, k, V)
            return out
        sink_append(E, st, k, V)
        return None
    if name in ("prepend", "append"):
        a = args[0]
        if a is None:
            return E.throw(st, "NullPointerException")
        W = view(E, st, a)
        return mk_seq(E, st, cat(W, V) if name == "prepend" else cat(V, W))
    if name == "dup":
        return ref
    if name == "map":
        return E.call_key(st, None, "apply", "(Ljava/lang/Object;)Ljava/lang/Object;", [args[0], ref])
    if name == "indexOf":
        return first_index(E, st, V, args[0])
    if name == "startsWith":
        return If(And(lt(0, n), eq(V.at(0), args[0])), 1, 0)
    if name == "elementCount":
        return elem_count(E, st, ref) if o.d.get("abs") == "seq" else NotImplemented
    if name == "isAtomic":
        if atomic:
            return 1
        if E.prog.subclass(o.cls, ITERABLE) or o.d.get("types", {}).get(ITERABLE):
            return 0
        return [Out("ret", s, 1 if v else 0) for s, v in seq_instance(E, st, ref, ATOMIC)]
    if name == "iterator":
        return mk_iter(E, st, V, True)
    if name == "unfold":
        return seq_unfold(E, st, V, args[0])
    if name == "getClass":
        raise Unsupported("class of an abstract sequence")
    return NotImplemented


def seq_unfold(E, st, V, dq):
    """Contract of unfold: the result followed by what was pushed is the sequence."""
    o = st.mut(dq)
    if "elems" in o.d:
        jdk.listify(E, st, dq.id)
        o = st.mut(dq)
    if "cat" not in o.d:
        raise Unsupported("unfold onto an unknown stack")
    k, m = var(fresh_name("uf"), (0, MAXI)), var(fresh_name("um"), (0, MAXI))
    st.add(k >= 0, le(k, V.len()), m >= 0, m <= MAXI, Implies(m == 0, eq(k, V.len())))
    o.d["cat"] = cat(substr(V, k, V.len()), o.d["cat"])
    o.d["n"] = add(o.d["n"], m)
    return mk_seq(E, st, substr(V, 0, k))


def class_calls(E, st, ref, name, desc, args):
    """Calls on objects of a class with a declared view use the interface contract."""
    if E.in_clinit:
        return NotImplemented
    c = st.obj(ref).cls
    if name in ("length", "isEmpty", "charAt", "subSequence", "upperCase", "toString", "appendTo", "prepend", "append", "indexOf",
                "startsWith", "iterator", "unfold", "isAtomic"):
        return h_seq(E, st, ref, name, desc, args, view(E, st, ref))
    return NotImplemented


# ---------------------------------------------------------------- iterators over sequences

def mk_iter(E, st, V, more, pos=0):
    return st.new("java/util/Iterator", {}, {"abs": "iter", "V": V, "pos": pos, "more": more})


def h_iter(E, st, ref, name, desc, args):
    """Contract of the iterators of composite sequences: successive segments of V."""
    if name == "instanceof":
        return NotImplemented
    o = st.obj(ref)
    V, pos, more = o.d["V"], o.d["pos"], o.d["more"]
    if name == "hasNext":
        return If(more, 1, 0)
    if name == "next":
        out = []
        for s2, ok in E.split(st, more):
            if not ok:
                out.append(E.throw(s2, "java/util/NoSuchElementException"))
                continue
            p = var(fresh_name("pos"), (0, MAXI))
            m = fresh_bool("more")
            s2.add(le(pos, p), le(p, V.len()), Or(m, eq(p, V.len())))
            d = s2.mut(ref).d
            d["pos"], d["more"] = p, m
            out.append(Out("ret", s2, mk_seq(E, s2, substr(V, pos, p), ATOMIC)))
        return out
    return NotImplemented


def _iter_facts(E, st, o):
    return [le(0, o.d["pos"]), le(o.d["pos"], o.d["V"].len()), Or(o.d["more"], eq(o.d["pos"], o.d["V"].len()))]


h_iter.facts = _iter_facts


# ---------------------------------------------------------------- sinks

def mk_sink(E, st, t=None, fails=True):
    return st.new("java/lang/Appendable", {}, {"abs": "sink", "text": t if t is not None else jdk.unknown_text(st, "sink"), "fails": fails})


def sink_outcomes(E, st, ref, t):
    out = []
    if st.obj(ref).d.get("fails"):
        s2 = st.fork()
        s2.mut(ref).d["text"] = jdk.unknown_text(s2, "partial")
        s2.ghost["sink-failed"] = True
        out.append(E.throw(s2, "java/io/IOException"))
    sink_append(E, st, ref, t)
    return [Out("ret", st, ref)] + out


def h_sink(E, st, ref, name, desc, args):
    if name == "instanceof":
        return [(st, False)]
    if name != "append":
        return NotImplemented
    ad = E.desc(desc)[0]
    if len(ad) == 3:
        t = jdk.T(E, st, args[0]) if args[0] is not None else Lit("null")
        out = []
        for s2, ok in E.split(st, And(le(0, args[1]), le(args[1], args[2]), le(args[2], t.len()))):
            out += sink_outcomes(E, s2, ref, substr(t, args[1], args[2])) if ok else [index_error(E, s2)]
        return out
    if ad[0] == "C":
        return sink_outcomes(E, st, ref, ch(args[0]))
    t = Lit("null") if args[0] is None else jdk.T(E, st, args[0])
    return sink_outcomes(E, st, ref, t)


# ---------------------------------------------------------------- arrays of sequences

def seg_facts(st, off, n, V):
    L = V.len()
    nm = off.name()
    if nm not in smt.AXIOMS:
        smt.AXIOMS[nm] = []
        smt.axiom(off, lambda i: [z3.Implies(z3.And(i >= 0, i <= Z(n)), z3.And(off(i) >= 0, off(i) <= Z(L)))])
        smt.PAIRS[nm] = [lambda a, b: [z3.Implies(z3.And(a[0] <= b[0], a[0] >= 0, b[0] <= Z(n)), off(a[0]) <= off(b[0])),
                                       z3.Implies(z3.And(b[0] <= a[0], b[0] >= 0, a[0] <= Z(n)), off(b[0]) <= off(a[0]))]]
    st.add(off(Z(0)) == 0, off(Z(n)) == Z(L))


def seg_array(E, st, cls, n, V):
    off = z3.Function(fresh_name("off"), z3.IntSort(), z3.IntSort())
    seg_facts(st, off, n, V)
    if is_z(n):
        st.add(n >= 0, n <= MAXI, Implies(eq(n, 0), eq(V.len(), 0)))
    return st.new(cls, {}, {"n": n, "V": V, "off": off, "seg": "arr"})


def h_segarr(E, st, arr, what, _, args):
    o = st.obj(arr)
    if what == "load":
        i = args[0]
        if o.d["seg"] != "arr":
            raise Unsupported("load from an array being filled")
        if "make" in o.d:
            return [(st, o.d["make"](E, st, i))]
        off = o.d["off"]
        a, b = off(Z(simp(i))), off(Z(simp(add(i, 1))))
        st.add(a >= 0, a <= b, le(b, o.d["V"].len()))
        return [(st, mk_seq(E, st, substr(o.d["V"], a, b), ATOMIC))]
    i, v = args
    if o.d["seg"] != "fill" or not (E.discovering or prove(st.pc, eq(i, o.d["filled"]))):
        raise Unsupported("store into an array of sequences out of order")
    if v is None:
        raise Unsupported("null stored into an array of sequences")
    t = view(E, st, v)
    o = st.mut(arr)
    o.d["cat"] = cat(o.d["cat"], t)
    o.d["filled"] = add(o.d["filled"], 1)


def arr_view(E, st, arr):
    o = st.obj(arr)
    if "elems" in o.d:
        if any(e is None for e in o.d["elems"]):
            raise Unsupported("null in an array of sequences")
        return cat(*[view(E, st, e) for e in o.d["elems"]]) if o.d["elems"] else EMPTY
    if o.d["seg"] == "fill":
        return o.d["cat"]
    return o.d["V"]


def arr_full(E, st, arr):
    o = st.obj(arr)
    if "elems" in o.d:
        return all(e is not None for e in o.d["elems"])
    return eq(o.d["filled"], o.d["n"]) if o.d["seg"] == "fill" else True


def havoc_ref(E, st, ref, gen):
    o = st.obj(ref)
    if o.d.get("abs") == "seq" or o.cls in E.class_specs:
        n = var(fresh_name("hn"), (0, MAXI))
        gen.hv.add(n.decl().name())
        t = Opq(fresh_name("hv"), n)
        gen.hv.add(t.name)
        return mk_seq(E, st, t)
    return None


# ---------------------------------------------------------------- classes

def specs(E):
    p = E.prog
    S_ = P + "seq/"

    def upper_if(c, t):
        return ite(eq(c, 1), upper(t), t)

    def arr_text(st, a):
        return st.obj(a).d["t"]

    # StrView: the characters of str from start, length of them
    def sv_fresh(E, st, ref, V=None):
        if V is not None:
            return None
        t = jdk.unknown_text(st, "str")
        s, n, u = var(fresh_name("start"), "I"), var(fresh_name("len"), "I"), var(fresh_name("up"), "Z")
        st.add(s >= 0, n >= 0, s + n <= t.len(), u >= 0, u <= 1)
        st.mut(ref).f.update(str=Str(t), start=s, length=n, upperCase=u)
        return True

    def sv_view(E, st, f):
        return upper_if(f["upperCase"], substr(f["str"].t, f["start"], add(f["start"], f["length"])))

    def range_inv(what):
        def inv(E, st, f):
            t = f["str"].t if what == "str" else arr_text(st, f["ch"])
            return [("range inside the text", And(le(0, f["start"]), le(0, f["length"]), le(add(f["start"], f["length"]), t.len()))),
                    ("case flag", Or(eq(f["upperCase"], 0), eq(f["upperCase"], 1)))]
        return inv

    def add_spec(n, *a, **k):
        if S_ + n in p.classes:
            E.class_specs[S_ + n] = Spec(S_ + n, *a, calls=class_calls, **k)

    add_spec("StrView", ["str", "start", "length", "upperCase"], sv_view, range_inv("str"), sv_fresh)

    def ca_fresh(E, st, ref, V=None):
        if V is not None:
            return None
        n0 = var(fresh_name("alen"), (0, MAXI))
        st.add(n0 >= 0, n0 <= MAXI)
        arr = st.new("[C", {}, {"t": Opq(fresh_name("chars"), n0)})
        s, n, u = var(fresh_name("start"), "I"), var(fresh_name("len"), "I"), var(fresh_name("up"), "Z")
        st.add(s >= 0, n >= 0, s + n <= n0, u >= 0, u <= 1)
        st.mut(ref).f.update(ch=arr, start=s, length=n, upperCase=u)
        if "hash" in st.obj(ref).f:
            h = var(fresh_name("hash"), "I")
            st.add(in_range(h, "I"))
            st.mut(ref).f["hash"] = h
        return True

    add_spec("CharArray", ["ch", "start", "length", "upperCase"],
             lambda E, st, f: upper_if(f["upperCase"], substr(arr_text(st, f["ch"]), f["start"], add(f["start"], f["length"]))),
             range_inv("ch"), ca_fresh, mutable=("hash",))

    def rp_fresh(E, st, ref, V=None):
        c, n = var(fresh_name("c"), "C"), var(fresh_name("count"), "I")
        st.add(in_range(c, "C"), n >= 0, n <= MAXI)
        o = st.mut(ref)
        if V is not None:
            st.add(eq(n, V.len()), smt.Q(0, V.len(), lambda k: eq(V.at(k), c), jdk.triggers(V)))
            o.cls, o.d = S_ + "Repeated", {"ok": True}
            o.f = {}
        o.f.update(c=c, count=n)
        return True

    add_spec("Repeated", ["c", "count"], lambda E, st, f: rep(f["c"], f["count"]),
             lambda E, st, f: [("count is not negative", le(0, f["count"])), ("char", And(le(0, f["c"]), le(f["c"], 65535)))], rp_fresh)

    def em_fresh(E, st, ref, V=None):
        if V is not None:
            st.add(eq(V.len(), 0))
            o = st.mut(ref)
            o.cls, o.d, o.f = S_ + "EmptySeq", {"ok": True, "alias": True}, {}
        return True

    add_spec("EmptySeq", [], lambda E, st, f: EMPTY, lambda E, st, f: [], em_fresh)

    def lz_fresh(E, st, ref, V=None):
        if V is not None:
            return None
        t = jdk.unknown_text(st, "lazy", 2)
        act = st.new("java/util/function/Consumer", {}, {"abs": "action", "T": t})
        cached = fresh_bool("cached")
        st.mut(ref).f.update(action=act, length=t.len(), str=Maybe(cached, Str(t)))
        return True

    def lz_view(E, st, f):
        return action_text(E, st, f["action"])

    def lz_inv(E, st, f):
        t = action_text(E, st, f["action"])
        out = [("length is that of the text the action appends", eq(t.len(), f["length"]))]
        s = f["str"]
        if s is not None:
            w = s.v.t if isinstance(s, Maybe) else s.t
            g = [x for _, x in text_eq_goals(w, t)]
            out.append(("cached text", Or(s.isnull if isinstance(s, Maybe) else False, And(*g))))
        return out

    add_spec("LazySeq", ["action", "length", "str"], lz_view, lz_inv, lz_fresh, mutable=("str",))

    def cc_fresh(E, st, ref, V=None):
        if V is None:
            V = jdk.unknown_text(st, "cc")
        k = var(fresh_name("cut"), (0, MAXI))
        st.add(k >= 0, le(k, V.len()))
        l, r = mk_seq(E, st, substr(V, 0, k)), mk_seq(E, st, substr(V, k, V.len()))
        el, er = elem_count(E, st, l), elem_count(E, st, r)
        st.add(el + er <= MAXI)
        o = st.mut(ref)
        if o.d.get("ec") is not None:
            st.add(el + er == o.d["ec"])
        o.cls, o.f, o.d = S_ + "Concat", {}, {"ok": True}
        o.f.update(left=l, right=r, length=V.len(), elementCount=el + er)
        return True

    def cc_inv(E, st, f):
        V = cat(view(E, st, f["left"]), view(E, st, f["right"]))
        return [("length is the sum", eq(f["length"], V.len())), ("element count is positive", le(1, f["elementCount"]))]

    add_spec("Concat", ["left", "right", "length", "elementCount"],
             lambda E, st, f: cat(view(E, st, f["left"]), view(E, st, f["right"])), cc_inv, cc_fresh)

    def sa_fresh(E, st, ref, V=None):
        if V is None:
            V = jdk.unknown_text(st, "sa")
        n = var(fresh_name("segs"), (0, MAXI))
        st.add(n >= 1, n <= MAXI)
        arr = seg_array(E, st, "[L%s;" % ATOMIC, n, V)
        o = st.mut(ref)
        o.cls, o.f, o.d = S_ + "SeqArray", {}, {"ok": True}
        o.f.update(array=arr, length=V.len())
        return True

    def sa_inv(E, st, f):
        V = arr_view(E, st, f["array"])
        return [("all elements are set", arr_full(E, st, f["array"])), ("at least one element", le(1, E.alen(st, f["array"]))),
                ("length is the sum", eq(f["length"], V.len()))]

    add_spec("SeqArray", ["array", "length"], lambda E, st, f: arr_view(E, st, f["array"]), sa_inv, sa_fresh)


def action_text(E, st, act):
    """Text a builder action appends, whatever the builder holds; also obliges that it only appends."""
    if isinstance(act, Ref):
        o = st.obj(act)
        if o.d.get("abs") == "action":
            return o.d["T"]
    key = ("action", id(act))
    if isinstance(act, Lam) and key in E.action_cache:
        return E.action_cache[key][1]
    s0 = st.fork()
    pre = jdk.unknown_text(s0, "pre")
    sb = s0.new(SB, {}, {"model": "sb", "text": pre})
    heap0 = dict(s0.heap)
    n0 = len(s0.pc)
    outs = E.call_key(s0, "java/util/function/Consumer", "accept", "(Ljava/lang/Object;)V", [act, sb])
    parts, facts = [], []
    for o in outs:
        if o.kind != "ret":
            E.oblige(o.st, "builder action throws nothing", False)
            continue
        t = o.st.obj(sb).d["text"]
        if t is pre:
            r = EMPTY
        elif isinstance(t, Cat) and t.parts[0] is pre:
            r = cat(*t.parts[1:])
        else:
            raise Unsupported("builder action does not only append")
        for k in heap0:
            if k != sb.id and o.st.heap[k] is not heap0[k]:
                raise Unsupported("builder action changes other objects")
        delta = o.st.pc[n0:]
        if any(isinstance(f, smt.Q) for f in delta) and len(outs) > 1:
            raise Unsupported("builder action with quantified branch")
        parts.append((And(*[f for f in delta if not isinstance(f, smt.Q)]), r))
        facts.append([f for f in delta if isinstance(f, smt.Q)])
    if not parts:
        raise Unsupported("builder action never returns")
    t = parts[-1][1]
    for c, r in parts[-2::-1]:
        t = ite(c, r, t)
    st.add(Or(*[c for c, _ in parts]))
    if len(facts) == 1:
        st.add(*facts[0])
    if isinstance(act, Lam):
        E.action_cache[key] = (act, t)
    return t


def h_action(E, st, ref, name, desc, args):
    if name == "accept":
        sink_append(E, st, args[0], st.obj(ref).d["T"])
        return None
    return NotImplemented


# ---------------------------------------------------------------- contracts of the factories

def contract_table():
    """name+descriptor in Seq -> function (E, st, args) -> outcomes."""
    C = {}

    def c(key):
        def d(fn):
            C[key] = fn
            return fn
        return d

    A = "Lio/fastprintf/seq/AtomicSeq;"

    @c("ch(C)" + A)
    def _(E, st, a):
        return mk_seq(E, st, ch(a[0]), ATOMIC)

    @c("repeated(CI)" + A)
    def _(E, st, a):
        return jdk.range_check(E, st, le(1, a[1]), lambda s: mk_seq(E, s, rep(a[0], a[1]), ATOMIC), "IllegalArgumentException")

    def nn(E, st, v, ok):
        if v is None:
            return E.throw(st, "NullPointerException")
        if isinstance(v, Maybe):
            out = []
            for s2, z in E.split(st, v.isnull):
                out += [E.throw(s2, "NullPointerException")] if z else E.norm(s2, ok(s2, v.v))
            return out
        return ok(st, v)

    @c("wrap(Ljava/lang/String;)" + A)
    def _(E, st, a):
        return nn(E, st, a[0], lambda s, v: mk_seq(E, s, v.t, ATOMIC))

    @c("wrap(Ljava/lang/String;I)" + A)
    def _(E, st, a):
        def ok(s, v):
            n = v.t.len()
            return jdk.range_check(E, s, And(le(0, a[1]), le(a[1], n)), lambda s2: mk_seq(E, s2, substr(v.t, a[1], n), ATOMIC), "IndexOutOfBoundsException")
        return nn(E, st, a[0], ok)

    @c("wrap(Ljava/lang/String;II)" + A)
    def _(E, st, a):
        def ok(s, v):
            return jdk.range_check(E, s, And(le(0, a[1]), le(a[1], a[2]), le(a[2], v.t.len())),
                                   lambda s2: mk_seq(E, s2, substr(v.t, a[1], a[2]), ATOMIC), "IndexOutOfBoundsException")
        return nn(E, st, a[0], ok)

    @c("forArray([C)" + A)
    def _(E, st, a):
        return nn(E, st, a[0], lambda s, v: mk_seq(E, s, s.obj(v).d["t"], ATOMIC))

    @c("forArray([CII)" + A)
    def _(E, st, a):
        def ok(s, v):
            t = s.obj(v).d["t"]
            return jdk.range_check(E, s, And(le(0, a[1]), le(0, a[2]), le(add(a[1], a[2]), t.len())),
                                   lambda s2: mk_seq(E, s2, substr(t, a[1], add(a[1], a[2])), ATOMIC), "IndexOutOfBoundsException")
        return nn(E, st, a[0], ok)

    @c("lazy(Ljava/util/function/Consumer;I)" + A)
    def _(E, st, a):
        def ok(s, v):
            t = action_text(E, s, v)
            E.oblige(s, "length given to lazy() is that of the text", eq(t.len(), a[1]))
            return mk_seq(E, s, t, ATOMIC)
        return nn(E, st, a[0], ok)

    @c("concat(Lio/fastprintf/seq/Seq;Lio/fastprintf/seq/Seq;)Lio/fastprintf/seq/Seq;")
    def _(E, st, a):
        if a[0] is None or a[1] is None:
            return E.throw(st, "NullPointerException")
        return mk_seq(E, st, cat(view(E, st, a[0]), view(E, st, a[1])))

    @c("empty()" + A)
    def _(E, st, a):
        return mk_seq(E, st, EMPTY, ATOMIC)

    @c("join(Ljava/util/List;)Lio/fastprintf/seq/Seq;")
    def _(E, st, a):
        if a[0] is None:
            return E.throw(st, "NullPointerException")
        o = st.obj(a[0])
        if "elems" in o.d:
            if any(e is None for e in o.d["elems"]):
                return NotImplemented
            return mk_seq(E, st, cat(*[view(E, st, e) for e in o.d["elems"]]) if o.d["elems"] else EMPTY)
        if "cat" in o.d or "V" in o.d:
            return mk_seq(E, st, o.d.get("V") or o.d["cat"])
        return NotImplemented
    return C


MESSAGES = {P + "util/Utils.lenientFormat(Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/String;"}


def build(prog, newer_jdk=False):
    """Engine with the sequence contracts installed."""
    E = Engine(prog)
    E.newer_jdk = newer_jdk
    E.action_cache = {}
    E.discovering = False
    E.abs.update({"seq": h_seq, "iter": h_iter, "sink": h_sink, "segarr": h_segarr, "action": h_action,
                  "text-of": text_of, "make-seq": lambda E, st, V, cls: mk_seq(E, st, V, cls), "make-iter": mk_iter,
                  "seg-array": seg_array, "listify": jdk.listify, "havoc-ref": havoc_ref})
    specs(E)
    for k, fn in contract_table().items():
        key = SEQ + "." + k
        E.contracts[key] = fn
    for k in MESSAGES:
        # texts of exception messages are outside every property
        E.contracts[k] = lambda E, st, a: Str(jdk.unknown_text(st, "msg"))
    return E


# ---------------------------------------------------------------- running one root

class Root:
    """One method verified against its contract."""

    def __init__(self, E, name):
        self.E, self.name = E, name

    def run(self, m, st, args, post, modifies=(), special=False, throws=None):
        """Executes m from st and hands every outcome to post(out). Checks the frame."""
        E = self.E
        E.root, E.depth = m, 0
        E.roots.add(m.key)
        E.heap_base(st)
        heap0 = dict(st.heap)
        mods = {r.id for r in modifies}
        self.pre = st.fork()
        if check(st.pc) == "unsat":
            E.obs.append(Ob("%s: precondition can be met" % self.name, "refuted", weak=["vacuous"]))
            return []
        outs = E.call_method(st, m, args)
        nret = 0
        for o in outs:
            if check(o.st.pc) == "unsat":
                continue
            nret += 1
            post(o)
            for k, ob in heap0.items():
                if k not in mods and o.st.heap[k] is not ob:
                    a, b = ob, o.st.heap[k]
                    sp = E.class_specs.get(b.cls)
                    mut = sp.mutable if sp else ()
                    if a.d.get("abs") == "seq" and b.d.get("refines"):
                        continue
                    same = (a.cls == b.cls or "abs" in a.d) and all(n in mut or not differs(a.f.get(n), b.f.get(n)) for n in b.f if n in a.f)
                    same = same and all(not differs(a.d.get(n), b.d.get(n)) for n in ("text", "t", "elems", "bits", "n", "cat", "V"))
                    if not same and not a.d.get("lazyf"):
                        E.oblige(o.st, "%s: leaves %s unchanged" % (self.name, a.cls.split("/")[-1]), False)
        E.obs.append(Ob("%s: some outcome is reachable" % self.name, "proved" if nret else "unknown"))
        return outs


def differs(a, b):
    from .loops import differ
    return differ(a, b)


def find(prog, cls, name, desc=None):
    c = prog.classes.get(cls)
    if c is None:
        raise Unsupported("class %s is gone" % cls)
    ms = [m for (n, d), m in c.methods.items() if n == name and (desc is None or d == desc)]
    if len(ms) != 1:
        raise Unsupported("method %s.%s%s not found" % (cls, name, desc or ""))
    return ms[0]
