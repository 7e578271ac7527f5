"""Proof units of the sequence layer: every implementation against the contract of interface Seq."""
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Lam, Cls, Maybe, State, Ob
from .ints import ival
from .core import (P, SEQ, ATOMIC, ITERABLE, SB, Root, find, view, mk_seq, mk_sink, build, h_seq, contract_table, class_calls, seg_array,
                   arr_view, elem_count)

S_ = P + "seq/"
CLASSES = ("StrView", "CharArray", "Repeated", "EmptySeq", "LazySeq", "Concat", "SeqArray")
LSEQ = "L%s;" % SEQ
INDEX = ("java/lang/IndexOutOfBoundsException", "java/lang/IllegalArgumentException")


def sym(st, name, t):
    v = var(fresh_name(name), t)
    st.add(in_range(v, t))
    return v


def arg_seq(E, st, name="other"):
    return mk_seq(E, st, jdk.unknown_text(st, name))


def index_exc(E, st, exc):
    c = st.obj(exc).cls
    return any(E.prog.subclass(c, x) for x in INDEX)


def implementors(prog):
    return sorted(c.name for c in prog.classes.values() if not c.interface and prog.subclass(c.name, SEQ))


def fresh_this(E, st, cls):
    sp = E.class_specs.get(cls)
    if sp is None:
        raise Unsupported("no declared representation for %s" % cls)
    E.ensure_init(cls)
    E.heap_base(st)
    r = st.new(cls, E.blank(cls))
    sp.fresh(E, st, r)
    sp.get(st, r)
    st.mut(r).d["ok"] = True
    return r


def same(E, name, o, got, want):
    E.oblige_text(o.st, name, got, want)


def seq_cases(mod, st, cls, f, V, a):
    """Oracle case lines for a solver model: the sequence of this class it describes, and the arguments of the call."""
    def text(t, n):
        cs = [ival(mod, Z(t.at(k))) for k in range(n)]
        return "".join("\\u%04x" % (c or 0) for c in cs)
    n = ival(mod, V.len())
    if n is None or not 0 <= n <= 3000:
        return []
    base, starts = V, [0]
    for v in f.values():
        t = v.t if isinstance(v, Str) else st.obj(v).d.get("t") if isinstance(v, Ref) else None
        if t is not None:
            base = t
    cut = [ival(mod, x) for x in f.values() if isinstance(x, int) or is_z(x) and z3.is_int(x)]
    for v in f.values():
        if isinstance(v, Ref) and "V" in st.obj(v).d and cls != "SeqArray":
            cut.append(ival(mod, st.obj(v).d["V"].len()))
    nb = ival(mod, base.len())
    if nb is None or nb < n:
        base, nb = V, n
    starts += [x for x in cut if x is not None and 0 < x <= nb - n]
    ints = [str(x) for x in (ival(mod, x) for x in a if isinstance(x, int) or is_z(x) and z3.is_int(x)) if x is not None]
    out = []
    for s in dict.fromkeys(starts):
        size = min(nb, s + n + 8)
        if size > 4000:
            continue
        out.append("\t".join(["seqx", cls, "\"%s\"" % text(base, size), str(s), str(n), ",".join(str(x) for x in cut if x is not None and 0 <= x <= n) or "0", ",".join(ints) or "0"]))
    return out


def method_unit(cls, newer=False):
    """All methods of interface Seq as implemented (or inherited) by one class."""
    def run(prog):
        E = build(prog, newer_jdk=newer)
        if S_ + cls not in prog.classes:
            raise Unsupported("class %s is gone" % cls)
        c = S_ + cls
        short = cls
        atomic = prog.subclass(c, ATOMIC)
        E.obs.append(Ob("%s is either atomic or a composite" % short, "proved" if atomic != prog.subclass(c, ITERABLE) else "refuted"))

        this_count = [None]

        def root(name, desc, mk, post, mods=lambda this, a: [], limit=None):
            m = prog.resolve(c, name, desc)
            if m is None:
                raise Unsupported("%s has no %s%s" % (cls, name, desc))
            if m.abstract or m.code is None:
                raise Unsupported("%s.%s is abstract" % (cls, name))
            st = State()
            this = fresh_this(E, st, c)
            V = E.class_specs[c].view(E, st, this)
            a = mk(st)
            this_count[0] = lambda s: elem_count(E, s, this)
            if limit:
                limit(st, V, a)
            r = Root(E, "%s.%s" % (short, name))

            f0 = dict(st.obj(this).f)
            E.candidates = lambda mod: seq_cases(mod, st, cls, f0, V, a)

            def p(o):
                post(o, r.name, V, a)
                # the representation invariant still holds
                if E.class_specs[c].mutable:
                    for n, g in E.class_specs[c].inv(E, o.st, this):
                        E.oblige(o.st, "%s keeps the invariant: %s" % (r.name, n), g)
            r.run(m, st, [this] + a, p, modifies=mods(this, a))

        def no_throw(o, nm):
            if o.kind == "throw":
                E.oblige(o.st, "%s: throws nothing" % nm, False)
                return False
            return True

        def p_len(o, nm, V, a):
            if no_throw(o, nm):
                E.oblige(o.st, nm + ": value", eq(o.v, V.len()))
        root("length", "()I", lambda st: [], p_len)

        def p_empty(o, nm, V, a):
            if no_throw(o, nm):
                E.oblige(o.st, nm + ": value", eq(Z(o.v) != 0, eq(V.len(), 0)) if not isinstance(o.v, int) or is_z(V.len()) else (o.v != 0) == (V.len() == 0))
        root("isEmpty", "()Z", lambda st: [], p_empty)

        def p_char(o, nm, V, a):
            ok = And(le(0, a[0]), lt(a[0], V.len()))
            if o.kind == "throw":
                E.oblige(o.st, nm + ": throws an index exception, only out of range", And(index_exc(E, o.st, o.v), Not(ok)))
            else:
                E.oblige(o.st, nm + ": rejects an index out of range", ok)
                E.oblige(o.st, nm + ": value", Implies(ok, eq(o.v, V.at(a[0]))))
        root("charAt", "(I)C", lambda st: [sym(st, "index", "I")], p_char)

        def p_sub(o, nm, V, a):
            ok = And(le(0, a[0]), le(a[0], a[1]), le(a[1], V.len()))
            if o.kind == "throw":
                E.oblige(o.st, nm + ": throws an index exception, only out of range", And(index_exc(E, o.st, o.v), Not(ok)))
            elif o.v is None:
                E.oblige(o.st, nm + ": not null", False)
            else:
                E.oblige(o.st, nm + ": rejects a range outside the sequence", ok)
                if atomic:
                    E.oblige(o.st, nm + ": the part of an atomic sequence is atomic", is_atomic(E, o.st, o.v))
                same(E, nm + ": text", o, view(E, o.st, o.v), substr(V, a[0], a[1]))
        sub_desc = "(II)" + ("L%s;" % ATOMIC if atomic else LSEQ)
        root("subSequence", "(II)" + LSEQ if prog.resolve(c, "subSequence", sub_desc) is None else sub_desc,
             lambda st: [sym(st, "from", "I"), sym(st, "to", "I")], p_sub)

        def p_up(o, nm, V, a):
            if no_throw(o, nm):
                if o.v is None:
                    E.oblige(o.st, nm + ": not null", False)
                    return
                if atomic:
                    E.oblige(o.st, nm + ": upper case of an atomic sequence is atomic", is_atomic(E, o.st, o.v))
                same(E, nm + ": text", o, view(E, o.st, o.v), upper(V))
        up_desc = "()" + ("L%s;" % ATOMIC if atomic else LSEQ)
        root("upperCase", "()" + LSEQ if prog.resolve(c, "upperCase", up_desc) is None else up_desc, lambda st: [], p_up)

        def p_str(o, nm, V, a):
            if no_throw(o, nm):
                v = o.v
                if isinstance(v, Maybe):
                    E.oblige(o.st, nm + ": not null", Not(v.isnull))
                    v = v.v
                same(E, nm + ": text", o, v.t, V)
        root("toString", "()Ljava/lang/String;", lambda st: [], p_str)

        def p_index(o, nm, V, a):
            if no_throw(o, nm):
                ch_, v = a[0], o.v
                k = fresh_int("k")
                at = eq(V.at(v), ch_)
                E.oblige(o.st, nm + ": an index found is one of the character", Or(eq(v, -1), And(le(0, v), lt(v, V.len()), at)))
                E.oblige(o.st, nm + ": nothing before it", Implies(And(k >= 0, lt(k, V.len()), Or(eq(v, -1), lt(k, v))), Not(eq(V.at(k), ch_))))
        root("indexOf", "(C)I", lambda st: [sym(st, "ch", "C")], p_index)

        def p_starts(o, nm, V, a):
            if no_throw(o, nm):
                E.oblige(o.st, nm + ": value", (Z(o.v) != 0) == Z(And(lt(0, V.len()), eq(V.at(0), a[0]))))
        root("startsWith", "(C)Z", lambda st: [sym(st, "ch", "C")], p_starts)

        def p_count(o, nm, V, a):
            if no_throw(o, nm):
                E.oblige(o.st, nm + ": positive, one for a leaf", eq(o.v, 1) if atomic else le(1, o.v))
        root("elementCount", "()I", lambda st: [], p_count)

        def p_atom(o, nm, V, a):
            if no_throw(o, nm):
                E.oblige(o.st, nm + ": value", eq(o.v, 1 if atomic else 0))
        root("isAtomic", "()Z", lambda st: [], p_atom)

        def p_dup(o, nm, V, a):
            if no_throw(o, nm):
                same(E, nm + ": text", o, view(E, o.st, o.v), V)
        root("dup", "()" + LSEQ, lambda st: [], p_dup)

        def p_join(front):
            def p(o, nm, V, a):
                if no_throw(o, nm):
                    W = o.st.obj(a[0]).d["V"] if "V" in o.st.obj(a[0]).d else view(E, o.st, a[0])
                    same(E, nm + ": text", o, view(E, o.st, o.v), cat(W, V) if front else cat(V, W))
            return p

        def fits(st, V, a):
            st.add(le(add(V.len(), st.obj(a[0]).d["V"].len()), MAXI), le(add(this_count[0](st), elem_count(E, st, a[0])), MAXI))
        for nm, front in (("prepend", True), ("append", False)):
            root(nm, "(%s)%s" % (LSEQ, LSEQ), lambda st: [arg_seq(E, st)], p_join(front), limit=fits)

        pre = {}

        def mk_sb(st):
            t = jdk.unknown_text(st, "before")
            pre["t"] = t
            return [st.new(SB, {}, {"model": "sb", "text": t})]

        def room(st, V, a):
            st.add(le(add(V.len(), pre["t"].len()), MAXI))

        def p_sb(o, nm, V, a):
            if no_throw(o, nm):
                same(E, nm + ": appends the text", o, o.st.obj(a[0]).d["text"], cat(pre["t"], V))
        root("appendTo", "(Ljava/lang/StringBuilder;)V", mk_sb, p_sb, mods=lambda this, a: [a[0]], limit=room)

        def mk_ap(st):
            t = jdk.unknown_text(st, "before")
            pre["t"] = t
            return [mk_sink(E, st, t)]

        def p_ap(o, nm, V, a):
            if o.kind == "throw":
                E.oblige(o.st, nm + ": only passes on what the sink throws", bool(o.st.ghost.get("sink-failed")) and o.st.obj(o.v).cls == "java/io/IOException")
                return
            E.oblige(o.st, nm + ": does not swallow a failure of the sink", not o.st.ghost.get("sink-failed"))
            same(E, nm + ": appends the text", o, o.st.obj(a[0]).d["text"], cat(pre["t"], V))
        root("appendTo", "(Ljava/lang/Appendable;)V", mk_ap, p_ap, mods=lambda this, a: [a[0]], limit=room)

        if not atomic:
            def mk_dq(st):
                t = jdk.unknown_text(st, "stacked")
                n = var(fresh_name("depth"), (0, MAXI))
                st.add(n >= 0, n <= MAXI // 2, Implies(n == 0, t.len() == 0))
                pre["t"], pre["n"] = t, n
                return [st.new("java/util/ArrayDeque", {}, {"model": "list", "n": n, "cat": t, "seg": "list"})]

            def p_unf(o, nm, V, a):
                if no_throw(o, nm):
                    d = o.st.obj(a[0]).d
                    W = view(E, o.st, o.v)
                    same(E, nm + ": result and stack together", o, cat(W, d["cat"]), cat(V, pre["t"]))
                    E.oblige(o.st, nm + ": only pushes", le(pre["n"], d["n"]))
                    E.oblige(o.st, nm + ": the result is the whole only if nothing is pushed", Implies(eq(d["n"], pre["n"]), eq(W.len(), V.len())))
            root("unfold", "(Ljava/util/Deque;)" + LSEQ, mk_dq, p_unf, mods=lambda this, a: [a[0]])

            def p_it(o, nm, V, a):
                if no_throw(o, nm):
                    more, rest = iter_view(E, o.st, o.v)
                    E.oblige(o.st, nm + ": starts with an element", more)
                    same(E, nm + ": all of the sequence is ahead", o, rest, V)
            root("iterator", "()Ljava/util/Iterator;", lambda st: [], p_it)
            iter_methods(E, prog, c, short)
        return E
    return run


def is_atomic(E, st, v):
    o = st.obj(v)
    return bool(E.prog.subclass(o.cls, ATOMIC) or o.d.get("types", {}).get(ATOMIC))


def iter_view(E, st, it):
    """(has more, text ahead) of an iterator object of the program."""
    o = st.obj(it)
    refs = {k: v for k, v in o.f.items() if isinstance(v, Ref)}
    dq = [v for v in refs.values() if "deque" in st.obj(v).cls.lower() or st.obj(v).cls == "java/util/ArrayDeque"]
    if len(dq) == 1:
        d = st.obj(dq[0]).d
        if "elems" in d:
            return len(d["elems"]) > 0, cat(*[view(E, st, e) for e in d["elems"]]) if d["elems"] else EMPTY
        return lt(0, d["n"]), d["cat"]
    ar = [v for v in refs.values() if st.obj(v).cls.startswith("[")]
    ix = [v for k, v in o.f.items() if isinstance(v, int) or is_z(v)]
    if len(ar) == 1 and len(ix) == 1:
        d = st.obj(ar[0]).d
        i = ix[0]
        if "off" in d:
            return lt(i, d["n"]), substr(d["V"], d["off"](Z(i)), d["V"].len())
    raise Unsupported("iterator class %s" % o.cls)


def iter_methods(E, prog, cls, short):
    """hasNext and next of the iterator that iterator() makes, from any state it can be in."""
    m = prog.resolve(cls, "iterator", "()Ljava/util/Iterator;")
    for name in ("hasNext", "next"):
        st = State()
        this = fresh_this(E, st, cls)
        V = E.class_specs[cls].view(E, st, this)
        E.root, E.depth = m, 0
        for o in E.call_method(st, m, [this]):
            if o.kind != "ret":
                continue
            st2, it = o.st, o.v
            # any reachable state: some rest of the sequence is ahead
            io = st2.obj(it)
            for k, v in list(io.f.items()):
                if isinstance(v, Ref) and st2.obj(v).cls == "java/util/ArrayDeque":
                    t = jdk.unknown_text(st2, "ahead")
                    n = var(fresh_name("depth"), (0, MAXI))
                    st2.add(n >= 0, n <= MAXI // 2, Implies(n == 0, t.len() == 0))
                    dd = st2.mut(v)
                    dd.d.pop("elems", None)
                    dd.d.update({"n": n, "cat": t, "seg": "list"})
                elif isinstance(v, int) or is_z(v):
                    i = sym(st2, "i", "I")
                    ar = [x for x in io.f.values() if isinstance(x, Ref) and "off" in st2.obj(x).d]
                    if len(ar) != 1:
                        raise Unsupported("iterator class %s" % io.cls)
                    st2.add(i >= 0, le(i, st2.obj(ar[0]).d["n"]))
                    st2.mut(it).f[k] = i
            more, rest = iter_view(E, st2, it)
            st2.add(le(rest.len(), MAXI))
            mm = prog.resolve(io.cls, name, "()Z" if name == "hasNext" else "()Ljava/lang/Object;")
            if name == "next":
                cand = [x for (nn, dd), x in prog.classes[io.cls].methods.items() if nn == "next" and "bridge" not in str(dd)]
                mm = [x for x in cand if x.ret != "Ljava/lang/Object;"][0] if len(cand) > 1 else mm
            r = Root(E, "%s iterator.%s" % (short, name))

            def post(q, more=more, rest=rest, name=name, r=r, it=it):
                if q.kind == "throw":
                    E.oblige(q.st, r.name + ": throws only at the end", And(name == "next", Not(more), E.prog.subclass(q.st.obj(q.v).cls, "java/util/NoSuchElementException")))
                    return
                if name == "hasNext":
                    E.oblige(q.st, r.name + ": value", (Z(q.v) != 0) == Z(more))
                    return
                E.oblige(q.st, r.name + ": not past the end", more)
                E.oblige(q.st, r.name + ": gives a leaf", is_atomic(E, q.st, q.v))
                more2, rest2 = iter_view(E, q.st, it)
                same(E, r.name + ": element and what is ahead", q, cat(view(E, q.st, q.v), rest2), rest)
                E.oblige(q.st, r.name + ": ends only when nothing is ahead", Or(more2, eq(rest2.len(), 0)))
            mods = [it] + [v for v in st2.obj(it).f.values() if isinstance(v, Ref) and st2.obj(v).cls == "java/util/ArrayDeque"]
            r.run(mm, st2, [it], post, modifies=mods)


def atomic_method_unit(prog):
    pass


# ---------------------------------------------------------------- factories

def factory_unit(prog):
    E = build(prog)
    E.candidates = lambda mod: []
    table = contract_table()
    sq = prog.classes.get(SEQ)

    def args_for(st, key):
        d = key[key.index("("):]
        out = []
        for t in E.desc(d)[0]:
            if t in ("I", "C"):
                out.append(sym(st, "a", t))
            elif t == "Ljava/lang/String;":
                out.append(Str(jdk.unknown_text(st, "s")))
            elif t == "[C":
                n0 = var(fresh_name("alen"), (0, MAXI))
                st.add(n0 >= 0, n0 <= MAXI)
                out.append(st.new("[C", {}, {"t": Opq(fresh_name("chars"), n0)}))
            elif t == LSEQ:
                out.append(arg_seq(E, st))
            elif t == "Ljava/util/function/Consumer;":
                T = jdk.unknown_text(st, "lazy")
                out.append(st.new("java/util/function/Consumer", {}, {"abs": "action", "T": T}))
            elif t == "Ljava/util/List;":
                n = var(fresh_name("n"), (0, MAXI))
                V = jdk.unknown_text(st, "joined")
                st.add(n >= 0, n <= MAXI, Implies(n == 0, V.len() == 0))
                off = z3.Function(fresh_name("off"), z3.IntSort(), z3.IntSort())
                from .core import seg_facts
                seg_facts(st, off, n, V)
                out.append(st.new("java/util/ArrayList", {}, {"model": "list", "n": n, "V": V, "off": off, "seg": "list", "elemcls": ATOMIC}))
            else:
                raise Unsupported("argument %s" % t)
        return out

    for key, fn in table.items():
        name, desc = key[:key.index("(")], key[key.index("("):]
        m = sq.methods.get((name, desc)) if sq else None
        if m is None:
            raise Unsupported("Seq.%s is gone" % key)
        st = State()
        a = args_for(st, key)
        lim = True
        if name == "forArray" and len(a) == 3:
            st.add(le(add(a[1], a[2]), MAXI))  # start + length within int
        if name == "concat":
            st.add(le(add(st.obj(a[0]).d["V"].len(), st.obj(a[1]).d["V"].len()), MAXI), le(add(elem_count(E, st, a[0]), elem_count(E, st, a[1])), MAXI))
        if name == "lazy":
            # precondition of lazy: the given length is that of the text
            st.add(eq(st.obj(a[0]).d["T"].len(), a[1]))
        r = Root(E, "Seq." + name + desc[:desc.index(")") + 1].replace("java/lang/", "").replace("java/util/", ""))
        pre = st.fork()

        def post(o, fn=fn, r=r, pre=pre, a=a):
            s = pre.fork()
            s.pc = list(o.st.pc)
            for k, x in o.st.heap.items():
                s.heap.setdefault(k, x)
            for c in E.norm(s, fn(E, s, a)):
                if check(c.st.pc) == "unsat":
                    continue
                if c.kind != o.kind:
                    E.oblige(c.st, "%s: %s where the contract %s" % (r.name, "throws" if o.kind == "throw" else "returns", "returns" if c.kind == "ret" else "throws"), False)
                elif c.kind == "throw":
                    got, want = o.st.obj(o.v).cls, c.st.obj(c.v).cls
                    E.obs.append(Ob("%s: exception class" % r.name, "proved" if got == want or {got, want} <= set(INDEX) | {"java/lang/StringIndexOutOfBoundsException"} else "refuted"))
                else:
                    for k, x in c.st.heap.items():
                        o.st.heap.setdefault(k, x)
                    o2 = o.st.fork()
                    o2.pc = list(c.st.pc)
                    if o.v is None:
                        E.oblige(o2, "%s: not null" % r.name, False)
                        continue
                    if desc.endswith("L%s;" % ATOMIC):
                        E.oblige(o2, "%s: atomic" % r.name, is_atomic(E, o2, o.v))
                    E.oblige_text(o2, "%s: text" % r.name, view(E, o2, o.v), c.st.obj(c.v).d["V"])
        r.run(m, st, a, post)
    # every implementation is known
    known = {S_ + c for c in CLASSES}
    extra = [c for c in implementors(prog) if c not in known]
    if extra:
        raise Unsupported("sequence classes without a contract: %s" % ", ".join(extra))
    E.obs.append(Ob("every class implementing Seq is under contract", "proved"))
    return E


UNITS = {"Seq factories": factory_unit}
for _c in CLASSES:
    UNITS["Seq %s" % _c] = method_unit(_c)
UNITS["Seq Repeated (JDK 21)"] = method_unit("Repeated", newer=True)
