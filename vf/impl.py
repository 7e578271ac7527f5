"""The formatter object: FastPrintfImpl over abstract directives, for any sink, capacity, cache state and earlier calls."""
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Lam, Cls, Dbl, Maybe, State, Ob
from .core import P, SEQ, SB, Root, find, view, mk_seq, mk_sink, seg_array
from . import ints, dispatch

IMPL = P + "FastPrintfImpl"
ARGS = P + "Args"
COMPILER = P + "Compiler"
APPENDER = P + "appender/Appender"


def mk_appenders(E, st, cls="[L%s;" % APPENDER):
    """The compiled directives: piece i of the output text V is what directive i prints for these arguments."""
    n = var("ndirectives", (0, MAXI))
    V = jdk.unknown_text(st, "output")
    arr = seg_array(E, st, cls, n, V)
    o = st.mut(arr)
    off = o.d["off"]
    st.add(n <= 2**30)

    def make(E, st, i):
        a, b = off(Z(simp(i))), off(Z(simp(add(i, 1))))
        st.add(a >= 0, a <= b, le(b, V.len()))
        return st.new(APPENDER, {}, {"abs": "appender", "i": i, "piece": substr(V, a, b)})
    o.d["make"] = make
    return arr, n, V


def h_appender(E, st, ref, name, desc, args):
    """Contract of Appender.append: emits its piece, given the arguments that the directives before it left over; or fails."""
    if name != "append":
        return NotImplemented
    o = st.obj(ref)
    col, it = args
    if not isinstance(it, Ref) or st.obj(it).d.get("abs") != "argiter":
        raise Unsupported("directives run on an iterator that is not the arguments' own")
    pos = st.obj(it).d["pos"]
    E.oblige(st, "directives run in order, all on one argument iterator", eq(pos, o.d["i"]))
    # rendering an argument may call this formatter again on the same thread
    for rid, x in list(st.heap.items()):
        if x.d.get("model") == "tl" and isinstance(x.d["cur"].v, Ref) and not st.obj(x.d["cur"].v).d.get("volatile"):
            for s2, isn in E.split(st.fork(), x.d["cur"].isnull):
                if not isn:
                    st.mut(x.d["cur"].v).d["text"] = jdk.unknown_text(st, "nested")
                    break
    s2 = st.fork()
    s2.ghost["appender-failed"] = True
    out = [E.throw(s2, P + "PrintfException")]
    st.mut(it).d["pos"] = add(pos, 1)
    return E.call_key(st, "java/util/function/Consumer", "accept", "(Ljava/lang/Object;)V", [col, mk_seq(E, st, o.d["piece"])]) + out


def h_args(E, st, ref, name, desc, args):
    if name == "iterator":
        return st.new("java/util/Iterator", {}, {"abs": "argiter", "pos": 0})
    return NotImplemented


def engine(prog):
    E = dispatch.engine(prog)
    E.abs.update({"appender": h_appender, "args": h_args, "argiter": lambda *a: NotImplemented})
    E.contracts[COMPILER + ".<init>(Ljava/lang/String;)V"] = lambda E, st, a: None
    E.contracts[COMPILER + ".compile()V"] = lambda E, st, a: None
    E.contracts[COMPILER + ".getAppenders()Ljava/util/List;"] = lambda E, st, a: E.compiled
    return E


class Setup:
    """A formatter made through the public factory, and an argument container.

    When making it takes several paths, `path` says which one is taken at each call; `more` counts the others.
    """

    def __init__(self, prog, how, path=()):
        self.path, self.more = list(path), []
        E = self.E = engine(prog)
        st = self.st = State()
        E.ensure_init(IMPL)
        E.heap_base(st)
        lst, self.n, self.V = mk_appenders(E, st, "java/util/List")
        st.mut(lst).d["seg"] = "list"
        E.compiled = lst
        self.cap = var("capacity", "I")
        st.add(in_range(self.cap, "I"), self.cap > 0)
        fmt = Str(jdk.unknown_text(st, "format"))
        st.add(fmt.t.len() < 2**30)
        v = self.one(st, find(prog, IMPL, "compile", "(Ljava/lang/String;)L%s;" % IMPL), [fmt])
        for step in how:
            if step == "cache":
                v = self.one(st, find(prog, IMPL, "enableThreadLocalCache", "()L%s;" % IMPL), [v])
            else:
                v = self.one(st, find(prog, IMPL, "setStringBuilderInitialCapacity", "(I)L%s;" % IMPL), [v, self.cap])
        self.ref = v
        # whatever calls on this thread did before
        self.bufs = []
        for rid, o in list(st.heap.items()):
            if o.d.get("model") == "tl":
                r = Ref.__new__(Ref)
                r.id = rid
                m = jdk.leftover(E, st)
                st.mut(r).d["cur"] = m
                self.bufs += [r, m.v]
        self.args = st.new(ARGS, {}, {"abs": "args"})
        st.ghost = {}

    def one(self, st, m, args):
        E = self.E
        d0, E.depth = E.depth, 1
        try:
            outs = [o for o in E.call_method(st, m, args) if check(o.st.pc) != "unsat"]
        finally:
            E.depth = d0
        rets = [o for o in outs if o.kind == "ret"]
        if len(rets) > 1 and all(isinstance(o.v, Ref) for o in rets):
            # the receiver itself when nothing changes, or a new object: take the general case
            rets = [o for o in rets if not any(isinstance(a, Ref) and a.id == o.v.id for a in args)] or rets
        if not rets or len([o for o in outs if o.kind != "ret"]):
            raise Unsupported("%s may fail" % m.key)
        k = self.path[len(self.more)] if len(self.more) < len(self.path) else 0
        self.more.append(len(rets))
        s = rets[k].st
        st.heap, st.pc, st.ghost = s.heap, s.pc, s.ghost
        return rets[k].v


def setups(prog, how):
    """A Setup for every path."""
    out, todo = [], [()]
    while todo:
        path = todo.pop()
        S = Setup(prog, how, path)
        out.append(S)
        if len(out) > 8:
            raise Unsupported("too many ways to make a formatter")
        for i in range(len(path), len(S.more)):
            todo += [path + (0,) * (i - len(path)) + (k,) for k in range(1, S.more[i])]
    return out


WAYS = {"plain": (), "capacity": ("cap",), "cache": ("cache",), "capacity+cache": ("cap", "cache"), "cache+capacity": ("cache", "cap")}


def format_unit(way):
    """FastPrintfImpl.format(Args) and format(Appendable, Args) for one way of configuring the formatter."""
    def run(prog):
        return [one(prog, S) for S in setups(prog, WAYS[way])]

    def one(prog, S):
        E = S.E
        E.candidates = lambda mod: []
        m = find(prog, IMPL, "format", "(L%s;)Ljava/lang/String;" % ARGS)
        r = Root(E, "format to String (%s)" % way)

        def post(o):
            if o.kind == "throw":
                E.oblige(o.st, r.name + ": fails only when a directive fails", o.st.ghost.get("appender-failed") is True and ints.printf_exc(E, o.st, o.v))
                return
            E.oblige(o.st, r.name + ": a failing directive is not swallowed", not o.st.ghost.get("appender-failed"))
            E.oblige_text(o.st, r.name + ": text", o.v.t, S.V)
        r.run(m, S.st.fork(), [S.ref, S.args], post, modifies=S.bufs)

        m2 = find(prog, IMPL, "format", "(Ljava/lang/Appendable;L%s;)Ljava/lang/Appendable;" % ARGS)
        for kind in ("StringBuilder", "Appendable"):
            st = S.st.fork()
            t0 = jdk.unknown_text(st, "before")
            sink = st.new(SB, {}, {"model": "sb", "text": t0}) if kind == "StringBuilder" else mk_sink(E, st, t0)
            r2 = Root(E, "format to %s (%s)" % (kind, way))

            def post2(o):
                gh = o.st.ghost
                if o.kind == "throw":
                    c = o.st.obj(o.v).cls
                    E.oblige(o.st, r2.name + ": fails only when a directive or the sink fails",
                             (gh.get("appender-failed") is True and ints.printf_exc(E, o.st, o.v)) or
                             (gh.get("sink-failed") is True and E.prog.subclass(c, "java/lang/RuntimeException")))
                    return
                E.oblige(o.st, r2.name + ": no failure is swallowed", not gh.get("appender-failed") and not gh.get("sink-failed"))
                E.oblige(o.st, r2.name + ": returns the sink", isinstance(o.v, Ref) and o.v.id == sink.id)
                E.oblige_text(o.st, r2.name + ": text", o.st.obj(sink).d["text"], cat(t0, S.V))
            r2.run(m2, st, [S.ref, sink, S.args], post2, modifies=S.bufs + [sink])
        return E
    run.functions = [IMPL + ".format"]
    return run


def config_unit(prog):
    """enableThreadLocalCache and setStringBuilderInitialCapacity leave the receiver alone."""
    for way, S in [(way, S) for way, how in WAYS.items() for S in setups(prog, how)]:
        E = S.E
        E.candidates = lambda mod: []
        c2 = var("capacity2", "I")
        S.st.add(in_range(c2, "I"))
        for name, desc, args in (("enableThreadLocalCache", "()L%s;" % IMPL, []), ("setStringBuilderInitialCapacity", "(I)L%s;" % IMPL, [c2])):
            r = Root(E, "%s (%s)" % (name, way))

            def post(o, r=r, name=name):
                if o.kind == "throw":
                    E.oblige(o.st, r.name + ": rejects only capacities that are not positive",
                             And(le(c2, 0), E.prog.subclass(o.st.obj(o.v).cls, "java/lang/IllegalArgumentException")) if args else False)
                    return
                E.oblige(o.st, r.name + ": returns a formatter", isinstance(o.v, Ref) and o.st.obj(o.v).cls == IMPL)
            r.run(find(prog, IMPL, name, desc), S.st.fork(), [S.ref] + args, post)
    return E


config_unit.functions = [IMPL + ".enableThreadLocalCache", IMPL + ".setStringBuilderInitialCapacity"]


def context_unit(prog):
    """FormatContext: values as given, copies of the flag set in both directions, every setter leaves the receiver alone."""
    E = engine(prog)
    E.candidates = lambda mod: []
    C = ints.CTX
    ES = "Ljava/util/EnumSet;"

    def read(st, ref):
        return dispatch.ctx_read(E, st, ref)

    def same(st, name, ref, cx, flag=None, w=None, p=None):
        fl, gw, gp, d = read(st, ref)
        E.oblige(st, name + ": width", eq(gw, cx.w if w is None else w))
        E.oblige(st, name + ": precision", eq(gp, cx.p if p is None else p))
        E.oblige(st, name + ": date pattern", isinstance(d, Ref) and d.id == cx.dtf.id)
        for f in ints.FLAGS:
            E.oblige(st, name + ": flag " + f, (Z(fl[f]) != 0) == Z(Or(cx.flag[f], f == flag)))

    def fresh():
        st = State()
        dtf = st.new("java/time/format/DateTimeFormatter", {}, {"abs": "dtf"})
        return st, ints.Ctx(E, st, dyn=True, dtf=dtf)

    def scramble(st, r):
        b = st.mut(r)
        b.d["bits"] = {i: fresh_bool("other") for i in b.d["bits"]} | {E.static_fields[(ints.FLAG, f)].id: fresh_bool("other") for f in ints.FLAGS}

    # the set given to create stays the caller's
    st, cx = fresh()
    E.ensure_init(ints.FLAG)
    s2 = st.fork()
    scramble(s2, cx.given)
    same(s2, "FormatContext.create: the given set is copied", cx.ref, cx)
    same(st, "FormatContext.create", cx.ref, cx)

    # the set handed out is the caller's
    st, cx = fresh()
    r = Root(E, "FormatContext.getFlags")

    def post(o):
        if o.kind == "throw":
            return E.oblige(o.st, r.name + ": throws nothing", False)
        bits = o.st.obj(o.v).d["bits"]
        for f in ints.FLAGS:
            E.oblige(o.st, r.name + ": contains the flags " + f, Z(bits.get(E.static_fields[(ints.FLAG, f)].id, False)) == Z(cx.flag[f]))
        s2 = o.st.fork()
        scramble(s2, o.v)
        same(s2, r.name + ": a copy", cx.ref, cx)
    r.run(find(prog, C, "getFlags", "()" + ES), st, [cx.ref], post)

    for name, desc in (("setWidth", "(I)L%s;" % C), ("setPrecision", "(I)L%s;" % C)):
        st, cx = fresh()
        v = var("newvalue", "I")
        st.add(in_range(v, "I"))
        r2 = Root(E, "FormatContext." + name)

        def post2(o):
            ok = Or(And(le(-1, v), le(v, ints.MAXW)), eq(v, MINI))
            if o.kind == "throw":
                E.oblige(o.st, r2.name + ": rejects only numbers out of range", And(Not(ok), ints.printf_exc(E, o.st, o.v)))
                return
            E.oblige(o.st, r2.name + ": rejects numbers out of range", ok)
            same(o.st, r2.name + ": result", o.v, cx, w=v if name == "setWidth" else None, p=v if name == "setPrecision" else None)
            same(o.st, r2.name + ": receiver", cx.ref, cx)
        r2.run(find(prog, C, name, desc), st, [cx.ref, v], post2)
    for f in ints.FLAGS:
        st, cx = fresh()
        r3 = Root(E, "FormatContext.addFlag " + f)

        def post3(o):
            if o.kind == "throw":
                return E.oblige(o.st, r3.name + ": throws nothing", False)
            same(o.st, r3.name + ": result", o.v, cx, flag=f)
            same(o.st, r3.name + ": receiver", cx.ref, cx)
        r3.run(find(prog, C, "addFlag", "(L%s;)L%s;" % (ints.FLAG, C)), st, [cx.ref, E.static_fields[(ints.FLAG, f)]], post3)
    return E


context_unit.functions = [ints.CTX + "." + n for n in ("create", "getFlags", "setWidth", "setPrecision", "addFlag", "hasFlag")]

UNITS = {"FastPrintfImpl.format (%s)" % w: format_unit(w) for w in WAYS}
UNITS["FastPrintfImpl configuration"] = config_unit
UNITS["FormatContext"] = context_unit
