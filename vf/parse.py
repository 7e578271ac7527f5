"""The format language: Compiler against the grammar, for format strings of any length.

The list of compiled items is kept as the position in the format string up to which it stands for the string;
adding an item is an obligation that this item is what the grammar has at that position.
"""
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Out, Ref, Str, Lam, Cls, Dbl, Maybe, State, Ob
from .core import P, Root, find
from . import ints, dispatch, impl
from .ints import CTX, FLAG, FLAGS, MAXW
from .dispatch import SPEC, DA, FA, construct, ctx_read

COMPILER = P + "Compiler"
CHARS = dict(zip(FLAGS, (45, 35, 43, 32, 48)))
DTF = "java/time/format/DateTimeFormatter"
SPECS = sorted(ord(c) for c in dispatch.LETTERS)


def one_of(c, cs):
    return Or(*[eq(c, x) for x in cs])


def is_flag(c):
    return one_of(c, CHARS.values())


def is_digit(c):
    return And(le(48, c), le(c, 57))


class Source:
    """An unknown format string and what the grammar says about its parts."""

    def __init__(self, st):
        self.n = var("length", (0, MAXI))
        st.add(self.n >= 0, self.n <= 2**30)
        self.t = Opq("format", self.n)
        self.runs = {}
        I, B = z3.IntSort(), z3.BoolSort()
        self.seen = {f: z3.Function("seen_" + f, I, I, B) for f in FLAGS}
        self.dup, self.par = z3.Function("repeated", I, I, B), z3.Function("quoted", I, I, B)
        self.dec, self.bad = z3.Function("number", I, I, I), z3.Function("badpattern", I, I, B)
        src = self.t.f
        for nm in ["repeated", "quoted", "number"] + ["seen_" + f for f in FLAGS]:
            smt.AXIOMS[nm], smt.PAIRS[nm] = [], []
        smt.axiom(self.dec, lambda a, b: [self.dec(a, b) >= 0])

        def scan(fn, step):
            smt.axiom(fn, lambda s, i: [z3.Implies(i <= s, z3.Not(fn(s, i)))])

            def pair(x, y):
                out = []
                for (s, i), (s2, j) in ((x, y), (y, x)):
                    d = simp(j - i)
                    if not is_z(d) and d == 1:
                        out.append(z3.Implies(z3.And(s == s2, i >= s), fn(s, j) == step(s, i, fn(s, i))))
                    if not is_z(d) and d == 2:
                        out.append(z3.Implies(z3.And(s == s2, i >= s), fn(s, j) == step(s, i + 1, step(s, i, fn(s, i)))))
                return out
            smt.pair_axiom(fn, pair)
        for f in FLAGS:
            scan(self.seen[f], lambda s, i, v, f=f: z3.Or(v, src(i) == CHARS[f]))
        scan(self.dup, lambda s, i, v: z3.Or(v, *[z3.And(src(i) == CHARS[f], self.seen[f](s, i)) for f in FLAGS]))
        scan(self.par, lambda s, i, v: z3.Xor(v, src(i) == 39))

    def at(self, i):
        return self.t.at(i)

    def run_end(self, st, i, pred, p):
        """End of the longest run of characters with pred from i on."""
        d = z3.Function("end_" + p, z3.IntSort(), z3.IntSort())(Z(i))
        key = (p, Z(i).get_id())
        if key not in self.runs:
            trig = [(self.t.name, Z(0))]
            self.runs[key] = Z(i), [smt.Q(i, d, lambda k: pred(self.at(k), k), trig)] + \
                [le(i, d), le(d, self.n), Implies(lt(d, self.n), Not(pred(self.at(d), d)))]
        fs = self.runs[key][1]
        if not any(f is fs[0] for f in st.pc):
            st.add(fs)
        return d

    # each stage of the grammar at position i: [(state, None | (end, value))], None when malformed
    def flags(self, E, st, i):
        d = self.run_end(st, i, lambda c, k: is_flag(c), "flags")
        if not isinstance(i, int) and str(i) == "cursor":  # lemma: a flag repeated in a prefix is repeated in the whole run
            st.add(smt.Q(i, d, lambda k: Implies(self.dup(Z(i), Z(add(k, 1))), self.dup(Z(i), Z(d))), [(self.t.name, Z(0))]))
        return [(s, None if dup else (d, {f: self.seen[f](Z(i), Z(d)) for f in FLAGS})) for s, dup in E.split(st, self.dup(Z(i), Z(d)))]

    def width(self, E, st, i):
        out = []
        for s, end in E.split(st, le(self.n, i)):
            out += [(s, None)] if end else self.number(E, s, i, -1)
        return out

    def precision(self, E, st, i):
        out = []
        for s, dot in E.split(st, And(lt(i, self.n), eq(self.at(i), 46))):
            if not dot:
                out.append((s, (i, -1)))
                continue
            for s2, end in E.split(s, le(self.n, add(i, 1))):
                out += [(s2, None)] if end else self.number(E, s2, add(i, 1), 0)
        return out

    def specifier(self, E, st, i):
        return [(s, (add(i, 1), self.at(i)) if ok else None) for s, ok in E.split(st, And(lt(i, self.n), one_of(self.at(i), SPECS)))]

    def dateTimeFormatter(self, E, st, i):
        out = []
        for s, br in E.split(st, And(lt(i, self.n), eq(self.at(i), 123))):
            if not br:
                out.append((s, (i, None)))
                continue
            ps = add(i, 1)
            pe = self.run_end(s, ps, lambda c, k: Not(And(eq(c, 125), Not(self.par(Z(ps), Z(k))))), "close")
            for s2, no in E.split(s, Or(le(self.n, pe), eq(pe, ps), self.bad(Z(ps), Z(pe)))):
                out.append((s2, None if no else (add(pe, 1), (ps, pe))))
        return out

    def directive(self, E, st, a):
        """Outcomes of the grammar for a directive at a: (state, None) when malformed, or (state, dict)."""
        out, todo = [], [(st, add(a, 1), {}, ("flags", "width", "precision", "specifier"))]
        while todo:
            s, i, it, stages = todo.pop()
            if not stages:
                out.append((s, {**it, "end": i}))
                continue
            for s2, r in getattr(self, stages[0])(E, s, i):
                if r is None:
                    out.append((s2, None))
                elif stages[0] == "specifier":
                    for s3, date in E.split(s2, one_of(r[1], (84, 116))):
                        todo.append((s3, r[0], {**it, "specifier": r[1], "dateTimeFormatter": None}, ("dateTimeFormatter",) if date else ()))
                else:
                    todo.append((s2, r[0], {**it, stages[0]: r[1]}, stages[1:]))
        return out

    def number(self, E, st, i, empty=-1):
        """A number, a star or nothing at i."""
        out = []
        for s1, star in E.split(st, And(lt(i, self.n), eq(self.at(i), 42))):
            if star:
                out.append((s1, (add(i, 1), MINI)))
                continue
            w = self.run_end(s1, i, lambda c, k: is_digit(c), "digits")
            for s2, none in E.split(s1, eq(w, i)):
                if none:
                    out.append((s2, (i, empty)))
                    continue
                for s3, fits in E.split(s2, le(self.dec(Z(i), Z(w)), MAXI)):
                    out.append((s3, (w, self.dec(Z(i), Z(w))) if fits else None))
        return out


def same_value(E, st, nm, kind, v, want):
    """Obliges that what the code has for a stage is what the grammar has."""
    if kind == "flags":
        bits = st.obj(v).d["bits"] if isinstance(v, Ref) else None
        if bits is None:
            raise Unsupported("flags are not kept in an EnumSet")
        for f in FLAGS:
            E.oblige(st, nm + "flag " + f, Z(bits.get(E.static_fields[(FLAG, f)].id, False)) == want[f])
    elif kind in ("width", "precision"):
        E.oblige(st, nm + kind, eq(v, want))
    elif kind == "specifier":
        c = st.obj(v).d.get("char") if isinstance(v, Ref) else None
        E.oblige(st, nm + "specifier", c is not None and eq(c, want))
    elif want is None:
        E.oblige(st, nm + "no pattern is used where none is written", v is None)
    else:
        pat = st.obj(v).d.get("pat") if isinstance(v, Ref) else None
        E.oblige(st, nm + "the written pattern is used", pat is not None)
        if pat is not None:
            E.oblige(st, nm + "the pattern is the text between the braces", And(eq(pat[0], want[0]), eq(pat[1], want[1])))


def make_value(E, st, kind, v):
    if kind == "flags":
        return st.new("java/util/EnumSet", {}, {"bits": {E.static_fields[(FLAG, f)].id: v[f] for f in FLAGS}, "enum": FLAG})
    if kind == "specifier":
        return None
    if kind == "dateTimeFormatter":
        return None if v is None else st.new(DTF, {}, {"abs": "dtf", "pat": v})
    return v


HELPERS = {"flags": "()Ljava/util/EnumSet;", "width": "()I", "precision": "()I", "dateTimeFormatter": "()L%s;" % DTF}


def error_index(E, st, exc, nm, n):
    x = st.obj(exc)
    if "index" in x.d:
        return
    m = E.prog.resolve(x.cls, "getIndex", "()I")
    if m is None:
        raise Unsupported("no getIndex")
    d0, E.depth = E.depth, 1
    try:
        for o in E.call_method(st.fork(), m, [exc]):
            E.oblige(o.st, nm + "the error index lies in the string", o.kind == "ret" and And(le(0, o.v), le(o.v, n)))
    finally:
        E.depth = d0


def helper_contracts(E, prog, st, src, comp, cursor):
    """Private scanning methods that provably implement a stage of the grammar are then used through that contract."""
    for kind, desc in HELPERS.items():
        m = prog.classes[COMPILER].methods.get((kind, desc))
        if m is None or m.static:
            continue
        stage = getattr(src, kind)
        nm = "Compiler.%s: " % kind
        obs, E.obs = E.obs, []
        ok = True
        try:
            s = st.fork()
            L = var("cursor", (0, MAXI))
            s.add(L >= 0, le(L, src.n))
            s.mut(comp).f[cursor] = L
            r = Root(E, nm[:-2])

            def post(o):
                for s2, g in stage(E, o.st.fork(), L):
                    if check(s2.pc) == "unsat":
                        continue
                    if o.kind == "throw":
                        E.oblige(s2, nm + "rejects only what is malformed", g is None and E.prog.subclass(s2.obj(o.v).cls, P + "PrintfSyntaxException"))
                        continue
                    E.oblige(s2, nm + "rejects what is malformed", g is not None)
                    if g is not None:
                        E.oblige(s2, nm + "cursor", eq(s2.obj(comp).f[cursor], g[0]))
                        same_value(E, s2, nm, kind, o.v, g[1])
                if o.kind == "throw" and E.prog.subclass(o.st.obj(o.v).cls, P + "PrintfSyntaxException"):
                    error_index(E, o.st, o.v, nm, src.n)
            r.run(m, s, [comp], post, modifies=[comp])
            ok = all(o.status == "proved" for o in E.obs)
        except Unsupported as e:
            ok = False
        new, E.obs = E.obs, obs
        if not ok:
            E.notes.add("Compiler.%s is taken inline" % kind)
            continue
        E.obs += new

        def contract(E, st, a, stage=stage, kind=kind):
            if not (isinstance(a[0], Ref) and a[0].id == comp.id):
                return NotImplemented
            out = []
            i = st.obj(comp).f[cursor]
            E.oblige(st, "Compiler.%s is called with the cursor in the string" % kind, And(le(0, i), le(i, src.n)))
            for s, g in stage(E, st, i):
                if g is None:
                    ex = s.new(P + "PrintfSyntaxException", {}, {"exc": True, "index": True})
                    s.mut(comp).f[cursor] = var(fresh_name("anywhere"), "I")
                    out.append(Out("throw", s, ex))
                else:
                    s.mut(comp).f[cursor] = g[0]
                    out.append(Out("ret", s, make_value(E, s, kind, g[1])))
            return out
        E.contracts[m.key] = contract


class Stop(Unsupported):
    """A refuted obligation after which going on is not worth the time."""

    def __init__(self, obs):
        Unsupported.__init__(self, "stopped at a refuted obligation")
        self.obs = obs


class Items:
    """The compiled list."""

    def __init__(self, src):
        self.src = src

    def add(self, E, st, r, v):
        src, o = self.src, st.obj(r)
        a = o.d["upto"]
        rec = st.obj(v).d.get("item") if isinstance(v, Ref) else None
        if rec is None:
            raise Unsupported("an item not made by a known constructor")
        nm = "Compiler: "
        if getattr(E, "discovering", False):
            end = fresh_int("upto")
            st.add(in_range(end, "I"))
        elif rec[0] == "text":
            t = rec[1]
            if isinstance(t, Lit) and t.s == "%":
                E.oblige(st, nm + "a literal percent sign is written %%", And(lt(add(a, 1), src.n), eq(src.at(a), 37), eq(src.at(add(a, 1)), 37)))
                end = add(a, 2)
            else:
                end = add(a, t.len())
                E.oblige(st, nm + "a literal run ends inside the string", le(end, src.n))
                E.oblige_text(st, nm + "a literal run is the written text", t, substr(src.t, a, end))
                k = fresh_int("k")
                E.oblige(st, nm + "a literal run holds no directive", Implies(And(le(a, k), lt(k, end)), Not(eq(src.at(k), 37))))
        else:
            E.oblige(st, nm + "a directive starts with a percent sign", And(lt(a, src.n), eq(src.at(a), 37)))
            E.oblige(st, nm + "%% is not a directive", Implies(lt(add(a, 1), src.n), Not(eq(src.at(add(a, 1)), 37))))
            fl, w, p, dtf = ctx_read(E, st, rec[2])
            ends, n0 = [], len(E.obs)
            for s, it in src.directive(E, st.fork(), a):
                if check(s.pc) == "unsat":
                    continue
                E.oblige(s, nm + "a malformed directive is not accepted", it is not None)
                if it is None:
                    continue
                E.oblige(s, nm + "specifier", eq(rec[1], it["specifier"]))
                E.oblige(s, nm + "width", eq(w, it["width"]))
                E.oblige(s, nm + "precision", eq(p, it["precision"]))
                for f in FLAGS:
                    E.oblige(s, nm + "flag " + f, (Z(fl[f]) != 0) == it["flags"][f])
                same_value(E, s, nm, "dateTimeFormatter", dtf, it["dateTimeFormatter"])
                ends.append((s, it["end"]))
            if len(ends) == 1:
                st.pc, end = ends[0][0].pc, ends[0][1]
            else:
                # the path leaves open what is written; as a rule an obligation above has failed in one of the cases
                failed = [x for x in E.obs[n0:] if x.status == "refuted"]
                if failed:
                    raise Stop(failed)
                end, n = fresh_int("upto"), len(st.pc)
                st.add(in_range(end, "I"))
                for s, e in ends:
                    st.add([f for f in s.pc[n:] if isinstance(f, smt.Q)])
                if ends:
                    st.add(Or(*[And(eq(end, e), *[f for f in s.pc[n:] if not isinstance(f, smt.Q)]) for s, e in ends]))
        st.mut(r).d["upto"] = end

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def facts(src):
    def hook(E, st, g, ints_, bools, init):
        out = []
        ids = {E.static_fields[(FLAG, f)].id: f for f in FLAGS}
        for a in ints_:
            if a.t == "Z":
                continue
            s = init[a.id()]
            for b in bools:
                if b.kind == "b" and b.key[1] in ids:
                    fn = src.seen[ids[b.key[1]]]
                    out.append((lambda R, a=a, b=b, s=s, fn=fn: Z(R(b)) == fn(Z(s), Z(R(a))), ()))
            if any(b.kind == "b" for b in bools):
                out.append((lambda R, a=a, s=s: z3.Not(src.dup(Z(s), Z(R(a)))), ()))
            for b in ints_:
                if b.t == "Z":
                    out.append((lambda R, a=a, b=b, s=s: (Z(R(b)) != 0) == src.par(Z(s), Z(R(a))), (b, a)))
        return out

    def quants(E, st, g, ints_, init):
        out = []
        if any(b.t == "Z" for b in ints_):
            for a in ints_:
                if a.t != "Z":
                    s = init[a.id()]
                    out.append(lambda R, a=a, s=s: smt.Q(s, R(a), lambda k: Not(And(eq(src.at(k), 125), Not(src.par(Z(s), Z(k))))), [(src.t.name, Z(0))]))
        return out
    return hook, quants


def span(src, t):
    """Bounds of t as a part of the format string."""
    if t is src.t:
        return 0, src.n
    if isinstance(t, SubT) and t.s is src.t:
        return t.a, t.b
    raise Unsupported("a text that is not a part of the format string")


def engine(prog):
    E = impl.engine(prog)
    for k in [k for k in E.contracts if k.startswith(COMPILER + ".")]:
        del E.contracts[k]
    return E


def compiler_unit(prog):
    """Compiler.compile against the grammar."""
    E = engine(prog)
    st = State()
    for c in (FLAG, SPEC, COMPILER):
        E.ensure_init(c)
    E.heap_base(st)
    src = Source(st)
    E.abs["loop-facts"], E.abs["loop-quants"] = facts(src)

    def listify(E, st, rid):
        o = st.heap[rid].copy()
        if o.d.get("elems") != []:
            return False
        o.d.pop("elems")
        o.d["h"], o.d["upto"] = Items(src), 0
        st.heap[rid] = o
        return True
    E.abs["listify"] = listify

    def parse_int(E, st, t):
        a, b = span(src, t)
        k = fresh_int("k")
        if not E.discovering and not prove(st.pc, And(lt(a, b), Implies(And(le(a, k), lt(k, b)), is_digit(src.at(k))))):
            raise Unsupported("parseInt of a text not known to be digits")
        out = []
        for s, ok in E.split(st, le(src.dec(Z(a), Z(b)), MAXI)):
            out.append(Out("ret", s, src.dec(Z(a), Z(b))) if ok else E.throw(s, "NumberFormatException"))
        return out
    E.abs["parse-int"] = parse_int

    def of_pattern(E, st, d, a):
        x, y = span(src, a[0].t)
        out = []
        for s, bad in E.split(st, src.bad(Z(x), Z(y))):
            out.append(E.throw(s, "java/lang/IllegalArgumentException") if bad else Out("ret", s, s.new(DTF, {}, {"abs": "dtf", "pat": (x, y)})))
        return out
    E.abs["of-pattern"] = of_pattern

    # the two item classes, by what they are made of
    def text_item(E, st, a):
        if a[1] is None:
            raise Unsupported("literal null")
        st.mut(a[0]).d["item"] = ("text", a[1].t)

    def dir_item(E, st, a):
        c = st.obj(a[1]).d.get("char") if isinstance(a[1], Ref) else None
        if c is None or not isinstance(a[2], Ref):
            raise Unsupported("directive of an unknown specifier")
        st.mut(a[0]).d["item"] = ("directive", c, a[2])
    find(prog, FA, "<init>", "(Ljava/lang/String;)V"), find(prog, DA, "<init>", "(L%s;L%s;)V" % (SPEC, CTX))
    E.contracts[FA + ".<init>(Ljava/lang/String;)V"] = text_item
    E.contracts[DA + ".<init>(L%s;L%s;)V" % (SPEC, CTX)] = dir_item

    # Specifier.valueOf by its contract (see specifier_unit)
    def spec_of(E, st, a):
        c, out = a[0], []
        for s, g in E.fork(st, [(Not(one_of(c, SPECS)), None), (one_of(c, (84, 116)), True), (And(one_of(c, SPECS), Not(one_of(c, (84, 116)))), False)]):
            out.append(Out("ret", s, None if g is None else s.new(SPEC, {}, {"abs": "spec", "char": c, "date": g, "alias": True})))
        return out
    find(prog, SPEC, "valueOf", "(C)L%s;" % SPEC)
    E.contracts[SPEC + ".valueOf(C)L%s;" % SPEC] = spec_of

    def h_spec(E, st, ref, name, desc, args):
        if name == "isDateTimeSpecifier":
            return 1 if st.obj(ref).d["date"] else 0
        if name == "toString":
            return Str(jdk.unknown_text(st, "name"))
        raise Unsupported("Specifier." + name)
    E.abs["spec"] = h_spec

    c = construct(E, st, COMPILER, "(Ljava/lang/String;)V", [Str(src.t)])
    lst = None
    for v in st.obj(c).f.values():
        if isinstance(v, Ref) and st.obj(v).d.get("elems") == []:
            listify(E, st, v.id)
            lst = v
    if lst is None:
        raise Unsupported("no list of compiled items")
    st.ghost = {}
    E.candidates = lambda mod: cases(mod, src)
    cursors = [k for k, (acc, d, cv) in prog.classes[COMPILER].fields.items() if d == "I" and not acc & 8]
    if len(cursors) == 1:
        helper_contracts(E, prog, st, src, c, cursors[0])
    r = Root(E, "Compiler.compile")

    def post(o):
        a, s = o.st.obj(lst).d["upto"], o.st
        if o.kind == "ret":
            E.oblige(s, r.name + ": the whole string is compiled", eq(a, src.n))
            return
        x = s.obj(o.v)
        if prove(s.pc, eq(a, src.n)):
            E.oblige(s, r.name + ": nothing well formed is rejected", False)
            return
        # the scan may have added the literal run before the directive that fails
        k = src.run_end(s, a, lambda c, k: Not(eq(c, 37)), "percent")
        E.oblige(s, r.name + ": a string without a directive left is not rejected", lt(k, src.n))
        for s2, it in src.directive(E, s.fork(), k):
            if check(s2.pc) == "unsat":
                continue
            lone = And(lt(add(k, 1), src.n), eq(src.at(add(k, 1)), 37))
            E.oblige(s2, r.name + ": %% is not rejected", Not(lone))
            if E.prog.subclass(x.cls, P + "PrintfSyntaxException"):
                E.oblige(s2, r.name + ": a well formed directive is not a syntax error", it is None)
            elif ints.printf_exc(E, s2, o.v):
                E.oblige(s2, r.name + ": a directive is refused only for a number above the limit",
                         it is not None and Or(lt(MAXW, it["width"]), lt(MAXW, it["precision"])))
            else:
                E.oblige(s2, r.name + ": fails only with a syntax exception", False)
        if E.prog.subclass(x.cls, P + "PrintfSyntaxException"):
            error_index(E, s, o.v, r.name + ": ", src.n)
    try:
        r.run(find(prog, COMPILER, "compile", "()V"), st, [c], post, modifies=[c, lst])
    except Stop as e:
        E.obs += e.obs
    return E


compiler_unit.functions = [COMPILER + "." + m for m in ("compile",)]


def cases(mod, src):
    n = ints.ival(mod, src.n)
    if n is None or n > 60:
        return []
    s = "".join(chr(ints.ival(mod, src.at(i)) or 0) for i in range(n))
    esc = "".join(c if 33 <= ord(c) < 127 and c != "\\" else "\\u%04x" % ord(c) for c in s)
    return ["fmt\t%s\ti:1\ti:2\ti:3\ti:4" % esc, "fmt\t%s\ts:x\ts:y" % esc]


def specifier_unit(prog):
    """Specifier.valueOf and isDateTimeSpecifier for every character."""
    E = engine(prog)
    c = var("c", "C")
    st = State()
    st.add(in_range(c, "C"))
    E.ensure_init(SPEC)
    r = Root(E, "Specifier.valueOf")
    E.candidates = lambda mod: ["fmt\t%%%s\ti:1" % ("\\u%04x" % (ints.ival(mod, c) or 0))]

    def post(o):
        if o.kind == "throw":
            return E.oblige(o.st, r.name + ": throws nothing", False)
        E.oblige(o.st, r.name + ": knows exactly the documented specifiers", Z(one_of(c, SPECS)) == Z(o.v is not None))
        if o.v is not None:
            d0, E.depth = E.depth, 1
            try:
                for o2 in E.call_key(o.st.fork(), SPEC, "isDateTimeSpecifier", "()Z", [o.v]):
                    E.oblige(o2.st, r.name + ": t and T are the date specifiers", o2.kind == "ret" and (Z(o2.v) != 0) == Z(one_of(c, (84, 116))))
            finally:
                E.depth = d0
    r.run(find(prog, SPEC, "valueOf", "(C)L%s;" % SPEC), st, [c], post)
    return E


specifier_unit.functions = [SPEC + ".valueOf", SPEC + ".isDateTimeSpecifier"]

UNITS = {"Compiler": compiler_unit, "Specifier.valueOf": specifier_unit}
