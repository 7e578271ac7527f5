"""Symbolic execution of class-file methods against contracts.

Every instruction is executed with Java's semantics: wrap-around integers, null, bounds and class-cast
checks. Paths split on feasible conditions; loops are unrolled while their guard is decided and otherwise
cut at an invariant (see loops.py).
"""
import struct
import z3
from . import smt, terms
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *


def is_ite(e):
    return z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE


class Unsupported(Exception):
    """The code is outside the verifier's reach: the obligation stays undecided."""


class Budget(Unsupported):
    pass


class Ref:
    __slots__ = ("id",)
    _n = [0]

    def __init__(self):
        Ref._n[0] += 1
        self.id = Ref._n[0]

    def __repr__(self):
        return "#%d" % self.id


class Obj:
    """Heap object: class, fields, and model data for library or abstract objects."""
    __slots__ = ("cls", "f", "d")

    def __init__(self, cls, f=None, d=None):
        self.cls, self.f, self.d = cls, f or {}, d or {}

    def copy(self):
        return Obj(self.cls, dict(self.f), dict(self.d))


class Str:
    """java.lang.String value."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = lit(t) if isinstance(t, str) else t

    def __repr__(self):
        return "Str(%r)" % self.t


class Dbl:
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = bits

    def __repr__(self):
        return "Dbl(%s)" % self.bits


class Flt:
    __slots__ = ("bits",)

    def __init__(self, bits):
        self.bits = bits


class Lam:
    """Closure made by invokedynamic."""
    __slots__ = ("iface", "kind", "member", "cap", "name")

    def __init__(self, iface, name, kind, member, cap):
        self.iface, self.name, self.kind, self.member, self.cap = iface, name, kind, member, cap


class Cls:
    __slots__ = ("name", "text")

    def __init__(self, name):
        self.name = name


def dbl(x):
    return Dbl(struct.unpack(">q", struct.pack(">d", x))[0])


def dval(d):
    return struct.unpack(">d", struct.pack(">q", d.bits))[0]


def fval(d):
    return struct.unpack(">f", struct.pack(">i", d.bits))[0]


class State:
    __slots__ = ("heap", "pc", "statics", "ghost", "weak")

    def __init__(self):
        self.heap, self.pc, self.statics, self.ghost, self.weak = {}, [], {}, {}, []

    def fork(self):
        s = State()
        s.heap, s.pc, s.statics, s.ghost, s.weak = dict(self.heap), list(self.pc), self.statics, dict(self.ghost), list(self.weak)
        return s

    def add(self, *fs):
        for f in fs:
            if f is True:
                continue
            if isinstance(f, (list, tuple)):
                self.add(*f)
            else:
                self.pc.append(f)
        return self

    def obj(self, r):
        return self.heap[r.id]

    def mut(self, r):
        o = self.heap[r.id].copy()
        self.heap[r.id] = o
        return o

    def new(self, cls, f=None, d=None):
        r = Ref()
        self.heap[r.id] = Obj(cls, f, d)
        return r


class Out:
    __slots__ = ("kind", "st", "v", "trace")

    def __init__(self, kind, st, v=None):
        self.kind, self.st, self.v = kind, st, v


class Frame:
    __slots__ = ("st", "pc", "loc", "stk", "visits", "forked", "gen", "in_gen", "pc0")

    def __init__(self, st, pc, loc, stk):
        self.st, self.pc, self.loc, self.stk = st, pc, loc, stk
        self.visits, self.forked, self.gen = {}, set(), frozenset()
        self.in_gen = None

    def fork(self, st):
        f = Frame(st, self.pc, list(self.loc), list(self.stk))
        f.visits, f.forked, f.gen, f.in_gen = dict(self.visits), set(self.forked), self.gen, self.in_gen
        return f


class Ob:
    """A proof obligation and what became of it."""

    def __init__(self, name, status, model=None, weak=(), detail="", goal=None, pc=None):
        self.name, self.status, self.model, self.weak, self.detail = name, status, model, list(weak), detail
        self.goal, self.pc = goal, pc


BIG = {"iadd", "isub", "imul", "idiv", "irem", "ineg", "ishl", "ishr", "iushr", "iand", "ior", "ixor"}


DEADLINE = [None]
CREATED = []


class Engine:
    def __init__(self, prog):
        CREATED.append(self)
        self.roots = set()
        self.prog = prog
        self.contracts = {}  # method key -> callable(E, st, args) -> outcomes
        self.abs = {}  # abstract kind -> handler class
        self.static_fields = {}
        self.clinit_done = {}
        self.base = State()
        self.obs = []
        self.used = set()  # contracts relied on
        self.inlined = set()
        self.trusted = set()  # library models relied on
        self.weak_notes = []
        self.depth = 0
        self.max_states = 6000
        self.max_unroll = 80
        self.steps = 0
        self.in_clinit = 0
        self.root = None
        self.loop_modes = {}
        self.deadline = DEADLINE[0]
        from . import jdk
        self.jdk = jdk
        self.class_specs = {}
        self.notes = set()
        self.shrunk = 0

    # ------------------------------------------------------------ obligations
    def oblige(self, st, name, goal, model_hint=None):
        if isinstance(goal, bool):
            if goal:
                self.obs.append(Ob(name, "proved"))
                return True
            r, m = check(st.pc, want_model=True)
            if r == "unsat":
                self.obs.append(Ob(name, "proved"))
                return True
            m = self.smaller(st.pc, m)
            self.obs.append(Ob(name, "refuted" if r == "sat" else "unknown", m, st.weak, goal=goal, pc=list(st.pc)))
            self.obs[-1].cand = self.__dict__.get("candidates")
            return False
        r, m = check(st.pc + [Not(goal)], want_model=True)
        if r == "sat":
            facts = self.fixed_digits(st, goal, m)
            if facts:
                st.add(*facts)
                r, m = check(st.pc + [Not(goal)], want_model=True)
        m = self.smaller(st.pc + [Not(goal)], m)
        self.obs.append(Ob(name, {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[r], m, st.weak, goal=goal, pc=list(st.pc)))
        self.obs[-1].cand = self.__dict__.get("candidates")
        return r == "unsat"

    def smaller(self, fs, m):
        """A counterexample of small numbers in place of m, where there is one soon: easier to replay."""
        if m is None or self.shrunk >= 12:
            return m
        self.shrunk += 1
        keep = []
        for step in range(4):
            big = [d() for d in m.decls() if d.arity() == 0 and z3.is_int_value(m[d]) and abs(m[d].as_long()) > 40]
            big = [x for x in big if not any(x.eq(y) for y in keep)]
            if not big:
                break
            r, n = check(fs + [z3.And(x >= -40, x <= 40) for x in big], want_model=True, timeout=3000)
            if r == "sat":
                return n
            # some have to be large: find out which by trying them one by one
            more = []
            for x in big[:8]:
                r, n = check(fs + more + [z3.And(x >= -40, x <= 40)], want_model=True, timeout=1500)
                if r == "sat":
                    more.append(z3.And(x >= -40, x <= 40))
                    m = n
                else:
                    keep.append(x)
            if len(big) <= 8:
                break
        return m

    def fixed_digits(self, st, goal, m):
        """Digit texts of numbers that the path fixes to one value."""
        out, seen = [], set()
        for x in smt.apps(goal).values():
            n = x.decl().name()
            if n in ("dig8", "dig10", "dig16"):
                a = x.arg(0)
                if a.get_id() in seen:
                    continue
                seen.add(a.get_id())
                v = m.eval(a, model_completion=True)
                if z3.is_int_value(v) and not z3.is_int_value(a) and v.as_long() >= 0 and prove(st.pc + [Not(goal)], a == v):
                    t = self.jdk.digits(int(n[3:]), v.as_long())
                    out += [x.decl()(a, z3.IntVal(k)) == ord(c) for k, c in enumerate(t.s)]
                    i = x.arg(1)
                    out += [z3.Implies(i == k, x == ord(c)) for k, c in enumerate(t.s)]
        return out

    def oblige_text(self, st, name, got, want):
        ok = True
        for what, g in text_eq_goals(got, want):
            ok = self.oblige(st, "%s: %s" % (name, what), g) and ok
        if not text_eq_goals(got, want):
            self.obs.append(Ob(name, "proved"))
        return ok

    # ------------------------------------------------------------ paths
    def feasible(self, st):
        return check(st.pc) != "unsat"

    def split(self, st, cond):
        """States in which cond holds or fails, feasible ones only."""
        if isinstance(cond, bool):
            return [(st, cond)]
        if z3.is_true(cond):
            return [(st, True)]
        if z3.is_false(cond):
            return [(st, False)]
        t = check(st.pc + [cond]) != "unsat"
        f = (not t) or check(st.pc + [Not(cond)]) != "unsat"
        if t and f:
            a, b = st.fork(), st
            a.add(cond)
            b.add(Not(cond))
            return [(a, True), (b, False)]
        return [(st, t)]

    def fork(self, st, cases):
        """Feasible states for a list of (guard, tag)."""
        out = []
        for g, tag in cases:
            if g is False:
                continue
            if g is True or check(st.pc + [g]) != "unsat":
                s = st.fork()
                s.add(g)
                out.append((s, tag))
        return out

    def exc(self, st, cls, msg=None):
        if not cls.startswith("java/") and "/" not in cls:
            cls = "java/lang/" + cls
        return st.new(cls, {}, {"msg": msg, "exc": True})

    def throw(self, st, cls, msg=None):
        return Out("throw", st, self.exc(st, cls, msg))

    # ------------------------------------------------------------ integers
    def fit(self, st, e, t):
        lo, hi = RANGE[t]
        if not is_z(e):
            return wrap(e, lo, hi)
        b = bounds(e)
        if b and lo <= b[0] and b[1] <= hi:
            return e
        e2 = simp(e) if e.num_args() and not is_ite(e) else e
        if not is_z(e2):
            return wrap(e2, lo, hi)
        if prove(st.pc, z3.And(e >= lo, e <= hi)):
            return e
        self.notes.add("wrap")
        if LINEAR:
            return add(fmod(sub(e, lo), hi - lo + 1), lo)
        return wrap(e, lo, hi)

    def nonneg(self, st, e):
        if not is_z(e):
            return e >= 0
        b = bounds(e)
        if b and b[0] >= 0:
            return True
        return prove(st.pc, e >= 0)

    def concrete(self, st, e):
        """Value of e when the path fixes it, else None."""
        if not is_z(e):
            return e
        s = simp(e)
        if not is_z(s):
            return s
        r, m = check(st.pc, want_model=True)
        if r != "sat":
            return None
        v = m.eval(e, model_completion=True)
        if not z3.is_int_value(v):
            return None
        v = v.as_long()
        return v if prove(st.pc, e == v) else None

    def band(self, st, a, b, bits):
        if not is_z(a) and not is_z(b):
            return a & b
        if is_z(b) and not is_z(a):
            a, b = b, a
        if is_z(b):
            bb = bounds(a), bounds(b)
            if all(x and x[0] >= 0 and x[1] <= 1 for x in bb):
                return If(z3.And(a == 1, b == 1), 1, 0)
            ca, cb = self.concrete(st, a), self.concrete(st, b)
            if cb is not None:
                return self.band(st, a, cb, bits)
            if ca is not None:
                return self.band(st, b, ca, bits)
            raise Unsupported("and of unknown integers")
        if b < 0:
            return sub(a, self.band(st, a, ~b, bits))
        r, k, m = 0, 0, b
        while m:
            if m & 1:
                lo = k
                while m & 1:
                    m >>= 1
                    k += 1
                x = fmod(fdiv(a, 2**lo) if lo else a, 2**(k - lo))
                r = add(r, x * 2**lo if lo else x)
            else:
                m >>= 1
                k += 1
        return r

    def bor(self, st, a, b, bits):
        if not is_z(a) and not is_z(b):
            return a | b
        if is_z(a) and is_z(b):
            ba, bb = bounds(a), bounds(b)
            if all(x and x[0] >= 0 and x[1] <= 1 for x in (ba, bb)):
                return If(z3.Or(a == 1, b == 1), 1, 0)
            for x, y, by in ((a, b, bb), (b, a, ba)):
                if by and by[0] >= 0 and by[1] <= 1 or prove(st.pc, z3.And(y >= 0, y <= 1)):
                    return If(And(eq(y, 1), eq(fmod(x, 2), 0)), x + 1, x)
            for x, y in ((a, b), (b, a)):
                by = bounds(y)
                for k in (3, 4, 8, 16, 32, 52, 53, 63):
                    if by and by[0] >= 0 and by[1] < 2**k or prove(st.pc, z3.And(y >= 0, y < 2**k)):
                        if prove(st.pc, x % 2**k == 0):
                            return x + y
                        break
            raise Unsupported("or of unknown integers")
        return sub(add(a, b), self.band(st, a, b, bits))

    def bxor(self, st, a, b, bits):
        if not is_z(a) and not is_z(b):
            return a ^ b
        if is_z(a) and is_z(b):
            ba, bb = bounds(a), bounds(b)
            if all(x and x[0] >= 0 and x[1] <= 1 for x in (ba, bb)):
                return If(a != b, 1, 0)
            raise Unsupported("xor of unknown integers")
        return sub(add(a, b), 2 * self.band(st, a, b, bits))

    def arith(self, st, op, a, b):
        t = "I" if op[0] == "i" else "J"
        bits = 32 if t == "I" else 64
        o = op[1:]
        if o == "add":
            return self.fit(st, add(a, b), t)
        if o == "sub":
            return self.fit(st, sub(a, b), t)
        if o == "mul":
            if is_z(a) and is_z(b) and "mul" in self.abs:
                return self.fit(st, self.abs["mul"](self, st, a, b), t)
            return self.fit(st, a * b, t)
        if o in ("and", "or", "xor"):
            return self.fit(st, getattr(self, "b" + o)(st, a, b, bits), t)
        if o in ("shl", "shr", "ushr"):
            if is_z(b):
                c = self.concrete(st, b)
                if c is not None:
                    b = c
            if not is_z(b):
                k = b & (bits - 1)
                if o == "shl":
                    return self.fit(st, a * 2**k, t)
                if o == "ushr" and not self.nonneg(st, a):
                    a = If(lt(a, 0), add(a, 2**bits), a)
                    return self.fit(st, fdiv(a, 2**k), t) if k else self.fit(st, a, t)
                return fdiv(a, 2**k)
            bb = bounds(b)
            if not (bb and bb[0] >= 0 and bb[1] < bits) and not prove(st.pc, z3.And(b >= 0, b < bits)):
                b = b % bits
            r = None
            for k in range(bits - 1, -1, -1):
                if check(st.pc + [b == k]) == "unsat":
                    continue
                v = self.arith(st, op, a, k)
                r = v if r is None else If(b == k, v, r)
            return r
        if o in ("div", "rem"):
            if not is_z(a) and not is_z(b):
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return self.fit(st, q if o == "div" else a - q * b, t)
            if is_z(b):
                c = self.concrete(st, b)
                if c is not None:
                    b = c
            if not is_z(b) and b > 0:
                if self.nonneg(st, a):
                    return a / b if o == "div" else a % b
                q = If(Z(a) >= 0, a / b, -((-a) / b))
                return q if o == "div" else a - q * b
            if not is_z(b):
                q = -self.arith(st, op[0] + "div", a, -b)
                return self.fit(st, q if o == "div" else a - q * b, t)
            q = If(Z(b) > 0, If(Z(a) >= 0, a / b, -((-a) / b)), If(Z(a) >= 0, -(a / -b), (-a) / -b))
            return self.fit(st, q if o == "div" else a - q * b, t)
        raise Unsupported(op)

    # ------------------------------------------------------------ classes and statics
    def ensure_init(self, cls):
        """Runs the static initialiser of a class of the program, once, concretely."""
        c = self.prog.classes.get(cls)
        if c is None or cls in self.clinit_done:
            return
        self.clinit_done[cls] = True
        if c.super:
            self.ensure_init(c.super)
        for n, (acc, desc, cv) in c.fields.items():
            if acc & 8:
                self.static_fields[(cls, n)] = self.const(cv) if cv else self.zero(desc)
        m = c.methods.get(("<clinit>", "()V"))
        if m:
            saved, self.in_clinit = self.obs, self.in_clinit + 1
            d0, self.depth = self.depth, 0
            mu, self.max_unroll = self.max_unroll, 10**7
            try:
                outs = self.exec_method(self.base, m, [])
            finally:
                self.in_clinit -= 1
                self.depth, self.max_unroll = d0, mu
            if len(outs) != 1 or outs[0].kind != "ret":
                raise Unsupported("static initialiser of %s" % cls)
            self.base = outs[0].st

    def heap_base(self, st):
        """Makes objects created by static initialisers visible in a state."""
        for k, o in self.base.heap.items():
            if k not in st.heap:
                st.heap[k] = o

    def zero(self, desc):
        if desc[0] in "ZBCSIJ":
            return 0
        if desc == "D":
            return Dbl(0)
        if desc == "F":
            return Flt(0)
        return None

    def const(self, c):
        k, v = c[0], c[1]
        if k in ("I", "J"):
            return v
        if k == "S":
            return Str(v)
        if k == "D":
            return dbl(v)
        if k == "F":
            return Flt(struct.unpack(">i", struct.pack(">f", v))[0])
        if k == "C":
            return Cls(v)
        raise Unsupported("constant %s" % (c,))

    def cls_of(self, st, v):
        if isinstance(v, Str):
            return "java/lang/String"
        if isinstance(v, Lam):
            return v.iface
        if isinstance(v, Cls):
            return "java/lang/Class"
        return st.obj(v).cls

    # ------------------------------------------------------------ calls
    def call_key(self, st, cls, name, desc, args, special=False, static=False):
        """Calls a method; returns outcomes."""
        prog = self.prog
        if not static:
            recv = args[0]
            if recv is None:
                return [self.throw(st, "NullPointerException")]
            if isinstance(recv, Lam):
                return self.call_lam(st, recv, name, desc, args[1:])
            if not special:
                rc = self.cls_of(st, recv)
                if isinstance(recv, Ref):
                    o = st.obj(recv)
                    if "abs" in o.d:
                        h = self.abs[o.d["abs"]]
                        r = h(self, st, recv, name, desc, args[1:])
                        if r is not NotImplemented:
                            return self.norm(st, r)
                    sp = self.class_specs.get(rc)
                    if sp and sp.calls:
                        r = sp.calls(self, st, recv, name, desc, args[1:])
                        if r is not NotImplemented:
                            return self.norm(st, r)
                if rc in prog.classes:
                    m = prog.resolve(rc, name, desc)
                    if m is not None:
                        return self.call_method(st, m, args)
                    while rc in prog.classes:
                        rc = prog.classes[rc].super
                    r = self.jdk.call(self, st, rc, name, desc, args)
                    return self.norm(st, r)
                r = self.jdk.call(self, st, rc, name, desc, args, cls)
                return self.norm(st, r)
        if cls in prog.classes:
            self.ensure_init(cls)
            self.heap_base(st)
            m = prog.classes[cls].methods.get((name, desc))
            if m is None or m.abstract:
                m = prog.resolve(cls, name, desc)
            if m is not None:
                return self.call_method(st, m, args)
            if not static or prog.classes[cls].super == "java/lang/Enum":
                return self.norm(st, self.jdk.call(self, st, prog.classes[cls].super, name, desc, args))
            raise Unsupported("no method %s.%s%s" % (cls, name, desc))
        return self.norm(st, self.jdk.call(self, st, cls, name, desc, args))

    def norm(self, st, r):
        if isinstance(r, list) and all(isinstance(x, Out) for x in r):
            return r
        if isinstance(r, Out):
            return [r]
        return [Out("ret", st, r)]

    def call_lam(self, st, lam, name, desc, args):
        if lam.kind == "then":
            out = []
            f, g = lam.member
            for o in self.call_key(st, f.iface if isinstance(f, Lam) else None, lam.name, desc, [f] + list(args)):
                if o.kind == "throw":
                    out.append(o)
                    continue
                out += self.call_key(o.st, None, "apply", "(Ljava/lang/Object;)Ljava/lang/Object;", [g, o.v])
            return out
        if name != lam.name:
            if lam.iface in self.prog.classes:
                m = self.prog.resolve(lam.iface, name, desc)
                if m is not None and not m.abstract:
                    return self.call_method(st, m, [lam] + list(args))
            fn = lam.iface in ("java/util/function/Function", "java/util/function/BiFunction")
            if fn and name in ("andThen", "compose"):
                if args[0] is None:
                    return [self.throw(st, "NullPointerException")]
                pair = (lam, args[0]) if name == "andThen" else (args[0], lam)
                return [Out("ret", st, Lam(lam.iface, "apply", "then", pair, ()))]
            raise Unsupported("method %s of a lambda" % name)
        kind, (cls, mname, mdesc, _) = lam.kind, lam.member
        a = list(lam.cap) + list(args)
        if kind == 6:
            return self.call_key(st, cls, mname, mdesc, self.coerce(mdesc, a, st), static=True)
        if kind == 8:
            self.ensure_init(cls)
            if cls in self.prog.classes:
                r = st.new(cls, self.blank(cls))
                outs = []
                for o in self.call_key(st, cls, "<init>", mdesc, [r] + self.coerce(mdesc, a, st), special=True):
                    outs.append(Out("ret", o.st, r) if o.kind == "ret" else o)
                return outs
            return self.norm(st, self.jdk.construct(self, st, cls, mdesc, a))
        return self.call_key(st, cls, mname, mdesc, a, special=(kind == 7))

    def coerce(self, desc, args, st):
        """Unboxes arguments of a method reference that takes primitives."""
        ps = self.desc(desc)[0]
        if len(ps) != len(args):
            return args
        return [st.obj(x).d["v"] if p in "ZCBSIJFD" and isinstance(x, Ref) and "v" in st.obj(x).d else x for p, x in zip(ps, args)]

    def blank(self, cls):
        f, c = {}, cls
        while c in self.prog.classes:
            for n, (acc, d, cv) in self.prog.classes[c].fields.items():
                if not acc & 8 and n not in f:
                    f[n] = self.zero(d)
            c = self.prog.classes[c].super
        return f

    def call_method(self, st, m, args):
        c = self.contracts.get(m.key)
        if c is not None and not self.in_clinit and not (self.root is m and self.depth == 0):
            r = c(self, st, args)
            if r is not NotImplemented:
                self.used.add(m.key)
                return self.norm(st, r)
        if m.code is None:
            raise Unsupported("abstract method %s" % m.key)
        if self.depth > 40:
            raise Unsupported("recursion in %s" % m.key)
        if self.root is not m:
            self.inlined.add(m.key)
        n0 = len(st.pc)
        heap0 = dict(st.heap)
        self.depth += 1
        try:
            outs = self.exec_method(st, m, args)
        finally:
            self.depth -= 1
        return self.merge(outs, n0, m, heap0)

    def merge(self, outs, n0, m, heap0):
        """Joins normal outcomes that differ only in an integer result."""
        rets = [o for o in outs if o.kind == "ret"]
        if len(rets) < 2 or m.ret[0] not in "ZBCSIJV":
            return outs
        groups = []
        for o in rets:
            for g in groups:
                if self.same_heap(g[0].st, o.st, heap0):
                    g.append(o)
                    break
            else:
                groups.append([o])
        res = [o for o in outs if o.kind != "ret"]
        for g in groups:
            if len(g) == 1 or any(isinstance(f, smt.Q) for o in g for f in o.st.pc[n0:]):
                res += g
                continue
            base = g[0].st
            deltas = [And(*o.st.pc[n0:]) for o in g]
            v = g[-1].v
            for o, d in list(zip(g, deltas))[-2::-1]:
                v = If(d, o.v, v) if m.ret != "V" else None
            st = base.fork()
            st.pc = base.pc[:n0]
            st.add(Or(*deltas))
            for o in g:
                for w in o.st.weak:
                    if w not in st.weak:
                        st.weak.append(w)
            res.append(Out("ret", st, v))
        return res

    def same_heap(self, a, b, heap0):
        if a.ghost != b.ghost:
            return False
        for k in heap0:
            if a.heap[k] is not b.heap[k]:
                return False
        if any(a.heap[k] is not o for k, o in heap0.items()):
            # objects made by the method may be reachable from the changed ones
            for k, o in a.heap.items():
                if k not in heap0 and k in b.heap and b.heap[k] is not o:
                    return False
        return True

    # ------------------------------------------------------------ execution
    def exec_method(self, st, m, args):
        self.heap_base(st)
        loc = [None] * (m.max_locals + 1)
        i = 0
        types = ([] if m.static else ["L"]) + m.args
        for a, t in zip(args, types):
            loc[i] = a
            i += 2 if t in ("J", "D") else 1
        from . import loops
        cfg = loops.cfg(m)
        return self.run_frames(m, cfg, [Frame(st, 0, loc, [])])

    def run_frames(self, m, cfg, work, stop=None):
        """Runs frames to completion. With stop=(header, region), frames reaching the header again or
        leaving the region are handed back as (frame, 'back'|'exit')."""
        from . import loops
        outs, handed, states = [], [], 0
        while work:
            fr = work.pop()
            while True:
                pc = fr.pc
                if stop:
                    if pc == stop[0] and fr.in_gen:
                        handed.append((fr, "back"))
                        break
                    if pc not in stop[1]:
                        handed.append((fr, "exit"))
                        break
                    fr.in_gen = True
                if pc in cfg.loops and not (stop and pc == stop[0]):
                    act = self.at_header(m, cfg, fr, pc)
                    if act == "probe":
                        r = self.probe(m, cfg, fr, pc, 2 if fr.visits[pc] == 1 else 1)
                        if r is None:
                            act = "generalise"
                        else:
                            outs += r[0]
                            self.obs += r[2]
                            for x in r[1]:
                                x.in_gen = fr.in_gen
                                work.append(x)
                            break
                    if act == "generalise":
                        res = loops.generalise(self, m, cfg, fr, pc)
                        outs += [o for o in res if isinstance(o, Out)]
                        work += [f for f in res if isinstance(f, Frame)]
                        break
                ins = m.code[pc]
                self.steps += 1
                if self.deadline and self.steps % 512 == 0:
                    import time
                    if time.time() > self.deadline:
                        raise Budget("time")
                r = self.step(m, fr, ins)
                if r is None:
                    continue
                # r: list of Frame or Out
                states += len(r)
                if states > self.max_states:
                    raise Budget("too many paths in %s" % m.key)
                conts = []
                for x in r:
                    if isinstance(x, Out):
                        if x.kind == "throw":
                            h = self.handler(m, x.st, pc, x.v)
                            if h is not None:
                                f2 = fr.fork(x.st)
                                f2.pc, f2.stk = h, [x.v]
                                conts.append(f2)
                                continue
                        outs.append(x)
                    else:
                        conts.append(x)
                if not conts:
                    break
                fr = conts[0]
                work += conts[1:]
        if stop:
            return outs, handed
        return outs

    def probe(self, m, cfg, fr, pc, depth):
        """Runs iterations while the guard is decided; None if it is open. A loop is cut at its first visit."""
        L = cfg.loops[pc]
        pf = fr.fork(fr.st.fork())
        pf.in_gen = None
        obs, self.obs = self.obs, []
        try:
            outs, handed = self.run_frames(m, cfg, [pf], stop=(pc, L.body))
        finally:
            new, self.obs = self.obs, obs
        if any(k == "back" and x.forked & L.guards for x, k in handed):
            return None
        frames = []
        for x, k in handed:
            if k == "back" and depth > 1:
                self.at_header(m, cfg, x, pc)
                r = self.probe(m, cfg, x, pc, depth - 1)
                if r is None:
                    return None
                outs += r[0]
                frames += r[1]
                new += r[2]
            else:
                frames.append(x)
        return outs, frames, new

    def handler(self, m, st, pc, exc):
        for a, b, h, c in m.handlers:
            if a <= pc < b:
                if c is None or self.prog.subclass(self.cls_of(st, exc), c):
                    return h
        return None

    def at_header(self, m, cfg, fr, pc):
        """Decides at a loop header: go on unrolling or cut at an invariant."""
        n = fr.visits.get(pc, 0) + 1
        fr.visits[pc] = n
        L = cfg.loops[pc]
        for h in cfg.loops:
            if h != pc and h in L.body:
                fr.visits.pop(h, None)
        fr.forked = fr.forked - L.body
        if self.loop_modes.get((m.key, pc)) == "unroll":
            if n > self.max_unroll:
                raise Budget("loop in %s not bounded" % m.key)
            return "go"
        return "generalise" if n > self.max_unroll else "probe"

    def cond(self, ins, fr):
        op, s = ins.op, fr.stk
        if op in ("ifnull", "ifnonnull"):
            v = s.pop()
            if isinstance(v, Maybe):
                return v.isnull if op == "ifnull" else Not(v.isnull)
            return (v is None) == (op == "ifnull")
        if op in ("if_acmpeq", "if_acmpne"):
            b, a = s.pop(), s.pop()
            r = self.same_ref(fr.st, a, b)
            return r if op == "if_acmpeq" else Not(r)
        if op.startswith("if_icmp"):
            b, a = s.pop(), s.pop()
            o = op[7:]
        else:
            b, a, o = 0, s.pop(), op[2:]
        if b == 0 and not is_z(b) and is_z(a) and is_ite(a):
            # boolean shaped value
            x, y = a.arg(1), a.arg(2)
            if z3.is_int_value(x) and z3.is_int_value(y):
                x, y = x.as_long(), y.as_long()
                c = a.arg(0)
                cx, cy = self.cmp(o, x, 0), self.cmp(o, y, 0)
                if cx and not cy:
                    return c
                if cy and not cx:
                    return Not(c)
                return bool(cx)
        return self.cmp(o, a, b)

    def cmp(self, o, a, b):
        if o == "eq":
            return eq(a, b)
        if o == "ne":
            return Not(eq(a, b))
        if o == "lt":
            return lt(a, b)
        if o == "ge":
            return le(b, a)
        if o == "gt":
            return lt(b, a)
        return le(a, b)

    def same_ref(self, st, a, b):
        if a is None or b is None:
            for x in (a, b):
                if isinstance(x, Maybe):
                    return x.isnull
            return a is b
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.id == b.id:
                return True
            for x in (a, b):
                if st.obj(x).d.get("alias"):
                    raise Unsupported("identity of an unknown object")
            return False
        if isinstance(a, Str) and isinstance(b, Str):
            if a is b:
                return True
            raise Unsupported("identity of strings")
        if isinstance(a, Cls) and isinstance(b, Cls):
            return a.name == b.name
        if a is b:
            return True
        return False

    def step(self, m, fr, ins):
        """One instruction. None: fr advanced in place; otherwise a list of successors."""
        op, s, loc, st = ins.op, fr.stk, fr.loc, fr.st
        if op == "const":
            s.append(self.const(ins.arg))
        elif op in ("iload", "lload", "aload", "dload", "fload"):
            s.append(loc[ins.arg])
        elif op in ("istore", "lstore", "astore", "dstore", "fstore"):
            loc[ins.arg] = s.pop()
        elif op == "goto":
            fr.pc = ins.arg
            return None
        elif op in ("ifnull", "ifnonnull") or op.startswith("if"):
            c = self.cond(ins, fr)
            r = self.split(st, c)
            if len(r) == 1:
                if is_z(c) and not z3.is_true(c) and not z3.is_false(c):
                    fr.forked.add(fr.pc)
                fr.pc = ins.arg if r[0][1] else fr.pc + 1
                fr.st = r[0][0]
                return None
            out = []
            for s2, t in r:
                f = fr.fork(s2)
                f.forked.add(fr.pc)
                f.pc = ins.arg if t else fr.pc + 1
                out.append(f)
            return out
        elif op in ("iadd", "isub", "imul", "iand", "ior", "ixor", "ishl", "ishr", "iushr",
                    "ladd", "lsub", "lmul", "land", "lor", "lxor", "lshl", "lshr", "lushr"):
            b, a = s.pop(), s.pop()
            s.append(self.arith(st, op, a, b))
        elif op in ("idiv", "irem", "ldiv", "lrem"):
            b, a = s.pop(), s.pop()
            out = []
            for s2, z in self.split(st, eq(b, 0)):
                if z:
                    out.append(self.throw(s2, "ArithmeticException"))
                else:
                    f = fr.fork(s2)
                    f.stk.append(self.arith(s2, op, a, b))
                    f.pc += 1
                    out.append(f)
            return out
        elif op in ("ineg", "lneg"):
            a = s.pop()
            s.append(self.fit(st, -a, "I" if op == "ineg" else "J"))
        elif op == "iinc":
            loc[ins.arg[0]] = self.fit(st, add(loc[ins.arg[0]], ins.arg[1]), "I")
        elif op in ("getfield",):
            return self.getfield(fr, ins)
        elif op == "putfield":
            v, o = s.pop(), s.pop()
            if o is None:
                return [self.throw(st, "NullPointerException")]
            if isinstance(o, Maybe):
                raise Unsupported("field store through a maybe-null reference")
            ob = st.mut(o)
            n = ins.arg[1]
            d = self.field_desc(ins.arg[0], n)
            ob.f[n] = self.narrow(st, v, d)
        elif op == "getstatic":
            v = self.getstatic(st, ins.arg)
            s.append(v)
        elif op == "putstatic":
            cls, n = ins.arg[0], ins.arg[1]
            cls = self.static_owner(cls, n)
            if not self.in_clinit:
                st.ghost["static-write"] = True
                raise Unsupported("assignment to the static field %s.%s" % (cls, n))
            self.static_fields[(cls, n)] = s.pop()
        elif op in ("invokestatic", "invokevirtual", "invokeinterface", "invokespecial"):
            cls, name, desc, _ = ins.arg
            n = len(self.desc(desc)[0]) + (0 if op == "invokestatic" else 1)
            args = s[len(s) - n:] if n else []
            if n:
                del s[len(s) - n:]
            return self.invoke(fr, op, cls, name, desc, args)
        elif op == "invokedynamic":
            self.indy(m, fr, ins)
        elif op in ("ireturn", "lreturn", "areturn", "dreturn", "freturn"):
            return [Out("ret", st, s.pop())]
        elif op == "return":
            return [Out("ret", st, None)]
        elif op == "dup":
            s.append(s[-1])
        elif op == "pop":
            s.pop()
        elif op == "new":
            cls = ins.arg
            if cls in self.prog.classes:
                self.ensure_init(cls)
                self.heap_base(st)
                s.append(st.new(cls, self.blank(cls)))
            else:
                s.append(st.new(cls, {}, {"fresh": True}))
        elif op == "checkcast":
            v = s[-1]
            if v is None:
                fr.pc += 1
                return None
            out = []
            for s2, ok in self.instance(st, v, ins.arg):
                if ok:
                    f = fr.fork(s2)
                    f.pc += 1
                    out.append(f)
                else:
                    out.append(self.throw(s2, "ClassCastException"))
            return out
        elif op == "instanceof":
            v = s.pop()
            if v is None:
                s.append(0)
                fr.pc += 1
                return None
            out = []
            for s2, ok in self.instance(st, v, ins.arg):
                f = fr.fork(s2)
                f.stk.append(1 if ok else 0)
                f.pc += 1
                out.append(f)
            if len(out) > 1:
                for f in out:
                    f.forked.add(fr.pc)
                    f.forked.add(fr.pc + 1)
            return out
        elif op == "athrow":
            v = s.pop()
            if v is None:
                return [self.throw(st, "NullPointerException")]
            return [Out("throw", st, v)]
        elif op == "switch":
            v = s.pop()
            d, cases = ins.arg
            if not is_z(v):
                fr.pc = dict(cases).get(v, d)
                return None
            out, rest = [], []
            for k, t in cases:
                rest.append(Not(eq(v, k)))
                if check(st.pc + [eq(v, k)]) != "unsat":
                    f = fr.fork(st.fork())
                    f.st.add(eq(v, k))
                    f.forked.add(fr.pc)
                    f.pc = t
                    out.append(f)
            if check(st.pc + rest) != "unsat":
                st.add(*rest)
                f = fr.fork(st)
                f.forked.add(fr.pc)
                f.pc = d
                out.append(f)
            return out
        elif op == "aconst_null":
            s.append(None)
        elif op == "i2l":
            pass
        elif op in ("l2i", "i2b", "i2c", "i2s"):
            s.append(self.fit(st, s.pop(), {"l2i": "I", "i2b": "B", "i2c": "C", "i2s": "S"}[op]))
        elif op == "lcmp":
            b, a = s.pop(), s.pop()
            s.append(If(lt(a, b), -1, If(eq(a, b), 0, 1)))
        elif op in ("dup_x1", "dup_x2", "dup2", "dup2_x1", "dup2_x2", "pop2", "swap"):
            self.stack_op(m, fr, op)
        elif op == "arraylength":
            a = s.pop()
            if a is None:
                return [self.throw(st, "NullPointerException")]
            s.append(self.alen(st, a))
        elif op in ("newarray", "anewarray"):
            return self.newarray(fr, ins)
        elif op in ("caload", "baload", "iaload", "laload", "saload", "aaload", "daload", "faload"):
            i, a = s.pop(), s.pop()
            return self.aload(fr, a, i)
        elif op in ("castore", "bastore", "iastore", "lastore", "sastore", "aastore", "dastore", "fastore"):
            v, i, a = s.pop(), s.pop(), s.pop()
            return self.astore(fr, op, a, i, v)
        elif op == "nop" or op in ("monitorenter", "monitorexit"):
            if op != "nop":
                s.pop()
        elif op in self.jdk.FLOAT_OPS:
            r = self.jdk.FLOAT_OPS[op](self, st, s)
            if isinstance(r, list):
                out = []
                for s2, v in r:
                    f = fr.fork(s2)
                    f.stk.append(v)
                    f.pc += 1
                    out.append(f)
                return out
        else:
            raise Unsupported("instruction %s" % op)
        fr.pc += 1
        return None

    def desc(self, d):
        r = _descs.get(d)
        if r is None:
            from .classfile import parse_desc
            r = _descs[d] = parse_desc(d)
        return r

    def stack_op(self, m, fr, op):
        # long and double values occupy a single entry here; a static pass tells which entries those are
        s = fr.stk
        from .loops import widths
        w = widths(m)[fr.pc]
        if op == "dup_x1":
            b, a = s.pop(), s.pop()
            s += [b, a, b]
        elif op == "swap":
            b, a = s.pop(), s.pop()
            s += [b, a]
        elif op == "pop2":
            if w[-1] == 2:
                s.pop()
            else:
                s.pop(), s.pop()
        elif op == "dup2":
            s += s[-1:] if w[-1] == 2 else s[-2:]
        elif op == "dup_x2":
            n = 1 if w[-2] == 2 else 2
            s[len(s) - 1 - n:len(s) - 1] = [s[-1]] + s[len(s) - 1 - n:len(s) - 1]
        elif op in ("dup2_x1", "dup2_x2"):
            k = 1 if w[-1] == 2 else 2
            n = 1 if op == "dup2_x1" or w[-k - 1] == 2 else 2
            top, mid = s[len(s) - k:], s[len(s) - k - n:len(s) - k]
            s[len(s) - k - n:] = top + mid + top
        else:
            raise Unsupported("instruction %s" % op)

    def field_desc(self, cls, n):
        c = cls
        while c in self.prog.classes:
            if n in self.prog.classes[c].fields:
                return self.prog.classes[c].fields[n][1]
            c = self.prog.classes[c].super
        return "L"

    def narrow(self, st, v, d):
        return v

    def getfield(self, fr, ins):
        s, st = fr.stk, fr.st
        o = s.pop()
        cls, n = ins.arg[0], ins.arg[1]
        if o is None:
            return [self.throw(st, "NullPointerException")]
        if isinstance(o, Maybe):
            raise Unsupported("field of a maybe-null reference")
        ob = st.obj(o)
        if n in ob.f:
            v = ob.f[n]
            if callable(v):  # lazily created symbolic field
                v = v(self, st)
                st.mut(o).f[n] = v
            s.append(v)
            fr.pc += 1
            return None
        raise Unsupported("unknown field %s.%s of %s" % (cls, n, ob.cls))

    def static_owner(self, cls, n):
        for c in self.prog.supers(cls):
            k = self.prog.classes.get(c)
            if k and n in k.fields:
                return c
        return cls

    def getstatic(self, st, arg):
        cls, n, desc = arg[0], arg[1], arg[2]
        if cls in self.prog.classes:
            cls = self.static_owner(cls, n)
            self.ensure_init(cls)
            self.heap_base(st)
            if n == "$assertionsDisabled":
                return 1
            acc = self.prog.classes[cls].fields[n][0]
            if not acc & 16 and not self.in_clinit:
                raise Unsupported("read of the non-final static field %s.%s" % (cls, n))
            return self.static_fields[(cls, n)]
        return self.jdk.static(self, st, cls, n)

    def indy(self, m, fr, ins):
        bi, name, desc = ins.arg
        bm, bargs = m.cls.bootstrap[bi]
        args, ret = self.desc(desc)
        n = len(args)
        cap = fr.stk[len(fr.stk) - n:] if n else []
        if n:
            del fr.stk[len(fr.stk) - n:]
        if bm[2][0] != "java/lang/invoke/LambdaMetafactory":
            raise Unsupported("bootstrap %s" % (bm[2],))
        mh = bargs[1]
        if mh[1] in (5, 7, 9) and cap and cap[0] is None:
            raise Unsupported("closure over null")
        fr.stk.append(Lam(ret[1:-1], name, mh[1], mh[2], cap))

    def instance(self, st, v, cls):
        """[(state, bool)] for an instanceof test on a non-null value."""
        if isinstance(v, Maybe):
            raise Unsupported("type test of a maybe-null reference")
        if isinstance(v, Lam):
            return [(st, self.prog.subclass(v.iface, cls))]
        c = self.cls_of(st, v)
        if isinstance(v, Ref):
            o = st.obj(v)
            if o.d.get("exact", True) is False or "abs" in o.d:
                if self.prog.subclass(c, cls):
                    return [(st, True)]
                known = o.d.get("types", {})
                if cls in known:
                    return [(st, known[cls])]
                h = self.abs.get(o.d.get("abs"))
                r = h(self, st, v, "instanceof", cls, []) if h else NotImplemented
                if r is NotImplemented:
                    raise Unsupported("type test %s on abstract %s" % (cls, c))
                return r
        return [(st, self.prog.subclass(c, cls))]

    # ------------------------------------------------------------ arrays
    def alen(self, st, a):
        o = st.obj(a)
        if "elems" in o.d:
            return len(o.d["elems"])
        if "n" in o.d:
            return o.d["n"]
        return o.d["t"].len()

    def newarray(self, fr, ins):
        s, st = fr.stk, fr.st
        n = s.pop()
        if ins.op == "newarray":
            t = {4: "[Z", 5: "[C", 6: "[F", 7: "[D", 8: "[B", 9: "[S", 10: "[I", 11: "[J"}[ins.arg]
        else:
            t = "[" + ins.arg if ins.arg.startswith("[") else "[L%s;" % ins.arg
        out = []
        for s2, bad in self.split(st, lt(n, 0)):
            if bad:
                out.append(self.throw(s2, "NegativeArraySizeException"))
                continue
            f = fr.fork(s2)
            f.stk.append(self.make_array(s2, t, n))
            f.pc += 1
            out.append(f)
        return out

    def make_array(self, st, t, n):
        if t[1] in "ZCBSIJ":
            if not is_z(n) and n <= 4096:
                return st.new(t, {}, {"t": Vals([0] * n)})
            return st.new(t, {}, {"t": Rep(0, n)})
        if not is_z(n):
            return st.new(t, {}, {"elems": [self.zero(t[1:])] * n})
        # reference array of unknown length, being filled from the front
        return st.new(t, {}, {"n": n, "filled": 0, "cat": EMPTY, "seg": "fill"})

    def bounds_split(self, st, i, n):
        if not is_z(i) and not is_z(n):
            return [(st, 0 <= i < n)]
        return self.split(st, And(le(0, i), lt(i, n)))

    def aload(self, fr, a, i):
        st = fr.st
        if a is None:
            return [self.throw(st, "NullPointerException")]
        out = []
        for s2, ok in self.bounds_split(st, i, self.alen(st, a)):
            if not ok:
                out.append(self.throw(s2, "ArrayIndexOutOfBoundsException"))
                continue
            o = s2.obj(a)
            if "t" in o.d:
                f = fr.fork(s2)
                f.stk.append(o.d["t"].at(i))
                f.pc += 1
                out.append(f)
            elif "elems" in o.d:
                e = o.d["elems"]
                ic = self.concrete(s2, i)
                if ic is not None:
                    pick = [(s2, ic)]
                elif o.d.get("table"):
                    f = fr.fork(s2)
                    f.stk.append(o.d["table"](self, s2, i))
                    f.pc += 1
                    out.append(f)
                    continue
                elif self.lookup_rep(s2, a, e) is not None:
                    f = fr.fork(s2)
                    f.stk.append(self.lookup_obj(s2, e, i))
                    f.pc += 1
                    out.append(f)
                    continue
                else:
                    pick = self.fork(s2, [(eq(i, k), k) for k in range(len(e))])
                for s3, k in pick:
                    f = fr.fork(s3)
                    f.stk.append(e[k])
                    f.pc += 1
                    out.append(f)
            elif "seg" in o.d:
                for s3, v in self.abs["segarr"](self, s2, a, "load", None, [i]):
                    f = fr.fork(s3)
                    f.stk.append(v)
                    f.pc += 1
                    out.append(f)
            else:
                raise Unsupported("array load")
        return out

    def lookup_rep(self, st, a, e):
        """Table of equally shaped objects (a cache): element i has integer fields given by i."""
        if len(e) < 8 or not all(isinstance(x, Ref) for x in e):
            return None
        o0 = st.obj(e[0])
        for x in e:
            o = st.obj(x)
            if o.cls != o0.cls or o.d or o.f.keys() != o0.f.keys():
                return None
            for n, v in o.f.items():
                w = o0.f[n]
                if not (v is None and w is None or isinstance(v, Ref) and isinstance(w, Ref) and v.id == w.id or isinstance(v, int) and isinstance(w, int)):
                    return None
        return o0

    def lookup_obj(self, st, e, i):
        o0 = st.obj(e[0])
        f = {}
        for n in o0.f:
            vals = [st.obj(x).f[n] for x in e]
            if not isinstance(vals[0], int) or all(v == vals[0] for v in vals):
                f[n] = vals[0]
            elif all(vals[k] - vals[0] == k for k in range(len(vals))):
                f[n] = add(i, vals[0])
            else:
                f[n] = Vals(vals).at(i)
        return st.new(o0.cls, f, {"alias": True})

    def astore(self, fr, op, a, i, v):
        st = fr.st
        if a is None:
            return [self.throw(st, "NullPointerException")]
        t = {"c": "C", "b": "B", "i": "I", "l": "J", "s": "S"}.get(op[0])
        out = []
        for s2, ok in self.bounds_split(st, i, self.alen(st, a)):
            if not ok:
                out.append(self.throw(s2, "ArrayIndexOutOfBoundsException"))
                continue
            o = s2.mut(a)
            if "t" in o.d:
                v2 = self.fit(s2, v, t) if t else v
                ic = i if not is_z(i) else simp(i)
                if isinstance(o.d["t"], Vals) and not is_z(ic):
                    w = list(o.d["t"].v)
                    w[ic] = v2
                    o.d["t"] = Vals(w)
                else:
                    o.d["t"] = UpdT(o.d["t"], i, v2)
            elif "elems" in o.d:
                ic = self.concrete(s2, i)
                if ic is None:
                    raise Unsupported("store at an unknown index of an object array")
                e = list(o.d["elems"])
                e[ic] = v
                o.d["elems"] = e
            elif "seg" in o.d:
                self.abs["segarr"](self, s2, a, "store", None, [i, v])
            else:
                raise Unsupported("array store")
            f = fr.fork(s2)
            f.pc += 1
            out.append(f)
        return out

    # ------------------------------------------------------------ invoke
    def invoke(self, fr, op, cls, name, desc, args):
        st = fr.st
        if op == "invokespecial" and name == "<init>":
            recv = args[0]
            if isinstance(recv, Ref) and cls not in self.prog.classes:
                o = st.obj(recv)
                if cls == "java/lang/Object" or (o.cls in self.prog.classes):
                    if cls != "java/lang/Object":
                        self.jdk.super_init(self, st, recv, cls, desc, args[1:])
                    fr.pc += 1
                    return None
                if cls == "java/lang/String":
                    return self.new_string(fr, recv, desc, args[1:])
                outs = self.norm(st, self.jdk.init(self, st, recv, desc, args[1:]))
                return self.resume(fr, outs, "V")
        for k, a in enumerate(args):
            if isinstance(a, Maybe):
                if prove(st.pc, Not(a.isnull)):
                    args[k] = a.v
                elif prove(st.pc, a.isnull):
                    args[k] = None
        if args and isinstance(args[0], Maybe) and op != "invokestatic":
            out = []
            for s2, isn in self.split(st, args[0].isnull):
                if isn:
                    out.append(self.throw(s2, "NullPointerException"))
                else:
                    f = fr.fork(s2)
                    r = self.invoke(f, op, cls, name, desc, [args[0].v] + args[1:])
                    out += [f] if r is None else r
            return out
        outs = self.call_key(st, cls, name, desc, args, special=(op == "invokespecial"), static=(op == "invokestatic"))
        return self.resume(fr, outs, self.desc(desc)[1])

    def new_string(self, fr, recv, desc, args):
        """Strings are values: what the constructor makes takes the place of the new object."""
        res = []
        for o in self.norm(fr.st, self.jdk.string_init(self, fr.st, desc, args)):
            f = fr
            if o.kind == "ret":
                f = fr.fork(o.st)
                same = lambda x: isinstance(x, Ref) and x == recv
                f.stk = [o.v if same(x) else x for x in f.stk]
                f.loc = [o.v if same(x) else x for x in f.loc]
            res += self.resume(f, [o], "V")
        return res

    def resume(self, fr, outs, ret):
        res = []
        forked = len(outs) > 1
        for o in outs:
            if o.kind == "throw":
                res.append(o)
                continue
            f = fr.fork(o.st)
            if ret != "V":
                f.stk.append(o.v)
            if forked:
                # the next branch of this frame depends on a split inside the call
                for k in range(1, 4):
                    f.forked.add(fr.pc + k)
            f.pc += 1
            res.append(f)
        return res


class Maybe:
    """A reference that may be null."""
    __slots__ = ("isnull", "v")

    def __init__(self, isnull, v):
        self.isnull, self.v = isnull, v


_descs = {}
