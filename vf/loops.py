"""Control flow, and the cutting of loops at inferred invariants.

A loop whose guard the path does not decide is cut at its header: everything it changes becomes unknown, and
candidate invariants are kept exactly when they hold on entry and are preserved by every iteration (each one is
a proof obligation). The candidates come from templates over the roles of the changed values (counters, cursors
of iterators, texts being built), not from names in the source.
"""
import re
import z3
from . import smt, terms
from .smt import Z, is_z, prove, check, fresh_int, fresh_bool, fresh_name
from .terms import *
from .engine import Unsupported, Budget, Out, Frame, Ref, Str, Obj, Lam, Cls, Dbl, Maybe


DBG = False


class Loop:
    def __init__(self, head):
        self.head, self.body, self.guards = head, set(), set()


class Cfg:
    pass


USES = {"iload", "lload", "aload", "dload", "fload"}
DEFS = {"istore", "lstore", "astore", "dstore", "fstore"}


def succs(m, i):
    ins = m.code[i]
    if ins.op == "goto":
        return [ins.arg]
    if ins.op == "switch":
        return [ins.arg[0]] + [t for _, t in ins.arg[1]]
    if ins.op.startswith("if"):
        return [i + 1, ins.arg]
    if ins.op in ("ireturn", "lreturn", "areturn", "dreturn", "freturn", "return", "athrow"):
        return []
    return [i + 1]


def cfg(m):
    if m._cfg:
        return m._cfg
    c = Cfg()
    n = len(m.code)
    c.succ = [succs(m, i) for i in range(n)]
    hs = [[] for _ in range(n)]
    for a, b, h, _ in m.handlers:
        for i in range(a, b):
            hs[i].append(h)
    preds = [[] for _ in range(n)]
    for i in range(n):
        for j in c.succ[i] + hs[i]:
            preds[j].append(i)
    # back edges by depth-first search
    color, backs, stack = [0] * n, [], [(0, iter(c.succ[0] + hs[0]))]
    color[0] = 1
    while stack:
        u, it = stack[-1]
        for v in it:
            if color[v] == 1:
                backs.append((u, v))
            elif color[v] == 0:
                color[v] = 1
                stack.append((v, iter(c.succ[v] + hs[v])))
                break
        else:
            color[u] = 2
            stack.pop()
    c.loops = {}
    for u, h in backs:
        L = c.loops.setdefault(h, Loop(h))
        body, todo = {h}, [u]
        while todo:
            x = todo.pop()
            if x not in body:
                body.add(x)
                todo += preds[x]
        L.body |= body
    for L in c.loops.values():
        exits = {i for i in L.body if len(c.succ[i]) > 1 and any(j not in L.body for j in c.succ[i])}
        seen, todo = set(), [L.head]
        while todo:
            x = todo.pop()
            if x in seen or x not in L.body:
                continue
            seen.add(x)
            if x in exits:
                L.guards.add(x)
                continue
            todo += [j for j in c.succ[x] if j != L.head]
    # liveness of locals
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            out = set()
            for j in c.succ[i] + hs[i]:
                out |= live[j]
            ins = m.code[i]
            if ins.op in DEFS:
                out = out - {ins.arg}
            if ins.op in USES:
                out = out | {ins.arg}
            if ins.op == "iinc":
                out = out | {ins.arg[0]}
            if out != live[i]:
                live[i] = out
                changed = True
    c.live = live
    m._cfg = c
    return c


def widths(m):
    """Number of slots of every stack entry before each instruction."""
    if getattr(m, "_widths", None):
        return m._widths
    from .classfile import parse_desc
    w = {0: []}
    todo = [0]
    for _, _, h, _ in m.handlers:
        w[h] = [1]
        todo.append(h)
    W = lambda d: 2 if d in ("J", "D") else 1
    while todo:
        i = todo.pop()
        s = list(w[i])
        ins = m.code[i]
        op, a = ins.op, ins.arg
        if op == "const":
            s.append(2 if a[0] in ("J", "D") else 1)
        elif op in USES:
            s.append(2 if op[0] in "ld" else 1)
        elif op in DEFS:
            s.pop()
        elif op in ("aconst_null", "new"):
            s.append(1)
        elif op in ("getstatic", "getfield"):
            if op == "getfield":
                s.pop()
            s.append(W(a[2]))
        elif op in ("putstatic", "putfield"):
            s.pop()
            if op == "putfield":
                s.pop()
        elif op.startswith("invoke"):
            d = a[2]
            args, ret = parse_desc(d)
            n = len(args) + (0 if op in ("invokestatic", "invokedynamic") else 1)
            if n:
                del s[len(s) - n:]
            if ret != "V":
                s.append(W(ret))
        elif op in ("newarray", "anewarray", "arraylength", "checkcast", "instanceof", "ineg", "lneg", "dneg", "fneg", "iinc", "nop", "goto"):
            pass
        elif op in ("l2i", "d2i", "l2f", "d2f"):
            s[-1] = 1
        elif op in ("i2l", "f2l", "i2d", "f2d"):
            s[-1] = 2
        elif op in ("i2f", "f2i", "i2b", "i2c", "i2s", "l2d", "d2l"):
            pass
        elif op in ("lcmp", "dcmpl", "dcmpg", "fcmpl", "fcmpg"):
            del s[-2:]
            s.append(1)
        elif op == "dup":
            s.append(s[-1])
        elif op in ("pop", "monitorenter", "monitorexit", "switch", "ifnull", "ifnonnull", "ifeq", "ifne", "iflt", "ifge", "ifgt", "ifle"):
            s.pop()
        elif op.startswith("if_"):
            del s[-2:]
        elif op == "dup_x1":
            s[-2:] = [s[-1], s[-2], s[-1]]
        elif op == "swap":
            s[-2:] = [s[-1], s[-2]]
        elif op == "pop2":
            del s[-(1 if s[-1] == 2 else 2):]
        elif op == "dup2":
            s += s[-1:] if s[-1] == 2 else s[-2:]
        elif op == "dup_x2":
            n = 1 if s[-2] == 2 else 2
            s[len(s) - 1 - n:len(s) - 1] = [s[-1]] + s[len(s) - 1 - n:len(s) - 1]
        elif op in ("dup2_x1", "dup2_x2"):
            k = 1 if s[-1] == 2 else 2
            n = 1 if op == "dup2_x1" or s[-k - 1] == 2 else 2
            top, mid = s[len(s) - k:], s[len(s) - k - n:len(s) - k]
            s[len(s) - k - n:] = top + mid + top
        elif len(op) == 6 and op.endswith("aload") or op in ("caload", "baload", "iaload", "laload", "saload", "aaload", "daload", "faload"):
            del s[-2:]
            s.append(2 if op[0] in "ld" else 1)
        elif op.endswith("astore"):
            del s[-3:]
        elif op[1:] in ("add", "sub", "mul", "div", "rem", "and", "or", "xor", "shl", "shr", "ushr"):
            s.pop()
        elif op in ("ireturn", "lreturn", "areturn", "dreturn", "freturn", "return", "athrow"):
            pass
        else:
            raise Unsupported("stack effect of %s" % op)
        for j in succs(m, i):
            if j not in w:
                w[j] = s
                todo.append(j)
    m._widths = w
    return w


def slot_type(m, slot, body):
    ts = set()
    for a, b, nm, d, s in getattr(m, "lvt", []):
        if s == slot and any(a - 1 <= i < b for i in body):
            ts.add(d)
    if len(ts) == 1:
        return ts.pop()
    for i in body:
        ins = m.code[i]
        if ins.op in DEFS and ins.arg == slot:
            return {"i": "I", "l": "J", "a": "L", "d": "D", "f": "F"}[ins.op[0]]
    return "I"


class Loc:
    """A place changed by the loop."""

    def __init__(self, kind, key, t=None):
        self.kind, self.key, self.t = kind, key, t

    def get(self, fr):
        if self.kind == "l":
            return fr.loc[self.key]
        if self.kind == "g":
            return fr.st.ghost.get(self.key)
        if self.kind == "b":
            return fr.st.heap[self.key[0]].d["bits"].get(self.key[1], False)
        rid, w, k = self.key
        o = fr.st.heap[rid]
        return (o.f if w == "f" else o.d).get(k)

    def set(self, fr, v):
        if self.kind == "l":
            fr.loc[self.key] = v
        elif self.kind == "g":
            fr.st.ghost[self.key] = v
        elif self.kind == "b":
            o = fr.st.heap[self.key[0]].copy()
            o.d["bits"] = {**o.d["bits"], self.key[1]: v}
            fr.st.heap[self.key[0]] = o
        else:
            rid, w, k = self.key
            o = fr.st.heap[rid].copy()
            (o.f if w == "f" else o.d)[k] = v
            fr.st.heap[rid] = o

    def __repr__(self):
        return "%s%s" % (self.kind, self.key)

    def id(self):
        return (self.kind, self.key)


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (is_z(v) and v.sort() == z3.IntSort())


def isbool(v):
    return isinstance(v, bool) or (is_z(v) and v.sort() == z3.BoolSort())


def differ(a, b):
    if a is b:
        return False
    if is_z(a) and is_z(b):
        return not a.eq(b)
    if isinstance(a, S) or isinstance(b, S):
        return not (isinstance(a, Lit) and isinstance(b, Lit) and a.s == b.s)
    if isinstance(a, Str) and isinstance(b, Str):
        return differ(a.t, b.t)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id != b.id
    if isinstance(a, list) and isinstance(b, list):
        return len(a) != len(b) or any(differ(x, y) for x, y in zip(a, b))
    if is_z(a) or is_z(b):
        return True
    return a != b


class Havoc:
    def __init__(self):
        self.vars = set()


def free_consts(e, cache={}):
    i = e.get_id()
    if i in cache:
        return cache[i][1]
    out, seen, todo = set(), set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
        else:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(x.decl().name())
            todo.extend(x.arg(j) for j in range(x.num_args()))
    cache[i] = (e, out)
    return out


class Gen_:
    """State of one generalisation."""

    def __init__(self, E, m, cfg, fr, h):
        self.E, self.m, self.cfg, self.h, self.L = E, m, cfg, h, cfg.loops[h]
        self.init = fr
        self.locs = []
        self.ints, self.defs, self.qs, self.inv = [], {}, [], []
        self.joint, self.exact = [], {}

    def start(self, texts, invs, qs):
        """Header state with unknown values, assumed invariants and defined texts."""
        E, fr = self.E, self.init
        f = fr.fork(fr.st.fork())
        f.visits = {k: v for k, v in f.visits.items() if k not in self.L.body or k == self.h}
        f.forked = f.forked - self.L.body
        f.in_gen = None
        self.cur = {}
        self.hv = set()
        for lc in self.locs:
            v0 = lc.get(fr)
            v = self.fresh(f, lc, v0)
            lc.set(f, v)
            self.cur[lc.id()] = v
        for rid in {lc.key[0] for lc in self.locs if lc.kind == "h"}:
            o = f.st.heap[rid]
            h = E.abs.get(o.d.get("abs") or o.d.get("model"))
            if h and hasattr(h, "facts"):
                f.st.add(h.facts(E, f.st, o))
        for lc in self.locs:
            if lc.id() in self.exact:
                lc.set(f, self.exact[lc.id()](lambda l2: l2.get(f)))
        for lc in self.locs:
            if lc.id() in texts:
                v = texts[lc.id()](lambda l2: l2.get(f))
                lc.set(f, Str(v) if isinstance(lc.get(f), Str) else v)
        for r, c, T0 in self.joint:
            o = f.st.mut(r.get(f))
            n = o.d["V"].len()
            f.st.add(le(n, T0.len()))
            o.d["V"] = substr(T0, 0, n)
            c.set(f, substr(T0, n, T0.len()))
        for c in invs:
            f.st.add(c(lambda lc: lc.get(f)))
        for q in qs:
            f.st.add(q(lambda lc: lc.get(f)))
        f.pc0 = len(f.st.pc)
        return f

    def fresh(self, f, lc, v0):
        E = self.E
        if isint(v0):
            t = lc.t or "I"
            v = var(fresh_name("h"), t if t in RANGE else "I")
            self.hv.add(v.decl().name())
            f.st.add(in_range(v, t if t in RANGE else "I"))
            return v
        if isbool(v0):
            b = fresh_bool("hb")
            self.hv.add(b.decl().name())
            return b
        if isinstance(v0, (S, Str)):
            t0 = v0.t if isinstance(v0, Str) else v0
            arr = lc.kind == "h" and lc.key[2] == "t"
            if arr:
                cls = f.st.heap[lc.key[0]].cls
                t = Opq(fresh_name("ha"), t0.len(), RANGE.get(cls[1]))
            else:
                n = var(fresh_name("hn"), (0, MAXI))
                f.st.add(n >= 0, n <= MAXI)
                self.hv.add(n.decl().name())
                t = Opq(fresh_name("ht"), n)
            self.hv.add(t.name)
            return Str(t) if isinstance(v0, Str) else t
        if isinstance(v0, Ref):
            h = E.abs.get("havoc-ref")
            r = h(E, f.st, v0, self) if h else None
            if r is not None:
                return r
        raise Unsupported("loop changes a value of kind %s (%r)" % (type(v0).__name__, lc))

    def run(self, f):
        E = self.E
        obs = E.obs
        E.obs = []
        try:
            outs, handed = E.run_frames(self.m, self.cfg, [f.fork(f.st.fork())], stop=(self.h, self.L.body))
        finally:
            new, E.obs = E.obs, obs
        return outs, handed, new

    def explore(self, f):
        """One iteration from any values at all, to see what it changes."""
        was, self.E.discovering = self.E.discovering, True
        try:
            return self.run(f)
        finally:
            self.E.discovering = was

    def discover(self):
        """Places changed by an iteration, to a fixed point."""
        E, fr, L = self.E, self.init, self.L
        live = self.cfg.live[self.h]
        stored = set()
        for i in L.body:
            ins = self.m.code[i]
            if ins.op in DEFS:
                stored.add(ins.arg)
            if ins.op == "iinc":
                stored.add(ins.arg[0])
        for s in range(len(fr.loc)):
            if s not in live:
                fr.loc[s] = None
        for s in sorted(stored & live):
            self.locs.append(Loc("l", s, slot_type(self.m, s, L.body)))
        for rnd in range(8):
            f = self.start({}, [], [])
            base = f.st.heap
            gh = f.st.ghost
            outs, handed, _ = self.explore(f)
            backs = [x for x, k in handed if k == "back"]
            have = {lc.id() for lc in self.locs}
            new = []
            for b in backs:
                for rid, o in b.st.heap.items():
                    o0 = base.get(rid)
                    if o0 is None or o0 is o:
                        continue
                    for w, x, y in (("f", o0.f, o.f), ("d", o0.d, o.d)):
                        for k in set(x) | set(y):
                            if k in ("abs", "types", "msg"):
                                continue
                            if k == "bits":
                                for e in set(x.get(k, {})) | set(y.get(k, {})):
                                    lc = Loc("b", (rid, e))
                                    if lc.id() not in have and differ(x.get(k, {}).get(e, False), y.get(k, {}).get(e, False)):
                                        have.add(lc.id())
                                        new.append(lc)
                                continue
                            if differ(x.get(k), y.get(k)):
                                if k == "elems" or (isinstance(x.get(k), list)):
                                    conv = E.abs.get("listify")
                                    if conv and conv(E, fr.st, rid):
                                        return self.rediscover()
                                    raise Unsupported("loop changes a list")
                                lc = Loc("h", (rid, w, k), self.ftype(o, w, k))
                                if lc.id() not in have:
                                    have.add(lc.id())
                                    new.append(lc)
                for k in set(gh) | set(b.st.ghost):
                    if differ(gh.get(k), b.st.ghost.get(k)):
                        lc = Loc("g", k)
                        if lc.id() not in have:
                            have.add(lc.id())
                            new.append(lc)
            # locals that iterations leave alone need no havoc
            if not new:
                return backs, f
            self.locs += new
        raise Unsupported("changes of the loop not found")

    def rediscover(self):
        self.locs = []
        return self.discover()

    def ftype(self, o, w, k):
        if w == "f":
            d = self.E.field_desc(o.cls, k)
            return d if d in RANGE else None
        return (0, 2**40) if k in ("pos", "n", "filled", "idx") else None


def generalise(E, m, cfg, fr, h):
    g = Gen_(E, m, cfg, fr, h)
    try:
        return _generalise(g)
    except Unsupported as e:
        if isinstance(e, Budget):
            raise
        raise


def _generalise(g):
    E, fr = g.E, g.init
    backs, f = g.discover()
    if E.discovering:
        # only the changed places are asked for
        outs, handed, _ = g.run(g.start({}, [], []))
        return leave(g, fr, outs, handed)
    ints = [lc for lc in g.locs if isint(lc.get(fr))]
    bools = [lc for lc in g.locs if isbool(lc.get(fr))]
    texts = [lc for lc in g.locs if isinstance(lc.get(fr), (S, Str))]
    init = {lc.id(): lc.get(fr) for lc in g.locs}
    for lc in ints + bools:
        init[lc.id()] = Z(init[lc.id()])
    pc0 = len(f.st.pc)

    # --- candidate facts about integers
    cands = []

    def cand(fn, *fixes):
        fn.fixes = fixes
        cands.append(fn)

    for a in ints:
        i0 = init[a.id()]
        cand(lambda R, a=a, i0=i0: Z(R(a)) >= i0)
        cand(lambda R, a=a, i0=i0: Z(R(a)) <= i0)
        for c in (0, 65535, -1, 1):
            cand(lambda R, a=a, c=c: Z(R(a)) >= c)
            cand(lambda R, a=a, c=c: Z(R(a)) <= c)
        for b in ints:
            if b is a:
                continue
            j0 = init[b.id()]
            if a.id() < b.id() if a.kind == b.kind == "l" else str(a.id()) < str(b.id()):
                for k in (1, -1):
                    fn = lambda R, a=a, b=b, i0=i0, j0=j0, k=k: Z(R(a)) - i0 == k * (Z(R(b)) - j0)
                    fn.tie = (a, b, i0, j0, k)
                    cand(fn, a, b)
            cand(lambda R, a=a, b=b, i0=i0, j0=j0: Z(R(a)) == z3.If(i0 - (Z(R(b)) - j0) >= 0, i0 - (Z(R(b)) - j0), Z(0)), a)
    for b in bools:
        cand(lambda R, b=b, b0=init[b.id()]: Z(R(b)) == b0)
        for a in ints:
            cand(lambda R, a=a, b=b, b0=init[b.id()], i0=init[a.id()]: z3.Or(Z(R(b)) == b0, Z(R(a)) > i0))
    # size and text of a list
    for a in ints:
        if a.kind == "h" and a.key[2] == "n":
            for t in texts:
                if t.kind == "h" and t.key[0] == a.key[0] and t.key[2] == "cat":
                    cand(lambda R, a=a, t=t: Z(Implies(eq(R(a), 0), eq(R(t).len(), 0))))
    # lengths of the elements met so far
    offs = {o.d["off"].name(): o.d["off"] for o in fr.st.heap.values() if "off" in o.d}
    for off in list(offs.values())[:3]:
        for a in ints:
            for b in ints:
                for d, k in ((0, 1), (1, -1)) if b is not a else ():
                    i0, j0 = init[a.id()], init[b.id()]
                    cand(lambda R, a=a, b=b, i0=i0, j0=j0, d=d, k=k, off=off: Z(R(a)) == i0 + k * (off(Z(simp(add(R(b), d)))) - off(Z(simp(add(j0, d))))), a)
    hook = E.abs.get("loop-facts")
    if hook:
        for fn, fixes in hook(E, fr.st, g, ints, bools, init):
            cand(fn, *fixes)
    # bounds met in conditions of the body
    names = {}
    for lc in ints:
        v = g.cur[lc.id()]
        names[v.decl().name()] = lc
    exprs = {}

    def atoms(e, depth=0):
        if depth > 6 or not is_z(e):
            return
        if z3.is_and(e) or z3.is_or(e) or z3.is_not(e):
            for x in e.children():
                atoms(x, depth + 1)
        elif z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and e.arg(0).sort() == z3.IntSort():
            d = z3.simplify(e.arg(0) - e.arg(1))
            for nm, lc in names.items():
                v = g.cur[lc.id()]
                if nm in free_consts(d):
                    for sgn in (1, -1):
                        rest = z3.simplify(v - sgn * d) if sgn == 1 else z3.simplify(v + d)
                        if nm not in free_consts(rest) and not (free_consts(rest) & g.hv):
                            exprs[(lc.id(), rest.sexpr())] = (lc, rest)

    for b in backs:
        for c in b.st.pc[pc0:]:
            if not isinstance(c, smt.Q):
                atoms(c)
    outs0, handed0, _ = g.explore(g.start({}, [], []))
    for x in [y for y, k in handed0] + outs0:
        for c in x.st.pc[pc0:]:
            if not isinstance(c, smt.Q):
                atoms(c)
    for lc, e in list(exprs.values())[:24]:
        for d in (-1, 0, 1):
            cand(lambda R, lc=lc, e=e, d=d: Z(R(lc)) <= e + d)
            cand(lambda R, lc=lc, e=e, d=d: Z(R(lc)) >= e + d)
    for a in ints:
        for v in steady(g, fr):
            for d in (-1, 0, 1) if is_z(v) else ():
                cand(lambda R, a=a, v=v, d=d: Z(R(a)) <= v + d)
                cand(lambda R, a=a, v=v, d=d: Z(R(a)) >= v + d)
    R0 = lambda lc: lc.get(fr)
    cands = [c for c in cands if prove(fr.st.pc, c(R0))]

    # --- Houdini on the integer facts
    def preserved(cs, b):
        """Candidates among cs that hold after the iteration path b."""
        R = lambda lc: lc.get(b)
        todo = [(c, Z(c(R))) for c in cs]
        for _ in range(12):
            if not todo:
                return []
            r, mod = check(list(b.st.pc) + [z3.Not(z3.And(*[t for _, t in todo]))], want_model=True)
            if r == "unsat":
                return [c for c, _ in todo]
            if r != "sat":
                break
            keep = [(c, t) for c, t in todo if not z3.is_false(mod.eval(t, model_completion=True))]
            if len(keep) == len(todo):
                break
            todo = keep
        return [c for c, t in todo if prove(b.st.pc, t)]

    def houdini(cands, texts_, qs):
        while True:
            f = g.start(texts_, cands, qs)
            outs, handed, obs = g.run(f)
            keep = cands
            for b, k in handed:
                if k == "back":
                    keep = preserved(keep, b)
            if len(keep) == len(cands):
                return cands, f, outs, handed, obs
            cands = keep

    # --- a node taken apart and the stack that receives the rest: together they are the same text
    pairs_ = [(r, c) for r in g.locs if isinstance(r.get(fr), Ref) and r.kind == "l" for c in texts if c.kind == "h" and c.key[2] == "cat"]
    for r, c in pairs_:
        try:
            T0 = cat(E.abs["text-of"](E, fr.st, r.get(fr)), c.get(fr))
        except Unsupported:
            continue
        g.joint = [(r, c, T0)]
        _, hd, _ = g.run(g.start({}, cands, []))
        if all(same_text(b.st.pc, cat(E.abs["text-of"](E, b.st, r.get(b)), c.get(b)), T0) for b, k in hd if k == "back"):
            break
        g.joint = []
    all_cands = cands
    cands, f, outs, handed, obs = houdini(cands, {}, [])
    if any(not same_text(b.st.pc, cat(E.abs["text-of"](E, b.st, r.get(b)), c.get(b)), T0) for r, c, T0 in g.joint for b, k in handed if k == "back"):
        g.joint = []
        cands, f, outs, handed, obs = houdini(all_cands, {}, [])

    # --- values that depend on the counter piece by piece
    loose = undetermined(g, f, handed, ints, cands)
    if loose:
        more = [c for c in piecewise(g, f, handed, ints, loose, init) if prove(fr.st.pc, c(R0))]
        if more:
            cands, f, outs, handed, obs = houdini(cands + more, {}, [])
            loose = undetermined(g, f, handed, ints, cands)
    # --- values tied to a counter are written in terms of it
    cnt = {a.id() for a, _ in counters(g, f, [b for b, k in handed if k == "back"], ints)}
    for c in cands:
        if hasattr(c, "tie"):
            a, b, i0, j0, k = c.tie
            for x, y, x0, y0 in ((a, b, i0, j0), (b, a, j0, i0)):
                if x.id() not in cnt and y.id() in cnt and x.id() not in g.exact:
                    g.exact[x.id()] = lambda R, y=y, x0=x0, y0=y0, k=k: simp(add(x0, sub(Z(R(y)), y0) if k == 1 else sub(y0, Z(R(y)))))
    if g.exact:
        f = g.start({}, cands, [])
        outs, handed, obs = g.run(f)
    # --- repeated division by a constant
    if loose:
        n = len(g.exact)
        for x, fn in divided(g, f, handed, ints, loose, init):
            if x.id() in g.exact:
                continue
            g.exact[x.id()] = fn
            f2 = g.start({}, cands, [])
            _, h2, _ = g.run(f2)
            if not all(prove(b.st.pc, Z(x.get(b)) == fn(lambda l2: l2.get(b))) for b, k in h2 if k == "back"):
                del g.exact[x.id()]
        if len(g.exact) > n:
            cands, f, outs, handed, obs = houdini(cands, {}, [])
            loose = [x for x in loose if x.id() not in g.exact]
    if loose:
        res = unrolled(g)
        if res is not None:
            return res
    def carried(q, texts_, qs):
        """Whether the fact about all numbers in a range survives every way through the body."""
        _, h2, _ = g.run(g.start(texts_, cands, qs + [q]))
        for b, k in h2:
            if k != "back":
                continue
            qq = q(lambda l2: l2.get(b))
            sk = fresh_int("sk")
            if not prove(b.st.pc, Implies(And(le(qq.lo, sk), lt(sk, qq.hi)), qq.body(sk))):
                return False
        return True

    qs = []
    if loose:
        for x, fact, q in last_match(g, f, handed, len(f.st.pc), init, ints, loose):
            if not any(x is y for y in loose) or not carried(q, {}, qs):
                continue
            n = len(cands)
            cands, f, outs, handed, obs = houdini(cands + [fact], {}, qs + [q])
            if len(cands) > n:
                qs.append(q)
                loose = [y for y in loose if y is not x]
    for lc in loose:
        fr.st.weak.append("loop value in %s line %d" % (g.m.key, g.m.code[g.h].line))

    # --- texts
    chosen = {}
    sources = find_sources(g, fr, ints)
    for lc in texts:
        if any(lc is c for _, c, _ in g.joint):
            continue
        opts = text_templates(g, fr, lc, init, ints, sources, handed, f)
        for t in opts:
            v0 = lc.get(fr)
            t0 = v0.t if isinstance(v0, Str) else v0
            if not same_text(fr.st.pc, t0, t(R0)):
                DBG and print("   entry fails", lc, t(R0))
                continue
            trial = dict(chosen)
            trial[lc.id()] = t
            f2 = g.start(trial, cands, qs)
            o2, h2, _ = g.run(f2)
            ok = True
            for b, k in h2:
                if k != "back":
                    continue
                v = lc.get(b)
                v = v.t if isinstance(v, Str) else v
                if not same_text(b.st.pc, v, t(lambda l2: l2.get(b))):
                    ok = False
                    DBG and print("   step fails", lc, "\n     ", v, "\n     ", t(lambda l2: l2.get(b)))
                    break
            if ok:
                chosen = trial
                break
        else:
            E.notes.add("loop in %s: a text is left unknown" % g.m.key)
            fr.st.weak.append("loop text in %s line %d" % (g.m.key, g.m.code[g.h].line))
    # --- characters seen before
    hook = E.abs.get("loop-quants")
    for q in quantified(g, fr, init, ints, sources) + (hook(E, fr.st, g, ints, init) if hook else []):
        if carried(q, chosen, qs):
            qs.append(q)
    def again():
        f = g.start(chosen, cands, qs)
        return (f,) + g.run(f)

    if chosen or qs or len(f.st.weak) != len(fr.st.weak):
        f, outs, handed, obs = again()
    q3 = previous_iterations(g, fr, f, handed, len(f.st.pc), init, ints)
    if q3:
        qs = qs + q3
        f, outs, handed, obs = again()
    elif hook and not qs and not any(lc.kind == "h" and lc.key[2] == "upto" for lc in g.locs):
        fr.st.weak.append("loop over text in %s line %d" % (g.m.key, g.m.code[g.h].line))
        f, outs, handed, obs = again()
    E.obs += obs
    from .engine import Ob
    nb = sum(1 for _, k in handed if k == "back")
    E.obs.append(Ob("loop invariant of %s (line %d): entry and %d iteration paths, %d facts" % (
        g.m.key.split("/")[-1], g.m.code[g.h].line, nb, len(cands) + len(chosen) + len(qs)), "proved"))
    return leave(g, fr, outs, handed)


def unrolled(g, most=24, width=4):
    """All paths of a loop over plain numbers that ends after a few iterations; None if it does not."""
    if any("invoke" in g.m.code[i].op for i in g.L.body) or len(g.L.body) > 60:
        return None
    E, fr, res, obs, work = g.E, g.init, [], [], [g.init]
    for _ in range(most):
        backs = []
        for x in work:
            f = x.fork(x.st.fork())
            f.visits = {k: v for k, v in f.visits.items() if k not in g.L.body or k == g.h}
            f.forked = f.forked - g.L.body
            f.in_gen = None
            outs, handed, new = g.run(f)
            obs += new
            res += leave(g, fr, outs, handed)
            backs += [b for b, k in handed if k == "back" and check(b.st.pc) != "unsat"]
        if len(backs) > width:
            return None
        if not backs:
            E.obs += obs
            return res
        work = backs
    return None


def steady(g, fr):
    """Integers in local variables that the loop leaves alone."""
    moved = {lc.key for lc in g.locs if lc.kind == "l"}
    out = {}
    for slot, v in enumerate(fr.loc):
        if slot not in moved and isint(v):
            out[Z(v).sexpr()] = v
    return list(out.values())[:8]


def leave(g, fr, outs, handed):
    res = list(outs)
    for b, k in handed:
        if k == "exit":
            b.in_gen = fr.in_gen
            b.visits = {k2: v for k2, v in b.visits.items() if k2 not in g.L.body}
            b.forked = b.forked - g.L.body
            res.append(b)
    return res


def undetermined(g, f, handed, ints, cands):
    """Changed integers that are neither counters nor tied to another value by an equation."""
    backs = [b for b, k in handed if k == "back"]
    fixed = {a.id() for a, _ in counters(g, f, backs, ints)}
    for c in cands:
        fixed |= {a.id() for a in getattr(c, "fixes", ())}
    out = []
    for a in ints:
        if a.id() in fixed or all(Z(a.get(b)).eq(Z(a.get(f))) for b in backs):
            continue
        i = Z(a.get(f))
        if all(prove(b.st.pc, Z(a.get(b)) == i) for b in backs):
            continue
        out.append(a)
    return out


def divided(g, f, handed, ints, loose, init):
    """x is its start value divided by a constant as often as a counter moved."""
    from . import jdk
    backs = [b for b, k in handed if k == "back"]
    out = []
    for x in loose:
        ks = set()
        for b in backs:
            todo = [Z(x.get(b))]
            while todo:
                e = todo.pop()
                if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)):
                    ks.add(e.arg(1).as_long())
                todo += e.children()
        for c in ks:
            if c < 2:
                continue
            for a, s in counters(g, f, backs, ints):
                x0, i0 = init[x.id()], init[a.id()]
                if not prove(g.init.st.pc, x0 >= 0):
                    continue
                out.append((x, lambda R, a=a, s=s, x0=x0, i0=i0, c=c: jdk.shifted(c, x0, sub(Z(R(a)), i0) if s == 1 else sub(i0, Z(R(a))))))
    return out


def breakpoints(g, backs, i, n0):
    """Terms the counter is compared with anywhere in an iteration."""
    nm, out, seen = i.decl().name(), {}, set()

    def scan(e):
        todo = [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and x.arg(0).sort() == z3.IntSort() and nm in free_consts(x):
                    d = z3.simplify(x.arg(0) - x.arg(1))
                    for rest in (z3.simplify(i - d), z3.simplify(i + d)):
                        if nm not in free_consts(rest) and not (free_consts(rest) & g.hv):
                            out[rest.sexpr()] = rest
                todo.extend(x.children())
    for b in backs:
        for c in b.st.pc[n0:]:
            if not isinstance(c, smt.Q) and is_z(c):
                scan(c)
    return list(out.values())


def piecewise(g, f, handed, ints, loose, init):
    """Candidates x = x0 + [ramp from a breakpoint] +- [step at a breakpoint] in terms of a counter."""
    backs = [b for b, k in handed if k == "back"]
    out = []
    for a, s in counters(g, f, backs, ints):
        if s != 1:
            continue
        i0 = init[a.id()]
        bps = {Z(i0).sexpr(): Z(i0)}
        for e in breakpoints(g, backs, a.get(f), g_pc(f)):
            for d in (0, -1):
                t = z3.simplify(e + d)
                bps[t.sexpr()] = t
        bps = list(bps.values())[:12]
        ramp = lambda i, b: z3.If(i > b, i - b, Z(0))
        step = lambda i, b: z3.If(i > b, Z(1), Z(0))
        for x in loose:
            x0 = init[x.id()]

            def c(fn, x=x):
                fn.fixes = (x,)
                out.append(fn)
            for b in bps:
                c(lambda R, x=x, a=a, b=b, x0=x0: Z(R(x)) == x0 + step(Z(R(a)), b))
                c(lambda R, x=x, a=a, b=b, x0=x0: Z(R(x)) == x0 + ramp(Z(R(a)), b))
                for b2 in bps:
                    for k in (1, -1):
                        c(lambda R, x=x, a=a, b=b, b2=b2, k=k, x0=x0: Z(R(x)) == x0 + ramp(Z(R(a)), b) + k * step(Z(R(a)), b2))
    return out


def find_sources(g, fr, ints):
    """Texts with a cursor that the loop moves: (text of prefix up to the cursor, cursor location)."""
    E, out = g.E, []
    for lc in g.locs:
        if lc.kind == "h" and lc.key[2] == "pos":
            V = fr.st.heap[lc.key[0]].d.get("V")
            if V is not None:
                p0 = lc.get(fr)
                out.append((V, lambda R, lc=lc: R(lc), p0, lc))
    segs = []
    for rid, o in fr.st.heap.items():
        if "off" in o.d and o.d.get("V") is not None:
            segs.append(o)
    for o in segs:
        for lc in ints:
            off = o.d["off"]
            i0 = lc.get(fr)
            out.append((o.d["V"], lambda R, lc=lc, off=off: off(Z(R(lc))), off(Z(i0)), lc))
            out.append((o.d["V"], lambda R, lc=lc, off=off: off(Z(R(lc)) + 1), off(Z(i0) + 1), lc))
    return out


def text_templates(g, fr, lc, init, ints, sources, handed, f):
    x0 = init[lc.id()]
    x0 = x0.t if isinstance(x0, Str) else x0
    out = []
    arr = lc.kind == "h" and lc.key[2] == "t"
    if not arr:
        for V, p, p0, plc in sources:
            for fn in (lambda t: t, upper):
                out.append(lambda R, V=V, p=p, p0=p0, fn=fn: cat(x0, fn(substr(V, p0, p(R)))))
                out.append(lambda R, V=V, p=p, p0=p0, fn=fn: cat(fn(substr(V, p(R), p0)), x0))
                out.append(lambda R, V=V, p=p, p0=p0, fn=fn: cat(fn(substr(V, p(R), V.len())), x0))
            for a in ints:
                e = init[a.id()]
                out.append(lambda R, V=V, p=p, e=e: cat(x0, substr(V, e, imax(e, p(R)))))
            if plc.kind == "h":
                for e in steady(g, fr):
                    for h in steady(g, fr):
                        if e is not h:
                            out.append(lambda R, V=V, p=p, e=e, h=h: cat(x0, substr(V, e, imax(e, imin(p(R), h)))))
    # one character per iteration, given by a counter
    backs = [b for b, k in handed if k == "back"]
    steps = counters(g, f, backs, ints)
    cur = lc.get(f)
    cur = cur.t if isinstance(cur, Str) else cur
    for a, s in steps:
        i = a.get(f)
        i0 = init[a.id()]
        name = i.decl().name()
        if arr:
            phi = array_step(g, f, lc, backs, cur, i)
            if phi is None:
                continue
            phi, off = phi
            val = lambda k, phi=phi, off=off: phi(sub(k, off), x0.at(k))
            if s == 1:
                out.append(lambda R, a=a, i0=i0, val=val, off=off: Gen(x0.len(), lambda k: If(And(le(add(i0, off), k), lt(k, add(R(a), off))), val(k), x0.at(k))))
            else:
                out.append(lambda R, a=a, i0=i0, val=val, off=off: Gen(x0.len(), lambda k: If(And(lt(add(R(a), off), k), le(k, add(i0, off))), val(k), x0.at(k))))
        else:
            phi = append_step(g, f, lc, backs, cur, i)
            if phi is None:
                continue
            if s == 1:
                out.append(lambda R, a=a, i0=i0, phi=phi: cat(x0, Gen(sub(R(a), i0), lambda k: phi(add(i0, k)))))
            else:
                out.append(lambda R, a=a, i0=i0, phi=phi: cat(x0, Gen(sub(i0, R(a)), lambda k: phi(sub(i0, k)))))
    return out


def counters(g, f, backs, ints):
    out = []
    for a in ints:
        i = a.get(f)
        if not is_z(i) or not z3.is_const(i):
            continue
        ds = {str(simp(sub(Z(a.get(b)), i))) for b in backs}
        if len(ds) == 1 and ds & {"1", "-1"}:
            out.append((a, int(ds.pop())))
    return out


def append_step(g, f, lc, backs, cur, i):
    """Character appended by an iteration as a function of the counter."""
    cases = []
    n0 = g_pc(f)
    for b in backs:
        v = lc.get(b)
        v = v.t if isinstance(v, Str) else v
        if not (isinstance(v, Cat) and v.parts[0] is cur):
            return None
        rest = cat(*v.parts[1:])
        n = simp(rest.len())
        if is_z(n) or n != 1:
            return None
        cases.append((And(*[c for c in b.st.pc[n0:] if not isinstance(c, smt.Q)]), Z(rest.at(0))))
    if not cases:
        return None
    e = cases[-1][1]
    for c, x in cases[-2::-1]:
        e = If(c, x, e)
    bad = (free_consts(Z(e)) & g.hv) - {i.decl().name()}
    if bad:
        return None
    return lambda k: simp(z3.substitute(Z(e), (i, Z(k))))


def array_step(g, f, lc, backs, cur, i):
    """Value stored at the counter's index as a function of index and old value."""
    cases = []
    n0 = g_pc(f)
    offs = {str(simp(v.i - i)) for v in [lc.get(b) for b in backs] if isinstance(v, UpdT) and is_z(v.i)} or {"0"}
    if len(offs) != 1 or not re.fullmatch(r"-?\d+", next(iter(offs))):
        return None
    off = int(next(iter(offs)))
    for b in backs:
        v = lc.get(b)
        if v is cur:
            val = cur.at(add(i, off))
        elif isinstance(v, UpdT) and v.s is cur and is_z(v.i):
            val = v.v
        else:
            return None
        cases.append((And(*[c for c in b.st.pc[n0:] if not isinstance(c, smt.Q)]), Z(val)))
    if not cases:
        return None
    e = cases[-1][1]
    for c, x in cases[-2::-1]:
        e = If(c, x, e)
    old = z3.Int(fresh_name("old"))
    e = z3.substitute(Z(e), (Z(cur.at(add(i, off))), old))
    if (free_consts(e) & g.hv) - {i.decl().name()}:
        return None
    return lambda k, o: simp(z3.substitute(e, (i, Z(k)), (old, Z(o)))), off


def g_pc(f):
    return f.pc0


def quantified(g, fr, init, ints, sources):
    """Candidates: no character before the cursor equals some character in scope."""
    out = []
    chars = []
    for slot in range(len(fr.loc)):
        v = fr.loc[slot]
        if isint(v) and is_z(v):
            b = bounds(v)
            if b and b[0] >= 0 and b[1] <= 65535 and not any(l.kind == "l" and l.key == slot for l in g.locs):
                chars.append(v)
    for V, p, p0, plc in sources:
        if plc.kind != "h":
            continue
        base, off = V, 0
        while isinstance(base, SubT):
            off, base = add(off, base.a), base.s
        if not isinstance(base, Opq):
            continue
        for c in chars:
            out.append(lambda R, V=V, p=p, p0=p0, c=c, base=base, off=off: smt.Q(
                p0, p(R), lambda k: Z(V.at(k)) != c, [(base.name, Z(off))]))
    return out


def ways(g, f, backs, n0, i):
    """What holds of the counter value i after each way through the body; None if nothing is known of one."""
    nm = i.decl().name()
    existing = set()
    for c in f.st.pc[:n0]:
        if not isinstance(c, smt.Q):
            existing |= free_consts(Z(c))
    alts = []
    for b in backs:
        conj, fixed = [], []
        for c in b.st.pc[n0:]:
            if isinstance(c, smt.Q):
                continue
            fv = free_consts(Z(c))
            if not fv & g.hv and fv <= existing:
                fixed.append(c)  # which of the ways through the body: the same every time
                continue
            if (fv & g.hv) - {nm} or nm not in fv:
                continue
            if all(x.decl().name() in smt.PAIRS for x in smt.apps(Z(c)).values()):
                continue
            if any("!" in x and x not in existing and x != nm and x not in smt.AXIOMS for x in fv):
                continue
            conj.append(c)
        if not conj:
            return None
        alts.append((And(*conj), fixed))
    C = Or(*[And(c, *fixed) if len(alts) > 1 else c for c, fixed in alts])
    return C if alts and is_z(C) else None


def triggers(C, i):
    nm = i.decl().name()
    trig = {}
    for x in smt.apps(C).values():
        e = x.arg(x.num_args() - 1)
        if nm in free_consts(e):
            off = z3.simplify(e - i)
            if nm not in free_consts(off):
                trig[(x.decl().name(), off.sexpr())] = (x.decl().name(), off)
    return list(trig.values())


def last_match(g, f, handed, n0, init, ints, loose):
    """A value set from the counter on some ways through the body: where that last happened, and not since."""
    backs = [b for b, k in handed if k == "back"]
    out = []
    for a, s in counters(g, f, backs, ints):
        i, i0 = a.get(f), init[a.id()]
        if s != 1:
            continue
        for x in loose:
            v = Z(x.get(f))
            stay = [b for b in backs if Z(x.get(b)).eq(v)]
            take = [b for b in backs if not Z(x.get(b)).eq(v)]
            ds = {str(simp(sub(Z(x.get(b)), i))) for b in take}
            if not stay or len(ds) != 1:
                continue
            d = ds.pop()
            if not d.lstrip("-").isdigit():
                continue
            d, x0 = int(d), init[x.id()]
            M, N = ways(g, f, take, n0, i), ways(g, f, stay, n0, i)
            tr = triggers(N, i) if N is not None else None
            if M is None or not tr:
                continue
            at = lambda C, k, i=i: z3.substitute(C, (i, Z(k)))
            fact = lambda R, a=a, x=x, i0=i0, x0=x0, M=M, d=d, at=at: z3.Or(
                Z(R(x)) == x0, z3.And(i0 <= Z(R(x)) - d, Z(R(x)) - d < Z(R(a)), at(M, Z(R(x)) - d)))

            def q(R, a=a, x=x, i0=i0, N=N, d=d, at=at, tr=tr):
                lo = Z(R(x)) - d + 1
                return smt.Q(z3.If(lo > i0, lo, i0), R(a), lambda k: at(N, k), tr)
            out.append((x, fact, q))
    return out


def previous_iterations(g, fr, f, handed, n0, init, ints):
    """What every finished iteration established about its counter value."""
    backs = [b for b, k in handed if k == "back"]
    if not backs:
        return []
    out = []
    for a, s in counters(g, f, backs, ints):
        i = a.get(f)
        C = ways(g, f, backs, n0, i)
        tr = triggers(C, i) if C is not None else None
        if not tr:
            continue
        i0 = init[a.id()]
        body = lambda k, C=C, i=i: z3.substitute(C, (i, Z(k)))
        if s == 1:
            out.append(lambda R, a=a, i0=i0, body=body, tr=tr: smt.Q(i0, R(a), body, tr))
        else:
            out.append(lambda R, a=a, i0=i0, body=body, tr=tr: smt.Q(add(R(a), 1), add(i0, 1), body, tr))
    return out
