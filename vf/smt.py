"""Solver interface: quantifier-free queries, with definitions and bounded facts instantiated on demand."""
import time
import z3

STATS = {"queries": 0, "time": 0.0, "unknown": 0, "cache": 0}
TIMEOUT_MS = 20000
# second back end: when on, cvc5 is asked about every query z3 found unsatisfiable
SECOND = [False]
SECOND_MS = 10000

# decl name -> list of functions (args) -> list of formulas, valid for every application
AXIOMS = {}
# pairs of applications of the same function: name -> list of functions (args1, args2) -> formulas
PAIRS = {}
_keep = []
_apps = {}


def is_z(x):
    return isinstance(x, z3.ExprRef)


def Z(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    return z3.IntVal(x) if isinstance(x, int) else x


def axiom(decl, fn):
    AXIOMS.setdefault(decl.name(), []).append(fn)


def pair_axiom(decl, fn):
    PAIRS.setdefault(decl.name(), []).append(fn)


_n = [0]


def fresh_name(p):
    _n[0] += 1
    return "%s!%d" % (p, _n[0])


def fresh_int(p="v"):
    return z3.Int(fresh_name(p))


def fresh_bool(p="b"):
    return z3.Bool(fresh_name(p))


class Q:
    """Fact: for all k with lo <= k < hi, body(k). Instantiated at terms decl(.., k + off)."""

    def __init__(self, lo, hi, body, triggers, idx=-1):
        self.lo, self.hi, self.body, self.triggers, self.idx = lo, hi, body, triggers, idx
        self.cache = {}

    def inst(self, args, off):
        i = args[self.idx]
        key = i.get_id(), off.get_id()
        r = self.cache.get(key)
        if r is None:
            k = z3.simplify(i - off)
            kk = k.get_id()
            r = self.cache.get(kk)
            if r is None:
                r = self.cache[kk] = (k, i, off, z3.Implies(z3.And(Z(self.lo) <= k, k < Z(self.hi)), Z(self.body(k))))
            self.cache[key] = r = (k, i, off, r[3])
        return r[3]


def apps(e):
    """Applications of uninterpreted functions with arguments occurring in e."""
    i = e.get_id()
    r = _apps.get(i)
    if r is not None:
        return r
    out, seen, todo = {}, set(), [e]
    while todo:
        x = todo.pop()
        xi = x.get_id()
        if xi in seen:
            continue
        seen.add(xi)
        if xi in _apps:
            out.update(_apps[xi])
            continue
        if z3.is_app(x):
            d = x.decl()
            n = x.num_args()
            if n and d.kind() == z3.Z3_OP_UNINTERPRETED:
                out[xi] = x
            todo.extend(x.arg(j) for j in range(n))
    _apps[i] = out
    _keep.append(e)
    return out


MAXI = 4000


_args, _single, _pair = {}, {}, {}


def arguments(a):
    r = _args.get(a.get_id())
    if r is None:
        r = _args[a.get_id()] = (a, [a.arg(j) for j in range(a.num_args())], a.decl().name())
    return r


def expand(fs):
    """Close a set of formulas and bounded facts under instantiation."""
    qs = {}
    for f in fs:
        if isinstance(f, Q):
            for tn, off in f.triggers:
                qs.setdefault(tn, []).append((f, off))
    out = [Z(f) for f in fs if not isinstance(f, Q)]
    have = {f.get_id() for f in out}
    done, queue, groups, depth = set(), [], {}, 0
    for f in out:
        queue.extend(apps(f).values())
    while queue and len(done) < MAXI and depth < 12:
        depth += 1
        nxt = []
        for a in queue:
            ai = a.get_id()
            if ai in done:
                continue
            done.add(ai)
            _, args, name = arguments(a)
            new = []
            for fn in AXIOMS.get(name, ()):
                r = _single.get((fn, ai))
                if r is None:
                    r = _single[(fn, ai)] = [Z(f) for f in fn(*args)]
                new += r
            if name in PAIRS:
                grp = groups.setdefault(name, [])
                for fn in PAIRS[name]:
                    for bi, b in grp:
                        r = _pair.get((fn, ai, bi))
                        if r is None:
                            r = _pair[(fn, ai, bi)] = [Z(f) for f in fn(args, b)]
                        new += r
                grp.append((ai, args))
            for q, off in qs.get(name, ()):
                new.append(q.inst(args, off))
            for f in new:
                fi = f.get_id()
                if fi in have:
                    continue
                have.add(fi)
                out.append(f)
                nxt.extend(apps(f).values())
        queue = nxt
    return out


_cache = {}


def check(fs, want_model=False, timeout=None):
    """Satisfiability of the conjunction: 'sat', 'unsat' or 'unknown' (with a model on request)."""
    fs = [f for f in fs if f is not True]
    if any(f is False for f in fs):
        return ("unsat", None) if want_model else "unsat"
    key = None
    if not want_model:
        key = (frozenset(id(f) if isinstance(f, Q) else Z(f).get_id() for f in fs))
        if key in _cache:
            STATS["cache"] += 1
            return _cache[key][0]
    t0 = time.time()
    ex = expand(fs)
    s = z3.Solver()
    s.set("timeout", timeout or TIMEOUT_MS)
    ctx = s.ctx.ref()
    for f in ex:
        z3.Z3_solver_assert(ctx, s.solver, f.as_ast())
    r = str(s.check())
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    if r == "unknown":
        STATS["unknown"] += 1
    if r == "unsat" and SECOND[0]:
        r = second(s)
    if want_model:
        return r, (s.model() if r == "sat" else None)
    _cache[key] = (r, fs)
    return r


def second(s):
    """Gives a query to cvc5; only an answer to the contrary takes z3's away."""
    import cvc5
    t0 = time.time()
    try:
        tm = cvc5.TermManager()
        c = cvc5.Solver(tm)
        c.setOption("tlimit-per", str(SECOND_MS))
        c.setLogic("ALL")
        p = cvc5.InputParser(c)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, s.to_smt2(), "q")
        sm, ans = p.getSymbolManager(), "unknown"
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(c, sm).strip()
            if out in ("sat", "unsat"):
                ans = out
    except Exception as e:
        ans = "error"
        STATS["cvc5_note"] = str(e)[:200]
    STATS["cvc5_" + ans] = STATS.get("cvc5_" + ans, 0) + 1
    STATS["cvc5_time"] = STATS.get("cvc5_time", 0.0) + time.time() - t0
    return "unknown" if ans == "sat" else "unsat"


def neg(f):
    return (not f) if isinstance(f, bool) else z3.Not(f)


def prove(pc, goal):
    """True if pc entails goal."""
    if goal is True:
        return True
    return check(list(pc) + [neg(goal)]) == "unsat"
