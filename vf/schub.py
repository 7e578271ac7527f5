"""C15: DoubleToDecimal.split hands over the shortest decimal of every positive double.

A positive double is v = c 2^q. With k the decimal exponent of its spacing (10^k <= width of the rounding interval <
10^(k+1)) let a = 2^q / 10^k and V = c a, the double in units of 10^k. The rounding interval is
[V - a/2, V + a/2], its lower half-width being a/4 at a power of two, closed when c is even. The contract of split: the
decimal is the multiple of 10^(k+1) in the interval when there is one (there is at most one), else the multiple of 10^k in
the interval nearest to v, the even one on a tie. For c >= 1000 this is the decimal of Double.toString (DESIGN.md, C15);
smaller c and the powers of two are run one by one against the definition itself.

rop(g1, g0, cp) is used through its contract: with cp = N 2^h and g = g1 2^63 + g0 the result is floor(N a), made odd
when N a is no integer. Its precondition is that g is precise enough for every N the callers use, decided exactly with
the neighbours of a in the Farey sequence; the body of rop is proved against it for every g and cp.
"""
from fractions import Fraction
import z3
from . import smt, jdk
from .smt import Z, is_z, prove, check, fresh_int, fresh_name
from .terms import *
from .engine import Unsupported, Out, Dbl, State, Ob
from .core import P, Root, find, build
from .conv import bits
from .fp import FD, DTD, EXPS, field

MU, MH = P + "util/internal/MathUtils", P + "util/internal/MultiplyHigh"
C0 = 2**52
QMIN = -1074
MAXN = 2**55
TINY = 1000


# ---------------------------------------------------------------- the specification

def alpha(q, k):
    return Fraction(2)**q / Fraction(10)**k


def flog10(x):
    """Largest k with 10^k <= x."""
    k = len(str(x.numerator)) - len(str(x.denominator))
    while Fraction(10)**k > x:
        k -= 1
    while Fraction(10)**(k + 1) <= x:
        k += 1
    return k


def decimal(c, q):
    """The decimal of Double.toString for c 2^q, by its definition."""
    v, u = Fraction(c) * Fraction(2)**q, Fraction(2)**q
    lo, hi = v - (u / 4 if c == C0 and q > QMIN else u / 2), v + u / 2
    e = flog10(v)
    for n in range(2, 19):
        best = None
        for i in (e - n, e - n + 1, e - n + 2):
            g = Fraction(10)**i
            f0 = v // g
            for f in (f0, f0 + 1):
                x = f * g
                if not 10**(n - 1) <= f < 10**n or not (lo <= x <= hi if c % 2 == 0 else lo < x < hi):
                    continue
                key = (abs(x - v), f % 2)
                if best is None or key < best[0]:
                    best = (key, x)
        if best:
            return best[1]


# ---------------------------------------------------------------- how precise a factor has to be

def neighbours(a, b, m):
    """Farey neighbours of a/b: fractions p/q < a/b < r/s with rq - ps = 1 and q + s > m; equality when b <= m."""
    p, q, r, s = a // b, 1, 1, 0
    if p * b == a:
        return (p, q), None, None
    # invariant: p/q < a/b < r/s
    while q + s <= m:
        # as many steps towards the lower bound as possible: (p + t r) / (q + t s) <= a/b
        d, n = r * b - a * s, a * q - p * b
        t = n // d
        if s:
            t = min(t, (m - q) // s)
        if t:
            p, q = p + t * r, q + t * s
            if p * b == a * q:
                return (p, q), None, None
        if q + s > m:
            break
        d, n = a * q - p * b, r * b - a * s
        t = min(n // d, (m - s) // q)
        if t:
            r, s = r + t * p, s + t * q
            if r * b == a * s:
                return (r, s), None, None
        elif q + s <= m and (a * q - p * b) // (r * b - a * s) == 0:
            raise Unsupported("no progress between neighbours")
    return None, (p, q), (r, s)


def precise(a, x, m):
    """x >= a approximates a so well that for every even N, 1 <= N <= m, rounding to odd comes out the same for Nx with 63
    fractional bits as for Na: the floors agree, a fraction that is 0 stays below 2^-63, and one that is not reaches 2^-63
    unless the floor is odd, when it does not matter."""
    eta, small = x - a, Fraction(1, 2**63)
    if eta < 0:
        return False
    ex, lo, hi = neighbours(a.numerator, a.denominator, m)
    if ex:
        # fractions of Na are multiples of 1/denominator
        u = Fraction(1, ex[1])
        assert Fraction(*ex) == a
        return m * eta < small and m * eta < u and u >= small
    l, u = lo[1] * a - lo[0], hi[0] - hi[1] * a
    assert l > 0 and u > 0 and hi[0] * lo[1] - lo[0] * hi[1] == 1 and lo[1] >= 1 and hi[1] >= 1 and lo[1] + hi[1] > m
    if m * eta >= u:
        return False
    # fractions below 2^-63 belong to multiples of the lower neighbour only, if u and l are not both tiny
    if l < small and l + u < small:
        return False
    i = 1
    while i * l < small and i * lo[1] <= m:
        if i * lo[0] % 2 == 0 and i * lo[1] % 2 == 0:
            return False
        i += 1
    return True


def first(a, m, lo, hi):
    """Least n >= 0 with lo <= a n mod m <= hi (0 <= lo <= hi < m), None if there is none."""
    a %= m
    if lo == 0:
        return 0
    if a == 0:
        return None
    if 2 * a > m:
        a, lo, hi = m - a, m - hi, m - lo
    n = -(-lo // a)
    if n * a <= hi:
        return n
    y = first(-m % a, a, lo % a, hi % a)
    return None if y is None else -(-(lo + m * y) // a)


def misjudged(a, x, c_lo, c_hi, most=12):
    """Some c for which the factor x in place of a puts a bound or the middle of the interval on the wrong side of a
    decimal."""
    out = []
    eta = abs(x - a)
    for d, period, target in ((0, 4, 2), (-2, 40, 0), (2, 40, 0), (-2, 4, 0), (2, 4, 0)):
        # (4c + d) x lies just above the target (modulo the period), (4c + d) a just below, or the other way round
        m = x.denominator * period
        w = min(m - 1, int((4 * c_lo + d) * eta * x.denominator))
        c = c_lo
        for _ in range(most):
            at = ((4 * c + d) * x.numerator - target * x.denominator) % m
            lo = (-at if x > a else -at - w) % m
            n = first(4 * x.numerator, m, lo, lo + w) if lo + w < m else 0
            if n is None or c + n >= c_hi:
                break
            out.append(c + n)
            c += n + 1
    return out


# ---------------------------------------------------------------- contracts

def key(prog, cls, name, desc):
    return "%s.%s%s" % (cls, name, desc)


def c_multiply_high(E, st, args):
    x, y = args
    if not is_z(x) and not is_z(y):
        return x * y >> 64
    if is_z(y) and not is_z(x):
        x, y = y, x
    if not is_z(y) and y > 0:
        # a reciprocal: floor(x y / 2^64) = floor(x / d) for 0 <= x <= hi if 0 <= y d - 2^64 and hi (y d - 2^64) < 2^64
        d = (2**64 + y - 1) // y
        b = bounds(x)
        e = y * d - 2**64
        if b and b[0] >= 0 and 0 <= e and b[1] * e < 2**64:
            return fdiv(x, d)
    return fdiv(product(E, st, x, y), 2**64)


def atom_name(a):
    return a.decl().name() if a.num_args() == 0 else "t%d" % a.get_id()


def product(E, st, x, y):
    """x y with the products of unknowns as unknowns of their own."""
    if not is_z(x) or not is_z(y):
        return x * y
    (cx, tx), (cy, ty) = lin(x), lin(y)
    r, m = cx * cy, {}
    ts = [(cx * k, a) for k, a in ty] + [(cy * k, a) for k, a in tx]
    for k, a in tx:
        for j, b in ty:
            n = "*".join(sorted((atom_name(a), atom_name(b))))
            ba, bb = bounds(a), bounds(b)
            if ba is None or bb is None:
                raise Unsupported("product of unbounded terms")
            p = [i * l for i in ba for l in bb]
            v = var(n, (min(p), max(p)))
            st.add(in_range(v, (min(p), max(p))))
            ts.append((k * j, v))
    for k, a in ts:
        o = m.get(a.get_id(), (0, a))
        m[a.get_id()] = (o[0] + k, a)
    return unlin(r, [t for t in m.values() if t[0]])


def c_chars(E, st, args):
    f, e, fd = args[1:]
    if fd is None:
        return NotImplemented
    if not is_z(f):
        return NotImplemented
    E.ob(st, "toChars is given a positive number below 10^17", And(le(1, f), lt(f, 10**17)))
    outs = E.call_key(st, FD, "set", "(JII)V", [fd, f, e, jdk.digits(10, f).len()])
    return [Out("ret", o.st, 0) if o.kind == "ret" else o for o in outs]


class Case:
    """The doubles of one exponent under symbolic execution."""

    def __init__(self, E, q, k, c, t, lo):
        self.E, self.q, self.k, self.c, self.t = E, q, k, c, t
        self.al, self.V4 = z3.Real("alpha"), z3.Real("V4")
        self.a = alpha(q, k)
        self.pre = [self.V4 >= 4 * lo * self.al, self.V4 < 2**55 * self.al]
        n, d = self.a.numerator, self.a.denominator
        self.exact = [self.al * d == n, self.V4 * d == 4 * n * z3.ToReal(c)]
        self.pre += self.exact if n == d else [self.al > 1, self.al < 10]
        self.found = {}

    def W(self, d):
        return self.V4 + d * self.al if d else self.V4


def c_rop(E, st, args):
    cs = E.case
    g1, g0, cp = args
    if not is_z(g1) and not is_z(g0) and not is_z(cp):
        return NotImplemented
    if cs is None or is_z(g1) or is_z(g0) or not is_z(cp):
        raise Unsupported("rop of unknown factors")
    c0, ts = lin(cp)
    cc, tc = lin(cs.c)
    want = {a.get_id(): k for k, a in tc}
    ratio = {Fraction(k, want[a.get_id()]) if a.get_id() in want else None for k, a in ts}
    if len(ts) != len(tc) or len(ratio) != 1 or None in ratio:
        raise Unsupported("rop of another multiple")
    s = ratio.pop()          # cp = s c + (c0 - s cc) = (s/4) (4c + d)
    d = (c0 - s * cc) * 4 / s
    if s <= 0 or d.denominator != 1 or abs(d) > 7:
        raise Unsupported("rop of another multiple")
    d = d.numerator
    E.ob(st, "rop is given an even multiplier and 63-bit factors", And(0 <= g1 < 2**63, 0 <= g0 < 2**63, eq(fmod(cp, 2), 0), le(0, cp)))
    x = Fraction(s) / 4 * (g1 * 2**63 + g0) / 2**127
    kk = next((cs.k + j for j in range(-3, 4) if abs(x / alpha(cs.q, cs.k + j) - 1) < Fraction(1, 1000)), None)
    if kk is None:
        E.ob(st, "rop is given a power of ten", False)
        raise Unsupported("rop of a factor that is no power of ten")
    mk = (cs.q, kk, x)
    ok = E.precision.get(mk)
    if ok is None:
        ok = E.precision[mk] = precise(alpha(cs.q, kk), x, MAXN)
    now, a = E.now, alpha(cs.q, kk)
    E.ob(st, "the power of ten is precise enough", ok,
         None if ok else lambda mod: [l for c in misjudged(a, x, *cs.range) for l in line(c + (cs.bq - 1) * C0 if cs.bq else c)] + now(mod))
    W = cs.W(d)
    if kk != cs.k:
        W = z3.Q(*(lambda f: (f.numerator, f.denominator))(Fraction(10)**(cs.k - kk))) * W
    nm = "ro%d_%d" % (d, kk - cs.k)
    r, o = var(nm + "r", (0, 2**59)), var(nm + "o", (0, 1))
    st.add(in_range(r, (0, 2**59)))
    if alpha(cs.q, kk).denominator > MAXN:
        # N a is never an integer
        R = 2 * r + 1
        w = W - z3.ToReal(R)
        st.add(w > -1, w < 1)
        return R
    R = 2 * r + o
    w = W - z3.ToReal(R)
    st.add(in_range(o, (0, 1)), z3.Implies(o == 1, z3.And(w > -1, w < 1)), z3.Implies(o == 0, w == 0))
    return R


def engine(prog, newer=False):
    LINEAR.append(1)
    jdk.LINK.append(1)
    E = build(prog, newer_jdk=newer)
    E.case, E.precision = None, {}
    E.abs["mul"] = product
    E.contracts["%s.rop(JJJ)J" % DTD] = c_rop
    E.contracts["%s.toChars(JIL%s;)I" % (DTD, FD)] = c_chars
    E.contracts["%s.multiplyHigh(JJ)J" % MH] = c_multiply_high

    def ob(st, name, goal, cand=None):
        """An obligation whose proof may be shared with an earlier exponent."""
        name = "%s: %s" % (E.unit, name)
        if goal is True or goal is not False and prove(st.pc, goal):
            E.obs.append(Ob(name, "proved"))
            return True
        if len(E.failures) > 20:
            raise Unsupported("many failures")
        r = E.oblige(st, name, goal)
        E.obs[-1].cand = cand or E.now
        if not r:
            E.failures.append(name)
        return r
    E.ob, E.failures, E.now = ob, [], None
    return E


# ---------------------------------------------------------------- split, exponent by exponent

def line(b):
    return ["fmt\t%s\td:%016x" % (f, b) for f in ("%.20e", "%.17g")]


def near(b, q, k):
    """Doubles of this exponent worth a try: those of short decimals and those almost halfway."""
    bq = b >> 52
    out = [b]
    a = alpha(q, k)
    for t in (0, 1, 2, 3, C0 - 1, C0 - 2, C0 // 2, C0 // 3):
        out.append(bq << 52 | t)
    for n in (2, 3, 15, 16, 17):
        for j in range(40):
            c = C0 + (j * 7919 * 10**n // 3 + j) % C0
            x = Fraction(c) * a
            y = round(x / 10**max(0, 17 - n)) * 10**max(0, 17 - n)
            cc = round(y / a)
            if C0 <= cc < 2 * C0:
                out.append(bq << 52 | cc - C0)
    m = 2**55
    while m > 2**20:
        ex, lo, hi = neighbours(a.numerator, a.denominator, m)
        for f in (lo, hi):
            if f:
                for i in range(1, 40):
                    for d in (-2, 0, 2):
                        c, r = divmod(f[1] * i - d, 4)
                        if r == 0 and C0 <= c < 2 * C0:
                            out.append(bq << 52 | c - C0)
        m //= 8
    seen = list(dict.fromkeys(x for x in out if x > 0))
    return [l for x in seen[:300] for l in line(x)]


def fresh_fd(E, st):
    fd = st.new(FD, E.blank(FD))
    for n in "fen":
        field(st, fd, n)
    return fd


def concrete(E, m, b):
    """One double, against the definition."""
    bq, t = b >> 52, b % C0
    c, q = (C0 + t, bq - 1075) if bq else (t, QMIN)
    E.case = None
    E.now = lambda mod: line(b)
    st = State()
    fd = fresh_fd(E, st)
    r = Root(E, E.unit)

    def post(o):
        if o.kind == "throw":
            E.ob(o.st, "throws nothing", False)
            return
        f, e, n = [field(o.st, fd, x) for x in "fen"]
        if any(is_z(x) for x in (f, e, n)):
            raise Unsupported("one double, several results")
        E.ob(o.st, "the decimal of Double.toString", f > 0 and Fraction(f) * Fraction(10)**e == decimal(c, q))
        E.ob(o.st, "number of digits", len(str(f)) == n and n <= 17 and EXPS[0] <= e <= EXPS[1])
    r.run(m, st, [Dbl(b), fd], post, modifies=[fd])


def symbolic(E, m, bq, t_lo, t_hi):
    """All doubles of one biased exponent with fraction bits in t_lo..t_hi."""
    q = bq - 1075 if bq else QMIN
    k = flog10(Fraction(2)**q)
    smt._n[0] = 1000
    st = State()
    t2, t0 = var("t2", (0, C0 // 2 - 1)), var("t0", (0, 1))
    t = 2 * t2 + t0
    st.add(in_range(t2, (0, C0 // 2 - 1)), in_range(t0, (0, 1)))
    if t_lo:
        st.add(t >= t_lo)
    c = t + C0 if bq else t
    cs = E.case = Case(E, q, k, c, t, C0 if bq else TINY)
    cs.bq, cs.range = bq, (C0, 2 * C0) if bq else (TINY, C0)
    st.add(*cs.pre)
    b = t + bq * C0 if bq else t

    def cand(mod):
        x = 0
        if mod is not None:
            x = sum(mod.eval(v, model_completion=True).as_long() * w for v, w in ((t2, 2), (t0, 1)))
        return near(bq << 52 | x % C0, q, k)
    E.now = cand
    fd = fresh_fd(E, st)
    r = Root(E, E.unit)
    lo, hi = cs.W(-2), cs.W(2)

    def inside(y):
        return z3.Or(z3.And(lo < y, y < hi), z3.And(t0 == 0, lo <= y, y <= hi))

    def post(o):
        if o.kind == "throw":
            E.ob(o.st, "throws nothing", False)
            return
        f, e, n = [field(o.st, fd, x) for x in "fen"]
        if is_z(e):
            e2 = E.concrete(o.st, e)
            if e2 is None:
                raise Unsupported("unknown exponent")
            e = e2
        s = o.st
        E.ob(s, "range of digits and exponent", And(le(1, f), lt(f, 10**17), EXPS[0] <= e <= EXPS[1]))
        E.ob(s, "number of digits", eq(n, jdk.digits(10, Z(f)).len()))
        if e >= k:
            y = Z(f) * 10**(e - k) if e > k else Z(f)
        else:
            # a finer unit: only a multiple of 10^k can be right
            y = fdiv(f, 10**(k - e))
            E.ob(s, "no digits below the spacing", eq(fmod(f, 10**(k - e)), 0))
        y4 = 4 * z3.ToReal(Z(y))
        if e != k and abs(q) < 60 and prove(s.pc + cs.exact, y4 == cs.V4):
            s.add(y4 == cs.V4)
        j = z3.Int("other")
        j4 = 4 * z3.ToReal(j)
        E.ob(s, "the decimal lies in the rounding interval", inside(y4))
        E.ob(s, "no shorter decimal lies there", Implies(inside(10 * j4), eq(Z(y), 10 * j)))
        # the interval is convex, so the two neighbours decide
        for d, nb in ((1, "above"), (-1, "below")):
            mid = y4 + 2 * d
            E.ob(s, "no decimal of this length %s is closer" % nb,
                 Or(Z(y) % 10 == 0, Not(inside(y4 + 4 * d)), cs.V4 < mid if d > 0 else cs.V4 > mid, z3.And(cs.V4 == mid, Z(y) % 2 == 0)))
    r.run(m, st, [Dbl(b), fd], post, modifies=[fd])


def exponents(lo, hi):
    def run(prog):
        E = engine(prog)
        E.unit = "DoubleToDecimal.split"
        m = find(prog, DTD, "split", "(DL%s;)V" % FD)
        for bq in range(lo, hi + 1):
            if bq > 1:
                concrete(E, m, bq << 52)
            symbolic(E, m, bq, 1 if bq > 1 else 0, C0 - 1)
        return E
    run.functions = [DTD + "." + n for n in ("split", "toDecimal")] + [MU + "." + n for n in ("flog10pow2", "flog10threeQuartersPow2", "flog2pow10", "g1", "g0")]
    return run


def subnormal(prog):
    E = engine(prog)
    E.unit = "DoubleToDecimal.split (subnormal)"
    m = find(prog, DTD, "split", "(DL%s;)V" % FD)
    for t in range(1, TINY):
        concrete(E, m, t)
    symbolic(E, m, 0, TINY, C0 - 1)
    # zero leaves the fields as they were
    st = State()
    fd = fresh_fd(E, st)
    E.now = lambda mod: line(0)

    def post(o):
        if o.kind == "throw":
            E.ob(o.st, "throws nothing", False)
        else:
            E.ob(o.st, "zero has no digits", And(*[eq(field(o.st, fd, n), 0) for n in "fen"]))
    Root(E, E.unit).run(m, st, [Dbl(0), fd], post, modifies=[fd])
    return E


subnormal.functions = [DTD + ".split"]


# ---------------------------------------------------------------- the helpers

SOME = [0x3ff0000000000001, 0x3fb999999999999a, 0x7fefffffffffffff, 0x10000000000000, 0x1, 0x4340000000000001, 0x2b2bff2ee48e0530]


def some(mod):
    return [l for b in SOME for l in line(b)]


def u_rop(prog):
    """rop for every factor and multiplier: floor of the exact product in units of 2^127, with a sticky last bit."""
    E = engine(prog)
    E.unit = "DoubleToDecimal.rop"
    del E.contracts["%s.rop(JJJ)J" % DTD]
    E.now = some
    m = find(prog, DTD, "rop", "(JJJ)J")
    st = State()
    top = 2**63 - 1
    g1, g0, ch = var("g1", (0, top)), var("g0", (0, top)), var("cp_half", (0, 2**62 - 1))
    st.add(in_range(g1, (0, top)), in_range(g0, (0, top)), in_range(ch, (0, 2**62 - 1)))
    cp = 2 * ch
    p1, p0 = product(E, st, g1, ch), product(E, st, g0, ch)

    def post(o):
        if o.kind == "throw":
            E.ob(o.st, "throws nothing", False)
            return
        # the product over 2^64: (g1 2^63 + g0) cp / 2^64 = g1 ch + g0 ch / 2^63
        T = p1 + p0 / 2**63
        q, r = T / 2**63, T % 2**63
        E.ob(o.st, "product rounded to odd", eq(Z(o.v), If(And(r != 0, q % 2 == 0), q + 1, q)))
    # floor(g1 cp / 2^64) does not exceed g1 - 1, so the sums stay below 2^63
    Root(E, E.unit).run(m, st, [g1, g0, cp], post)
    return E


u_rop.functions = [DTD + ".rop"]


def u_high(prog):
    es = []
    for newer in (False, True):
        E = engine(prog, newer)
        es.append(E)
        E.unit = "MultiplyHigh.multiplyHigh (%s)" % ("Math.multiplyHigh" if newer else "fallback")
        E.now = some
        del E.contracts["%s.multiplyHigh(JJ)J" % MH]
        m = find(prog, MH, "multiplyHigh", "(JJ)J")
        st = State()
        xs = []
        for n in "xy":
            h, l = var(n + "_high", (-2**31, 2**31 - 1)), var(n + "_low", (0, 2**32 - 1))
            st.add(in_range(h, (-2**31, 2**31 - 1)), in_range(l, (0, 2**32 - 1)))
            xs.append(h * 2**32 + l)

        def post(o):
            if o.kind == "throw":
                E.ob(o.st, "throws nothing", False)
                return
            p = product(E, o.st, *xs)
            d = p - Z(o.v) * 2**64
            E.ob(o.st, "high half of the product", And(d >= 0, d < 2**64))
        Root(E, E.unit).run(m, st, xs, post)
    return es


u_high.functions = [MH + "." + n for n in ("multiplyHigh", "slowMultiplyHigh", "findImpl")]


def u_chars(prog):
    """toChars hands f, e and the number of digits of f to set."""
    E = engine(prog)
    E.unit = "DoubleToDecimal.toChars"
    E.now = some
    del E.contracts["%s.toChars(JIL%s;)I" % (DTD, FD)]
    m = find(prog, DTD, "toChars", "(JIL%s;)I" % FD)
    for L in range(1, 58):
        st = State()
        f, e = var("f%d" % L, (2**(L - 1), min(2**L, 10**17) - 1)), var("e", EXPS)
        st.add(in_range(f, BOUND["f%d" % L]), in_range(e, EXPS))
        this = st.new(DTD, E.blank(DTD))
        fd = fresh_fd(E, st)

        def post(o):
            if o.kind == "throw":
                E.ob(o.st, "throws nothing", False)
                return
            f1, e1, n = [field(o.st, fd, x) for x in "fen"]
            if is_z(n):
                raise Unsupported("number of digits not fixed")
            E.ob(o.st, "digits and exponent as given", And(eq(f1, f), eq(e1, e)))
            E.ob(o.st, "number of digits", And(f >= 10**(n - 1), f < 10**n) if 1 <= n < 400 else False)
        Root(E, E.unit).run(m, st, [this, f, e, fd], post, modifies=[fd, this])
    return E


u_chars.functions = [DTD + ".toChars", MU + ".pow10"]


def u_lemma(prog):
    """Farey neighbours: with (P, N) = x (p, q) + y (r, s), l = q a - p > 0, u = r - s a > 0 and q, s >= 1, the distance
    N a - P is x l - y u. For 1 <= N < q + s it is at least l when positive and at most -u when negative."""
    E = engine(prog)
    E.unit = "Farey lemma"
    st = State()
    x, y, q, s = z3.Ints("x y q s")
    l, u = z3.Reals("l u")
    st.add(q >= 1, s >= 1, l > 0, u > 0)
    D = z3.ToReal(x) * l - z3.ToReal(y) * u
    E.ob(st, "both parts positive", z3.Implies(z3.And(x >= 1, y >= 1), x * q + y * s >= q + s))
    E.ob(st, "no part positive", z3.Implies(z3.And(x <= 0, y <= 0), x * q + y * s <= 0))
    E.ob(st, "lower part and some of the upper", z3.Implies(z3.And(x >= 1, y <= -1), D >= l + u))
    E.ob(st, "lower part only", z3.Implies(z3.And(x >= 1, y <= 0), D >= l))
    E.ob(st, "upper part only", z3.Implies(z3.And(x <= 0, y >= 1), D <= -u))
    return E


u_lemma.functions = []

STEP = 256
UNITS = {"DoubleToDecimal.split (exponents %d to %d)" % (lo, min(lo + STEP - 1, 2046)): exponents(lo, min(lo + STEP - 1, 2046)) for lo in range(1, 2047, STEP)}
UNITS["DoubleToDecimal.split (subnormal)"] = subnormal
UNITS["DoubleToDecimal.rop"] = u_rop
UNITS["DoubleToDecimal.toChars"] = u_chars
UNITS["MultiplyHigh"] = u_high
UNITS["Farey lemma"] = u_lemma
