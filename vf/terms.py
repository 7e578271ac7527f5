"""Terms: machine integers over mathematical ones, and texts as length plus index function."""
import z3
from . import smt
from .smt import Z, is_z, fresh_int, fresh_name

MINI, MAXI, MINL, MAXL = -2**31, 2**31 - 1, -2**63, 2**63 - 1
RANGE = {"Z": (0, 1), "B": (-128, 127), "C": (0, 65535), "S": (-32768, 32767), "I": (MINI, MAXI), "J": (MINL, MAXL)}
BOUND = {}  # variable name -> (lo, hi)


def And(*a):
    a = [x for x in a if x is not True]
    if any(x is False for x in a):
        return False
    return True if not a else a[0] if len(a) == 1 else z3.And(*a)


def Or(*a):
    a = [x for x in a if x is not False]
    if any(x is True for x in a):
        return True
    return False if not a else a[0] if len(a) == 1 else z3.Or(*a)


def Not(a):
    if isinstance(a, bool):
        return not a
    return a.arg(0) if z3.is_not(a) else z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if not is_z(a) and not is_z(b) and a == b and type(a) == type(b):
        return a
    if is_z(a) and is_z(b) and a.eq(b):
        return a
    return z3.If(c, Z(a), Z(b))


def eq(a, b):
    if not is_z(a) and not is_z(b):
        return a == b
    a, b = Z(a), Z(b)
    return True if a.eq(b) else a == b


LINEAR = []  # non-empty: comparisons, quotients and remainders of sums are simplified by the ranges of their variables


def lin(e):
    """A term as (constant, [(coefficient, atom)])."""
    c, m = 0, {}

    def go(e, k):
        nonlocal c
        if not is_z(e):
            c += k * e
        elif z3.is_int_value(e):
            c += k * e.as_long()
        elif z3.is_add(e):
            for x in e.children():
                go(x, k)
        elif z3.is_sub(e):
            go(e.arg(0), k)
            for x in e.children()[1:]:
                go(x, -k)
        elif e.decl().kind() == z3.Z3_OP_UMINUS:
            go(e.arg(0), -k)
        elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(0)):
            go(e.arg(1), k * e.arg(0).as_long())
        elif z3.is_mul(e) and e.num_args() == 2 and z3.is_int_value(e.arg(1)):
            go(e.arg(0), k * e.arg(1).as_long())
        else:
            o = m.get(e.get_id())
            m[e.get_id()] = (k + (o[0] if o else 0), e)
    go(e, 1)
    return c, [t for t in m.values() if t[0]]


def unlin(c, ts):
    r = None
    for k, a in ts:
        x = a if k == 1 else k * a
        r = x if r is None else r + x
    return c if r is None else r + c if c else r


def lin_bounds(c, ts):
    lo = hi = c
    for k, a in ts:
        b = bounds(a)
        if b is None:
            return None
        lo, hi = lo + min(k * b[0], k * b[1]), hi + max(k * b[0], k * b[1])
    return lo, hi


def divide(a, n):
    """(quotient, remainder) of a sum by a positive constant; the multiples are taken out first."""
    c, ts = lin(a)
    rest = [t for t in ts if t[0] % n]
    q = [(k // n, x) for k, x in ts if k % n == 0]
    b = lin_bounds(c % n, rest)
    if b and b[0] >= 0 and b[1] < n:
        return unlin(c // n, q), unlin(c % n, rest)
    if b and b[0] >= -n and b[1] < 0:
        return unlin(c // n - 1, q), unlin(c % n + n, rest)
    r = unlin(c % n, rest)
    if len(q) or c // n:
        return unlin(c // n, q + [(1, r / n)]), r % n
    return Z(a) / n, Z(a) % n


def decide(a, b, strict):
    if LINEAR:
        c, ts = lin(Z(a) - Z(b))
        r = lin_bounds(c, ts)
        if r:
            if r[1] < (0 if strict else 1):
                return True
            if r[0] >= (0 if strict else 1):
                return False
    return None


def lt(a, b):
    if LINEAR and (is_z(a) or is_z(b)):
        r = decide(a, b, True)
        if r is not None:
            return r
    return a < b if not is_z(a) and not is_z(b) else Z(a) < Z(b)


def le(a, b):
    if LINEAR and (is_z(a) or is_z(b)):
        r = decide(a, b, False)
        if r is not None:
            return r
    return a <= b if not is_z(a) and not is_z(b) else Z(a) <= Z(b)


def add(a, b):
    if not is_z(a) and not is_z(b):
        return a + b
    if not is_z(a) and a == 0:
        return b
    if not is_z(b) and b == 0:
        return a
    if not is_z(b) and z3.is_add(a) and a.num_args() == 2 and z3.is_int_value(a.arg(1)):
        c = a.arg(1).as_long() + b
        return a.arg(0) + c if c else a.arg(0)
    if is_z(a) and is_z(b) and z3.is_sub(a) and a.num_args() == 2 and a.arg(1).eq(b):
        return a.arg(0)
    return a + b


def sub(a, b):
    if not is_z(a) and not is_z(b):
        return a - b
    if not is_z(b):
        return add(a, -b)
    if is_z(a) and a.eq(b):
        return 0
    if is_z(a) and z3.is_add(a) and a.num_args() == 2:
        if a.arg(0).eq(b):
            return unlit(a.arg(1))
        if a.arg(1).eq(b):
            return a.arg(0)
    return a - b


def unlit(e):
    if is_z(e) and z3.is_int_value(e):
        return e.as_long()
    return e


def simp(e):
    return unlit(z3.simplify(e)) if is_z(e) else e


def imax(a, b):
    return max(a, b) if not is_z(a) and not is_z(b) else If(Z(a) >= Z(b), a, b)


def imin(a, b):
    return min(a, b) if not is_z(a) and not is_z(b) else If(Z(a) <= Z(b), a, b)


def fdiv(a, k):
    """Floor division by a positive constant."""
    if LINEAR and is_z(a):
        return divide(a, k)[0]
    return a // k if not is_z(a) else a / k


def fmod(a, k):
    if LINEAR and is_z(a):
        c, ts = lin(a)
        if any(z3.is_mod(x) and z3.is_int_value(x.arg(1)) and j * x.arg(1).as_long() % k == 0 for j, x in ts):
            # the remainder of a remainder
            a = unlin(c, [(j, x.arg(0)) if z3.is_mod(x) and z3.is_int_value(x.arg(1)) and j * x.arg(1).as_long() % k == 0 else (j, x) for j, x in ts])
        return divide(a, k)[1]
    return a % k


def var(name, t):
    v = z3.Int(name)
    BOUND[name] = RANGE[t] if isinstance(t, str) else t
    return v


def in_range(v, t):
    lo, hi = RANGE[t] if isinstance(t, str) else t
    if not is_z(v):
        return lo <= v <= hi
    return z3.And(v >= lo, v <= hi)


def wrap(v, lo, hi):
    m = hi - lo + 1
    return (v - lo) % m + lo


def bounds(e, depth=0):
    """Cheap interval of a term from the types of its variables; None when unknown."""
    if not is_z(e):
        return (e, e)
    if z3.is_int_value(e):
        v = e.as_long()
        return (v, v)
    if depth > 12:
        return None
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return BOUND.get(e.decl().name())
        if k == z3.Z3_OP_ITE:
            a, b = bounds(e.arg(1), depth + 1), bounds(e.arg(2), depth + 1)
            return None if a is None or b is None else (min(a[0], b[0]), max(a[1], b[1]))
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
            r = None
            for i in range(e.num_args()):
                b = bounds(e.arg(i), depth + 1)
                if b is None:
                    return None
                if r is None:
                    r = b
                elif k == z3.Z3_OP_ADD:
                    r = (r[0] + b[0], r[1] + b[1])
                else:
                    r = (r[0] - b[1], r[1] - b[0])
            return r
        if k == z3.Z3_OP_UMINUS:
            b = bounds(e.arg(0), depth + 1)
            return None if b is None else (-b[1], -b[0])
        if k == z3.Z3_OP_MUL and e.num_args() == 2:
            a, b = bounds(e.arg(0), depth + 1), bounds(e.arg(1), depth + 1)
            if a is None or b is None:
                return None
            p = [x * y for x in a for y in b]
            return (min(p), max(p))
        if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
            c = e.arg(1).as_long()
            b = bounds(e.arg(0), depth + 1)
            if b and 0 <= b[0] and b[1] < c:
                return b
            return (0, abs(c) - 1)
        if k == z3.Z3_OP_IDIV and z3.is_int_value(e.arg(1)):
            c = e.arg(1).as_long()
            b = bounds(e.arg(0), depth + 1)
            if b and c > 0:
                return (b[0] // c, b[1] // c)
    return None


# ---------------------------------------------------------------- texts

class S:
    """A text (or int vector): length and index function."""

    def __add__(self, o):
        return cat(self, o)


class Lit(S):
    def __init__(self, s):
        self.s = s

    def len(self):
        return len(self.s)

    def at(self, i):
        i = simp(i)
        if not is_z(i):
            return ord(self.s[i]) if 0 <= i < len(self.s) else 0
        if not self.s:
            return 0
        r = ord(self.s[-1])
        for j in range(len(self.s) - 2, -1, -1):
            r = If(i <= j, ord(self.s[j]), r)
        return r

    def __repr__(self):
        return repr(self.s)


class Vals(S):
    """Explicit finite vector of values."""

    def __init__(self, v):
        self.v = list(v)

    def len(self):
        return len(self.v)

    def at(self, i):
        i = simp(i)
        if not is_z(i):
            return self.v[i] if 0 <= i < len(self.v) else 0
        if not self.v:
            return 0
        r = self.v[-1]
        for j in range(len(self.v) - 2, -1, -1):
            r = If(eq(i, j), self.v[j], r)
        return r

    def __repr__(self):
        return "vals%s" % (self.v if len(self.v) < 30 else len(self.v),)


class Rep(S):
    def __init__(self, c, n):
        self.c, self.n = c, n

    def len(self):
        return self.n

    def at(self, i):
        return self.c

    def __repr__(self):
        return "rep(%s,%s)" % (self.c, self.n)


class Opq(S):
    """Unknown text; its characters are given by an uninterpreted function."""

    def __init__(self, name, n, lohi=(0, 65535), pre=()):
        self.name, self.n, self.pre = name, n, list(pre)
        self.f = z3.Function(name, *([z3.IntSort()] * (len(self.pre) + 2)))
        self.lohi = lohi
        if name not in smt.AXIOMS:
            np = len(self.pre)
            smt.AXIOMS[name] = []
            if lohi:
                f = self.f
                smt.axiom(f, lambda *a: [z3.And(f(*a) >= lohi[0], f(*a) <= lohi[1])])
                BOUND[name] = lohi

    def len(self):
        return self.n

    def at(self, i):
        return self.f(*[Z(p) for p in self.pre], Z(simp(i)))

    def __repr__(self):
        return "%s%s" % (self.name, self.pre or "")


class Gen(S):
    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def len(self):
        return self.n

    def at(self, i):
        return self.fn(i)

    def __repr__(self):
        return "gen(%s)" % self.n


class Cat(S):
    def __init__(self, parts):
        self.parts = parts
        n = 0
        for p in parts:
            n = add(n, p.len())
        self.n = n

    def len(self):
        return self.n

    def at(self, i):
        offs, o = [], 0
        for p in self.parts:
            offs.append(o)
            o = add(o, p.len())
        r = None
        for k in range(len(self.parts) - 1, -1, -1):
            p = self.parts[k]
            end = add(offs[k], p.len())
            if not is_z(i) and not is_z(offs[k]) and i < offs[k]:
                continue
            v = p.at(sub(i, offs[k]))
            if r is None:
                r = v
            else:
                r = If(lt(i, end), v, r)
        return r if r is not None else 0

    def __repr__(self):
        return " ++ ".join(map(repr, self.parts))


class SubT(S):
    def __init__(self, s, a, b):
        self.s, self.a, self.b = s, a, b

    def len(self):
        return sub(self.b, self.a)

    def at(self, i):
        return self.s.at(add(self.a, i))

    def __repr__(self):
        return "%r[%s..%s]" % (self.s, self.a, self.b)


class IteT(S):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def len(self):
        return If(self.c, self.a.len(), self.b.len())

    def at(self, i):
        return If(self.c, self.a.at(i), self.b.at(i))

    def __repr__(self):
        return "(%s ? %r : %r)" % (self.c, self.a, self.b)


class MapT(S):
    def __init__(self, s, fn, name="map"):
        self.s, self.fn, self.name = s, fn, name

    def len(self):
        return self.s.len()

    def at(self, i):
        return self.fn(self.s.at(i))

    def __repr__(self):
        return "%s(%r)" % (self.name, self.s)


class UpdT(S):
    def __init__(self, s, i, v):
        self.s, self.i, self.v = s, i, v

    def len(self):
        return self.s.len()

    def at(self, k):
        return If(eq(k, self.i), self.v, self.s.at(k))

    def __repr__(self):
        return "%r[%s:=%s]" % (self.s, self.i, self.v)


EMPTY = Lit("")


def lit(s):
    return Lit(s)


def ch(c):
    return Lit(chr(c)) if not is_z(c) else Rep(c, 1)


def rep(c, n):
    if isinstance(c, str):
        c = ord(c)
    if not is_z(n) and not is_z(c):
        return Lit(chr(c) * max(n, 0))
    return Rep(c, n)


def cat(*ps):
    out = []
    for p in ps:
        for q in (p.parts if isinstance(p, Cat) else [p]):
            n = q.len()
            if not is_z(n) and n == 0:
                continue
            if out and isinstance(q, Lit) and isinstance(out[-1], Lit):
                out[-1] = Lit(out[-1].s + q.s)
            elif out and isinstance(q, SubT) and isinstance(out[-1], SubT) and out[-1].s is q.s and eq(out[-1].b, q.a) is True:
                out[-1] = substr(q.s, out[-1].a, q.b)
            else:
                out.append(q)
    if not out:
        return EMPTY
    return out[0] if len(out) == 1 else Cat(out)


def substr(s, a, b):
    a, b = simp(a), simp(b)
    if not is_z(a) and not is_z(b):
        if a == b:
            return EMPTY
        if isinstance(s, Lit):
            return Lit(s.s[a:b])
        if isinstance(s, Vals):
            return Vals(s.v[a:b])
    if not is_z(a) and a == 0 and eq(b, s.len()) is True:
        return s
    if isinstance(s, SubT):
        return substr(s.s, add(s.a, a), add(s.a, b))
    if isinstance(s, Rep):
        return rep(s.c, sub(b, a))
    if isinstance(s, Cat) and not is_z(a):
        # cut known leading parts
        o = 0
        for k, p in enumerate(s.parts):
            n = p.len()
            if is_z(n):
                break
            if a < o + n:
                break
            o += n
            if a == o and k + 1 < len(s.parts):
                rest = cat(*s.parts[k + 1:])
                return substr(rest, 0, sub(b, o))
    return SubT(s, a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, Lit) and isinstance(b, Lit) and a.s == b.s:
        return a
    return IteT(c, a, b)


def up_char(c):
    if not is_z(c):
        return c - 32 if 97 <= c <= 122 else c
    return If(z3.And(c >= 97, c <= 122), c - 32, c)


def upper(s):
    if isinstance(s, Lit):
        return Lit("".join(chr(up_char(ord(c))) for c in s.s))
    if isinstance(s, Cat):
        return cat(*[upper(p) for p in s.parts])
    if isinstance(s, MapT) and s.name == "upper":
        return s
    if isinstance(s, Rep):
        return rep(up_char(s.c), s.n)
    return MapT(s, up_char, "upper")


def text_eq_goals(a, b):
    """Goals whose validity means a = b (the second one at an arbitrary index)."""
    if a is b or (isinstance(a, Lit) and isinstance(b, Lit) and a.s == b.s):
        return []
    la, lb = a.len(), b.len()
    i = fresh_int("ix")
    return [("length", eq(la, lb)), ("chars", Implies(And(i >= 0, lt(i, la), lt(i, lb)), eq(a.at(i), b.at(i))))]


def same_text(pc, a, b):
    return all(smt.prove(pc, g) for _, g in text_eq_goals(a, b))


def known(pc, t):
    """Explicit Python string of a text when it is a literal."""
    return t.s if isinstance(t, Lit) else None
