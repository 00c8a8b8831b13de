"""Hash-consed terms over Real / Int / Bool, with light normalisation.

Numbers are exact rationals.  Linear arithmetic is kept in a normal form ('lin'), so that terms that
are equal as linear expressions are usually the same object.  Everything else is left to the solver.
"""
from fractions import Fraction

INF = float("inf")


class T:
    __slots__ = ("op", "args", "sort", "id", "lo", "hi", "nl")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def _mk(op, args, sort, lo=None, hi=None, key=None):
    k = (op, key if key is not None else args, sort)
    t = _table.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.sort = sort
        t.lo = lo
        t.hi = hi
        t.id = _count[0]
        _count[0] += 1
        t.nl = op in NONLINEAR
        _table[k] = t
    return t


NONLINEAR = {"mul", "div", "sqrt", "exp", "log", "cos", "sin", "pow", "lerp"}


def const(v, sort=None):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if sort is None:
        sort = "I" if isinstance(v, int) else "R"
    v = Fraction(v)
    return _mk("c", (v,), sort, v, v)


TRUE = _mk("c", (True,), "B")
FALSE = _mk("c", (False,), "B")


def reset():
    """Forget every term (between independent explorations)."""
    keep = {k: t for k, t in _table.items() if t is TRUE or t is FALSE}
    _table.clear()
    _table.update(keep)


def var(name, sort, lo=None, hi=None):
    if lo is not None:
        lo = Fraction(lo)
    if hi is not None:
        hi = Fraction(hi)
    return _mk("v", (name,), sort, lo, hi)


def is_const(t):
    return t.op == "c"


def cval(t):
    return t.args[0]


# -- linear arithmetic -------------------------------------------------------------------------

def _parts(t):
    """(constant, [(coef, atom)]) of a numeric term."""
    if t.op == "c":
        return t.args[0], ()
    if t.op == "lin":
        return t.args
    return Fraction(0), ((Fraction(1), t),)


def _lin(c, parts, sort):
    if not parts:
        return const(c, sort)
    if c == 0 and len(parts) == 1 and parts[0][0] == 1 and parts[0][1].sort == sort:
        return parts[0][1]
    parts = tuple(parts)
    lo = hi = c
    for k, a in parts:
        if k > 0:
            l, h = a.lo, a.hi
        else:
            l, h = a.hi, a.lo
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
        if lo is None and hi is None:
            break
    key = (c, tuple((k, a.id) for k, a in parts))
    return _mk("lin", (c, parts), sort, lo, hi, key)


def add(a, b):
    sort = "I" if a.sort == "I" and b.sort == "I" else "R"
    if a.op == "c" and b.op == "c":
        return const(a.args[0] + b.args[0], sort)
    if a.op == "c" and a.args[0] == 0 and b.sort == sort:
        return b
    if b.op == "c" and b.args[0] == 0 and a.sort == sort:
        return a
    ca, pa = _parts(a)
    cb, pb = _parts(b)
    if not pb:
        return _lin(ca + cb, pa, sort)
    if not pa:
        return _lin(ca + cb, pb, sort)
    # merge, both sorted by atom id
    out = []
    i = j = 0
    while i < len(pa) and j < len(pb):
        ka, xa = pa[i]
        kb, xb = pb[j]
        if xa is xb:
            k = ka + kb
            if k != 0:
                out.append((k, xa))
            i += 1
            j += 1
        elif xa.id < xb.id:
            out.append(pa[i])
            i += 1
        else:
            out.append(pb[j])
            j += 1
    out.extend(pa[i:])
    out.extend(pb[j:])
    return _lin(ca + cb, out, sort)


def scale(k, a):
    k = Fraction(k)
    sort = a.sort if k.denominator == 1 else "R"
    if k == 0:
        return const(0, sort)
    if k == 1:
        return a
    c, p = _parts(a)
    return _lin(k * c, [(k * kk, x) for kk, x in p], sort)


def neg(a):
    return scale(-1, a)


def sub(a, b):
    if a is b:
        return const(0, a.sort)
    return add(a, neg(b))


def toreal(a):
    if a.sort == "R":
        return a
    if a.sort == "B":
        return ite(a, const(1, "R"), const(0, "R"))
    if a.op == "c":
        return const(a.args[0], "R")
    if a.op == "lin":
        return _lin(a.args[0], a.args[1], "R")
    if a.op == "ite":
        return ite(a.args[0], toreal(a.args[1]), toreal(a.args[2]))
    return _lin(Fraction(0), ((Fraction(1), a),), "R")


def toint(a):
    if a.sort == "B":
        return ite(a, const(1, "I"), const(0, "I"))
    return a


def _content(a):
    """Factor a term as k * x, with k the leading coefficient of a homogeneous linear term."""
    if a.op == "lin" and a.args[0] == 0:
        k = a.args[1][0][0]
        if k != 1:
            return k, scale(1 / k, a)
    return Fraction(1), a


def mul(a, b):
    if a.op == "c":
        return scale(a.args[0], b)
    if b.op == "c":
        return scale(b.args[0], a)
    # push multiplication through an ite with constant leaves (0/1 masks)
    for x, y in ((a, b), (b, a)):
        if x.op == "ite" and x.args[1].op == "c" and x.args[2].op == "c":
            return ite(x.args[0], mul(x.args[1], y), mul(x.args[2], y))
    sort = "I" if a.sort == "I" and b.sort == "I" else "R"
    ka, a = _content(a)
    kb, b = _content(b)
    if a.op == "c" or b.op == "c":
        return scale(ka * kb, mul(a, b))
    if b.id < a.id:
        a, b = b, a
    lo = hi = None
    if a is b:
        lo = Fraction(0)
        if a.lo is not None and a.hi is not None:
            hi = max(a.lo * a.lo, a.hi * a.hi)
    elif None not in (a.lo, a.hi, b.lo, b.hi):
        ps = (a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi)
        lo, hi = min(ps), max(ps)
    elif a.lo is not None and b.lo is not None and a.lo >= 0 and b.lo >= 0:
        lo = a.lo * b.lo
    m = _mk("mul", (a, b), sort, lo, hi)
    return scale(ka * kb, m)


def div(a, b):
    """Real division; the caller guarantees b != 0."""
    a, b = toreal(a), toreal(b)
    if b.op == "c":
        return scale(1 / b.args[0], a)
    if a.op == "c" and a.args[0] == 0:
        return a
    if a is b:
        return const(1, "R")
    ka, a = _content(a)
    kb, b = _content(b)
    if a is b:
        return const(ka / kb, "R")
    lo = hi = None
    if a.lo is not None and a.lo >= 0 and b.lo is not None and b.lo >= 0:
        lo = Fraction(0)
    d = _mk("div", (a, b), "R", lo, hi)
    return scale(ka / kb, d)


def unary(op, a, lo=None, hi=None):
    return _mk(op, (a,), "R", lo, hi)


def floor(a):
    if a.sort == "I":
        return a
    if a.op == "c":
        return const(a.args[0].__floor__(), "I")
    return _mk("floor", (a,), "I",
               None if a.lo is None else Fraction(a.lo.__floor__()),
               None if a.hi is None else Fraction(a.hi.__floor__()))


def uf(name, args, sort="R", lo=None, hi=None):
    return _mk("uf", (name,) + tuple(args), sort, lo, hi)


def lerp(low, high, u):
    """low + (high - low) * u, u in [0, 1): the value of a uniform draw."""
    if low is high:
        return low
    if low.op == "c" and high.op == "c":
        return add(low, scale(high.args[0] - low.args[0], u))
    lo = None if low.lo is None or high.lo is None else min(low.lo, high.lo)
    hi = None if low.hi is None or high.hi is None else max(low.hi, high.hi)
    return _mk("lerp", (low, high, u), "R", lo, hi)


# -- booleans ----------------------------------------------------------------------------------

def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0":
        return _cmp0("lt0", neg(a.args[0]))
    if a.op == "lt0":
        return _cmp0("le0", neg(a.args[0]))
    return _mk("not", (a,), "B")


def and_(*xs):
    out = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == "and":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    for x in list(out.values()):
        n = not_(x)
        if n.id in out:
            return FALSE
    if not out:
        return TRUE
    vals = tuple(out[k] for k in sorted(out))
    if len(vals) == 1:
        return vals[0]
    return _mk("and", vals, "B")


def or_(*xs):
    out = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == "or":
            for y in x.args:
                out[y.id] = y
        else:
            out[x.id] = x
    for x in list(out.values()):
        n = not_(x)
        if n.id in out:
            return TRUE
    if not out:
        return FALSE
    vals = tuple(out[k] for k in sorted(out))
    if len(vals) == 1:
        return vals[0]
    return _mk("or", vals, "B")


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    return eq(a, b)


def _cmp0(op, d):
    if d.op == "c":
        v = d.args[0]
        return TRUE if (v <= 0 if op == "le0" else v < 0) else FALSE
    if d.hi is not None and (d.hi < 0 or (op == "le0" and d.hi <= 0)):
        return TRUE
    if d.lo is not None and (d.lo > 0 or (op == "lt0" and d.lo >= 0)):
        return FALSE
    if d.op == "lin":
        k = abs(d.args[1][0][0])
        if k != 1:
            d = scale(1 / k, d)
    elif d.op == "ite" and d.args[1].op == "c" and d.args[2].op == "c":
        return ite(d.args[0], _cmp0(op, d.args[1]), _cmp0(op, d.args[2]))
    return _mk(op, (d,), "B")


def le(a, b):
    if a.sort == "I" and b.sort == "I":
        r = _pushcmp(le, a, b)
        if r is not None:
            return r
    return _cmp0("le0", sub(a, b))


def lt(a, b):
    if a.sort == "I" and b.sort == "I":
        r = _pushcmp(lt, a, b)
        if r is not None:
            return r
    return _cmp0("lt0", sub(a, b))


def _intleaf(t, n=0):
    """An ite tree over integer constants (of bounded depth)?"""
    while t.op == "ite":
        if t.args[1].op != "c":
            return False
        t = t.args[2]
        n += 1
        if n > 64:
            return False
    return t.op == "c"


def _pushcmp(f, a, b):
    if a.op == "ite" and b.op == "c" and _intleaf(a):
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if b.op == "ite" and a.op == "c" and _intleaf(b):
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None


def eq(a, b):
    if a is b:
        return TRUE
    if a.sort == "B" and b.sort == "B":
        if a is TRUE:
            return b
        if b is TRUE:
            return a
        if a is FALSE:
            return not_(b)
        if b is FALSE:
            return not_(a)
        if b.id < a.id:
            a, b = b, a
        return _mk("iff", (a, b), "B")
    if a.sort == "I" and b.sort == "I":
        r = _pushcmp(eq, a, b)
        if r is not None:
            return r
    d = sub(a, b)
    if d.op == "c":
        return TRUE if d.args[0] == 0 else FALSE
    if (d.lo is not None and d.lo > 0) or (d.hi is not None and d.hi < 0):
        return FALSE
    if d.op == "lin":
        k = d.args[1][0][0]
        if k != 1:
            d = scale(1 / k, d)
    return _mk("eq0", (d,), "B")


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.sort == "B":
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        return _mk("ite", (c, a, b), "B")
    if a.sort != b.sort:
        a, b = toreal(a), toreal(b)
        if a is b:
            return a
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    lo = None if a.lo is None or b.lo is None else min(a.lo, b.lo)
    hi = None if a.hi is None or b.hi is None else max(a.hi, b.hi)
    return _mk("ite", (c, a, b), a.sort, lo, hi)


# -- inspection --------------------------------------------------------------------------------

def children(t):
    if t.op in ("c", "v"):
        return ()
    if t.op == "lin":
        return tuple(x for _, x in t.args[1])
    if t.op == "uf":
        return t.args[1:]
    return t.args


def cone(roots):
    """All sub-terms, children first."""
    seen = set()
    out = []
    stack = [(r, False) for r in roots]
    while stack:
        t, done = stack.pop()
        if done:
            out.append(t)
            continue
        if t.id in seen:
            continue
        seen.add(t.id)
        stack.append((t, True))
        for c in children(t):
            if c.id not in seen:
                stack.append((c, False))
    return out


def show(t, depth=6):
    if t.op == "c":
        v = t.args[0]
        return str(v) if isinstance(v, bool) or v.denominator < 1000 else f"{float(v):.6g}"
    if t.op == "v":
        return str(t.args[0])
    if depth == 0:
        return f"#{t.id}"
    if t.op == "lin":
        c, ps = t.args
        s = " + ".join(f"{float(k):g}*{show(x, depth - 1)}" for k, x in ps)
        return f"({float(c):g} + {s})"
    if t.op == "uf":
        return f"{t.args[0]}({', '.join(show(x, depth - 1) for x in t.args[1:])})"
    return f"{t.op}({', '.join(show(x, depth - 1) for x in t.args)})"


def evaluate(roots, env):
    """Evaluate terms in floats; env maps variable name -> number, and ('uf', id) -> number."""
    import math
    val = {}
    for t in cone(roots):
        op = t.op
        if op == "c":
            v = t.args[0]
            val[t.id] = v if isinstance(v, bool) else (int(v) if t.sort == "I" else float(v))
        elif op == "v":
            val[t.id] = env[t.args[0]]
        elif op == "lin":
            val[t.id] = float(t.args[0]) + sum(float(k) * val[x.id] for k, x in t.args[1])
        elif op == "uf":
            val[t.id] = env[("uf", t.id)]
        else:
            a = [val[x.id] for x in t.args]
            val[t.id] = {
                "mul": lambda: a[0] * a[1],
                "div": lambda: a[0] / a[1] if a[1] else math.nan,
                "sqrt": lambda: math.sqrt(max(a[0], 0.0)),
                "exp": lambda: math.exp(min(a[0], 700.0)),
                "log": lambda: math.log(a[0]) if a[0] > 0 else -INF,
                "cos": lambda: math.cos(a[0]),
                "sin": lambda: math.sin(a[0]),
                "pow": lambda: a[0] ** a[1],
                "floor": lambda: math.floor(a[0]),
                "lerp": lambda: a[0] + (a[1] - a[0]) * a[2],
                "not": lambda: not a[0],
                "and": lambda: all(a),
                "or": lambda: any(a),
                "iff": lambda: a[0] == a[1],
                "le0": lambda: a[0] <= 0,
                "lt0": lambda: a[0] < 0,
                "eq0": lambda: a[0] == 0,
                "ite": lambda: a[1] if a[0] else a[2],
            }[op]()
    return [val[r.id] for r in roots]
