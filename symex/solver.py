"""Terms -> z3, with tiered abstraction of the non-linear part.

Tier 0 replaces every non-linear node (product of two non-constant terms, quotient, square root,
transcendental function) by a fresh variable constrained only by sound lemmas; tier k interprets the nodes
whose non-linear depth, seen from the formula, is below k; tier FULL interprets all of them.  A formula that
is unsatisfiable at some tier is unsatisfiable.
"""
import time
from fractions import Fraction

import z3

from . import terms as tm

FULL = 99

STRICT = set()  # ids of variables whose bounds are strict


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.by_tier = {}

    def record(self, r, dt, tier):
        self.queries += 1
        self.time += dt
        self.by_tier[str(tier)] = self.by_tier.get(str(tier), 0) + 1
        if r == z3.unsat:
            self.unsat += 1
        elif r == z3.sat:
            self.sat += 1
        else:
            self.unknown += 1


_vars = {}


def zvar(name, sort):
    k = (name, sort)
    v = _vars.get(k)
    if v is None:
        n = str(name)
        v = {"R": z3.Real, "I": z3.Int, "B": z3.Bool}[sort](n)
        _vars[k] = v
    return v


def zconst(t):
    v = t.args[0]
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if t.sort == "I":
        return z3.IntVal(int(v))
    return z3.RealVal(v)


E_LO, E_UP = Fraction(27182818284590452, 10**16), Fraction(27182818284590453, 10**16)  # bounds of exp(1)


def lemmas(t):
    """Sound facts on a non-linear node, as terms that may mention the node itself."""
    zero, one = tm.const(0, "R"), tm.const(1, "R")
    out = []
    op = t.op
    if op == "v":
        if t.id in STRICT:
            if t.lo is not None:
                out.append(tm._mk("lt0", (tm.sub(tm.const(t.lo, t.sort), t),), "B"))
            if t.hi is not None:
                out.append(tm._mk("lt0", (tm.sub(t, tm.const(t.hi, t.sort)),), "B"))
            return out
    if op == "mul":
        a, b = t.args
        if a is b:
            out.append(tm.le(zero, t) if t.lo is None else None)
            out.append(tm._mk("le0", (tm.neg(t),), "B"))
    elif op == "sqrt":
        a = t.args[0]
        out.append(tm._mk("le0", (tm.neg(t),), "B"))
        out.append(tm.iff(tm._mk("le0", (t,), "B"), tm.le(a, zero)))
    elif op == "exp":
        a = t.args[0]
        out.append(tm._mk("lt0", (tm.neg(t),), "B"))
        out.append(tm._mk("le0", (tm.sub(tm.add(a, one), t),), "B"))
        out.append(tm.iff(tm.le(a, zero), tm._mk("le0", (tm.sub(t, one),), "B")))
        out.append(tm.implies(tm.le(a, one), tm._mk("le0", (tm.sub(t, tm.const(E_UP, "R")),), "B")))
        out.append(tm.implies(tm.le(one, a), tm._mk("le0", (tm.sub(tm.const(E_LO, "R"), t),), "B")))
    elif op == "log":
        a = t.args[0]
        out.append(tm._mk("le0", (tm.sub(t, tm.sub(a, one)),), "B"))
        out.append(tm.iff(tm.lt(a, one), tm._mk("lt0", (t,), "B")))
    elif op in ("cos", "sin"):
        out.append(tm._mk("le0", (tm.sub(t, one),), "B"))
        out.append(tm._mk("le0", (tm.sub(tm.neg(t), one),), "B"))
    elif op == "lerp":
        lo, hi, _ = t.args
        up = tm.le(lo, hi)
        out.append(tm.implies(up, tm.and_(
            tm._mk("le0", (tm.sub(lo, t),), "B"), tm._mk("le0", (tm.sub(t, hi),), "B"))))
        out.append(tm.implies(tm.not_(up), tm.and_(
            tm._mk("le0", (tm.sub(hi, t),), "B"), tm._mk("le0", (tm.sub(t, lo),), "B"))))
    if t.lo is not None:
        out.append(tm._mk("le0", (tm.sub(tm.const(t.lo, t.sort), t),), "B"))
    if t.hi is not None:
        out.append(tm._mk("le0", (tm.sub(t, tm.const(t.hi, t.sort)),), "B"))
    return [x for x in out if x is not None]


_ufs = {}


def zuf(name, args, sort):
    k = (name, len(args), sort, tuple(str(a.sort()) for a in args))
    f = _ufs.get(k)
    if f is None:
        rng = {"R": z3.RealSort(), "I": z3.IntSort(), "B": z3.BoolSort()}[sort]
        f = z3.Function(f"{name}_{len(args)}_{len(_ufs)}", *[a.sort() for a in args], rng)
        _ufs[k] = f
    return f(*args)


def real(e):
    return z3.ToReal(e) if z3.is_int(e) else e


class Translator:
    """Translate terms; `interp` is None (tier 0) or the set of ids of interpreted non-linear nodes."""

    def __init__(self, interp=None):
        self.interp = interp
        self.cache = {}
        self.nodes = {}  # id -> set of abstracted/lemma nodes directly met (in translation order)

    def __call__(self, root):
        r = self.cache.get(root.id)
        if r is not None:
            return r
        for t in tm.cone([root]):
            if t.id not in self.cache:
                self.cache[t.id] = self._node(t)
        return self.cache[root.id]

    def _node(self, t):
        c = self.cache
        op = t.op
        if op == "c":
            return zconst(t)
        if op == "v":
            return zvar(t.args[0], t.sort)
        if op == "lin":
            k0, ps = t.args
            terms = []
            for k, x in ps:
                e = c[x.id]
                if t.sort == "R":
                    e = real(e)
                if k == 1:
                    terms.append(e)
                elif k == -1:
                    terms.append(-e)
                else:
                    terms.append((z3.RealVal(k) if t.sort == "R" else z3.IntVal(int(k))) * e)
            if k0 != 0:
                terms.append(z3.RealVal(k0) if t.sort == "R" else z3.IntVal(int(k0)))
            return terms[0] if len(terms) == 1 else z3.Sum(terms)
        if op == "uf":
            return zuf(t.args[0], [real(c[x.id]) for x in t.args[1:]], t.sort)
        a = [c[x.id] for x in t.args]
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a)
        if op == "or":
            return z3.Or(a)
        if op == "iff":
            return a[0] == a[1]
        if op == "le0":
            return self._cmp(t.args[0], "le")
        if op == "lt0":
            return self._cmp(t.args[0], "lt")
        if op == "eq0":
            return self._cmp(t.args[0], "eq")
        if op == "floor":
            return z3.ToInt(real(a[0]))
        # non-linear
        if self.interp is not None and t.id in self.interp:
            a = [real(x) for x in a]
            if op == "mul":
                e = a[0] * a[1]
                return z3.ToInt(e) if t.sort == "I" else e
            if op == "div":
                return a[0] / a[1]
            if op == "lerp":
                return a[0] + (a[1] - a[0]) * a[2]
            if op in ("exp", "log", "cos", "sin", "pow"):
                return zuf("fn_" + op, a, "R")
        return zvar(f"nl!{t.id}", t.sort)

    def _cmp(self, d, k):
        """d <= 0 / d < 0 / d == 0, positive part on the left and negative part on the right."""
        c = self.cache
        if d.op == "lin":
            k0, ps = d.args
            pos, neg = [], []
            for q, x in ps:
                e = c[x.id]
                if d.sort == "R":
                    e = real(e)
                m = abs(q)
                if m != 1:
                    e = (z3.RealVal(m) if d.sort == "R" else z3.IntVal(int(m))) * e \
                        if d.sort == "R" or m.denominator == 1 else z3.RealVal(m) * real(e)
                (pos if q > 0 else neg).append(e)
            if k0 != 0:
                v = z3.RealVal(abs(k0)) if d.sort == "R" or k0.denominator != 1 else z3.IntVal(int(abs(k0)))
                (pos if k0 > 0 else neg).append(v)
            zero = z3.RealVal(0) if d.sort == "R" else z3.IntVal(0)
            l = zero if not pos else pos[0] if len(pos) == 1 else z3.Sum(pos)
            r = zero if not neg else neg[0] if len(neg) == 1 else z3.Sum(neg)
        else:
            l, r = c[d.id], (z3.RealVal(0) if d.sort == "R" else z3.IntVal(0))
        return l <= r if k == "le" else l < r if k == "lt" else l == r


_nl_memo = {}


def nl_nodes(root, _memo=_nl_memo):
    """Non-linear nodes and bounded variables in the cone of a term (ids -> term), memoised."""
    r = _memo.get(root.id)
    if r is not None:
        return r
    for t in tm.cone([root]):
        if t.id in _memo:
            continue
        acc = None
        for ch in tm.children(t):
            s = _memo[ch.id]
            if s:
                if acc is None:
                    acc = s
                elif acc is not s and not s.keys() <= acc.keys():
                    acc = {**acc, **s}
        if t.nl or (t.op == "v" and t.sort != "B" and (t.lo is not None or t.hi is not None)):
            acc = {**(acc or {}), t.id: t}
        _memo[t.id] = acc if acc is not None else {}
    return _memo[root.id]


_T0 = Translator()


class PathSolver:
    """Incremental tier-0 solver along the current path."""

    def __init__(self, stats, timeout_ms=3000):
        self.s = z3.Solver()
        self.s.set("timeout", timeout_ms)
        self.stats = stats
        self.frames = []
        self.seen = set()  # ids of non-linear nodes whose lemmas are asserted
        self.log = []
        self.model = None

    def _assert(self, t):
        todo = [t]
        while todo:
            x = todo.pop()
            for i, n in nl_nodes(x).items():
                if i not in self.seen:
                    self.seen.add(i)
                    self.log.append(i)
                    todo.extend(lemmas(n))
            self.s.add(_T0(x))

    def add(self, t):
        self._assert(t)
        if self.model is not None and not self._model_sat(t):
            self.model = None

    def know(self, t):
        """Make the ranges of t's variables part of the path (a model that ignores them is dropped)."""
        for i, n in nl_nodes(t).items():
            if i not in self.seen:
                self.seen.add(i)
                self.log.append(i)
                for x in lemmas(n):
                    self._assert(x)
                self.model = None

    def push(self):
        self.s.push()
        self.frames.append(len(self.log))

    def pop(self, n=1):
        self.s.pop(n)
        k = 0
        for _ in range(n):
            k = self.frames.pop()
        for i in self.log[k:]:
            self.seen.discard(i)
        del self.log[k:]
        self.model = None

    def _model_sat(self, t):
        try:
            return z3.is_true(self.model.eval(_T0(t), model_completion=True))
        except z3.Z3Exception:
            return False

    def check(self, t=None):
        """'sat' / 'unsat' / 'unknown' for the path (and t)."""
        if t is not None:
            self.push()
            self._assert(t)
        t0 = time.time()
        r = self.s.check()
        self.stats.record(r, time.time() - t0, 0)
        m = self.s.model() if r == z3.sat else None
        if t is not None:
            keep = self.model
            self.pop()
            self.model = keep
        if m is not None:
            self.model = m
        self.last = m
        return str(r)

    def feasible(self, t):
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        if self.model is not None and self._model_sat(t):
            return True
        return self.check(t) != "unsat"


def nl_depths(roots):
    """Minimal non-linear depth (from the roots) of each non-linear node."""
    depth = {}
    best = {}
    import heapq
    h = []
    n = 0
    for r in roots:
        heapq.heappush(h, (0, n, r))
        n += 1
    while h:
        d, _, t = heapq.heappop(h)
        if t.id in best and best[t.id] <= d:
            continue
        best[t.id] = d
        dd = d
        if t.nl:
            depth[t.id] = (d, t)
            dd = d + 1
        for ch in tm.children(t):
            if ch.id not in best or best[ch.id] > dd:
                heapq.heappush(h, (dd, n, ch))
                n += 1
    return depth


def solve(assertions, tier, stats, timeout_ms=10000, goal=None, logic=None):
    """Check a conjunction of terms at a tier; returns (result, model or None, translator).

    Depth is measured from `goal` (default: all assertions): path constraints alone do not pull nodes in
    unless the tier is FULL.
    """
    depth = nl_depths(goal if goal is not None and tier != FULL else assertions)
    interp = {i for i, (d, t) in depth.items() if d < tier}
    tr = Translator(interp)
    s = z3.SolverFor(logic) if logic else z3.Solver()
    s.set("timeout", timeout_ms)
    seen = set()
    todo = list(assertions)
    fns = {}
    while todo:
        x = todo.pop()
        for i, n in nl_nodes(x).items():
            if i in seen:
                continue
            seen.add(i)
            todo.extend(lemmas(n))
            if i in interp:
                if n.op == "sqrt":
                    e = tr(n)
                    s.add(e * e == real(tr(n.args[0])))
                elif n.op == "div":
                    s.add(real(tr(n.args[1])) != 0)
                elif n.op in ("exp", "log"):
                    for m in fns.setdefault(n.op, []):
                        s.add((real(tr(n.args[0])) < real(tr(m.args[0]))) == (tr(n) < tr(m)))
                    for m in fns.get("log" if n.op == "exp" else "exp", []):  # a < log b iff exp a < b
                        ex, lg = (n, m) if n.op == "exp" else (m, n)
                        b = real(tr(lg.args[0]))
                        s.add(z3.Implies(b > 0, z3.And((real(tr(ex.args[0])) < tr(lg)) == (tr(ex) < b),
                                                       (real(tr(ex.args[0])) == tr(lg)) == (tr(ex) == b))))
                    fns[n.op].append(n)
        s.add(tr(x))
    t0 = time.time()
    r = s.check()
    stats.record(r, time.time() - t0, tier)
    return str(r), (s.model() if r == z3.sat else None), tr


def model_value(m, e):
    """A float (or int / bool) for a z3 expression in a model."""
    v = m.eval(e, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        n, d = v.numerator_as_long(), v.denominator_as_long()
        try:
            return n / d
        except OverflowError:
            return float("inf") if n > 0 else float("-inf")
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return a.numerator_as_long() / a.denominator_as_long()
    raise ValueError(f"no value for {e}: {v}")
