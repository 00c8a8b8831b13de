"""Path exploration by re-execution, and symbolic scalars."""
import math
import time
from fractions import Fraction

import numpy as np

from . import terms as tm
from .solver import PathSolver, Stats


class EngineStop(BaseException):
    """Ends the current path (never caught by the code under test)."""


class Infeasible(EngineStop):
    pass


class Unsupported(EngineStop):
    pass


class Cut(EngineStop):
    """The path left the stated bounds."""


class Nondeterministic(EngineStop):
    pass


class Violation(EngineStop):
    pass


class Budget(EngineStop):
    pass


ACTIVE = [None]


def eng():
    e = ACTIVE[0]
    if e is None:
        raise Unsupported("no active engine")
    return e


class Entry:
    __slots__ = ("kind", "term", "value", "alt", "payload")

    def __init__(self, kind, term, value=None, alt=False, payload=None):
        self.kind, self.term, self.value, self.alt, self.payload = kind, term, value, alt, payload


class Engine:
    def __init__(self, max_paths=100000, deadline=None, solver_timeout_ms=3000, generic_division=True):
        self.stats = Stats()
        self.entries = []
        self.pos = 0
        self.solver = None
        self.max_paths = max_paths
        self.deadline = deadline
        self.solver_timeout_ms = solver_timeout_ms
        self.generic_division = generic_division
        self.paths = 0
        self.complete_paths = 0
        self.cut = {}
        self.unsupported = {}
        self.decisions = 0
        self.exhausted = False

    # -- path conditions -----------------------------------------------------------------------

    def path_terms(self):
        out = []
        for e in self.entries[: self.pos]:
            if e.kind == "a":
                out.append(e.term)
            elif e.alt is not None:
                out.append(e.term if e.value else tm.not_(e.term))
        return out

    def assume(self, t):
        """Restrict the current path."""
        if t is tm.TRUE:
            return
        if t is tm.FALSE:
            raise Infeasible()
        if self.pos < len(self.entries):
            e = self.entries[self.pos]
            if e.kind != "a" or e.term is not t:
                raise Nondeterministic(f"expected {e.kind} {e.term}, got assumption {t}")
            self.pos += 1
            return
        self.entries.append(Entry("a", t))
        self.pos += 1
        self.solver.add(t)
        self.facts[t.id] = True
        self.facts[tm.not_(t).id] = False

    def decide(self, t, payload=None):
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        if self.pos < len(self.entries):
            e = self.entries[self.pos]
            if e.kind != "d" or e.term is not t:
                raise Nondeterministic(f"expected {e.kind} {e.term}, got decision {t}")
            self.pos += 1
            self.facts[t.id] = e.value
            self.facts[tm.not_(t).id] = not e.value
            return e.value
        known = self.facts.get(t.id)
        if known is None:
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget()
            self.decisions += 1
            n = tm.not_(t)
            ft = self.solver.feasible(t)
            ff = self.solver.feasible(n) if ft else True
            if not ft:
                # the path itself is feasible, so the negation holds
                value, alt = False, None
            elif not ff:
                value, alt = True, None
            else:
                value, alt = True, True
            self.entries.append(Entry("d", t, value, alt, payload))
            self.pos += 1
            if alt:
                self.solver.push()
                self.solver.add(t)
            self.facts[t.id] = value
            self.facts[n.id] = not value
            return value
        self.entries.append(Entry("d", t, known, None, payload))
        self.pos += 1
        return known

    def must(self, t):
        """Does t hold on the whole path? (no fork; 'unknown' counts as no)"""
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        if self.pos < len(self.entries):
            e = self.entries[self.pos]
            if e.kind != "m" or e.term is not t:
                raise Nondeterministic(f"expected {e.kind} {e.term}, got query {t}")
            self.pos += 1
            return e.value
        known = self.facts.get(t.id)
        v = known if known is not None else not self.solver.feasible(tm.not_(t))
        self.entries.append(Entry("m", t, v, None))
        self.pos += 1
        return v

    def choose_int(self, t):
        """Concretise an integer term by forking over its feasible values."""
        if t.op == "c":
            return int(t.args[0])
        while True:
            if self.pos < len(self.entries):
                v = self.entries[self.pos].payload
                if v is None:
                    raise Nondeterministic("expected a concretisation")
            else:
                from .solver import _T0, model_value
                self.solver.know(t)
                if self.solver.model is None:
                    if self.solver.check() != "sat":
                        raise Infeasible()
                v = int(model_value(self.solver.model, _T0(t)))
            if self.decide(tm.eq(t, tm.const(v, "I")), payload=v):
                return v

    # -- exploration ---------------------------------------------------------------------------

    def explore(self, fn):
        """Run fn() on every path.  fn must be deterministic given the decisions."""
        self.solver = PathSolver(self.stats, self.solver_timeout_ms)
        self.entries = []
        prev = ACTIVE[0]
        ACTIVE[0] = self
        try:
            while True:
                self.pos = 0
                self.facts = {}
                self.paths += 1
                try:
                    fn()
                    self.complete_paths += 1
                except Infeasible:
                    pass
                except Cut as e:
                    self.cut[str(e)] = self.cut.get(str(e), 0) + 1
                except Unsupported as e:
                    self.unsupported[str(e)] = self.unsupported.get(str(e), 0) + 1
                # backtrack
                while self.entries:
                    e = self.entries[-1]
                    if e.kind == "d" and e.alt:
                        break
                    self.entries.pop()
                if not self.entries:
                    self.exhausted = True
                    return
                # drop every solver frame above (and including) this decision
                depth = sum(1 for x in self.entries if x.kind == "d" and x.alt is not None)
                self.solver.pop(len(self.solver.frames) - (depth - 1))
                e = self.entries[-1]
                e.value = not e.value
                e.alt = False
                self.solver.push()
                self.solver.add(e.term if e.value else tm.not_(e.term))
                if self.paths >= self.max_paths:
                    raise Budget()
                if self.deadline is not None and time.time() > self.deadline:
                    raise Budget()
        finally:
            ACTIVE[0] = prev


# -- symbolic scalars ------------------------------------------------------------------------------

FORK = [False]  # scenarios may ask for one path per outcome of every comparison instead of merged values
CONCRETE = [False]  # validation runs: round constants like the machine does


def is_sym(x):
    return isinstance(x, (Sym, SymB))


def lift(x):
    """The term of a finite scalar."""
    if isinstance(x, (Sym, SymB)):
        return x.t
    if isinstance(x, (bool, np.bool_)):
        return tm.const(bool(x))
    if isinstance(x, (int, np.integer)):
        return tm.const(int(x), "I")
    if isinstance(x, (float, np.floating)):
        if not math.isfinite(x):
            raise Unsupported("non-finite constant in a term")
        return tm.const(Fraction(float(x)), "R")
    if isinstance(x, Fraction):
        return tm.const(x, "R")
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item() if x.dtype != object else x[()])
    raise Unsupported(f"cannot lift {type(x).__name__}")


def num(x):
    """The term of a finite numeric scalar, booleans as 0 / 1."""
    t = lift(x)
    return tm.toint(t) if t.sort == "B" else t


def wrap(t):
    if t.op == "c":
        v = t.args[0]
        if isinstance(v, bool):
            return np.bool_(v)
        if t.sort == "I":
            return np.int64(int(v)) if abs(v) < 2**62 else Sym(t)
        try:
            f = float(v)
        except OverflowError:
            return Sym(t)
        if Fraction(f) == v or CONCRETE[0]:
            return np.float64(f)
        return Sym(t)
    return SymB(t) if t.sort == "B" else Sym(t)


def special(x):
    """A concrete inf or nan?"""
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def el_bool(x):
    """Truth value as a boolean term."""
    if isinstance(x, SymB):
        return x.t
    if isinstance(x, Sym):
        return tm.not_(tm.eq(x.t, tm.const(0, x.t.sort)))
    return tm.const(bool(x))


def truth(x):
    """Python truth value (forks)."""
    if is_sym(x):
        return eng().decide(el_bool(x))
    return bool(x)


NAN = np.float64("nan")
PINF = np.float64("inf")
NINF = np.float64("-inf")


def _sgn(x):
    """Sign of a finite symbolic scalar (forks)."""
    t = num(x)
    z = tm.const(0, t.sort)
    if eng().decide(tm.lt(z, t)):
        return 1
    if eng().decide(tm.eq(t, z)):
        return 0
    return -1


def _npbin(f):
    def g(a, b):
        with np.errstate(all="ignore"):
            return f(_npscalar(a), _npscalar(b))
    return g


def _npscalar(x):
    if isinstance(x, bool):
        return np.bool_(x)
    if isinstance(x, int):
        return np.int64(x) if -2**63 <= x < 2**63 else x
    if isinstance(x, float) and not isinstance(x, np.floating):
        return np.float64(x)
    return x


def el_add(a, b):
    if not (is_sym(a) or is_sym(b)):
        return np.add(_npscalar(a), _npscalar(b))
    if special(a):
        return np.float64(a)
    if special(b):
        return np.float64(b)
    return wrap(tm.add(num(a), num(b)))


def el_sub(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.subtract, a, b)
    if special(a):
        return np.float64(a)
    if special(b):
        return np.float64(-b)
    return wrap(tm.sub(num(a), num(b)))


def _q(f, *xs):
    # floating point errors are ignored around the whole run
    return f(*[x if type(x) is np.float64 else _npscalar(x) for x in xs])


def el_mul(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.multiply, a, b)
    for x, y in ((a, b), (b, a)):
        if special(x):
            if math.isnan(x):
                return NAN
            s = _sgn(y)
            return NAN if s == 0 else np.float64(x * s)
    return wrap(tm.mul(num(a), num(b)))


def el_div(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.true_divide, a, b)
    if special(a):
        if math.isnan(a):
            return NAN
        s = _sgn(b)
        return np.float64(a * (s if s else 1))
    if special(b):
        return NAN if math.isnan(b) else np.float64(0.0)
    tb = num(b)
    z = tm.const(0, tb.sort)
    t0 = tm.eq(tb, z)
    if t0 is not tm.FALSE:
        e = eng()
        if tb.op != "c" and e.generic_division:
            if not e.must(tm.not_(t0)):
                e.assume(tm.not_(t0))
                e.cut["division by an exact zero assumed away"] = \
                    e.cut.get("division by an exact zero assumed away", 0) + 1
        elif e.decide(t0):
            s = _sgn(a) if is_sym(a) else int(np.sign(a))
            return NAN if s == 0 else (PINF if s > 0 else NINF)
    return wrap(tm.div(num(a), tb))


def el_floordiv(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.floor_divide, a, b)
    if is_sym(b) and num(b).sort == "I" and num(b).op != "c":
        b = b.__index__()
        if not is_sym(a):
            return _q(np.floor_divide, a, b)
    ta, tb = num(a), num(b)
    if tb.op != "c" or cval0(tb):
        raise Unsupported("floor division by a symbolic number")
    q = tm.floor(tm.div(ta, tb))
    return wrap(q if ta.sort == "I" and tb.sort == "I" else tm.toreal(q))


def cval0(t):
    return t.op == "c" and t.args[0] == 0


def el_mod(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.mod, a, b)
    return el_sub(a, el_mul(b, el_floordiv(a, b)))


def el_neg(a):
    if not is_sym(a):
        return _q(np.negative, a)
    return wrap(tm.neg(num(a)))


def el_lt(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.less, a, b)
    if special(a) or special(b):
        x = a if special(a) else b
        if math.isnan(x):
            return np.bool_(False)
        return np.bool_((a == -math.inf) if special(a) else (b == math.inf))
    return wrap(tm.lt(num(a), num(b)))


def el_le(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.less_equal, a, b)
    if special(a) or special(b):
        return el_lt(a, b)
    return wrap(tm.le(num(a), num(b)))


def el_gt(a, b):
    return el_lt(b, a)


def el_ge(a, b):
    return el_le(b, a)


def el_eq(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.equal, a, b)
    if special(a) or special(b):
        return np.bool_(False)
    ta, tb = lift(a), lift(b)
    if ta.sort == "B" and tb.sort == "B":
        return wrap(tm.iff(ta, tb))
    return wrap(tm.eq(tm.toint(ta), tm.toint(tb)))


def el_ne(a, b):
    return el_not(el_eq(a, b))


def el_not(a):
    if not is_sym(a):
        return np.logical_not(a)
    return wrap(tm.not_(el_bool(a)))


def el_and(a, b):
    return wrap(tm.and_(el_bool(a), el_bool(b)))


def el_or(a, b):
    return wrap(tm.or_(el_bool(a), el_bool(b)))


def el_xor(a, b):
    return wrap(tm.not_(tm.iff(el_bool(a), el_bool(b))))


def el_invert(a):
    if isinstance(a, SymB):
        return wrap(tm.not_(a.t))
    if isinstance(a, Sym):
        raise Unsupported("bitwise inversion of a symbolic number")
    return np.invert(_npscalar(a))


def _isb(x):
    return isinstance(x, (SymB, bool, np.bool_))


def el_bitand(a, b):
    if _isb(a) and _isb(b):
        return el_and(a, b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise and of symbolic numbers")
    return np.bitwise_and(a, b)


def el_bitor(a, b):
    if _isb(a) and _isb(b):
        return el_or(a, b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise or of symbolic numbers")
    return np.bitwise_or(a, b)


def el_bitxor(a, b):
    if _isb(a) and _isb(b):
        return el_xor(a, b)
    if is_sym(a) or is_sym(b):
        raise Unsupported("bitwise xor of symbolic numbers")
    return np.bitwise_xor(a, b)


def el_ite(c, a, b):
    """c: condition (term, or boolean scalar)."""
    if not isinstance(c, tm.T):
        c = el_bool(c)
    if c is tm.TRUE:
        return a
    if c is tm.FALSE:
        return b
    if a is b:
        return a
    if not is_sym(a) and not is_sym(b) and type(a) is type(b):
        if a == b or (a != a and b != b):
            return a
    if FORK[0] or special(a) or special(b) or isinstance(a, str) or a is None or b is None:
        return a if eng().decide(c) else b
    ta, tb = lift(a), lift(b)
    if ta.sort == "B" and tb.sort == "B":
        return wrap(tm.ite(c, ta, tb))
    return wrap(tm.ite(c, tm.toint(ta), tm.toint(tb)))


def el_min(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.minimum, a, b)
    for x in (a, b):
        if special(x) and math.isnan(x):
            return NAN
    return el_ite(el_le(a, b), a, b)


def el_max(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.maximum, a, b)
    for x in (a, b):
        if special(x) and math.isnan(x):
            return NAN
    return el_ite(el_ge(a, b), a, b)


def el_fmin(a, b):
    for x, y in ((a, b), (b, a)):
        if special(x) and math.isnan(x):
            return y
    return el_min(a, b)


def el_fmax(a, b):
    for x, y in ((a, b), (b, a)):
        if special(x) and math.isnan(x):
            return y
    return el_max(a, b)


def el_abs(a):
    if not is_sym(a):
        return _q(np.abs, a)
    t = num(a)
    z = tm.const(0, t.sort)
    return wrap(tm.ite(tm.le(z, t), t, tm.neg(t)))


def el_sign(a):
    if not is_sym(a):
        return _q(np.sign, a)
    t = num(a)
    s = t.sort
    z = tm.const(0, s)
    return wrap(tm.ite(tm.lt(z, t), tm.const(1, s), tm.ite(tm.lt(t, z), tm.const(-1, s), z)))


def el_sqrt(a):
    if not is_sym(a):
        return _q(np.sqrt, a)
    t = tm.toreal(num(a))
    if t.op == "c":
        return _q(np.sqrt, float(t.args[0]))
    z = tm.const(0, "R")
    neg = tm.lt(t, z)
    if neg is not tm.FALSE and not eng().must(tm.not_(neg)):
        if eng().generic_division:
            eng().assume(tm.not_(neg))
            eng().cut["square root of a negative number assumed away"] = 1
        elif eng().decide(neg):
            return NAN
    if t.op == "mul" and t.args[0] is t.args[1]:
        return el_abs(wrap(t.args[0]))
    return wrap(tm.unary("sqrt", t, lo=Fraction(0)))


def el_exp(a):
    if not is_sym(a):
        return _q(np.exp, a)
    t = tm.toreal(num(a))
    if t.op == "c":
        return _q(np.exp, float(t.args[0]))
    if t.op == "log":
        return wrap(t.args[0])
    if t.op == "ite":
        return el_ite(t.args[0], el_exp(wrap(t.args[1])), el_exp(wrap(t.args[2])))
    return wrap(tm.unary("exp", t, lo=Fraction(0)))


def el_log(a):
    if not is_sym(a):
        return _q(np.log, a)
    t = tm.toreal(num(a))
    if t.op == "c":
        return _q(np.log, float(t.args[0]))
    z = tm.const(0, "R")
    if t.op == "exp":
        return wrap(t.args[0])
    bad = tm.le(t, z)
    if bad is not tm.FALSE and not eng().must(tm.not_(bad)):
        if eng().generic_division:
            eng().assume(tm.not_(bad))
            eng().cut["logarithm of a number <= 0 assumed away"] = 1
        elif eng().decide(bad):
            return NINF if eng().decide(tm.eq(t, z)) else NAN
    return wrap(tm.unary("log", t))


def el_cos(a):
    if not is_sym(a):
        return _q(np.cos, a)
    t = tm.toreal(num(a))
    if t.op == "c":
        return _q(np.cos, float(t.args[0]))
    return wrap(tm.unary("cos", t, Fraction(-1), Fraction(1)))


def el_sin(a):
    if not is_sym(a):
        return _q(np.sin, a)
    t = tm.toreal(num(a))
    if t.op == "c":
        return _q(np.sin, float(t.args[0]))
    return wrap(tm.unary("sin", t, Fraction(-1), Fraction(1)))


def el_pow(a, b):
    if not (is_sym(a) or is_sym(b)):
        return _q(np.power, a, b)
    if not is_sym(b):
        if float(b) == int(b) and 0 <= b <= 8:
            r = num(a)
            if not isinstance(b, (int, np.integer)):
                r = tm.toreal(r)
            out = tm.const(1, r.sort)
            # even powers as squares of squares, so that their sign is known
            n = int(b)
            if n == 0:
                return wrap(out)
            half = r
            if n == 1:
                return wrap(r)
            sq = tm.mul(r, r)
            out = r if n % 2 else None
            k = n // 2
            p = sq
            if k == 2:
                p = tm.mul(sq, sq)
            elif k == 3:
                p = tm.mul(tm.mul(sq, sq), sq)
            elif k == 4:
                q = tm.mul(sq, sq)
                p = tm.mul(q, q)
            return wrap(p if out is None else tm.mul(out, p))
        if float(b) == 0.5:
            return el_sqrt(a)
        if float(b) == int(b) and -8 <= b < 0:
            return el_div(np.float64(1.0), el_pow(a, int(-b)))
    if not is_sym(a) and a > 0:
        return el_exp(el_mul(b, np.log(np.float64(a))))
    return wrap(tm._mk("pow", (tm.toreal(num(a)), tm.toreal(num(b))), "R"))


def el_floor(a):
    if not is_sym(a):
        return _q(np.floor, a)
    return wrap(tm.toreal(tm.floor(num(a))))


def el_ceil(a):
    if not is_sym(a):
        return _q(np.ceil, a)
    return wrap(tm.toreal(tm.neg(tm.floor(tm.neg(num(a))))))


def el_trunc_int(a):
    """Truncation towards zero, as an integer element."""
    if not is_sym(a):
        with np.errstate(all="ignore"):
            return np.asarray(a).astype(np.int64)[()]
    t = num(a)
    if t.sort == "I":
        return wrap(t)
    z = tm.const(0, "R")
    return wrap(tm.ite(tm.le(z, t), tm.floor(t), tm.neg(tm.floor(tm.neg(t)))))


def el_trunc(a):
    if not is_sym(a):
        return _q(np.trunc, a)
    return wrap(tm.toreal(num(el_trunc_int(a))))


def el_rint(a):
    if not is_sym(a):
        return _q(np.rint, a)
    return el_floor(el_add(a, np.float64(0.5)))


def el_float(a):
    if not is_sym(a):
        return np.float64(a)
    return wrap(tm.toreal(num(a)))


def el_square(a):
    return el_mul(a, a)


def el_isnan(a):
    return np.bool_(False) if is_sym(a) else _q(np.isnan, a)


def el_isinf(a):
    return np.bool_(False) if is_sym(a) else _q(np.isinf, a)


def el_isfinite(a):
    return np.bool_(True) if is_sym(a) else _q(np.isfinite, a)


class _Base:
    __slots__ = ("t",)
    __array_priority__ = 2000

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"<{tm.show(self.t, 3)}>"

    def __hash__(self):
        return hash(self.t.id)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from .symnp import ufunc_call
        return ufunc_call(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from .symnp import function_call
        return function_call(func, args, kwargs)

    def _bin(op):
        def f(self, other):
            if isinstance(other, np.ndarray) or hasattr(other, "_sym_masked"):
                return NotImplemented
            if not isinstance(other, (_Base, bool, int, float, np.generic)):
                return NotImplemented
            return op(self, other)
        return f

    def _rbin(op):
        def f(self, other):
            if isinstance(other, np.ndarray) or hasattr(other, "_sym_masked"):
                from .symnp import elementwise
                return elementwise(op, (other, self))
            if not isinstance(other, (_Base, bool, int, float, np.generic)):
                return NotImplemented
            return op(other, self)
        return f

    def _binarr(op):
        def f(self, other):
            if isinstance(other, np.ndarray) or hasattr(other, "_sym_masked"):
                from .symnp import elementwise
                return elementwise(op, (self, other))
            if not isinstance(other, (_Base, bool, int, float, np.generic)):
                return NotImplemented
            return op(self, other)
        return f

    __add__, __radd__ = _binarr(el_add), _rbin(el_add)
    __sub__, __rsub__ = _binarr(el_sub), _rbin(el_sub)
    __mul__, __rmul__ = _binarr(el_mul), _rbin(el_mul)
    __truediv__, __rtruediv__ = _binarr(el_div), _rbin(el_div)
    __floordiv__, __rfloordiv__ = _binarr(el_floordiv), _rbin(el_floordiv)
    __mod__, __rmod__ = _binarr(el_mod), _rbin(el_mod)
    __pow__, __rpow__ = _binarr(el_pow), _rbin(el_pow)
    __lt__, __le__ = _binarr(el_lt), _binarr(el_le)
    __gt__, __ge__ = _binarr(el_gt), _binarr(el_ge)
    __eq__, __ne__ = _binarr(el_eq), _binarr(el_ne)
    __and__, __rand__ = _binarr(el_bitand), _rbin(el_bitand)
    __or__, __ror__ = _binarr(el_bitor), _rbin(el_bitor)
    __xor__, __rxor__ = _binarr(el_bitxor), _rbin(el_bitxor)

    def __neg__(self):
        return el_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return el_abs(self)

    def __invert__(self):
        return el_invert(self)

    def __bool__(self):
        return eng().decide(el_bool(self))

    def __int__(self):
        return eng().choose_int(num(el_trunc_int(self)))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __index__(self):
        t = num(self)
        if t.sort != "I":
            raise TypeError("only integers can be used as an index")
        return eng().choose_int(t)

    def __float__(self):
        if self.t.op == "c" and self.t.sort != "B":
            return float(self.t.args[0])
        if self.t.sort == "I":
            return float(self.__index__())
        raise Unsupported("a symbolic number was converted to a machine float")

    def __round__(self, n=None):
        if n is None:
            return int(el_rint(self))
        raise Unsupported("round to digits")

    def __floor__(self):
        return wrap(tm.floor(num(self)))

    def __ceil__(self):
        return wrap(tm.neg(tm.floor(tm.neg(num(self)))))

    def __trunc__(self):
        return el_trunc_int(self)

    # numpy scalar interface
    ndim = 0
    shape = ()
    size = 1
    real = property(lambda self: self)
    T = property(lambda self: self)

    def copy(self):
        return self

    def item(self, *a):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def sum(self, *a, **k):
        return self

    min = max = mean = prod = sum

    def any(self, *a, **k):
        return wrap(el_bool(self))

    all = any

    def tolist(self):
        return self

    def astype(self, dtype, *a, **k):
        from .symnp import cast, ld_of
        return cast(self, ld_of(dtype))

    def ravel(self):
        from .symnp import sarray
        return sarray([self])

    flatten = ravel

    def reshape(self, *shape):
        from .symnp import sarray
        return sarray([self]).reshape(*shape)

    def clip(self, lo=None, hi=None):
        r = self
        if lo is not None:
            r = el_max(r, lo)
        if hi is not None:
            r = el_min(r, hi)
        return r

    def __getitem__(self, key):
        if key == ():
            return self
        raise IndexError("invalid index to scalar variable.")


class Sym(_Base):
    __slots__ = ()

    @property
    def dtype(self):
        return np.dtype(np.int64 if self.t.sort == "I" else np.float64)

    def is_integer(self):
        return wrap(tm.eq(tm.toreal(tm.floor(self.t)), tm.toreal(self.t)))


class SymB(_Base):
    __slots__ = ()

    @property
    def dtype(self):
        return np.dtype(bool)
