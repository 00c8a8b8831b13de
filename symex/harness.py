"""Scenarios: programs that drive the public API of the code under test and state conditions on what they see.

A scenario runs in two modes from the same text: symbolically (inputs are variables, every path is explored and
each condition is put to the solver) and concretely (inputs are numbers, the code runs on the real numpy), the
latter to replay the solver's counterexamples and to compare the encoding with the implementation.
"""
import hashlib
import itertools
import json
import math
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np

from . import engine as en
from . import symnp as sn
from . import terms as tm
from . import loader as ld
from .engine import (Engine, EngineStop, Infeasible, Unsupported, Cut, Nondeterministic, Violation, Budget, Sym,
                     SymB, _Base, el_add, el_sub, el_le, el_lt, el_eq, el_bool, is_sym, lift, num, wrap, special)
from .rng import RandomModule, PyRandom, NMAX
from .solver import STRICT, FULL, solve, model_value, zvar, nl_nodes, _T0

EPS_SYM = Fraction(1, 10**4)
EPS_CON = 1e-7


def fallback(salt, name, sort, lo, hi):
    h = hashlib.blake2b(f"{salt}|{name}".encode(), digest_size=8).digest()
    u = (int.from_bytes(h, "big") + 0.5) / 2.0**64
    if sort == "B":
        return u < 0.5
    if sort == "I":
        lo = -5 if lo is None else int(lo)
        hi = 5 if hi is None else int(hi)
        return min(hi, lo + int(u * (hi - lo + 1)))
    lo = -10.0 if lo is None else float(lo)
    hi = 10.0 if hi is None else float(hi)
    if math.isclose(lo, -NMAX) and math.isclose(hi, NMAX):
        lo, hi = -2.5, 2.5
    return lo + (hi - lo) * u


class Cond:
    """A condition with its variants: strong => exact => weak (the gap absorbs rounding)."""
    __slots__ = ("s", "e", "w")

    def __init__(self, s, e, w):
        self.s, self.e, self.w = s, e, w


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc

    @property
    def ok(self):
        return self.exc is None


class Call:
    __slots__ = ("x", "f", "args", "shape", "kind", "idx", "tag", "odd")


class Env:
    sym = False

    def __init__(self, cfg):
        self.cfg = cfg
        self.inputs = {}
        self.trace = []
        self.streams = 0
        self.garb = 0
        self.vals_seen = {}
        self.loaded = []
        self.policy = None
        self.choice = None
        self.in_box = False
        self.ndraw = {"u": 0, "n": 0, "i": 0, "p": 0}
        self.eps, self.econ = Fraction(cfg.get("eps", EPS_SYM)), EPS_CON

    def tight(self, sym=1e-10, con=1e-12):
        """Allow less rounding: what is compared is copied by the code, or nearly.  Zero is exact."""
        if "eps" not in self.cfg:
            self.eps, self.econ = Fraction(sym), con

    # ---- draws ----
    def drawn(self, kind, name):
        """The next uniform ("u") or standard normal ("n") draw; a scenario's policy may fix it."""
        k = self.ndraw[kind]
        self.ndraw[kind] = k + 1
        if self.policy is not None:
            v = self.policy(kind, k)
            if v is not None:
                return v
        return self.u(name) if kind == "u" else self.n(name)

    def chosen(self, kind, n):
        """The next integer below n ("i") or permutation of n ("p") when a scenario fixes it."""
        k = self.ndraw[kind]
        self.ndraw[kind] = k + 1
        return None if self.choice is None else self.choice(kind, k, n)

    def some_perm(self, name, n):
        """One of the permutations of n elements, explored one by one."""
        ps = list(itertools.permutations(range(n)))
        return list(ps[self.concretize(self.int(name, 0, len(ps) - 1))])

    # ---- inputs ----
    def reals(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        n = int(np.prod(shape))
        return self.arr([self.real(f"{name}{i}", lo, hi) for i in range(n)], shape, "f")

    def ints(self, name, shape, lo=None, hi=None):
        if isinstance(shape, int):
            shape = (shape,)
        n = int(np.prod(shape))
        return self.arr([self.int(f"{name}{i}", lo, hi) for i in range(n)], shape, "i")

    # ---- random backend ----
    def fresh_stream(self):
        self.streams += 1
        return f"unseeded{self.streams}"

    def isint(self, x):
        return isinstance(x, (int, np.integer)) or (isinstance(x, Sym) and x.t.sort == "I")

    def unsupported(self, what):
        raise Unsupported(what)

    def shape(self, x):
        return np.shape(x) if not self.sym else (x.shape if isinstance(x, (np.ndarray, _Base)) else np.shape(x))

    def nat(self, x):
        return x if isinstance(x, np.ndarray) else np.empty(self.shape(x))

    # ---- logic ----
    def true(self, b=True):
        b = self._b(bool(b))
        return Cond(b, b, b)

    def and_(self, *cs):
        cs = [c for x in cs for c in (x if isinstance(x, (list, tuple)) else [x])]
        return Cond(self._and([c.s for c in cs]), self._and([c.e for c in cs]), self._and([c.w for c in cs]))

    def or_(self, *cs):
        cs = [c for x in cs for c in (x if isinstance(x, (list, tuple)) else [x])]
        return Cond(self._or([c.s for c in cs]), self._or([c.e for c in cs]), self._or([c.w for c in cs]))

    def not_(self, c):
        return Cond(self._not(c.w), self._not(c.e), self._not(c.s))

    def about(self, c):
        """The condition up to rounding, to decide on."""
        return Cond(c.w, c.w, c.w)

    def implies(self, a, b):
        return self.or_(self.not_(a), b)

    def iff(self, a, b):
        return self.and_(self.implies(a, b), self.implies(b, a))

    def same(self, a, b):
        """Element-wise equality of two arrays (shapes included)."""
        a, b = self.flat(a), self.flat(b)
        if a[1] != b[1]:
            return self.true(False)
        return self.and_([self.true()] + [self.eq(x, y) for x, y in zip(a[0], b[0])])

    def identical(self, a, b):
        """The very same numbers: nothing was computed with them."""
        a, b = self.flat(a), self.flat(b)
        if a[1] != b[1]:
            return self.true(False)
        out = [self.true()]
        for x, y in zip(a[0], b[0]):
            e = self.eq(x, y)
            out.append(Cond(e.s, e.s, e.s))
        return self.and_(out)

    def ge(self, a, b):
        return self.le(b, a)

    def gt(self, a, b):
        return self.lt(b, a)

    def between(self, lo, x, hi):
        return self.and_(self.le(lo, x), self.le(x, hi))

    def flat(self, a):
        if isinstance(a, np.ndarray):
            raw = a.view(np.ndarray) if isinstance(a, sn.SymArray) else a
            return list(raw.flat), a.shape
        if isinstance(a, (list, tuple)):
            out, shapes = [], set()
            for e in a:
                f, s = self.flat(e)
                out += f
                shapes.add(s)
            s = shapes.pop() if len(shapes) == 1 else ()
            return out, (len(a),) + s
        return [a], ()

    # ---- running code ----
    def call(self, fn, *a, **k):
        """Run the code under test; ordinary exceptions are an outcome."""
        try:
            return Outcome(fn(*a, **k))
        except EngineStop:
            raise
        except RecursionError as e:
            return Outcome(exc=RecursionError(str(e)))
        except Exception as e:
            if os.environ.get("SYMEX_DEBUG"):
                traceback.print_exc()
            return Outcome(exc=e)
        except BaseException as e:
            if e is getattr(self, "expected", None):  # one the caller raised
                return Outcome(exc=e)
            raise

    def load(self, mpi=None, order=None):
        """A fresh copy of the package (module state, random state)."""
        rnd = RandomModule(self, "g" if not self.loaded else f"g{len(self.loaded)}")
        self.ndraw = {"u": 0, "n": 0, "i": 0, "p": 0}
        pyr = PyRandom(self)
        l = self._loader(rnd, pyr, mpi, order)
        m = l.load("stochopy")
        self.loaded.append(l)
        self.random = rnd
        return m

    switch = None

    def overlap(self):
        """The user's function is running: another task may run now."""
        if self.switch is not None:
            self.switch()

    def emit(self, name, value):
        self.trace.append((name, value))

    def copy(self, a):
        """A snapshot of a value handed out by the code under test."""
        if isinstance(a, np.ndarray):
            return a.copy()
        if isinstance(a, list):
            return [self.copy(x) for x in a]
        return a


class Objective:
    """The user's function: an arbitrary function of x (equal points, equal values)."""

    def __init__(self, env, name="f", lo=-10.0, hi=10.0, kind="float", fn=None, memo=None, pick=None):
        self.env, self.name, self.lo, self.hi, self.kind, self.fn = env, name, lo, hi, kind, fn
        self.calls = []
        self.memo = {} if memo is None else memo
        self.pick = pick  # fixes the value of some calls
        self.tag = None

    def value(self, x):
        k = self.env.key(x)
        v = self.memo.get(k)
        if v is None and self.pick is not None:
            v = self.memo[k] = self.pick(len(self.calls))
        if v is None:
            n = len(self.memo)
            kind = self.kind
            if kind == "mixed":
                kind = "int" if n % 2 == 0 else "float"
            elif kind == "intfirst":
                kind = "int" if n == 0 else "float"
            elif kind == "intpop":  # integers on the whole initial population
                kind = "int" if n < self.env.cfg.get("popsize", 3) else "float"
            nm = f"{self.name}{n}"
            if kind == "firstbest":
                v = self.env.real(nm, -10, -9) if n == 0 else self.env.real(nm, 0, 10)
            elif kind == "int":
                v = self.env.int(nm, math.ceil(self.lo), math.floor(self.hi))
            else:
                v = self.env.real(nm, self.lo, self.hi)
            self.memo[k] = v
        return v

    def __call__(self, x, *args):
        self.env.overlap()
        c = Call()
        c.args, c.idx, c.tag, c.odd = args, len(self.calls), self.tag, getattr(self.env, "anomalies", 0)
        c.kind = isinstance(x, np.ndarray)
        xs, c.shape = self.env.flat(x)
        c.x = self.env.arr(xs, (len(xs),), None)
        c.f = self.value(xs) if self.fn is None else self.fn(c.x)
        self.calls.append(c)
        self.env.emit("eval", (c.x, c.f))
        self.env.overlap()
        return c.f


class Callback:
    def __init__(self, env, objective=None):
        self.env, self.obj, self.log = env, objective, []

    def __call__(self, X, state):
        env = self.env
        right = isinstance(state, dict) and isinstance(X, np.ndarray) and not isinstance(X, dict)
        env.check("the callback is given the population and the state", env.true(right), lambda: {"arguments": [type(X).__name__, type(state).__name__]})
        r = {k: env.copy(v) for k, v in state.items()}
        r["_X"] = env.copy(X)
        r["_state"] = state
        r["_calls"] = len(self.obj.calls) if self.obj is not None else 0
        self.log.append(r)
        env.emit("cb", tuple(r.get(k) for k in ("x", "fun", "nit", "nfev", "_X", "xall", "funall")))
        return (True, False, 1, None)[len(self.log) % 4]  # what a callback returns is nobody's business


# ---- joblib ------------------------------------------------------------------------------------------

def fake_joblib(env, order):
    import copy
    import itertools
    import types

    class Parallel:
        def __init__(self, n_jobs=None, backend=None, verbose=0, prefer=None, require=None, **kw):
            self.n_jobs, self.prefer, self.backend = n_jobs, prefer, backend
            env.parallel.append({"n_jobs": n_jobs, "prefer": prefer, "backend": backend, "batches": []})
            self.rec = env.parallel[-1]

        def __enter__(self):
            if self.n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            return self

        def __exit__(self, *a):
            return False

        def __call__(self, iterable):
            if self.n_jobs == 0:
                raise ValueError("n_jobs == 0 in Parallel has no meaning")
            tasks = list(iterable)
            n = len(tasks)
            self.rec["batches"].append(n)
            idx = list(range(n))
            if order == "reverse":
                idx.reverse()
            elif order == "symbolic" and n > 1:
                perms = list(itertools.permutations(range(n)))
                env.nsched += 1
                k = env.int(f"sched{env.nsched}", 0, len(perms) - 1)
                idx = perms[env.concretize(k)]
            if order == "overlap":
                return self.overlapping(tasks)
            out = [None] * n
            procs = self.prefer == "processes" or self.backend in ("loky", "multiprocessing")
            for i in idx:
                f, a, k = tasks[i]
                if procs:  # arguments travel by pickling
                    a, k = tuple(copy.copy(x) for x in a), dict(k)
                out[i] = f(*a, **k)
            return out

        def overlapping(self, tasks):
            """Threads: while a task is in the user's function, others may start, and end, there."""
            n = len(tasks)
            out, left = [None] * n, list(range(n))
            width = n if self.n_jobs is None or self.n_jobs < 0 else self.n_jobs
            depth = [0]

            def run(i):
                f, a, k = tasks[i]
                depth[0] += 1
                out[i] = f(*a, **k)
                depth[0] -= 1

            def switch():
                while left and depth[0] < width:
                    env.nsched += 1
                    if not env.concretize(env.int(f"sched{env.nsched}", 0, 1)):
                        break
                    run(left.pop(0))
            old, env.switch = env.switch, switch
            try:
                while left:
                    run(left.pop(0))
            finally:
                env.switch = old
            return out

    def delayed(f, **kw):
        def g(*a, **k):
            return f, a, k
        return g

    m = types.ModuleType("joblib")
    m.Parallel, m.delayed = Parallel, delayed
    m.cpu_count = m.effective_n_jobs = lambda *a: 2
    m.parallel = types.ModuleType("joblib.parallel")
    m.parallel.Parallel, m.parallel.delayed = Parallel, delayed
    return m


# ---- merged builtins ---------------------------------------------------------------------------------

def _bmin(*args, key=None, default=None):
    import builtins
    xs = list(args[0]) if len(args) == 1 else list(args)
    if key is None and xs and any(is_sym(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = en.el_ite(el_lt(x, r), x, r)
        return r
    kw = {} if key is None else {"key": key}
    return builtins.min(xs, **kw) if xs or default is None else default


def _bmax(*args, key=None, default=None):
    import builtins
    xs = list(args[0]) if len(args) == 1 else list(args)
    if key is None and xs and any(is_sym(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = en.el_ite(el_lt(r, x), x, r)
        return r
    kw = {} if key is None else {"key": key}
    return builtins.max(xs, **kw) if xs or default is None else default


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, Sym) and x.t.sort == "R")

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __call__(cls, x=0.0):
        if isinstance(x, np.ndarray) and x.size == 1 and isinstance(x, sn.SymArray):
            x = x.item()
        if is_sym(x):
            return en.el_float(x)
        return float(x)


class _Float(float, metaclass=_FloatMeta):
    pass


SYM_BUILTINS = {"min": _bmin, "max": _bmax, "float": _Float}


# ---- symbolic environment -----------------------------------------------------------------------------

class SymEnv(Env):
    sym = True

    def __init__(self, cfg, run, const_salt=None):
        super().__init__(cfg)
        self.run = run
        self.salt = const_salt
        sn._VIEWS.clear()
        sn._BUSY[0] = False
        en.FORK[0] = bool(cfg.get("fork"))
        if const_salt is None:
            en.CONCRETE[0] = bool(cfg.get("long"))  # long runs: exact constants would grow without end
        self.parallel = []
        self.nsched = 0

    def _b(self, b):
        return tm.TRUE if b else tm.FALSE

    def _and(self, xs):
        return tm.and_(*xs)

    def _or(self, xs):
        return tm.or_(*xs)

    def _not(self, x):
        return tm.not_(x)

    def _var(self, name, sort, lo, hi, strict=False):
        if self.salt is not None:
            v = fallback(self.salt, name, sort, lo, hi)
            return np.bool_(v) if sort == "B" else np.int64(v) if sort == "I" else np.float64(v)
        t = tm.var(name, sort, lo, hi)
        if strict:
            STRICT.add(t.id)
        self.run.inputs[name] = t
        return SymB(t) if sort == "B" else Sym(t)

    def real(self, name, lo=None, hi=None):
        return self._var(name, "R", lo, hi)

    def int(self, name, lo=None, hi=None):
        return self._var(name, "I", lo, hi)

    def bool(self, name):
        return self._var(name, "B", None, None)

    def u(self, name):
        return self._var(name, "R", 0, 1, True)

    def n(self, name):
        return self._var(name, "R", -int(NMAX), int(NMAX))

    def i(self, name, lo, hi):
        return self._var(name, "I", lo, hi) if lo < hi else np.int64(lo)

    def perm(self, st, n):
        names = [st.name(f"p{n}") for _ in range(n)]
        if self.salt is not None:
            return sn.sarray(np.array(con_perm(self.salt, names, {})))
        vs = [self._var(nm, "I", 0, n - 1) for nm in names] if n > 1 else [np.int64(0)] * n
        for i in range(n):
            for j in range(i):
                en.eng().assume(tm.not_(tm.eq(num(vs[i]), num(vs[j]))))
        return self.arr(vs, (n,), "i")

    def arr(self, vals, shape, kind):
        out = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            out[i] = v
        out = out.reshape(shape).view(sn.SymArray)
        if kind is None:
            lds = {en_ld(v) for v in vals}
            kind = "f" if not lds else max(lds, key=lambda k: sn._RANK.get(k, 9))
        out._ld = kind
        return out._cast(kind) if any(en_ld(v) != kind for v in vals) else out

    def asarray(self, x):
        return sn.sarray(x)

    def array(self, x):
        return sn.sarray(x, "f").copy()

    def cells(self, x, size):
        if isinstance(x, (_Base, int, float, np.generic)):
            return [x] * int(np.prod(size))
        return list(np.broadcast_to(sn.sarray(x).raw(), size).flat)

    def item(self, x):
        return x.item() if isinstance(x, np.ndarray) else x

    def lerp(self, lo, hi, u):
        if special(lo) or special(hi):
            return el_add(lo, en.el_mul(el_sub(hi, lo), u))
        return wrap(tm.lerp(tm.toreal(num(lo)), tm.toreal(num(hi)), num(u)))

    def log(self, x):
        return sn.elementwise(en.el_log, (x,))

    def garbage(self, sort="R"):
        n = self.garb
        self.garb += 1
        return self._var(f"garbage{n}", sort, *({"R": (-1000, 1000), "I": (-1000, 1000), "B": (None, None)}[sort]))

    def key(self, xs):
        return tuple(tm.toreal(num(x)).id if not special(x) else repr(x) for x in xs)

    def concretize(self, k):
        return k.__index__()

    # logic on scalars
    def eq(self, a, b):
        if special(a) or special(b):
            r = self._b(special(a) and special(b) and float(a) == float(b))
            return Cond(r, r, r)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return self.true(a == b)
        if isinstance(a, float) and isinstance(b, float):
            e = self._b(a == b)
            return Cond(e, e, self._b(abs(a - b) <= self.econ * max(1.0, abs(a), abs(b))))
        ta, tb = num(a), num(b)
        e = tm.eq(ta, tb)
        if e is tm.TRUE or (ta.sort == "I" and tb.sort == "I"):
            return Cond(e, e, e)
        if ta.op == "c" and tb.op == "c":
            x, y = float(ta.args[0]), float(tb.args[0])
            return Cond(e, e, self._b(abs(x - y) <= self.econ * max(1.0, abs(x), abs(y))))
        if e is tm.FALSE and "R" not in (ta.sort, tb.sort):
            return Cond(e, e, e)
        d = tm.sub(tm.toreal(ta), tm.toreal(tb))
        eps = tm.const(self.eps, "R")
        return Cond(e, e, tm.and_(tm.le(d, eps), tm.le(tm.neg(d), eps)))

    def le(self, a, b):
        if special(a) or special(b):
            r = lift(el_le(a, b))
            return Cond(r, r, r)
        if isinstance(a, float) and isinstance(b, float):
            return Cond(self._b(a + self.eps <= b), self._b(a <= b), self._b(a <= b + self.eps))
        ta, tb = num(a), num(b)
        if ta.sort == "I" and tb.sort == "I":
            e = tm.le(ta, tb)
            return Cond(e, e, e)
        ta, tb = tm.toreal(ta), tm.toreal(tb)
        eps = tm.const(self.eps, "R")
        return Cond(tm.le(tm.add(ta, eps), tb), tm.le(ta, tb), tm.le(ta, tm.add(tb, eps)))

    def lt(self, a, b):
        if special(a) or special(b):
            r = lift(el_lt(a, b))
            return Cond(r, r, r)
        if isinstance(a, float) and isinstance(b, float):
            return Cond(self._b(a + self.eps < b), self._b(a < b), self._b(a < b + self.eps))
        ta, tb = num(a), num(b)
        if ta.sort == "I" and tb.sort == "I":
            e = tm.lt(ta, tb)
            return Cond(e, e, e)
        ta, tb = tm.toreal(ta), tm.toreal(tb)
        eps = tm.const(self.eps, "R")
        return Cond(tm.lt(tm.add(ta, eps), tb), tm.lt(ta, tb), tm.lt(ta, tm.add(tb, eps)))

    def holds(self, b):
        """A boolean element as a condition."""
        t = el_bool(b)
        return Cond(t, t, t)

    def assume(self, c):
        e = en.eng()
        e.assume(c.e)
        # vacuity: an assumption that kills the path is not a proof
        if e.pos == len(e.entries) and not e.solver.feasible(tm.TRUE):
            raise Infeasible()

    def decide(self, c):
        return en.eng().decide(c.e)

    def check(self, label, c, info=None, at=None):
        if self.salt is None:
            self.run.check(self, label, c, info)

    def _loader(self, rnd, pyr, mpi, order):
        import types
        npx = sn.numpy_proxy(rnd)
        sn._fresh["garbage"] = self.garbage
        sn._fresh["linalg"] = self.eigh
        return ld.Loader({"numpy": npx, "joblib": fake_joblib(self, order), "mpi4py": mpi, "random": pyr,
                          "math": math_proxy()}, SYM_BUILTINS)

    def eigh(self, a):
        """Spectral decomposition by contract: ascending positive eigenvalues, orthonormal vectors, a v = w v."""
        n = a.shape[0]
        if n == 1:
            return sn.sarray([a.raw()[0, 0]], "f"), sn.sarray([[1.0]])
        self.run.neigh = getattr(self.run, "neigh", 0) + 1
        e = en.eng()
        key = ("eigh", tuple(num(x).id for x in a.raw().flat))
        hit = self.vals_seen.get(key)
        if hit is None:
            m = len([1 for q in self.vals_seen if q[0] == "eigh"])
            w = [Sym(tm.var(f"eigw{m}_{i}", "R", Fraction(1, 1000), 1000)) for i in range(n)]
            v = [[Sym(tm.var(f"eigv{m}_{i}_{j}", "R", -1, 1)) for j in range(n)] for i in range(n)]
            for i in range(n - 1):
                e.assume(tm.le(w[i].t, w[i + 1].t))
            lazy = []
            for j in range(n):
                for i in range(n):
                    av = tm.const(0, "R")
                    for q in range(n):
                        av = tm.add(av, tm.mul(tm.toreal(num(a.raw()[i, q])), v[q][j].t))
                    lazy.append(tm.eq(av, tm.mul(w[j].t, v[i][j].t)))
                for i in range(j + 1):
                    d = tm.const(0, "R")
                    for q in range(n):
                        d = tm.add(d, tm.mul(v[q][i].t, v[q][j].t))
                    lazy.append(tm.eq(d, tm.const(1 if i == j else 0, "R")))
            self.run.lazy.extend(lazy)
            hit = self.vals_seen[key] = (sn.sarray(w, "f"), sn.sarray(v, "f"))
        return hit[0].copy(), hit[1].copy()


def en_ld(v):
    return sn.ld_el(v)


class _MathProxy:
    def __init__(self):
        self._m = math

    def __getattr__(self, name):
        f = getattr(math, name)
        if not callable(f):
            return f
        sub = {"sqrt": en.el_sqrt, "exp": en.el_exp, "log": en.el_log, "cos": en.el_cos, "sin": en.el_sin,
               "fabs": en.el_abs, "pow": en.el_pow, "isnan": en.el_isnan, "isinf": en.el_isinf,
               "isfinite": en.el_isfinite}.get(name)

        def g(*a):
            a = [x.item() if isinstance(x, sn.SymArray) and x.size == 1 else x for x in a]
            if any(is_sym(x) for x in a):
                if name in ("floor", "ceil", "trunc"):
                    return getattr(a[0], f"__{name}__")()
                if name in ("fsum", "dist", "hypot") or sub is None:
                    raise Unsupported(f"math.{name} on symbolic values")
                return sub(*a)
            return f(*a)
        return g


def math_proxy():
    return _MathProxy()


# ---- concrete environment -------------------------------------------------------------------------------

def con_perm(salt, names, values):
    n = len(names)
    got = [values.get(nm) for nm in names]
    if all(g is not None for g in got) and sorted(got) == list(range(n)):
        return [int(g) for g in got]
    ks = [(fallback(salt, nm, "R", 0, 1), i) for i, nm in enumerate(names)]
    return [i for _, i in sorted(ks)]


class _NpRandomView:
    """The real numpy with its random module and its uninitialised allocations replaced."""

    def __init__(self, env, rnd):
        self.__dict__["_env"] = env
        self.__dict__["random"] = rnd

    def __getattr__(self, name):
        return getattr(np, name)

    def empty(self, shape, dtype=float, *a, **k):
        return self._fill(np.empty(shape, dtype, *a, **k))

    def empty_like(self, *a, **k):
        return self._fill(np.empty_like(*a, **k))

    def _fill(self, r):
        kind = {"f": "R", "i": "I", "u": "I", "b": "B"}.get(r.dtype.kind)
        if kind:
            for i in np.ndindex(r.shape):
                r[i] = self._env.garbage(kind)
        return r


class ConEnv(Env):
    def __init__(self, cfg, values, salt=0):
        super().__init__(cfg)
        self.values, self.salt = values, salt
        self.failures = []
        self.checked = 0
        self.parallel = []
        self.nsched = 0
        self.infeasible = False
        self.anomalies = 0
        self.sure = False

    def anomaly(self, kind, flag):
        """0/0, x/0, the root of a negative number: outside what value properties claim (see DESIGN.md)."""
        self.anomalies += 1

    @property
    def reproduced(self):
        return bool(self.failures) and (self.anomalies == 0 or self.sure or bool(self.cfg.get("anomalies")))

    def _b(self, b):
        return bool(b)

    def _and(self, xs):
        return all(xs)

    def _or(self, xs):
        return any(xs)

    def _not(self, x):
        return not x

    def _val(self, name, sort, lo, hi, strict=False):
        v = self.values.get(name)
        if v is None:
            v = fallback(self.salt, name, sort, lo, hi)
        if sort == "R":
            v = float(v)
            if lo is not None and v < lo:
                v = float(lo)
            if hi is not None and v > hi:
                v = float(hi)
            if strict and v <= lo:
                v = 1e-12
            if strict and v >= hi:
                v = 1.0 - 1e-12
            return v
        if sort == "I":
            v = int(v)
            if lo is not None:
                v = max(v, math.ceil(lo))
            if hi is not None:
                v = min(v, math.floor(hi))
            return v
        return bool(v)

    def real(self, name, lo=None, hi=None):
        return self._val(name, "R", lo, hi)

    def int(self, name, lo=None, hi=None):
        return self._val(name, "I", lo, hi)

    def bool(self, name):
        return self._val(name, "B", None, None)

    def u(self, name):
        return self._val(name, "R", 0, 1, True)

    def n(self, name):
        return self._val(name, "R", -int(NMAX), int(NMAX))

    def i(self, name, lo, hi):
        return self._val(name, "I", lo, hi) if lo < hi else lo

    def perm(self, st, n):
        return np.array(con_perm(self.salt, [st.name(f"p{n}") for _ in range(n)], self.values), dtype=int)

    def arr(self, vals, shape, kind):
        d = {"f": float, "i": int, "b": bool, None: None}[kind]
        return np.array(list(vals), dtype=d).reshape(shape)

    def asarray(self, x):
        return np.asarray(x)

    def array(self, x):
        return np.array(x, dtype=float)

    def cells(self, x, size):
        return list(np.broadcast_to(np.asarray(x, dtype=float), size).flat)

    def item(self, x):
        return float(x)

    def lerp(self, lo, hi, u):
        return lo + (hi - lo) * u

    def log(self, x):
        return np.log(x)

    def garbage(self, sort="R"):
        n = self.garb
        self.garb += 1
        return self._val(f"garbage{n}", sort, *({"R": (-1000, 1000), "I": (-1000, 1000), "B": (None, None)}[sort]))

    def key(self, xs):
        return tuple(float(x) for x in xs)

    def concretize(self, k):
        return int(k)

    def _eps(self, a, b):
        return self.econ * max(1.0, abs(a), abs(b))

    def eq(self, a, b):
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return self.true(a == b)
        a, b = float(a), float(b)
        e = a == b
        return Cond(e, e, e or bool(abs(a - b) <= self._eps(a, b) and math.isfinite(a - b)))

    def le(self, a, b):
        a, b = float(a), float(b)
        if not (math.isfinite(a) and math.isfinite(b)):
            e = a <= b
            return Cond(e, e, e)
        q = self._eps(a, b)
        return Cond(a + q <= b, a <= b, a <= b + q)

    def lt(self, a, b):
        a, b = float(a), float(b)
        if not (math.isfinite(a) and math.isfinite(b)):
            e = a < b
            return Cond(e, e, e)
        q = self._eps(a, b)
        return Cond(a + q < b, a < b, a < b + q)

    def holds(self, b):
        b = bool(b)
        return Cond(b, b, b)

    def assume(self, c):
        if not c.w:
            self.infeasible = True
            raise Infeasible()

    def decide(self, c):
        return bool(c.e)

    def check(self, label, c, info=None, at=None):
        """at: the objective call up to which the run matters."""
        self.checked += 1
        if not c.w:
            self.sure = self.sure or self.anomalies == 0 or at is not None and at.odd == 0
            self.failures.append((label, info() if callable(info) else info))

    def _loader(self, rnd, pyr, mpi, order):
        return ld.Loader({"numpy": _NpRandomView(self, rnd), "joblib": fake_joblib(self, order), "mpi4py": mpi,
                          "random": pyr})


FORM = "the results have the documented form"


def guarded(scenario):
    """A result that the scenario cannot read (a missing field, another shape) is a failed condition too."""
    if getattr(scenario, "guarded", False):
        return scenario

    def run(env, cfg):
        try:
            scenario(env, cfg)
        except (AttributeError, KeyError, IndexError, TypeError, ValueError) as x:
            last = traceback.extract_tb(x.__traceback__)[-1]
            what = {"exception": repr(x), "line": f"{os.path.basename(last.filename)}:{last.lineno}"}
            if not env.sym:
                env.check(FORM, env.true(False), what)
            elif env.salt is None:
                env.check(FORM, env.true(False), what)
                raise  # not so on the real code: the encoding is at fault
    run.guarded = True
    return run


def replay(scenario, cfg, values, salt=0):
    """Run a scenario concretely on the real code; returns the environment."""
    scenario = guarded(scenario)
    prev = en.ACTIVE[0]
    en.ACTIVE[0] = None
    g, l = dict(sn._fresh), sys.getrecursionlimit()
    env = ConEnv(cfg, values, salt)
    try:
        with np.errstate(divide="call", invalid="call", over="ignore", under="ignore", call=env.anomaly):
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                scenario(env, cfg)
    except Infeasible:
        pass
    finally:
        en.ACTIVE[0] = prev
        sn._fresh.update(g)
    return env


# ---- one exploration -------------------------------------------------------------------------------------

class Found(Violation):
    pass


class Run:
    """Symbolic exploration of one scenario under one configuration."""

    def __init__(self, scenario, cfg, deadline=None, max_paths=200000, solver_timeout_ms=4000, full_timeout_ms=8000,
                 tiers=(1, 2, FULL), max_fail=4):
        self.scenario, self.cfg = guarded(scenario), cfg
        self.engine = Engine(max_paths=max_paths, deadline=deadline, solver_timeout_ms=solver_timeout_ms,
                             generic_division=cfg.get("generic_division", True))
        self.inputs = {}
        self.lazy = []
        self.obligations = {}  # label -> [total, closed by normal form, discharged by solver, undecided]
        self.undecided = {}
        self.violations = []
        self.replays = 0
        self.tolerated = 0
        self.tiers = tiers
        self.full_timeout_ms = full_timeout_ms
        self.max_fail = max_fail
        self.deadline = deadline
        self.budget = False
        self.error = None
        self.functions = set()
        self.salt = 0
        self.samples = []

    def check(self, env, label, c, info):
        e = self.engine
        if e.pos < len(e.entries):
            return
        o = self.obligations.setdefault(label, [0, 0, 0, 0])
        o[0] += 1
        if c.e is tm.TRUE:
            o[1] += 1
            return
        neg = tm.not_(c.e)
        # 1. incremental, non-linear terms abstracted
        r = e.solver.check(neg)
        if r == "unsat":
            o[2] += 1
            if len(self.samples) < 3:
                self.samples.append({"obligation": label, "negated_goal": tm.show(neg, 4)[:300],
                                     "path_decisions": sum(1 for x in e.entries if x.kind == "d"), "verdict": "unsat"})
            return
        if r == "sat" and self._try(label, e.solver.last):
            return
        weak = tm.not_(c.w)
        if weak is not neg:
            r2 = e.solver.check(weak)
            if r2 == "sat" and self._try(label, e.solver.last):
                return
            if r2 == "unsat":  # holds up to the rounding allowance
                o[2] += 1
                self.tolerated += 1
                return
        # 2. non-linear tiers
        if self.undecided.get(label, 0) >= self.max_fail:
            o[3] += 1
            return
        path = e.path_terms()
        nl = {i for t in path + [neg] for i, n in nl_nodes(t).items() if n.nl}
        if nl or self.lazy:
            for tier in self.tiers:
                extra = list(self.lazy) if tier == FULL else []
                r, m, tr = solve(path + extra + [neg], tier, e.stats, self._tmo(), goal=[neg])
                if r == "unsat":
                    o[2] += 1
                    return
                if m is not None and self._try(label, m):
                    return
                if r == "sat" and weak is not neg:
                    r, m, tr = solve(path + extra + [weak], tier, e.stats, self._tmo(), goal=[weak])
                    if r == "unsat":
                        o[2] += 1
                        self.tolerated += 1
                        return
                    if m is not None and self._try(label, m):
                        return
        o[3] += 1
        self.undecided[label] = self.undecided.get(label, 0) + 1

    def _tmo(self):
        if self.deadline is None:
            return self.full_timeout_ms
        return max(200, min(self.full_timeout_ms, int(1000 * (self.deadline - time.time()))))

    def _values(self, m):
        known = {str(d) for d in m.decls()}
        out = {}
        for name, t in self.inputs.items():
            if name in known:
                try:
                    out[name] = model_value(m, zvar(name, t.sort))
                except ValueError:
                    pass
        return out

    def _try(self, label, m):
        """Replay a model on the real code; raises Found when it reproduces."""
        if m is None:
            return False
        vals = self._values(m)
        self.replays += 1
        try:
            env = replay(self.scenario, self.cfg, vals, self.salt)
        except (Unsupported, RecursionError):
            return False
        if label != FORM:
            env.failures = [f for f in env.failures if f[0] != FORM]
        if env.reproduced:
            lab, info = next((f for f in env.failures if f[0] == label), env.failures[0])
            used = {k: v for k, v in vals.items()}
            self.violations.append({"label": lab, "info": jsonable(info), "values": jsonable(used),
                                    "salt": self.salt, "config": self.cfg})
            raise Found(lab)
        return False

    def explore(self):
        e = self.engine
        prof = [True]
        root = os.path.join(ld.REPO, ld.PKG)

        def profiler(frame, event, arg):
            if event == "call":
                co = frame.f_code
                if co.co_filename.startswith(root):
                    self.functions.add(f"{os.path.relpath(co.co_filename, ld.REPO)}:{co.co_qualname}")

        def one():
            env = SymEnv(self.cfg, self)
            self.lazy = []
            if prof[0]:
                sys.setprofile(profiler)
                prof[0] = False
                try:
                    self.scenario(env, self.cfg)
                finally:
                    sys.setprofile(None)
            else:
                self.scenario(env, self.cfg)
        try:
            e.explore(one)
        except Found:
            pass
        except Budget:
            self.budget = True
        except Nondeterministic as x:
            self.error = f"nondeterministic execution: {x}"

    def validate(self, n, seed):
        """Encoding against implementation: identical traces on concrete inputs."""
        good = 0
        bad = []
        for k in range(n):
            salt = f"{seed}v{k}"
            con = replay(self.scenario, self.cfg, {}, salt)
            if con.infeasible:
                continue
            eng = Engine()
            env = SymEnv(self.cfg, self, const_salt=salt)
            keep = self.inputs
            self.inputs = {}

            def one():
                with np.errstate(all="ignore"):
                    self.scenario(env, self.cfg)
            en.CONCRETE[0] = True
            try:
                eng.explore(one)
            except EngineStop as x:
                bad.append(f"{type(x).__name__}: {x}")
                continue
            finally:
                self.inputs = keep
                en.CONCRETE[0] = False
            if eng.unsupported:
                bad.append(f"unsupported: {list(eng.unsupported)[0]}")
                continue
            d = trace_diff(con.trace, env.trace)
            if d is None:
                good += 1
            else:
                bad.append(d)
        return good, bad


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def _flatval(v, out):
    if isinstance(v, (list, tuple)):
        out.append(f"[{len(v)}")
        for e in v:
            _flatval(e, out)
    elif isinstance(v, np.ndarray):
        raw = v.view(np.ndarray) if isinstance(v, sn.SymArray) else v
        out.append(f"a{v.shape}")
        for e in raw.flat:
            _flatval(e, out)
    elif isinstance(v, (bool, np.bool_, int, float, np.generic)):
        out.append(float(v))
    elif isinstance(v, Sym) and v.t.op == "c":
        out.append(float(v.t.args[0]))
    else:
        out.append(repr(v) if isinstance(v, str) or v is None else type(v).__name__)


def trace_diff(a, b):
    if len(a) != len(b):
        return f"{len(a)} events against {len(b)}"
    for (na, va), (nb, vb) in zip(a, b):
        if na != nb:
            return f"event {na} against {nb}"
        fa, fb = [], []
        _flatval(va, fa)
        _flatval(vb, fb)
        if len(fa) != len(fb):
            return f"{na}: {fa[:8]} against {fb[:8]}"
        for x, y in zip(fa, fb):
            if isinstance(x, str) or isinstance(y, str):
                if x != y:
                    return f"{na}: {x} against {y}"
            elif not (x == y or (x != x and y != y) or abs(x - y) <= 1e-8 * max(1.0, abs(x), abs(y))):
                return f"{na}: {x!r} against {y!r}"
    return None
