"""The optimizers see the order of objective values only: an increasing transformation changes no evaluated point."""
from symex.harness import Objective

from .common import LONG, OPTIMIZERS, any_rank, drive, extended, make_bounds, make_x0, named, quiet

BOUNDS = ("populations of 2-5, 1-3 variables, 1-4 iterations; arbitrary values (or arbitrary ranks of one individual) in the first "
          "run, arbitrary values in the same order and up to 1e6 or 1e33 in the second; both tolerances out of reach") + LONG

SCALE = {"wide": (-10**6, 10**6, 1.0), "huge": (-10**33, 10**33, 1e28), "high": (10**6, 10**9, 1e4), "low": (-10**9, -10**6, 1e4)}


class Shift(Objective):
    """A fixed increasing function of the values of another run, plus an arbitrary constant."""

    def __init__(self, env, other):
        super().__init__(env, name="g")
        self.other, self.by = other, env.real("by", -100, 100)

    def value(self, x):
        k = len(self.calls)
        a = self.other.calls[k].f if k < len(self.other.calls) else 0.0
        if not isinstance(a, (int, float)):
            return 2.0 * a + self.by if self.env.decide(self.env.lt(a, 0)) else 16.0 * a + self.by
        return (2.0 if a < 0 else 16.0) * a + self.by


class Twin(Objective):
    """An increasing function of the values of another run, otherwise arbitrary."""

    def __init__(self, env, other, scale):
        super().__init__(env, name="g")
        self.other, (self.lo, self.hi, self.gap) = other, SCALE[scale]
        self.pairs = []

    def value(self, x):
        env, k = self.env, self.env.key(x)
        if k in self.memo:
            return self.memo[k]
        a = self.other.memo.get(k)
        lo, hi = self.lo, self.hi
        if a is not None and all(isinstance(e, (int, float)) for p in self.pairs + [(a, 0.0)] for e in p):
            lo = max([lo] + [q + self.gap for p, q in self.pairs if p < a])
            hi = min([hi] + [q - self.gap for p, q in self.pairs if a < p])
        v = env.real(f"g{len(self.memo)}", lo, max(lo, hi))
        if a is not None:
            for p, q in self.pairs:
                env.assume(env.or_(env.and_(env.le(a + 0.015625, p), env.le(v + self.gap, q)),
                                   env.and_(env.le(p + 0.015625, a), env.le(q + self.gap, v))))
            self.pairs.append((a, v))
        self.memo[k] = v
        return v


def scenario(env, cfg):
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    n = cfg["popsize"]

    def pick(k):
        if k % n == cfg.get("focus"):
            return any_rank(env, f"rank{k}", [c.f for c in fa.calls])
        return float((2 * k + k // n) % (n + 2)) - 0.0171 * k

    if cfg.get("fixed"):
        env.policy = lambda kind, k: 0.5 if kind == "u" else (0.5, -1.0, 0.75, -0.25, 1.25)[k % 5]
        env.choice = lambda kind, k, n: (5 * k + 1) % n if kind == "i" else [(q * (n - 1) + k) % n for q in range(n)]
    cfg = dict(cfg, opt=dict(cfg.get("opt", {}), xtol=-1.0, ftol=-1e40))
    law = quiet(env, cfg) if cfg.get("long") else None
    fa = Objective(env, pick=law or pick if law or cfg.get("focus") is not None else None)
    st = env.load()
    A = drive(env, cfg, st=st, f=fa, cb=False, bounds=b, x0=x0)
    fb = Shift(env, fa) if law else Twin(env, fa, cfg.get("to", "wide"))
    env.ndraw = {k: 0 for k in env.ndraw}
    B = drive(env, cfg, st=st, f=fb, cb=False, bounds=b, x0=None if x0 is None else env.copy(x0))
    info = lambda: {"values": [c.f for c in fa.calls], "transformed": [c.f for c in fb.calls], "points": [c.x for c in fa.calls],  # noqa: E731
                    "points of the transformed run": [c.x for c in fb.calls], "exceptions": [repr(r.out.exc) for r in (A, B)]}
    env.check("both runs end without an exception", env.true(A.out.ok and B.out.ok), info)
    if not (A.out.ok and B.out.ok):
        return
    for k, (p, q) in enumerate(zip(fa.calls, fb.calls)):
        env.check("the same points are evaluated", env.same(p.x, q.x), lambda: dict(info(), call=k))  # noqa: B023
    env.check("the same number of points is evaluated", env.true(len(fa.calls) == len(fb.calls) and A.res.nit == B.res.nit and A.res.status == B.res.status), info)
    env.check("the same point is the result", env.same(A.res.x, B.res.x), info)


def configs(tier):
    c = []
    big = tier != "quick"
    for m in OPTIMIZERS:
        ups = ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,)
        for up in ups:
            o = dict(updating=up) if up else {}
            for to in ("wide", "huge", "high", "low") if big or m == "de" else ("huge", "low") if up != "deferred" and m != "pso" else ("wide",):
                if m not in ("de", "na") or big:
                    c.append(dict(method=m, popsize=3, ndim=1, maxiter=2, opt=o, to=to))
                else:
                    c.append(dict(method=m, popsize=3, ndim=2, maxiter=2, opt=o, to=to, fixed=True))
                c.append(dict(method=m, popsize=3, ndim=2, maxiter=3, opt=o, to=to, focus=1, fixed=True, x0="grid"))
            c.append(dict(method=m, popsize=4, ndim=2, maxiter=4 if big else 3 if m in ("pso", "cpso", "na") else 2, opt=o, focus=2, fixed=True, x0="grid"))
            c.append(dict(method=m, popsize=5, ndim=3, maxiter=3, opt=o, focus=0, fixed=True, x0="grid"))
            if big:
                c.append(dict(method=m, popsize=3, ndim=1, maxiter=3, opt=o))
        if m == "cpso":
            for up in ups:
                for to in ("wide", "huge"):
                    for n, g in ((3, 1.5), (4, 2.0)):
                        c.append(dict(method=m, popsize=n, ndim=2, maxiter=3, x0="cluster", focus=1, fixed=True, to=to, opt=dict(updating=up, competitivity=g)))
        if m == "de":
            for s in ("best1bin", "rand2bin", "best2bin"):
                c.append(dict(method=m, popsize=6 if s == "rand2bin" else 5, ndim=1, maxiter=2, focus=0, fixed=True, opt=dict(strategy=s)))
            c.append(dict(method=m, popsize=4, ndim=2, maxiter=2, focus=0, fixed=True, opt=dict(constraints="Random", updating="deferred")))
        if m in ("cmaes", "vdcma"):
            c.append(dict(method=m, popsize=4, ndim=2, maxiter=4 if big else 2, focus=2, fixed=True, x0="grid", opt=dict(muperc=1.0)))
            for to in SCALE:
                c.append(dict(method=m, popsize=4, ndim=2, maxiter=2, focus=1, fixed=True, x0="grid", to=to, opt=dict(muperc=0.75)))
            c.append(dict(method=m, popsize=2, ndim=1, maxiter=14 if not big else 30, focus=7, fixed=True, x0="grid", opt=dict(sigma=0.5)))
        for up in ups:
            c += extended(m, 24, 40, ("fall", "noise", "settle", "kept"), x0="grid", opt=dict(updating=up) if up else {})
    for k in c:
        k["fork"] = True
    return named(c)
