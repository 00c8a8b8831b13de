"""An infinite objective value is the worst one."""
import math

import numpy as np

from symex.harness import Callback, Objective

from .c18 import Grad
from .common import OPTIMIZERS, drive, make_bounds, make_x0, named

BOUNDS = ("1-2 variables (VD-CMA with the penalty: 6), populations 2-5, 2-4 iterations or samples, any subset of the first evaluations (up to 8) infinite; also any subset of four evaluations late in runs of 40 iterations (NA: 5) or with 10 variables and 20 individuals, the others "
          "symbolic or fixed; infinity against any number from 1e3 to 1e30 in a second run on the same draws")


class Inf(Objective):
    """Arbitrary, infinite for some of the calls."""

    def __init__(self, env, upto, start=0, **k):
        super().__init__(env, **k)
        self.upto, self.start = upto, start

    def value(self, x):
        env, k, n = self.env, self.env.key(x), len(self.calls)
        if k not in self.memo and self.start <= n < self.upto and env.concretize(env.int(f"infinite{n}", 0, 1)):
            self.memo[k] = math.inf
        return super().value(x)


class Large(Objective):
    def __init__(self, env, other):
        super().__init__(env)
        self.other, self.large = other, None

    def value(self, x):
        v = self.other.memo.get(self.env.key(x))
        if v is None:
            return super().value(x)  # a point of this run only
        if isinstance(v, float) and math.isinf(v):
            if self.large is None:
                self.large = self.env.real("large", 10**3, 10**30)
            return self.large
        return v


def inf(v):
    return isinstance(v, (float, np.floating)) and math.isinf(v) and v > 0


def nan(v):
    return isinstance(v, (float, np.floating)) and math.isnan(v)


def finite(v):
    return not isinstance(v, (float, np.floating)) or math.isfinite(v)


def scenario(env, cfg):
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    m, n = cfg["method"], cfg["popsize"]
    if cfg.get("fixed"):
        env.policy = lambda kind, k: ((0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)[(k + k // 7) % 7] if kind == "u" else
                                      (0.5, -1.0, 0.75, -0.25, 1.25)[(k + k // 5) % 5])
        env.choice = lambda kind, k, n: (5 * k + 1) % n if kind == "i" else [(q * (n - 1) + k) % n for q in range(n)]
    opt = dict(cfg.get("opt", {}), return_all=True)
    if m == "hmc":
        opt["nleap"] = 1
        opt["jac"] = Grad(env, len(lower))
    if m in OPTIMIZERS:
        opt.update(xtol=-1.0, ftol=-1e40)
    cfg = dict(cfg, opt=opt)
    st = env.load()
    f = Inf(env, cfg["upto"], cfg.get("start", 0), pick=(lambda k: float((2 * k + k // n) % (n + 2)) - 0.0171 * k) if cfg.get("f") == "grid" else None)
    A = drive(env, cfg, st=st, f=f, cb=Callback(env, f), bounds=b, x0=x0)
    vals = [c.f for c in f.calls]
    info = lambda: {"values": vals, "points": [c.x for c in f.calls], "exception": repr(A.out.exc), "result": dict(A.res or {})}  # noqa: E731
    env.check("the run ends without an exception", env.true(A.out.ok), info)
    if not A.out.ok:
        return
    env.check("only finite points are evaluated", env.true(all(finite(e) for c in f.calls for e in env.flat(c.x)[0])), info)
    env.check("no result is undefined", env.true(not any(nan(env.item(e)) for s in [A.res] + A.cb.log for e in [s["fun"]] + list(env.flat(s["x"])[0])
                                                         + env.flat(s["funall"])[0])), info)
    if m in OPTIMIZERS:
        seen = vals if m not in ("cmaes", "vdcma") else vals[-n:]
        env.check("the best value is finite if one is", env.true(inf(env.item(A.res.fun)) == all(inf(v) for v in seen)), info)
    else:
        env.check("the best sample is finite if one is", env.true(inf(env.item(A.res.fun)) == all(inf(env.item(v)) for v in A.res.funall)), info)
        fs = [env.item(v) for v in A.res.funall]
        for k in range(1, len(fs)):
            env.check("no infinite sample after a finite one", env.true(finite(fs[k]) or not finite(fs[k - 1])), info)
    if cfg["law"] == "penalty":
        fa = [env.item(e) for e in env.flat(A.res.funall)[0]]
        env.check("values are infinite where the objective is", env.true([inf(v) for v in fa] == [inf(v) for v in vals]), info)
        return
    if cfg["law"] == "samples":
        # a finite proposal after an infinite sample is accepted
        fs = [env.item(v) for v in A.res.funall]
        for k in range(1, len(fs)):
            if m == "mcmc" and not opt.get("constraints") and len(vals) == len(fs) and not finite(fs[k - 1]):
                env.check("a finite proposal replaces an infinite sample", env.true(inf(vals[k]) == inf(fs[k])), info)
        return
    env.ndraw = {k: 0 for k in env.ndraw}
    g = Large(env, f)
    B = drive(env, cfg, st=st, f=g, cb=False, bounds=b, x0=None if x0 is None else env.copy(x0))
    info = lambda: {"values": vals, "values of the other run": [c.f for c in g.calls], "points": [c.x for c in f.calls],  # noqa: E731
                    "points of the other run": [c.x for c in g.calls], "exceptions": [repr(r.out.exc) for r in (A, B)]}
    env.check("the run with a large value ends without an exception", env.true(B.out.ok), info)
    if not B.out.ok:
        return
    env.check("the same number of points is evaluated", env.true(len(f.calls) == len(g.calls) and A.res.nit == B.res.nit), info)
    for k, (p, q) in enumerate(zip(f.calls, g.calls)):
        env.check("the same points are evaluated", env.same(p.x, q.x), lambda: dict(info(), call=k))  # noqa: B023
    env.check("the same point is the result", env.same(A.res.x, B.res.x), info)


def configs(tier):
    c = []
    big = tier != "quick"
    for m in OPTIMIZERS:
        ups = ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,)
        for up in ups:
            o = dict(updating=up) if up else {}
            base = dict(method=m, law="worst", opt=o)
            c.append(dict(base, popsize=3, ndim=1, maxiter=2, upto=6, f="grid", fixed=True))
            c.append(dict(base, popsize=3, ndim=2, maxiter=3, upto=9 if big else 6, start=2, f="grid", fixed=True, x0="grid"))
            c.append(dict(base, popsize=4, ndim=2, maxiter=3, upto=7 if big else 5, f="grid", fixed=True, x0="grid"))
            c.append(dict(base, popsize=5, ndim=2, maxiter=3, upto=10 if big else 9, start=5, f="grid", fixed=True, x0="grid"))
            c.append(dict(base, popsize=3, ndim=1, maxiter=2, upto=4, fixed=True))
            if m != "na" and (big or m != "de"):
                c.append(dict(base, popsize=3, ndim=1, maxiter=2, upto=6 if big else 2))
        cons = {"de": "Random", "pso": "Shrink", "cpso": "Shrink"}.get(m)
        if cons:
            c.append(dict(method=m, law="worst", popsize=4, ndim=2, maxiter=3, upto=6, f="grid", fixed=True, opt=dict(constraints=cons)))
        if m == "de":
            for s in ("best1bin", "rand2bin", "best2bin"):
                c.append(dict(method=m, law="worst", popsize=6, ndim=2, maxiter=2, upto=7, f="grid", fixed=True, opt=dict(strategy=s)))
        if m == "cpso":
            for g in (1.5, 2.0):
                c.append(dict(method=m, law="worst", popsize=4, ndim=2, maxiter=3, x0="cluster", upto=6, f="grid", fixed=True, opt=dict(competitivity=g)))
        if m in ("cmaes", "vdcma"):
            nd = 2 if m == "cmaes" else 6
            for mp in (0.5, 1.0)[:2 if m == "cmaes" else 1]:
                c.append(dict(method=m, law="worst", popsize=4, ndim=nd, maxiter=3, upto=8 if m == "cmaes" else 5, start=0 if m == "cmaes" else 3, f="grid", fixed=True, x0="grid", opt=dict(muperc=mp)))
            for x in ("grid", "out"):
                for n in (3, 4, 5)[:3 if m == "cmaes" else 2]:
                    c.append(dict(method=m, law="penalty", popsize=n, ndim=nd, maxiter=3, upto=2 * n, f="grid", fixed=True, x0="far" if x == "out" else x,
                                  opt=dict(constraints="Penalize")))
            c.append(dict(method=m, law="worst", popsize=2, ndim=1, maxiter=14, upto=28, start=22, f="grid", fixed=True, x0="grid"))
    for m in OPTIMIZERS:  # late in a long run, and many individuals and variables
        for up in ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,):
            o = dict(updating=up) if up else {}
            n = 5 if m == "na" else 40
            c.append(dict(method=m, law="worst", popsize=4, ndim=2, maxiter=n, upto=4 * n - 5, start=4 * n - 9, f="grid", fixed=True, x0="grid", opt=o))
            if m not in ("na", "cmaes"):
                c.append(dict(method=m, law="worst", popsize=20, ndim=10, maxiter=3, upto=37, start=33, f="grid", fixed=True, x0="grid", opt=o))
    c.append(dict(method="mcmc", law="samples", popsize=1, ndim=2, maxiter=60, upto=56, start=52, f="grid", fixed=True))
    for m in ("mcmc", "hmc"):
        for o in ({}, dict(constraints="Reject")):
            for nd, it in ((1, 3), (2, 4), (1, 5)):
                if it < 5 or big or m == "mcmc" or not o:
                    c.append(dict(method=m, law="samples", popsize=1, ndim=nd, maxiter=it, upto=5, opt=o))
                c.append(dict(method=m, law="samples", popsize=1, ndim=nd, maxiter=it + 2, upto=6, opt=o, f="grid", fixed=True))
    for k in c:
        k["fork"] = True
        if k.get("fixed"):
            k["anomalies"] = True
    return named(c)
