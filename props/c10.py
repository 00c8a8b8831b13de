"""The initial points: x0 as given, or a Latin hypercube sample of the box."""
from symex.harness import Callback, Objective

from .common import GRID, LONG, drive, make_bounds, make_x0, named

BOUNDS = ("popsize 2-6, 1-3 variables; x0 as lists, float and integer arrays, in and outside the box; boxes fixed, "
          "asymmetric and symbolic (width 1-10)") + LONG
POP = ("de", "pso", "cpso", "na")


def scenario(env, cfg):
    env.tight()
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    keep = None if x0 is None else env.copy(x0)
    wide = cfg.get("wide")
    if wide:  # fixed orders, three arbitrary draws
        env.policy = lambda kind, k: None if k in (0, wide, 2 * wide - 1) else GRID[(3 * k + k // 8) % 8]
        env.choice = lambda kind, k, m: (5 * k + k // 3) % m if kind == "i" else [(7 * q + k) % m for q in range(m)] if m % 7 else [(q + k) % m for q in range(m)]
    f = Objective(env, pick=lambda k: k / 8) if wide else Objective(env)
    r = drive(env, cfg, f=f, cb=Callback(env, f), bounds=b, x0=x0)
    m, nd = cfg["method"], len(lower)
    one = m in ("mcmc", "hmc")
    n = 1 if one else cfg["popsize"]
    env.check("the initial population is evaluated", env.true(len(f.calls) >= n), lambda: {"exception": repr(r.out.exc)})
    if len(f.calls) < n:
        return
    pts = [c.x for c in f.calls[:n]]
    info = lambda: {"evaluated": pts, "x0": keep, "lower": lower, "upper": upper}  # noqa: E731
    if x0 is not None:
        env.check("x0 is evaluated as given, in order",
                  env.and_([env.same(p, keep if one else keep[i]) for i, p in enumerate(pts)]), info)
        if not one and r.cb.log:
            env.check("the first callback shows x0", env.same(r.cb.log[0]["_X"], keep), info)
        return
    env.check("inside the box", env.and_([env.between(lower[j], p[j], upper[j]) for p in pts for j in range(nd)]), info)
    if one:
        return
    for j in range(nd):
        w = upper[j] - lower[j]
        for k in range(n):
            lo, hi = lower[j] + w * k / n, lower[j] + w * (k + 1) / n
            env.check("every stratum holds an individual", env.or_([env.between(lo, p[j], hi) for p in pts]), info)
            env.check("and no more than one", env.and_([env.not_(env.and_(env.lt(lo, p[j]), env.lt(p[j], hi), env.lt(lo, q[j]), env.lt(q[j], hi)))
                                                        for a, p in enumerate(pts) for q in pts[:a]]), info)
    if r.cb.log:
        env.check("the first callback shows the initial population", env.same(r.cb.log[0]["_X"], pts), info)


def configs(tier):
    c = []
    big = tier != "quick"
    for m in POP:
        upd = m != "na"
        for up in (({}, {"updating": "deferred"}) if upd else ({},)):
            for n in ((3, 4) if m == "de" else (2, 3, 4)) + ((5,) if big or m != "na" else ()):
                c.append(dict(method=m, popsize=n, maxiter=1, ndim=1 if n > 3 else 2, opt=up))
            c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=1, ndim=3, opt=up))
            c.append(dict(method=m, popsize=3, maxiter=1, ndim=1, bounds="sym", opt=up))
            c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, bounds="int", opt=up))
            for x0, bd in (("in", "fixed"), ("list", "fixed"), ("int", "int"), ("in", "sym"), ("out", "fixed")):
                c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, x0=x0, bounds=bd, opt=up))
            c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, x0="in", boundsarray=True, return_all=True, opt=up))
            c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, x0="in", opt=up))
            if m != "na":
                c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, x0="in", opt=dict(up, constraints="Random" if m == "de" else "Shrink")))
        c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, x0="list", opt=dict(workers=2)))
        c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, opt=dict(workers=2, backend="loky")))
        c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, bounds="degenerate", x0="in"))
        for n, nd in ((17, 2), (33, 1), (20, 3), (4, 10)):
            c.append(dict(method=m, popsize=n, maxiter=1, ndim=nd, wide=n, opt={}))
        c.append(dict(method=m, popsize=33, maxiter=1, ndim=2, wide=33, x0="out", opt={}))
    for m in ("mcmc", "hmc"):
        for x0, bd in (("none", "fixed"), ("none", "sym"), ("in", "fixed"), ("list", "fixed"), ("int", "int"), ("out", "fixed")):
            c.append(dict(method=m, maxiter=1, ndim=2, x0=x0, bounds=bd, opt={}))
        c.append(dict(method=m, maxiter=2, ndim=1, x0="in", opt=dict(constraints="Reject")))
    return named(c)
