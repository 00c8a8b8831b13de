"""History: return_all records, for each iteration, the evaluated points with their own values, in user units."""
from math import ceil

from .common import LONG, OPTIMIZERS, drive, evaluated, extended, named

BOUNDS = ("popsize 2-4, 1-3 variables, 1-3 iterations, verbosity 0, 0.5 and 1, objective values in [-10, 10], boxes "
          "fixed and symbolic") + LONG


def scenario(env, cfg):
    env.tight()
    r = drive(env, cfg)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    res, log, n = r.res, r.cb.log, r.res.nit
    pop, nd = cfg.get("popsize", 3), cfg.get("ndim", 2)
    if not cfg.get("return_all", True):
        env.check("no history unless asked for", env.true("xall" not in res and "funall" not in res), lambda: {"keys": list(res)})
        env.check("no history in callbacks unless asked for", env.true(all("xall" not in s for s in log)), None)
        return
    verb = cfg.get("verbosity", 1.0)
    rows = max(1, ceil(verb * pop))
    penal = cfg.get("opt", {}).get("constraints") == "Penalize"
    X, F = res.get("xall"), res.get("funall")
    shapes = (tuple(env.shape(X)), tuple(env.shape(F)))
    good = shapes == ((n, rows, nd), (n, rows))
    env.check("shape of the history", env.true(good), lambda: {"shapes": shapes, "nit": n})
    if not good:
        return
    for k in range(n):
        calls = r.f.calls[: (k + 1) * pop]
        for j in range(rows):
            what = "recorded pairs are evaluated pairs"
            if penal:
                cond = env.or_([env.same(X[k][j], c.x) for c in calls])
            else:
                cond = evaluated(env, X[k][j], F[k][j], calls)
            env.check(what, cond, lambda: {"iteration": k + 1, "row": j, "x": X[k][j], "fun": F[k][j],  # noqa: B023
                                           "evaluated": [(c.x, c.f) for c in calls]})  # noqa: B023
        if verb > 0 and k < len(log):
            env.check("the recorded points are the population of the iteration", env.same(X[k], log[k]["_X"][:rows]),
                      lambda: {"iteration": k + 1, "xall": X[k], "population": log[k]["_X"]})  # noqa: B023
        if verb == 0 and not penal:
            gen = r.f.calls[k * pop:(k + 1) * pop]
            env.check("with verbosity 0 the recorded point is at least as good as its generation",
                      env.and_([env.le(F[k][0], c.f) for c in gen]),
                      lambda: {"iteration": k + 1, "fun": F[k][0], "values": [c.f for c in gen]})  # noqa: B023
    if verb == 1.0 and not penal:
        last = range(n) if cfg["method"] not in ("cmaes", "vdcma") else [n - 1]
        env.check("the best recorded value is the result", env.and_([env.le(res.fun, F[k][j]) for k in last for j in range(rows)]
                                                                    + [env.or_([env.eq(res.fun, F[k][j]) for k in last for j in range(rows)])]),
                  lambda: {"fun": res.fun, "funall": F})
    for k, s in enumerate(log):
        if cfg.get("long") and 8 < k < n - 2 and k % 16:
            continue
        xs, fs = s.get("xall"), s.get("funall")
        ok = xs is not None and len(xs) == k + 1 and len(fs) == k + 1
        env.check("a callback sees the history so far",
                  env.and_(env.true(ok), *([env.same(xs, X[: k + 1]), env.same(fs, F[: k + 1])] if ok else [])),
                  lambda: {"iteration": k + 1, "xall": xs, "funall": fs})  # noqa: B023


def configs(tier):
    c = []
    big = tier != "quick"
    for m in OPTIMIZERS:
        upd = m in ("de", "pso", "cpso")
        pop = 3
        for v in (1.0, 0.5, 0.0):
            for up in (({}, {"updating": "deferred"}) if upd else ({},)):
                imm = upd and not up
                c.append(dict(method=m, popsize=pop, maxiter=3 if big or not (imm or m == "vdcma") else 2, ndim=1,
                              return_all=True, verbosity=v, opt=up))
        c.append(dict(method=m, popsize=pop, maxiter=1, ndim=2, return_all=True))
        c.append(dict(method=m, popsize=2 if m == "na" else pop, maxiter=2, ndim=2, return_all=True, x0="in", opt={"updating": "deferred"} if upd else {}))
        if m != "na":
            c.append(dict(method=m, popsize=3, maxiter=2, ndim=2, bounds="sym", return_all=True, opt={"updating": "deferred"} if upd else {}))
        else:
            c.append(dict(method=m, popsize=2, maxiter=2, ndim=1, bounds="sym", return_all=True))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, tol="symf", return_all=True, opt={"updating": "deferred"} if upd else {}))
        c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=3, ndim=1, tol="symf", return_all=True, verbosity=0.5, opt={"updating": "deferred"} if upd else {}))
        if m in ("pso", "cpso"):
            c.append(dict(method=m, popsize=2, maxiter=3, ndim=1, tol="symf", return_all=True, x0="grid"))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, return_all=False))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, return_all=True, opt=dict(workers=2)))
        if m in ("cmaes", "vdcma"):
            for v in (1.0, 0.0):
                c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, return_all=True, verbosity=v, opt=dict(constraints="Penalize")))
    c.append(dict(method="cpso", bounds="tiny", x0="in", popsize=3, maxiter=3, ndim=1, return_all=True, opt=dict(competitivity=2.0, updating="deferred")))
    c.append(dict(method="cpso", bounds="tiny", x0="in", popsize=3, maxiter=3 if big else 2, ndim=1, return_all=True, opt=dict(competitivity=2.0)))
    for m in OPTIMIZERS:
        for up in ({}, {"updating": "deferred"}) if m in ("de", "pso", "cpso") else ({},):
            for v in (1.0, 0.3, 0.0):
                c += extended(m, laws=("fall", "kept") if v == 0.3 else ("noise",), return_all=True, verbosity=v, opt=up)
    for m in OPTIMIZERS:
        c += extended(m, it=130, n=6, laws=("fall",), wide=0, return_all=True, verbosity=1.0)
    return named(c)
