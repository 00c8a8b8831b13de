"""The reported optimum is a point the objective was really evaluated at, with the value it returned there."""
from .common import LONG, OPTIMIZERS, drive, evaluated, extended, named

BOUNDS = ("popsize 2-6, 1-3 variables, 2-4 iterations, boxes fixed or symbolic with width 1-10, objective values in "
          "[-10, 10] (floats, integers, or both), every strategy, constraint and updating mode") + LONG


def scenario(env, cfg):
    env.tight()
    r = drive(env, cfg)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    penal = cfg.get("opt", {}).get("constraints") == "Penalize"
    states = [("callback", s["x"], s["fun"], s["_calls"]) for s in (r.cb.log if r.cb else [])]
    states.append(("result", r.res.x, r.res.fun, len(r.f.calls)))
    for what, x, fun, n in states:
        calls = r.f.calls[:n]
        info = lambda: {"x": x, "fun": fun, "evaluated": [(c.x, c.f) for c in calls]}  # noqa: B023,E731
        if penal:
            env.check(f"{what}: the point was evaluated", env.or_([env.same(x, c.x) for c in calls]), info)
        if not penal or cfg.get("penalty"):
            env.check(f"{what}: the value there", evaluated(env, x, fun, calls, penal=penal), info)


def configs(tier):
    c = []
    big = tier != "quick"
    for x0 in ("none", "in"):
        for st, n in (("best1bin", 3), ("rand1bin", 4), ("rand2bin", 6), ("best2bin", 5)):
            if n < 5 or big:
                c.append(dict(method="de", x0=x0, popsize=n, maxiter=2, opt=dict(strategy=st)))
            c.append(dict(method="de", x0=x0, popsize=n, maxiter=3 if n < 5 else 2, opt=dict(strategy=st, updating="deferred")))
        c.append(dict(method="de", x0=x0, popsize=3, maxiter=3 if big else 2, opt=dict(constraints="Random")))
        c.append(dict(method="de", x0=x0, popsize=4, maxiter=3, opt=dict(constraints="Random", updating="deferred")))
        for m in ("pso", "cpso"):
            for con in (None, "Shrink"):
                c.append(dict(method=m, x0=x0, popsize=2, maxiter=3 if big or not con else 2, ndim=1 if con else 2,
                              opt=dict(constraints=con)))
                c.append(dict(method=m, x0=x0, popsize=2 if con else 4, maxiter=2 if con else 3, ndim=1 if con else 2,
                              opt=dict(constraints=con, updating="deferred")))
        c.append(dict(method="na", x0=x0, popsize=2, maxiter=3, ndim=1))
        c.append(dict(method="na", x0=x0, popsize=3, maxiter=2, ndim=1))
        if big:
            c.append(dict(method="na", x0=x0, popsize=3, maxiter=2, ndim=2))
        for m in ("cmaes", "vdcma"):
            c.append(dict(method=m, x0=x0, popsize=4, maxiter=2))
            c.append(dict(method=m, x0=x0, popsize=3, maxiter=3, ndim=1))
            c.append(dict(method=m, x0=x0, popsize=4, maxiter=1, ndim=1, opt=dict(constraints="Penalize")))
            if big:
                c.append(dict(method=m, x0=x0, popsize=3, maxiter=2, ndim=1, opt=dict(constraints="Penalize")))
                c.append(dict(method=m, x0=x0, popsize=3, maxiter=2, ndim=2, opt=dict(constraints="Penalize")))
                c.append(dict(method=m, x0=x0, popsize=4, maxiter=1, ndim=1, penalty=True, opt=dict(constraints="Penalize")))
    for m in ("de", "pso", "cpso", "na"):
        up = {} if m == "na" else {"updating": "deferred"}
        c.append(dict(method=m, popsize=3, maxiter=2, tol="sym", ndim=1))
        if m != "na" or big:
            c.append(dict(method=m, popsize=3, maxiter=2, ndim=3, bounds="sym", opt=up))
        c.append(dict(method=m, popsize=3, maxiter=2, kind="mixed", ndim=1))
        c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=2 if m == "de" else 3, x0="in", cb=False, kind="intpop", ndim=1))
        c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=2 if m == "de" else 3, x0="in", cb=False, kind="intpop", ndim=1, opt=dict(workers=2)))
        if m != "na":
            c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=2 if m == "de" else 3, x0="in", cb=False, kind="intpop", ndim=1, opt=up))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, opt=dict(workers=2)))
    for m in OPTIMIZERS:
        for up in ({}, {"updating": "deferred"}) if m in ("de", "pso", "cpso") else ({},):
            c += extended(m, opt=up)
    for m in OPTIMIZERS:
        c += extended(m, it=130, n=6, laws=("fall",), wide=0, cb=False)
    return named(c)
