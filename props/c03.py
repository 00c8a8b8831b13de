"""With a constraint handler (and always for NA), infeasible points are neither evaluated nor reported."""
from .common import LONG, OPTIMIZERS, drive, extended, named

BOUNDS = ("popsize 2-4, 1-3 variables, 2-3 iterations; boxes fixed, asymmetric or symbolic (width 1-10); x0 inside "
          "the box (for Penalize: up to 3 outside it)") + LONG


def scenario(env, cfg):
    env.tight()
    r = drive(env, cfg)

    def inside(x):
        return env.and_([env.between(lo, v, hi) for lo, v, hi in zip(r.lower, x, r.upper)])
    for c in r.f.calls:
        env.check("evaluated point", inside(c.x), lambda: {"evaluated": c.x, "lower": r.lower, "upper": r.upper}, at=c)  # noqa: B023
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    env.check("result", inside(r.res.x), lambda: {"x": r.res.x})
    rows = [("callback x", s["x"]) for s in (r.cb.log if r.cb else [])]
    rows += [("callback population", x) for s in (r.cb.log if r.cb else []) for x in s["_X"]]
    if r.res.get("xall") is not None:
        rows += [("history", x) for g in r.res.xall for x in g]
    for what, x in rows:
        env.check(what, inside(x), lambda: {what: x})  # noqa: B023


def configs(tier):
    c = []
    big = tier != "quick"
    for x0 in ("none", "in"):
        for nd in (1, 2, 3):
            c.append(dict(method="de", x0=x0, popsize=4, maxiter=3, ndim=nd, opt=dict(constraints="Random", updating="deferred")))
        c.append(dict(method="de", x0=x0, popsize=3, maxiter=2, ndim=2, opt=dict(constraints="Random")))
        c.append(dict(method="de", x0=x0, popsize=4, maxiter=2, ndim=1, opt=dict(constraints="Random", strategy="rand1bin")))
        c.append(dict(method="de", x0=x0, popsize=5, maxiter=2, ndim=1, opt=dict(constraints="Random", strategy="best2bin", updating="deferred", mutation=2.0)))
        for m in ("pso", "cpso"):
            c.append(dict(method=m, x0=x0, popsize=2, maxiter=2, ndim=1, opt=dict(constraints="Shrink")))
            for nd in (2, 3) if x0 == "in" else ():
                hot = dict(constraints="Shrink", sociability=4.0, inertia=0.9)
                c.append(dict(method=m, x0="grid", kind="firstbest", popsize=2, maxiter=2, ndim=nd, opt=dict(hot, updating="deferred")))
                c.append(dict(method=m, x0="grid", kind="firstbest", popsize=2, maxiter=2, ndim=nd, opt=hot))
            c.append(dict(method=m, x0=x0, popsize=2, maxiter=2, ndim=1, bounds="sym", opt=dict(constraints="Shrink", updating="deferred")))
            if big:
                c.append(dict(method=m, x0=x0, popsize=2, maxiter=3, ndim=1, opt=dict(constraints="Shrink")))
                c.append(dict(method=m, x0=x0, popsize=2, maxiter=3, ndim=1, opt=dict(constraints="Shrink", updating="deferred")))
                c.append(dict(method=m, x0=x0, popsize=2, maxiter=2, ndim=2, opt=dict(constraints="Shrink", updating="deferred")))
                c.append(dict(method=m, x0=x0, popsize=2, maxiter=2, ndim=2, opt=dict(constraints="Shrink")))
                c.append(dict(method=m, x0=x0, popsize=2, maxiter=2, ndim=3, opt=dict(constraints="Shrink", updating="deferred")))
        c.append(dict(method="na", x0=x0, popsize=2, maxiter=3, ndim=1, return_all=True))
        c.append(dict(method="na", x0=x0, popsize=3, maxiter=2, ndim=1, bounds="sym"))
        c.append(dict(method="na", x0=x0, popsize=2, maxiter=2, ndim=2, return_all=True))
        if big:
            c.append(dict(method="na", x0=x0, popsize=3, maxiter=2, ndim=2, return_all=True))
        for m in ("cmaes", "vdcma"):
            for x in (x0, "out") if x0 == "in" else (x0,):
                c.append(dict(method=m, x0=x, popsize=3, maxiter=1, ndim=2, return_all=True, opt=dict(constraints="Penalize")))
                c.append(dict(method=m, x0=x, popsize=3, maxiter=2 if big or x != "out" else 1, ndim=1, opt=dict(constraints="Penalize")))
                c.append(dict(method=m, x0=x, popsize=4, maxiter=1, ndim=1, bounds="sym", opt=dict(constraints="Penalize", sigma=1.5)))
        c.append(dict(method="de", x0=x0, popsize=3, maxiter=2, ndim=2, bounds="sym", opt=dict(constraints="Random", updating="deferred")))
        c.append(dict(method="de", x0=x0, popsize=3, maxiter=2, ndim=2, opt=dict(constraints="Random", workers=2)))
    c.append(dict(method="cpso", bounds="tiny", x0="grid", popsize=3, maxiter=3, ndim=1, kind="firstbest", opt=dict(competitivity=2.0, sociability=4.0, constraints="Shrink", updating="deferred")))
    c.append(dict(method="cpso", bounds="tiny", x0="grid", popsize=3, maxiter=3, ndim=1, kind="firstbest", return_all=True, opt=dict(competitivity=2.0, sociability=4.0, constraints="Shrink")))
    cons = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize", "na": None}
    for m in OPTIMIZERS:
        for up in ({}, {"updating": "deferred"}) if m in ("de", "pso", "cpso") else ({},):
            con = {} if m == "na" else {"constraints": cons[m]}
            c += extended(m, laws=("fall", "noise", "settle"), return_all=True, opt=dict(up, **con))
    return named(c)
