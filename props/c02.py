"""The best value found is never lost: the reported value is the smallest of everything evaluated so far."""
from .common import ELITIST, LONG, OPTIMIZERS, drive, extended, is_min, named

BOUNDS = ("popsize 2-5, 1-3 variables, 2-4 iterations, objective values in [-10, 10] (up to 1e33 where restarts are "
          "exercised), x0 given or drawn, every updating mode, constraint and strategy family") + LONG


def scenario(env, cfg):
    if cfg.get("opt", {}).get("constraints") != "Penalize":
        env.tight(0, 0)
    r = drive(env, cfg)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    n, m = cfg.get("popsize", 3), cfg["method"]
    penal = cfg.get("opt", {}).get("constraints") == "Penalize"
    states = [("callback", s, s["_calls"]) for s in (r.cb.log if r.cb else [])]
    states.append(("result", r.res, len(r.f.calls)))
    for what, s, k in states:
        if penal:  # penalised values: the last generation as recorded in the history
            vals = list(s["funall"][-1])
        else:
            calls = r.f.calls[:k]
            vals = [c.f for c in (calls if m in ELITIST else calls[-n:])]
        fun = s["fun"]
        env.check(f"{what}: smallest value", is_min(env, fun, vals), lambda: {"fun": fun, "values": vals})  # noqa: B023


def configs(tier):
    c = []
    big = tier != "quick"
    for x0 in ("none", "in"):
        for con in (None, "Random"):
            c.append(dict(method="de", x0=x0, popsize=3, maxiter=3 if big else 2, opt=dict(constraints=con)))
            c.append(dict(method="de", x0=x0, popsize=4, maxiter=3, opt=dict(constraints=con, updating="deferred")))
        c.append(dict(method="de", x0=x0, popsize=4, maxiter=2, ndim=1, opt=dict(strategy="rand1bin")))
        c.append(dict(method="de", x0=x0, popsize=4, maxiter=3, ndim=3, opt=dict(strategy="rand1bin", updating="deferred")))
        c.append(dict(method="de", x0=x0, popsize=5, maxiter=2, ndim=1, opt=dict(strategy="best2bin", updating="deferred")))
        for m in ("pso", "cpso"):
            for con in (None, "Shrink"):
                nd = 1 if con else 2
                c.append(dict(method=m, x0=x0, popsize=2, maxiter=3 if big or not con else 2, ndim=nd, opt=dict(constraints=con)))
                c.append(dict(method=m, x0=x0, popsize=3, maxiter=2 if con else 4, ndim=nd,
                              opt=dict(constraints=con, updating="deferred")))
            c.append(dict(method=m, x0=x0, popsize=3, maxiter=2, ndim=1))
        c.append(dict(method="na", x0=x0, popsize=2, maxiter=3, ndim=1))
        c.append(dict(method="na", x0=x0, popsize=3, maxiter=2, ndim=1))
        c.append(dict(method="na", x0=x0, popsize=2, maxiter=2, ndim=2))
        for m in ("cmaes", "vdcma"):
            c.append(dict(method=m, x0=x0, popsize=4, maxiter=2))
            c.append(dict(method=m, x0=x0, popsize=3, maxiter=3, ndim=1))
            c.append(dict(method=m, x0=x0, popsize=3, maxiter=2 if big else 1, ndim=1, return_all=True, opt=dict(constraints="Penalize")))
            c.append(dict(method=m, x0=x0, popsize=4, maxiter=2, ndim=1, opt=dict(muperc=0.25 if m == "cmaes" else 0.75)))
    for up in ({}, {"updating": "deferred"}):
        # the whole swarm fits in the restart radius, and values may be of any size
        for top in (10, 10**33):
            c.append(dict(method="cpso", bounds="tiny", popsize=3, maxiter=3, ndim=1, fhi=top, x0="in", eps=10**29 if top > 10 else 1e-4,
                          opt=dict(competitivity=2.0, **up)))
            if big:
                c.append(dict(method="cpso", bounds="tiny", popsize=4, maxiter=3, ndim=1, fhi=top, eps=10**29 if top > 10 else 1e-4,
                              opt=dict(competitivity=2.0, **up)))
    for m in ELITIST:
        c.append(dict(method=m, popsize=3, maxiter=2, tol="sym", ndim=1))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, cb=False, kind="mixed", opt=dict(workers=2)))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, return_all=True, verbosity=0.0))
    for m in OPTIMIZERS:
        for up in ({}, {"updating": "deferred"}) if m in ("de", "pso", "cpso") else ({},):
            c += extended(m, opt=up)
    for m in OPTIMIZERS:
        c += extended(m, it=130, n=6, laws=("fall",), wide=0)
    return named(c)
