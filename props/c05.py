"""Accounting: evaluations, iterations, callbacks and the arguments the objective receives."""
from .common import ELITIST, LONG, OPTIMIZERS, drive, extended, named

BOUNDS = ("popsize 2-4, 1-3 variables, maxiter 1-4, symbolic tolerances and objective values in [-10, 10], two extra "
          "arguments (one symbolic number, one list), every optimizer, updating mode, backend and constraint") + LONG


def scenario(env, cfg):
    env.tight()
    args = ()
    if cfg.get("args"):
        args = (env.real("arg0", -5, 5), ["opaque"])
    r = drive(env, dict(cfg, args=()), args=args)
    nd, pop = cfg.get("ndim", 2), cfg.get("popsize", 3)
    for c in r.f.calls:
        env.check("the objective receives one point", env.true(c.kind and tuple(c.shape) == (nd,)),
                  lambda: {"shape": c.shape, "array": c.kind})  # noqa: B023
        ok = len(c.args) == len(args)
        env.check("the objective receives the extra arguments",
                  env.and_([env.true(ok)] + ([env.eq(c.args[0], args[0]), env.true(c.args[1] is args[1] or c.args[1] == args[1])]
                                             if ok and args else [])),
                  lambda: {"args": repr(c.args)})  # noqa: B023
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    res, log, n = r.res, r.cb.log, r.res.nit
    calls = len(r.f.calls)
    env.check("nfev is the number of evaluations", env.true(res.nfev == calls), lambda: {"nfev": res.nfev, "calls": calls})
    env.check("popsize evaluations per iteration", env.true(calls == n * pop), lambda: {"nit": n, "calls": calls})
    env.check("one callback per iteration", env.true(len(log) == n), lambda: {"nit": n, "callbacks": len(log)})
    for k, s in enumerate(log):
        env.check("callback numbering", env.true(s["nit"] == k + 1), lambda: {"k": k + 1, "nit": s["nit"]})  # noqa: B023
        env.check("callback nfev", env.true(s["nfev"] == s["_calls"]), lambda: {"nfev": s["nfev"], "calls": s["_calls"]})  # noqa: B023
        env.check("callback population", env.true(tuple(env.shape(s["_X"])) == (pop, nd)), lambda: {"shape": env.shape(s["_X"])})  # noqa: B023
    if log:
        s = log[-1]
        env.check("the result is the last state", env.and_(env.same(s["x"], res.x), env.eq(s["fun"], res.fun),
                                                           env.true(s["nfev"] == res.nfev and s["nit"] == n)),
                  lambda: {"last": {k: s[k] for k in ("x", "fun", "nit", "nfev")}, "result": dict(res)})


def configs(tier):
    c = []
    for m in OPTIMIZERS:
        pop = 3
        if m in ("de", "pso", "cpso"):
            c.append(dict(method=m, popsize=pop, maxiter=2, ndim=1, tol="sym", args=True))
            c.append(dict(method=m, popsize=4, maxiter=3, ndim=3, tol="symf", args=True, opt=dict(updating="deferred")))
            c.append(dict(method=m, popsize=2 if m != "de" else 3, maxiter=2, ndim=1, x0="in", args=True,
                          opt=dict(constraints="Random" if m == "de" else "Shrink")))
        else:
            c.append(dict(method=m, popsize=pop, maxiter=2, ndim=1, tol="sym", args=True))
            c.append(dict(method=m, popsize=2 if m == "na" else 4, maxiter=3, ndim=1, tol="symf", args=True))
            c.append(dict(method=m, popsize=2 if m == "na" else 3, maxiter=2, ndim=2, x0="in", args=True))
        if m in ("cmaes", "vdcma"):
            c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, x0="in", args=True, opt=dict(constraints="Penalize")))
        c.append(dict(method=m, popsize=pop, maxiter=1, ndim=2, args=True))
        for b in ("threading", "loky"):
            c.append(dict(method=m, popsize=pop, maxiter=2, ndim=1, args=True, opt=dict(workers=2, backend=b)))
        c.append(dict(method=m, popsize=pop, maxiter=2, ndim=1, args=True, opt=dict(workers=-1)))
        c.append(dict(method=m, popsize=pop, maxiter=2, ndim=1, args=True, opt=dict(workers=0)))
    for m in OPTIMIZERS:
        for up in ({}, {"updating": "deferred"}) if m in ("de", "pso", "cpso") else ({},):
            c += extended(m, laws=("flat", "fall", "settle"), args=True, opt=up)
    for m in OPTIMIZERS:
        c += extended(m, it=130, n=6, laws=("fall",), wide=0, args=True)
    return named(c)
