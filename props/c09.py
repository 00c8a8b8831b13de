"""The caller's objects are not modified, and what callbacks were handed stays as it was."""
import numpy as np

from symex.harness import Callback, Objective

from .common import LONG, OPTIMIZERS, drive, extended, make_bounds, make_x0, named, options, quiet

BOUNDS = ("popsize 2-4, 1-2 variables, 2-3 iterations; bounds and x0 as lists, float or integer arrays, step sizes as "
          "numbers, lists and arrays, mutable extra arguments") + LONG


def scenario(env, cfg):
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    opt = dict(cfg.get("opt", {}))
    if cfg.get("step"):
        v = [env.real(f"step{j}", 0.05, 0.5) for j in range(cfg.get("ndim", 2))]
        opt["stepsize"] = v if cfg["step"] == "list" else env.array(v)
    args = (env.array([env.real("arg", -1, 1)]), {"k": 1})
    opts = options(env, dict(cfg, opt=opt))
    f = Objective(env, pick=quiet(env, cfg) if cfg.get("long") else None)
    kept = {"bounds": b, "x0": x0, "args": args[0], "stepsize": opts.get("stepsize")}
    before = {k: env.copy(v) for k, v in kept.items()}
    types = {k: (type(v), getattr(v, "dtype", None)) for k, v in kept.items()}
    obefore = dict(opts)
    r = drive(env, cfg, f=f, cb=Callback(env, f), bounds=b, x0=x0, opts=opts, args=args)
    for k, v in kept.items():
        if v is None:
            continue
        env.check(f"{k} unchanged", env.identical(v, before[k]), lambda: {k: env.copy(v), "before": before[k]})  # noqa: B023
        env.check(f"{k} of the same type", env.true(types[k] == (type(v), getattr(v, "dtype", None))), None)
    env.check("options unchanged", env.true(list(obefore) == list(opts) and all(obefore[k] is opts[k] or k == "stepsize" for k in opts)),
              lambda: {"options": list(opts)})
    env.check("extra arguments unchanged", env.true(args[1] == {"k": 1}), None)
    for s in r.cb.log:
        env.check("a callback's best point stays as it was", env.identical(s["_state"]["x"], s["x"]),
                  lambda: {"handed": s["x"], "now": s["_state"]["x"]})  # noqa: B023
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        env.check("the run ends without an exception", env.true(False), lambda: {"exception": repr(r.out.exc)})
        return
    # changing the inputs afterwards does not change the result
    x, fun = env.copy(r.res.x), r.res.fun
    hist = env.copy(r.res.xall) if r.res.get("xall") is not None else None
    for v in (b, x0):
        if isinstance(v, np.ndarray):
            v[...] = 77
        elif isinstance(v, list):
            for row in v:
                if isinstance(row, list):
                    row[:] = [77] * len(row)
    env.check("the result is not tied to the inputs", env.and_(
        env.identical(r.res.x, x), env.identical(r.res.xall, hist) if hist is not None else env.true()), lambda: {"x": r.res.x, "before": x})


def configs(tier):
    c = []
    for m in OPTIMIZERS:
        upd = m in ("de", "pso", "cpso")
        for up in (({}, {"updating": "deferred"}) if upd else ({},)):
            for x0, bd in (("in", "fixed"), ("int", "int"), ("list", "fixed"), ("none", "int")):
                for ba in (False, True):
                    if ba and x0 == "int":
                        continue
                    imm = upd and not up
                    c.append(dict(method=m, popsize=3, maxiter=2, ndim=1 if m == "na" or imm else 2, x0=x0, bounds=bd, boundsarray=ba, opt=up))
            c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=3 if not (upd and not up) else 2, ndim=1, x0="in", return_all=True, opt=up))
            c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=2, ndim=1, x0="in", seed=None, opt=up))
        con = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}.get(m)
        if con:
            c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=1 if con == "Penalize" else 2, ndim=1, x0="in", boundsarray=True, opt=dict(constraints=con)))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, x0="in", boundsarray=True, opt=dict(workers=2)))
    c.append(dict(method="cpso", bounds="tiny", x0="in", popsize=3, maxiter=3, ndim=1, kind="firstbest", opt=dict(competitivity=2.0, updating="deferred")))
    c.append(dict(method="na", bounds="degenerate", boundsarray=True, x0="in", popsize=2, maxiter=2, ndim=2))
    for m in ("mcmc", "hmc"):
        o = dict(nleap=1) if m == "hmc" else {}
        for x0, bd in (("in", "fixed"), ("int", "int"), ("list", "fixed"), ("none", "fixed")):
            for step in (None, "list", "array"):
                c.append(dict(method=m, maxiter=3 if m == "mcmc" else 2, ndim=2 if m == "mcmc" else 1, x0=x0, bounds=bd, boundsarray=x0 == "in", step=step, opt=o))
        c.append(dict(method=m, maxiter=2, ndim=1, x0="in", opt=dict(o, constraints="Reject"), return_all=False))
        c.append(dict(method=m, maxiter=2, ndim=1, x0="in", opt=dict(o, stepsize=1)))
        c.append(dict(method=m, maxiter=2, ndim=1, x0="in", seed=None, opt=o))
    for m in OPTIMIZERS:
        for up in ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,):
            con = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}.get(m)
            for cn in dict.fromkeys((None, con)):
                if m != "na":
                    c.append(dict(method=m, bounds="degenerate", boundsarray=True, x0="grid" if m in ("cmaes", "vdcma") else "none", popsize=4, maxiter=3, ndim=2, long="noise", free=(5,), fork=True,
                                  opt=dict(**(dict(updating=up) if up else {}), **(dict(constraints=cn) if cn else {}))))
                c += extended(m, 24 if cn is None else 0, 40, ("fall", "settle"), x0="grid", boundsarray=True, return_all=True,
                              opt=dict(**(dict(updating=up) if up else {}), **(dict(constraints=cn) if cn else {})))
    for m in ("mcmc", "hmc"):
        for law in ("fall", "noise"):
            c.append(dict(method=m, maxiter=40, ndim=2, x0="grid", boundsarray=True, step="array", long=law, free=(30,), opt=dict(nleap=2) if m == "hmc" else {}))
    return named(c)
