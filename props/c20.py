"""Samplers under constraints='Reject'."""
from symex.harness import Callback, Objective

from .c18 import Grad, Slope
from .common import LONG, drive, make_bounds, make_x0, named, quiet

BOUNDS = ("1-3 variables, 2-4 samples, symbolic boxes (width 1-10) and fixed ones, symbolic starting points inside, all draws "
          "symbolic, arbitrary gradients with components in [-3, 3]") + LONG


def scenario(env, cfg):
    env.tight()
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    nd = len(lower)
    opt = dict(cfg.get("opt", {}), constraints="Reject")
    if cfg["method"] == "hmc":
        opt["jac"] = (Slope if cfg.get("long") else Grad)(env, nd)
        opt["nleap"] = cfg.get("nleap", 1)
    f = Objective(env, pick=quiet(env, cfg) if cfg.get("long") else None)
    r = drive(env, dict(cfg, opt=opt), f=f, cb=Callback(env, f), bounds=b, x0=x0)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    inside = lambda x: env.and_([env.between(lower[j], x[j], upper[j]) for j in range(nd)])  # noqa: E731
    for c in f.calls:
        env.check("the density is evaluated inside the box", inside(c.x), lambda: {"x": c.x, "lower": lower, "upper": upper}, at=c)  # noqa: B023
    for s in r.cb.log:
        env.check("callback samples are inside the box", env.and_(inside(s["_X"]), inside(s["x"])), lambda: {"xk": s["_X"]})  # noqa: B023
    if r.out.ok:
        env.check("the best sample is inside the box", inside(r.res.x), lambda: {"x": r.res.x})
        for x in r.res.xall:
            env.check("every sample is inside the box", inside(x), lambda: {"x": x})  # noqa: B023


def configs(tier):
    c = []
    big = tier != "quick"
    for nd in (1, 2, 3):
        for bd in ("fixed", "sym"):
            for n in (2, 3) + ((4,) if nd == 1 or big else ()):
                c.append(dict(method="mcmc", x0="in", maxiter=n, ndim=nd, bounds=bd, opt=dict(stepsize=0.5)))
        c.append(dict(method="mcmc", maxiter=3, ndim=nd, opt=dict(stepsize=0.5, perc=0.5)))
        c.append(dict(method="mcmc", x0="in", maxiter=3, ndim=nd, boundsarray=True, opt=dict(stepsize=1)))
    for nd in (1, 2):
        for bd in ("fixed", "sym"):
            for n in (2,) + ((3,) if nd == 1 or big else ()):
                c.append(dict(method="hmc", x0="in", maxiter=n, ndim=nd, bounds=bd, opt=dict(stepsize=0.5)))
        c.append(dict(method="hmc", maxiter=2, ndim=nd, nleap=2, opt=dict(stepsize=0.5)))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=3, boundsarray=True, opt=dict(stepsize=1)))
    c.append(dict(method="hmc", x0="in", maxiter=3, ndim=2, bounds="fixed", opt=dict(stepsize=0.5)))
    if big:
        c.append(dict(method="hmc", x0="in", maxiter=4, ndim=1, bounds="sym", opt=dict(stepsize=0.5)))
    for m in ("mcmc", "hmc"):
        for law in ("fall", "noise", "flat", "rise"):
            for nd, step in ((1, 0.5), (2, 0.5), (2, 1)):
                c.append(dict(method=m, x0="grid", maxiter=45, ndim=nd, long=law, free=(33,), nleap=2, opt=dict(stepsize=step)))
    return named(c)
