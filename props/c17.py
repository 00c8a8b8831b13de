"""MCMC: block proposals and the Metropolis rule, read off the sequence of samples and evaluations."""
from symex.harness import Callback, Objective

from .common import LONG, drive, make_bounds, make_x0, named

BOUNDS = ("1-4 variables, 2-6 samples, perc 0-1, scalar and per-variable symbolic step sizes; one symbolic normal and "
          "one symbolic uniform number stand for all draws; objective values in [-10, 10], or fixed ones up to 2e6") + LONG


def block(k, nd, size):
    """The variables perturbed at step k = 1, 2, ..."""
    starts = list(range(0, nd, size))
    j = starts[(k - 1) % len(starts)]
    return range(j, min(j + size, nd))


def accepts(env, u, drop):
    """(log u < drop, log u > drop) for u in (0, 1)."""
    lu = env.log(u)
    return env.lt(lu, drop), env.gt(lu, drop)


def scenario(env, cfg):
    env.tight(1e-8, 1e-10)
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    nd, n = len(lower), cfg["maxiter"]
    z, u = env.real("z", -3, 3), env.real("u", 0.001, 0.999)
    env.policy = lambda kind, k: z if kind == "n" else u
    perc = cfg.get("perc", 1.0)
    opt = dict(cfg.get("opt", {}), perc=perc)
    if cfg.get("step") == "array":
        steps = [env.real(f"step{j}", 0.05, 0.5) for j in range(nd)]
        opt["stepsize"] = env.array(steps)
    else:
        s = cfg.get("step")
        steps = [env.real("step", 0.05, 0.5) if s == "sym" else s or 0.1] * nd
        if s:
            opt["stepsize"] = steps[0]
    # fixed values of any magnitude: exponentials of them overflow or vanish
    at = cfg.get("at")
    f = Objective(env, pick=None if at is None else lambda k: at * (1.0 + (0.0, 0.5, -0.25, 0.125, 2.0)[k % 5] / cfg.get("over", abs(at))))
    if cfg.get("long"):  # rejected for long, or accepted for long
        f.pick = lambda k: float(-k) if k > cfg["long"] else 50.0 + k if k else 0.0
    r = drive(env, dict(cfg, opt=opt), f=f, cb=Callback(env, f), bounds=b, x0=x0)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    X, F = r.res.xall, r.res.funall
    size = max(1, int(perc * nd))
    reject = opt.get("constraints") == "Reject"
    done = 1
    for k in range(1, n):
        want = [X[k - 1][j] + (z * steps[j] * 0.5 * (upper[j] - lower[j]) if j in block(k, nd, size) else 0) for j in range(nd)]
        same_as_before = env.and_(env.same(X[k], X[k - 1]), env.eq(F[k], F[k - 1]))
        # the other variables stay where they are: in the box
        inside = env.and_([env.between(lower[j], want[j], upper[j]) for j in block(k, nd, size)])
        info = lambda: {"sample": k, "previous": X[k - 1], "proposal": want, "new": X[k], "values": F, "u": u, "z": z,  # noqa: B023,E731
                        "evaluated": [c.x for c in f.calls]}
        evald = done < len(f.calls) and (not reject or env.decide(inside))
        if not evald:
            env.check("an infeasible proposal is rejected", env.and_(env.true(reject), env.not_(inside), same_as_before), info)
            continue
        c = f.calls[done]
        done += 1
        env.check("the proposal perturbs the current block of variables", env.same(c.x, want), info)
        yes, no = accepts(env, u, F[k - 1] - c.f)
        env.check("accepted when log u is below the decrease",
                  env.implies(yes, env.and_(env.same(X[k], c.x), env.eq(F[k], c.f))), info)
        env.check("rejected when log u is above the decrease", env.implies(no, same_as_before), info)
    env.check("one evaluation per proposal", env.true(done == len(f.calls)), lambda: {"used": done, "calls": len(f.calls)})
    for k, s in enumerate(r.cb.log):
        env.check("the callback receives the current sample", env.same(s["_X"], X[k]), lambda: {"k": k, "given": s["_X"]})  # noqa: B023


def configs(tier):
    c = []
    big = tier != "quick"
    for nd, perc in ((1, 1.0), (2, 1.0), (2, 0.5), (3, 0.34), (3, 0.67), (3, 1.0), (3, 0.0), (4, 0.5), (4, 0.75), (4, 0.99), (5, 0.4)):
        c.append(dict(method="mcmc", x0="in", maxiter=5 if big else 4, ndim=nd, perc=perc) if nd <= 3 else
                 dict(method="mcmc", x0="in", maxiter=4, ndim=nd, perc=perc))
    for step in ("sym", "array"):
        c.append(dict(method="mcmc", x0="in", maxiter=3, ndim=2, perc=0.5, step=step))
        c.append(dict(method="mcmc", x0="in", maxiter=3, ndim=2, perc=1.0, step=step, bounds="sym"))
    c.append(dict(method="mcmc", x0="out", maxiter=3, ndim=1, perc=1.0))
    c.append(dict(method="mcmc", x0="in", maxiter=6 if big else 5, ndim=1, perc=1.0))
    for nd, perc in ((1, 1.0), (2, 0.5), (2, 1.0)):
        c.append(dict(method="mcmc", x0="in", maxiter=3, ndim=nd, perc=perc, step=0.125, opt=dict(constraints="Reject")))
        if nd > 1:
            c.append(dict(method="mcmc", x0="edge", maxiter=4, ndim=nd, perc=perc, step=0.125, opt=dict(constraints="Reject")))
    c.append(dict(method="mcmc", x0="edge", maxiter=4, ndim=3, perc=0.34, step=0.125, opt=dict(constraints="Reject")))
    c.append(dict(method="mcmc", x0="in", maxiter=1, ndim=2, perc=1.0))
    for at in (1024.0, -1024.0, 2.0**20, -2.0**20, 2.0**-20):
        c.append(dict(method="mcmc", x0="in", maxiter=4, ndim=2, perc=0.5, at=at))
        c.append(dict(method="mcmc", x0="in", maxiter=6, ndim=1, perc=1.0, at=at, over=4.0))
    for nd, perc, con in ((1, 1.0, None), (2, 0.5, None), (2, 1.0, None), (3, 0.34, None), (1, 1.0, "Reject"), (12, 0.25, None)):
        c.append(dict(method="mcmc", x0="grid", maxiter=26, ndim=nd, perc=perc, step=0.03125 if con else 0.125, long=18, opt=dict(constraints=con)))
        c.append(dict(method="mcmc", x0="grid", maxiter=26, ndim=nd, perc=perc, step=0.03125 if con else 0.125, long=-1, opt=dict(constraints=con)))
    for nd, perc, con in ((1, 1.0, None), (2, 0.5, None), (3, 0.34, None), (3, 1.0, None), (2, 0.5, "Reject")):
        for late in (120, -1) if not con else (120,):
            c.append(dict(method="mcmc", x0="grid", maxiter=130, ndim=nd, perc=perc, step=0.03125 if con else 0.125, long=late, opt=dict(constraints=con)))
    return named(c)
