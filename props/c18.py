"""HMC: the leapfrog trajectory and the acceptance rule, against an arbitrary gradient or central differences."""
from symex.harness import Objective

from .common import LONG, drive, make_bounds, make_x0, named

BOUNDS = ("1-2 variables, 2-3 samples, 1-3 leapfrog steps, scalar and per-variable step sizes; user gradients are arbitrary "
          "functions of the point, objectives arbitrary with values in [-10, 10], or fixed ones up to 1e6; finite-difference steps 1e-4 to 0.25") + LONG


class Grad:
    """An arbitrary gradient: equal points, equal vectors."""

    def __init__(self, env, nd):
        self.env, self.nd, self.memo, self.log, self.args = env, nd, {}, [], []

    def at(self, x):
        xs = self.env.flat(x)[0]
        k = self.env.key(xs)
        if not self.env.sym:  # the oracle's arithmetic may differ from the code's in the last digit
            for j in self.memo:
                if all(abs(a - b) <= 1e-9 * max(1.0, abs(a)) for a, b in zip(j, k)):
                    k = j
        if k not in self.memo:
            n = len(self.memo)
            self.memo[k] = [self.env.real(f"g{n}_{i}", -3, 3) for i in range(self.nd)]
        return self.memo[k]

    def __call__(self, x, *args):
        g = self.at(x)
        self.log.append(self.env.copy(x))
        self.args.append(args)
        return self.env.arr(list(g), (self.nd,), "f")


class Slope(Grad):
    """The gradient of a bowl, for long runs."""

    def at(self, x):
        return [0.5 * e - 0.25 for e in self.env.flat(x)[0]]


class Flat(Grad):
    def at(self, x):
        return [0.25, -0.5, 0.125, 0.5][:self.nd] + [0.25] * (self.nd - 4)


def lookup(env, f, x):
    """The value of the objective at x, None when it was not evaluated there."""
    k = env.key(x)
    if k in f.memo:
        return f.memo[k]
    if not env.sym:
        for j, v in f.memo.items():
            if all(abs(a - b) <= 1e-9 * max(1.0, abs(a)) for a, b in zip(j, k)):
                return v
    return None


def scenario(env, cfg):
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    nd, n, nleap = len(lower), cfg["maxiter"], cfg.get("nleap", 2)
    u = env.real("u", 0.001, 0.999)
    late = cfg.get("long")  # a long run: only the last momentum is arbitrary
    zs = [env.real(f"z{i}", -3, 3) for i in range(nd * (n - 1))] if "at" not in cfg else [(0.5, -1.25, 2.0)[i % 3] for i in range(nd * (n - 1))]
    if late:
        zs[-nd:] = [env.real(f"z{i}", -3, 3) for i in range(nd)]
    env.policy = lambda kind, k: (zs[k] if k < len(zs) else 0.0) if kind == "n" else u
    opt = dict(cfg.get("opt", {}), nleap=nleap)
    if cfg.get("step") == "array":
        steps = [0.25, 0.125, 0.5][:nd]
        opt["stepsize"] = env.array(steps)
    else:
        s = cfg.get("step")
        steps = [env.real("step", 0.01, 0.5) if s == "sym" else s or 0.01] * nd
        if s:
            opt["stepsize"] = steps[0]
    # fixed values of any magnitude: exponentials of them overflow or vanish
    at = cfg.get("at")
    f = Objective(env, pick=None if at is None else lambda k: at + (0.0, 0.5, -0.25, 0.125, 2.0)[k % 5] * cfg.get("over", 1.0))
    if late:
        f.pick = lambda k: float(-k) if k > late else 1000.0 + k if k else 0.0
    extra = tuple(cfg.get("args", ()))
    g = (Grad(env, nd) if "at" not in cfg else Flat(env, nd)) if cfg.get("jac") else None
    h = cfg.get("h", 1e-4)
    if g:
        opt["jac"] = g
    elif "h" in cfg:
        opt["finite_diff_abs_step"] = h
    r = drive(env, dict(cfg, opt=opt), f=f, bounds=b, x0=x0, args=extra)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    if g:
        env.check("the gradient receives the extra arguments", env.true(all(a == extra for a in g.args)), lambda: {"args": g.args[:2]})
    env.check("the objective receives the extra arguments", env.true(all(c.args == extra for c in f.calls)))
    missing = []

    def value(x):
        v = lookup(env, f, x)
        if v is None:
            missing.append(x)
            return 0.0
        return v

    def gradient(q):
        if g:
            return g.at(q)
        out = []
        for j in range(nd):
            a, c = list(q), list(q)
            a[j], c[j] = q[j] - h, q[j] + h
            out.append(0.5 * (value(c) - value(a)) / h)
        return out

    s = [st * 0.5 * (hi - lo) for st, lo, hi in zip(steps, lower, upper)]
    X, F = r.res.xall, r.res.funall
    reject = opt.get("constraints") == "Reject"
    for k in range(1, n):
        q = [X[k - 1][j] for j in range(nd)]
        p = [zs[(k - 1) * nd + j] for j in range(nd)]
        p0 = list(p)
        d = gradient(q)
        p = [p[j] - 0.5 * s[j] * d[j] for j in range(nd)]
        q = [q[j] + s[j] * p[j] for j in range(nd)]
        for _ in range(nleap):
            d = gradient(q)
            p = [p[j] - s[j] * d[j] for j in range(nd)]
            q = [q[j] + s[j] * p[j] for j in range(nd)]
        d = gradient(q)
        p = [p[j] - 0.5 * s[j] * d[j] for j in range(nd)]
        info = lambda: {"sample": k, "previous": X[k - 1], "momentum": p0, "proposal": q, "new": X[k], "values": F, "u": u,  # noqa: B023,E731
                        "evaluated": [c.x for c in f.calls], "not evaluated": missing}
        stays = env.and_(env.same(X[k], X[k - 1]), env.eq(F[k], F[k - 1]))
        if reject and not env.decide(env.and_([env.between(lo, v, hi) for lo, v, hi in zip(lower, q, upper)])):
            env.check("an infeasible proposal is rejected", stays, info)
            continue
        U = value(q)
        env.check("the trajectory's points are the leapfrog points", env.true(not missing), info)
        if missing:
            return
        drop = F[k - 1] - U + sum(0.5 * a * a for a in p0) - sum(0.5 * a * a for a in p)
        lu = env.log(u)
        env.check("accepted when log u is below the energy decrease",
                  env.implies(env.lt(lu, drop), env.and_(env.same(X[k], q), env.eq(F[k], U))), info)
        env.check("rejected when log u is above the energy decrease", env.implies(env.gt(lu, drop), stays), info)
    if g:
        env.check("only the samples and proposals are evaluated",
                  env.true(len(f.memo) <= n), lambda: {"evaluated": [c.x for c in f.calls]})


def configs(tier):
    c = []
    big = tier != "quick"
    for nd in (1, 2):
        for nleap in (1, 2, 3):
            c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=nleap, jac=True, step=0.25))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=1, jac=True, args=[1, "a"], step=0.25))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=1, jac=True))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=1, jac=True, step="array"))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=1, jac=True, step=0.25, opt=dict(constraints="Reject")))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=1, step=0.25))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=1, step=0.25, h=0.25, args=[2]))
        c.append(dict(method="hmc", x0="list", maxiter=2, ndim=nd, nleap=2, step="array", h=0.125))
        c.append(dict(method="hmc", maxiter=2, ndim=nd, nleap=1, jac=True, step=0.5))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=1, jac=True, step="sym"))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=1, jac=True, step="sym", bounds="sym"))
    c.append(dict(method="hmc", x0="in", maxiter=3, ndim=1, nleap=1, jac=True, step=0.25))
    c.append(dict(method="hmc", x0="in", maxiter=3, ndim=2, nleap=1, jac=True, step=0.25))
    c.append(dict(method="hmc", x0="in", maxiter=3, ndim=1, nleap=1, h=0.25, step=0.25))
    c.append(dict(method="hmc", x0="in", maxiter=3, ndim=1, nleap=1, jac=True, step=0.25, opt=dict(constraints="Reject")))
    for at in (1024.0, -1024.0, 2.0**20, -2.0**20):
        c.append(dict(method="hmc", x0="in", maxiter=4, ndim=2, nleap=1, jac=True, step=0.25, at=at))
        c.append(dict(method="hmc", x0="in", maxiter=5, ndim=1, nleap=2, jac=True, step=0.25, at=at, over=600.0))
    for nd, nleap, con in ((1, 1, None), (2, 1, None), (2, 3, None), (1, 2, "Reject"), (10, 1, None)):
        for late in (14, -1):
            c.append(dict(method="hmc", x0="grid", maxiter=20, ndim=nd, nleap=nleap, jac=True, step=0.0625, at=0.0, long=late, opt=dict(constraints=con)))
            if nd < 3:
                c.append(dict(method="hmc", x0="grid", maxiter=130, ndim=nd, nleap=nleap, jac=True, step=0.0625, at=0.0, long=late + 100 if late > 0 else late, opt=dict(constraints=con)))
    for nd in (1, 2):  # differences near and across the bounds
        for h in (0.25, 1e-4):
            c.append(dict(method="hmc", x0="in", maxiter=2, ndim=nd, nleap=1, step=0.25, h=h, opt=dict(constraints="Reject")))
            c.append(dict(method="hmc", x0="edge", maxiter=2, ndim=nd, nleap=1, step=0.25, h=h))
            c.append(dict(method="hmc", x0="edge", maxiter=2, ndim=nd, nleap=1, step=0.25, h=h, opt=dict(constraints="Reject")))
    if big:
        c.append(dict(method="hmc", x0="in", maxiter=4, ndim=1, nleap=1, jac=True, step=0.25))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=1, nleap=6, jac=True, step=0.25))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=3, nleap=2, jac=True, step=0.25))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=2, nleap=3, h=0.25, step=0.25))
        c.append(dict(method="hmc", x0="in", maxiter=2, ndim=1, nleap=1, jac=True, step=0.25, bounds="sym"))
    return named(c)
