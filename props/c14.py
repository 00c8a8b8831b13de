"""CMA-ES and VD-CMA: the mean follows the weighted best individuals, and starts at x0."""
import math

from symex.harness import Callback, Objective

from .common import LONG, drive, make_bounds, make_x0, named

BOUNDS = ("populations of 2-5, 1-4 variables, 2-4 iterations; every order of the values of one generation; symbolic x0, box, sigma, "
          "parent fraction or draws of one individual") + LONG


def normal(env, cfg, n, nd, obs):
    """One individual per generation sits at the mean; the others are spread by fixed or symbolic draws."""
    vd = cfg["method"] == "vdcma"

    def policy(kind, k):
        if kind == "u":
            return None
        if vd:
            if k < nd:
                return 1.5 if k == 0 else 0.0
            k -= nd
        g, r = (0, k) if k < n * nd else divmod(k - n * nd, n * nd + (nd if vd else 0))
        g += 0 if k < n * nd else 1
        i, j = divmod(r, nd)
        if i == obs:
            return 0.0
        if i < n and i == cfg.get("focus") and g == cfg.get("fgen", 0):
            return None
        return 0.0 if i >= n and j else ((0.5, -1.25, 1.0, -0.375, 0.75, -0.875)[(2 * i + 3 * j + g) % 6])
    return policy


def scenario(env, cfg):
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    n, nd, m = cfg["popsize"], len(lower), cfg["method"]
    obs = n - 1
    sigma = env.real("sigma", 0.0625, 2) if cfg.get("sigma") == "sym" else cfg.get("sigma", 0.25)
    frac = env.real("muperc", 0.0078125, 1) if cfg.get("muperc") == "sym" else cfg.get("muperc", 0.5)
    env.policy = normal(env, cfg, n, nd, obs)
    order = {}

    def pick(k):
        g, i = divmod(k, n)
        if g not in order:
            order[g] = env.some_perm(f"order{g}", n) if g == cfg.get("ogen", 0) else [(3 * q + g) % n for q in range(n)] if n % 3 else list(range(n))
        return float(order[g][i]) - (1 + i * 0.125) * (g + 1) / 64

    f = Objective(env, pick=pick, memo=Forget())
    cb = Callback(env, f)
    r = drive(env, dict(cfg, opt=dict(cfg.get("opt", {}), sigma=sigma, muperc=frac)), f=f, cb=cb, bounds=b, x0=x0)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    gens = len(f.calls) // n
    env.check("every individual is evaluated once per iteration", env.true(len(f.calls) == gens * n),
              lambda: {"calls": len(f.calls)})
    mean = env.flat(f.calls[obs].x)[0]
    if x0 is not None:
        env.check("the first mean is x0", env.same(mean, list(env.flat(x0)[0])), lambda: {"mean": mean, "x0": x0})
    else:
        env.check("the first mean is in the box", env.and_([env.between(lower[j], mean[j], upper[j]) for j in range(nd)]), lambda: {"mean": mean})
    for i in range(n - 1):  # the first generation
        x = env.flat(f.calls[i].x)[0]
        z = [zof(env, cfg, n, nd, i, j) for j in range(nd)]
        for j in range(nd):
            if z[j] is not None and (m == "cmaes" or j):
                env.check("the first generation is spread by sigma half-widths of the box",
                          env.eq(x[j] - mean[j], sigma * (upper[j] - lower[j]) * 0.5 * z[j]), lambda: {"x": x, "mean": mean, "normal": z})  # noqa: B023
    mu = None
    for k in range(1, n + 1):
        if env.decide(env.lt(frac * n, k + 1.0)):
            mu = k
            break
    mu = mu or n
    w = [math.log(mu + 0.5) - math.log(i + 1) for i in range(mu)]
    w = [q / sum(w) for q in w]
    for g in range(gens - 1):
        calls = f.calls[g * n:(g + 1) * n]
        best = sorted(range(n), key=lambda i: calls[i].f)[:mu]  # noqa: B023
        new = env.flat(f.calls[(g + 1) * n + obs].x)[0]
        for j in range(nd):
            s = 0.0
            for q, i in zip(w, best):
                s = s + q * env.flat(calls[i].x)[0][j]
            env.check("the mean is the weighted mean of the best individuals", env.eq(new[j], s),
                      lambda: {"iteration": g + 2, "variable": j, "mean": new[j], "expected": s, "order": best, "weights": w},  # noqa: B023
                      at=f.calls[(g + 1) * n + obs])


def zof(env, cfg, n, nd, i, j):
    k = i * nd + j + (nd if cfg["method"] == "vdcma" else 0)
    return normal(env, cfg, n, nd, n - 1)("n", k)


class Forget(dict):
    """Individuals at one point keep their own values."""

    def get(self, k, d=None):
        return None


def configs(tier):
    c = []
    big = tier != "quick"
    for m in ("cmaes", "vdcma"):
        small = 3 if m == "vdcma" else 2
        c.append(dict(method=m, popsize=3, ndim=1, maxiter=2, x0="in", muperc=0.75))
        for n, nd in ((small, 1), (small, 2), (4, 2), (4, 3)) + (((5, 2), (5, 3), (4, 4)) if big else ()):
            base = dict(method=m, popsize=n, ndim=nd, maxiter=2)
            for mp in (0.5, 1.0, 0.75) if m == "vdcma" or n * nd < 8 or big else (0.5,) if nd == 2 else (0.75,):
                c.append(dict(base, x0="in", muperc=mp))
                c.append(dict(base, muperc=mp))
                c.append(dict(base, x0="grid", muperc=mp, maxiter=3, focus=1, fgen=1, ogen=1))
            c.append(dict(base, x0="in", bounds="sym", **(dict(ogen=9) if m == "cmaes" and n > 3 else {})))
            c.append(dict(base, x0="grid", sigma="sym"))
            c.append(dict(base, x0="grid", muperc="sym", opt=dict(constraints="Penalize")))
            c.append(dict(base, x0="grid", muperc="sym"))
            c.append(dict(base, x0="grid", focus=1, fgen=0))
            c.append(dict(base, maxiter=3, x0="grid", muperc="sym", ogen=1))
            if big:
                c.append(dict(base, maxiter=4, x0="grid", ogen=2))
                c.append(dict(base, maxiter=3, x0="grid", focus=0, fgen=0))
    for m in ("cmaes", "vdcma"):  # long runs, large populations, many variables
        c.append(dict(method=m, popsize=4, ndim=2, maxiter=22, x0="grid", ogen=20, long="order"))
        c.append(dict(method=m, popsize=28, ndim=2, maxiter=3, x0="grid", muperc="sym", ogen=9, long="order"))
        c.append(dict(method=m, popsize=25, ndim=1 if m == "cmaes" else 3, maxiter=2, x0="in", muperc=0.75, ogen=9, long="order"))
        c.append(dict(method=m, popsize=4, ndim=9, maxiter=3, x0="grid", ogen=1, long="order"))
    return named(c)
