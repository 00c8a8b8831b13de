"""Penalize (CMA-ES, VD-CMA): individuals are evaluated at their projection on the box and pay for the distance."""
import math

import numpy as np

from symex.harness import Callback, Objective

from .c28 import Apart, draws, sort
from .common import any_rank, drive, make_bounds, make_x0, named
from .refcma import Cma, Vd

BOUNDS = ("populations of 3-6, 1-3 variables (VD-CMA: up to 6), 1-4 iterations, fixed draws; arbitrary objective values, or arbitrary "
          "ranks of one individual for the laws of the weights; initial means inside and outside the box on either side; "
          "runs of 26-36 iterations with up to 9 variables whose last generations leave the box")


class Given(Objective):
    """Returns a list of values, one after the other."""

    def value(self, x):
        k = len(self.calls)
        return self.pick(k)


def scenario(env, cfg):
    env.eps = env.econ = 1e-6
    b, lower, upper = make_bounds(env, cfg)
    n, nd, m, gens = cfg["popsize"], len(lower), cfg["method"], cfg["maxiter"]
    half = [0.5 * (u - v) for v, u in zip(lower, upper)]
    mid = [0.5 * (u + v) for v, u in zip(lower, upper)]
    mean = [float(q) for q in cfg["mean"]][:nd]
    x0 = env.array([c + h * q for c, h, q in zip(mid, half, mean)])
    sigma, frac = cfg.get("sigma", 0.5), cfg.get("muperc", 0.5)
    sign = 1.0
    late = cfg.get("late", gens)  # from this generation on the steps are long and the values far apart
    env.policy = lambda kind, k: sign * draws(kind, k) * (cfg.get("amp", 1) if k >= late * n * nd else 1)

    # arbitrary values, or arbitrary ranks of one individual
    def pick(k):
        if k >= n * (gens - 1) and not cfg.get("last"):
            return float((3 * k) % n) + (k % n) / 64
        if cfg["law"] == "project":
            return None
        if k // n in cfg.get("flat", ()):
            return 1.0
        if late < gens:
            if k // n in (late, late + 1) and k % n == 1:
                return any_rank(env, f"rank{k}", [c.f for c in f.calls[k - k % n:]])
            return k // n / 16 + (1 + (k // n) % 7 + 100 * (k // n > 7)) * float((3 * k + k // n) % n) + (k % n) / 64
        if k % n == 1:
            return any_rank(env, f"rank{k}", [c.f for c in f.calls])
        return float((3 * k + k // n) % n) + (k % n) / 64 + 8.0 * (k // n % 2) + (10.0 * (k // n) if cfg.get("flat") else 0)

    def run(f, cons, bounds, x0):
        env.ndraw = {k: 0 for k in env.ndraw}
        return drive(env, dict(cfg, tol="off", return_all=True, opt=dict(sigma=sigma, muperc=frac, constraints=cons)), st=st, f=f,
                     cb=Callback(env, f), bounds=bounds, x0=x0)

    st = env.load()
    f = Apart(env, pick=pick) if cfg["law"] == "project" else Objective(env, pick=pick, memo=Forget())
    f.n, f.lo, f.hi = n, -10, 10
    A = run(f, "Penalize", b, x0)
    info = lambda: {"x0": x0, "points": [c.x for c in f.calls], "values": [c.f for c in f.calls],  # noqa: E731
                    "penalised": A.res.funall if A.res else None}
    env.check("the run ends without an exception", env.true(A.out.ok), lambda: {"exception": repr(A.out.exc)})
    if not A.out.ok or len(f.calls) != gens * n or A.res.nit != gens:
        return  # C04, C05
    F = [A.res.funall[g][i] for g in range(gens) for i in range(n)]
    if cfg["law"] == "mirror":
        sign = -1.0
        h = Given(env, pick=lambda k: f.calls[k].f if k < len(f.calls) else 0.0)
        B = run(h, "Penalize", [[-u, -v] for v, u in zip(lower, upper)], env.array([-float(q) for q in env.flat(x0)[0]]))
        ok = B.out.ok and len(h.calls) == len(f.calls)
        env.check("the reflected run is as long", env.true(ok), info)
        if not ok:
            return
        for k, (p, q) in enumerate(zip(f.calls, h.calls)):
            env.check("the reflected run evaluates the reflected points", env.and_([env.eq(s, -t) for s, t in zip(env.flat(p.x)[0], env.flat(q.x)[0])]),
                      lambda: dict(info(), call=k, reflected=q.x))  # noqa: B023
        G = [B.res.funall[g][i] for g in range(gens) for i in range(n)]
        env.check("the penalties on either side of the box are alike", env.and_([env.eq(s, t) for s, t in zip(F, G)]),
                  lambda: dict(info(), reflected=G))
        return
    # The run without constraint whose objective is the penalised one
    h = Given(env, pick=lambda k: F[k] if k < len(F) else 0.0)
    B = run(h, None, b, env.copy(x0))
    ok = B.out.ok and len(h.calls) == len(f.calls)
    env.check("the free run on the penalised values is as long", env.true(ok), info)
    if not ok:
        return
    free = [env.flat(c.x)[0] for c in h.calls]
    for k, c in enumerate(f.calls):
        p = env.flat(c.x)[0]
        x = free[k]
        env.check("individuals are evaluated at their projection on the box", env.and_([
            env.or_(env.and_(env.le(lower[j], x[j]), env.le(x[j], upper[j]), env.eq(p[j], x[j])),
                    env.and_(env.le(x[j], lower[j]), env.eq(p[j], lower[j])),
                    env.and_(env.le(upper[j], x[j]), env.eq(p[j], upper[j]))) for j in range(nd)]),
            lambda: dict(info(), call=k, individual=x))  # noqa: B023
        inside = env.and_([env.between(lower[j], x[j], upper[j]) for j in range(nd)])
        env.check("a feasible individual pays nothing", env.implies(inside, env.eq(F[k], c.f)),
                  lambda: dict(info(), call=k, individual=x, penalised=F[k]))  # noqa: B023
        env.check("no individual is rewarded", env.le(c.f, F[k]), lambda: dict(info(), call=k, individual=x, penalised=F[k]))  # noqa: B023
    if cfg["law"] == "weights":
        U = (np.array([[float(env.item(e)) for e in x] for x in free]) - mid) / half
        weights(env, cfg, f, F, U, mean, sigma, frac, n, nd, gens, info)


class Forget(dict):
    def get(self, k, d=None):
        return None


def weights(env, cfg, f, F, U, mean, sigma, frac, n, nd, gens, info):
    """Hansen's boundary handling."""
    m = cfg["method"]
    ref = Cma(mean, n, sigma, frac) if m == "cmaes" else Vd(mean, n, sigma, frac, [draws("n", k) for k in range(nd)])
    hist, ini, valid, w, old = [1.0], True, False, np.zeros(nd), np.array(mean)
    for g in range(gens):
        X, vals = U[g * n:(g + 1) * n], [float(env.item(c.f)) for c in f.calls[g * n:(g + 1) * n]]
        c = np.diag(ref.C if m == "cmaes" else ref.S)
        q = np.percentile(vals, [25, 75])
        d = (q[1] - q[0]) / nd / c.mean() / ref.sigma**2
        if d == 0:
            d = min(e for e in hist if e > 0)
        elif not valid:
            hist, valid = [], True
        hist = (hist + [d])[-math.ceil(20 + 3 * nd / n):]
        out = np.abs(ref.m) > 1
        if (np.abs(np.abs(ref.m) - 1) < 1e-6).any():
            return
        if ini and out.any():
            w = np.full(nd, 2.0002 * np.median(hist))
            if valid and g + 1 > 2:
                ini = False
        if out.any():
            t = ref.m - np.clip(ref.m, -1, 1)
            lim = 3 * max(1.0, math.sqrt(nd / ref.mueff)) * ref.sigma * np.sqrt(c)
            if (np.abs(np.abs(t) - lim) < 1e-6).any():
                return
            far = out & (np.abs(t) > lim) & (np.sign(t) == np.sign(ref.m - old))
            w = np.where(far, w * 1.2 ** min(1.0, ref.mueff / 10 / nd), w)
        s = np.exp(0.9 * (np.log(c) - np.log(c).mean()))
        pay = ((np.clip(X, -1, 1) - X) ** 2) @ (w / s)
        for i in range(n):
            env.check("the penalty is the weighted squared distance to the box", env.eq(float(env.item(F[g * n + i])), vals[i] + float(pay[i])),
                      lambda: dict(info(), iteration=g + 1, individual=X[i], weights=w, expected=vals[i] + pay[i]))  # noqa: B023
        old = ref.m
        order = np.array(sort(env, [float(env.item(e)) for e in F[g * n:(g + 1) * n]]))
        if m == "cmaes":
            ref.step(X[order])
        else:
            ref.step(X, order)
        if ref.edge < 1e-6:
            return


def configs(tier):
    c = []
    big = tier != "quick"
    for m in ("cmaes", "vdcma"):
        for law, gens in (("project", 3), ("weights", 4), ("mirror", 4)):
            for mean in ((0.25, -0.5, 0.75, 0.1, -0.2, 0.3), (2.5, 0.25, -3.0, 0.5, 1.5, -0.5), (-2.5, -1.25, 0.5, -4.0, 0.1, 2.0), (-6.0, 5.0, 0.0, 3.0, -8.0, 0.5)):
                for n, nd in ((3, 1), (4, 2), (4, 3)) if m == "cmaes" else ((4, 2), (4, 6)):
                    if law == "project" and nd == 6 and not big and mean[0] in (2.5, -2.5):
                        n = 3
                    if law == "project" and not big:
                        g = 2
                    else:
                        g = gens if big or n < 4 else 3
                    c.append(dict(method=m, law=law, popsize=n, ndim=nd, maxiter=g, mean=mean, sigma=0.25 if mean[0] < -5 else 0.75))
        for law in ("weights", "mirror"):  # the mean moves away from the box
            for mean in ((-4.0,), (4.0,)):
                c.append(dict(method="cmaes", law=law, popsize=4, ndim=1, maxiter=5 if big else 4, mean=mean, sigma=0.25, muperc=1.0))
    # generations of equal values (every individual is infeasible and pays)
    for flat in ((2,), (1, 2), (0,)):
        for mean in ((6.0, 0.5), (-6.0, 5.0)):
            c.append(dict(method="cmaes", law="weights", popsize=5, ndim=2, maxiter=4, mean=mean, sigma=0.25, flat=flat))
    c.append(dict(method="vdcma", law="weights", popsize=5, ndim=6, maxiter=4, mean=(6.0, 0.5, -5.0, 0.2, 0.1, 0.3), sigma=0.25, flat=(2,)))
    # runs longer than the memory of the spreads; the mean leaves the box at the end
    c.append(dict(method="cmaes", law="weights", popsize=6, ndim=1, maxiter=26, mean=(0.6,), sigma=0.125, late=22, amp=8))
    c.append(dict(method="cmaes", law="weights", popsize=4, ndim=2, maxiter=28, mean=(0.6, 0.1), sigma=0.125, late=24, amp=12))
    # of many variables, whose memory is longer
    for m in ("cmaes", "vdcma"):
        c.append(dict(method=m, law="weights", popsize=4, ndim=6, maxiter=31, mean=(0.6, 0.1, -0.3, 0.2, 0.5, -0.4), sigma=0.125, late=27, amp=12))
    c.append(dict(method="vdcma", law="weights", popsize=3, ndim=9, maxiter=36, mean=(0.6, 0.1, -0.3, 0.2, 0.5, -0.4, 0.3, -0.1, 0.7), sigma=0.125, late=32, amp=12))
    for k in c:
        k["fork"] = True
    return named(c)
