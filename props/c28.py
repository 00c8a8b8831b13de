"""CMA-ES and VD-CMA adapt the shape and the scale of the population by their published equations."""
import numpy as np

from symex.harness import Objective

from .common import drive, make_bounds, make_x0, named
from .refcma import Cma, Vd

BOUNDS = ("CMA-ES: populations of 2-6, 1-4 variables, 2-5 iterations; VD-CMA: populations of 4-8, 5-7 variables, 2-4 iterations; "
          "arbitrary objective values at least 1/128 apart (or an arbitrary rank of one or two individuals per generation), "
          "fixed draws and initial mean; compared up to 1e-6")
Z = (0.5, -1.25, 1.0, -0.375, 0.75, -0.875, 1.625, 0.25, -0.5, 1.375, -1.75, 0.125, 0.625)


def draws(kind, k):
    return 0.4 if kind == "u" else Z[(5 * k + k // 13 + 3 * (k // 31)) % 13]


class Apart(Objective):
    """Arbitrary values, no two close to each other; the points themselves do not matter."""

    def value(self, x):
        k, env = len(self.calls), self.env
        v = self.pick(k)
        if v is None:
            v = env.real(f"f{k}", self.lo, self.hi)
        for q in self.peers(k):
            if isinstance(v, float) and isinstance(q, float) and abs(v - q) > 0.01:
                continue
            env.assume(env.or_(env.le(v + 0.0078125, q), env.le(q + 0.0078125, v)))
        return v

    def peers(self, k):
        g = k // self.n
        return [c.f for c in self.calls[g * self.n:]]


def scenario(env, cfg):
    env.eps = env.econ = 1e-6
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    n, nd, m = cfg["popsize"], len(lower), cfg["method"]
    amp = cfg.get("amp", 1.0)

    def norm(k):
        if m == "vdcma" and k < nd:  # the first direction
            return draws("n", k) if not cfg.get("even") else (1.0, -1.0, 1.25)[k % 3]
        return amp * draws("n", k)

    env.policy = lambda kind, k: draws(kind, k) if kind == "u" else norm(k)
    free = cfg.get("free")
    first0 = n * cfg.get("from", 0)
    last = n * (cfg["maxiter"] - 1)  # the order of the last generation does not matter
    f = Apart(env, pick=lambda k: None if k < last and k >= first0 and (free is None or k % n in free) else float((3 * k + k // n) % n) + (k % n) / 64)
    f.n = n
    sigma, frac = cfg.get("sigma", 0.5), cfg.get("muperc", 0.5)
    r = drive(env, dict(cfg, tol="off", opt=dict(sigma=sigma, muperc=frac)), f=f, cb=False, bounds=b, x0=x0)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    gens = len(f.calls) // n
    env.check("every individual is evaluated once per iteration", env.true(len(f.calls) == gens * n and gens == cfg["maxiter"]))
    half = [0.5 * (u - v) for v, u in zip(lower, upper)]
    mid = [0.5 * (u + v) for v, u in zip(lower, upper)]
    P = np.array([[(float(env.item(e)) - c) / h for e, c, h in zip(env.flat(k.x)[0], mid, half)] for k in f.calls])
    mean = [0.4 * 2 - 1] * nd if x0 is None else [(float(e) - c) / h for e, c, h in zip(env.flat(x0)[0], mid, half)]
    if m == "cmaes":
        ref, k = Cma(mean, n, sigma, frac), 0
    else:
        ref, k = Vd(mean, n, sigma, frac, [norm(j) for j in range(nd)]), nd
    for g in range(gens):
        X = P[g * n:(g + 1) * n]
        z = np.array([[norm(k + i * nd + j) for j in range(nd)] for i in range(n)])
        k += n * nd
        Q = np.linalg.inv(ref.S)
        U = (X - ref.m) / ref.sigma
        want, have = z @ z.T, U @ Q @ U.T
        first = 0
        if m == "vdcma" and g:
            first = 2
            e = np.array([norm(k + j) for j in range(nd)])
            k += nd
            d = ref.dx / np.sqrt(ref.dx @ Q @ ref.dx) * np.linalg.norm(e)
            env.check("VD-CMA looks back and forth along the last step of the mean",
                      env.and_([env.eq(float(s * U[i][j]), float(d[j])) for i, s in ((0, 1), (1, -1)) for j in range(nd)]),
                      lambda: {"iteration": g + 1, "individuals": X[:2], "expected": [ref.m + ref.sigma * d, ref.m - ref.sigma * d]})  # noqa: B023
        env.check("the individuals are spread by the adapted covariance and step size",
                  env.and_([env.eq(float(have[i][j]), float(want[i][j])) for i in range(first, n) for j in range(i, n) if j >= first]),
                  lambda: {"iteration": g + 1, "individuals": X, "mean": ref.m, "sigma": ref.sigma, "covariance": ref.S,  # noqa: B023
                           "values": [c.f for c in f.calls]})
        if g + 1 == gens:
            break
        calls = f.calls[g * n:(g + 1) * n]
        order = sort(env, [c.f for c in calls])
        if m == "cmaes":
            ref.step(X[order])
        else:
            ref.step(X, np.array(order))
        if ref.edge < 1e-6:
            return


def sort(env, vals):
    """The order of the values on this path."""
    out = []
    for i, v in enumerate(vals):
        p = 0
        while p < len(out) and env.decide(env.lt(vals[out[p]], v)):
            p += 1
        out.insert(p, i)
    return out


def configs(tier):
    c = []
    big = tier != "quick"
    for n, nd in ((2, 1), (3, 1), (3, 2), (4, 2), (4, 3)):
        for mp in (0.5, 1.0):
            c.append(dict(method="cmaes", popsize=n, ndim=nd, maxiter=2 if n > 3 and not big else 3 if n > 2 else 4, x0="grid", muperc=mp))
    c.append(dict(method="cmaes", popsize=3, ndim=2, maxiter=4 if big else 3, muperc=0.7))
    for n, nd in ((5, 2), (6, 3), (5, 4), (12, 2), (10, 4)):
        for mp in (0.5, 0.8):
            c.append(dict(method="cmaes", popsize=n, ndim=nd, maxiter=4 if n < 6 or big else 3, x0="grid", muperc=mp, free=(1,)))
        c.append(dict(method="cmaes", popsize=n, ndim=nd, maxiter=3, sigma=0.125, free=(0,) if not big else (0, 2)))
    # many variables: the decomposition is delayed
    c.append(dict(method="cmaes", popsize=6, ndim=24, maxiter=5, x0="grid", muperc=1.0, free=(1,), cost=50, **{"from": 3}))
    # long steps of the mean: the rank-one path stalls
    c.append(dict(method="cmaes", popsize=4, ndim=2, maxiter=6 if big else 4, x0="grid", muperc=0.5, free=(1,), amp=2.5))
    for n, nd in ((4, 5), (4, 6), (5, 6), (6, 7)):
        for mp in (0.5, 1.0):
            c.append(dict(method="vdcma", popsize=n, ndim=nd, maxiter=4 if big else 3, x0="grid", muperc=mp, free=(1, 0) if n < 5 or big else (1,)))
    c.append(dict(method="vdcma", popsize=4, ndim=6, maxiter=3 if big else 2))
    c.append(dict(method="vdcma", popsize=3, ndim=7, maxiter=4, free=(0, 1), sigma=0.25, **{"from": 1}))
    c.append(dict(method="vdcma", popsize=4, ndim=7, maxiter=3, free=(2,), amp=8.0, even=True))
    c.append(dict(method="vdcma", popsize=4, ndim=6, maxiter=3, free=(2,), amp=20.0))
    c.append(dict(method="vdcma", popsize=6, ndim=7, maxiter=3, free=(0,), even=True))
    c.append(dict(method="vdcma", popsize=12, ndim=7, maxiter=3, sigma=0.125, muperc=0.5, free=(1,)))
    for k in c:
        k["fork"] = True
    return named(c)
