"""Mirrored or renumbered problems give the mirrored or renumbered runs."""
from symex.harness import Callback, Objective

from .common import OPTIMIZERS, any_rank, drive, make_bounds, make_x0, named

BOUNDS = ("populations of 2-6, 1-4 variables (10 in one configuration per method; VD-CMA: 5-6), 2-4 iterations or samples (40 in some, VD-CMA 12); mirrored variables and permutations of the variables fixed per configuration; "
          "symbolic draws of one generation, or fixed draws and every rank of one individual's values; CMA-ES is left out (its "
          "eigenvectors have no preferred sign), NA and MCMC blocks are mirrored only")
U = (0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)
N = (-1.5, 0.75, 0.4, -0.3, 1.1)


class Slope:
    """An arbitrary gradient."""

    def __init__(self, env, nd, back=None):
        self.env, self.nd, self.calls, self.back = env, nd, [], back

    def __call__(self, x, *args):
        k = len(self.calls)
        g = self.back(k) if self.back else [self.env.real(f"g{k}_{j}", -3, 3) for j in range(self.nd)]
        self.calls.append(g)
        return self.env.array(g)


def scenario(env, cfg):
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    nd, m = len(lower), cfg["method"]
    n = cfg.get("popsize", 3) if m in OPTIMIZERS else 1
    flip, to = cfg.get("flip", ()), cfg.get("to", tuple(range(nd)))  # variable j becomes variable to[j]
    back = [to.index(j) for j in range(nd)]
    sym = cfg.get("sym")  # the first symbolic draw of a kind and how many
    second = [False]

    def base(kind, k):
        if sym and sym[0] <= k < sym[0] + sym[1]:
            return env.real(f"{kind}{k}", 0.03125, 0.96875) if kind == "u" else env.real(f"{kind}{k}", -3, 3)
        return U[(k + k // 7) % 7] if kind == "u" else N[(k + k // 5) % 5]

    def draws(kind, k):
        box = kind == "u" and (getattr(env, "in_box", False) or m == "na")
        if not second[0]:
            return base(kind, k)
        if kind == "u" and m in ("mcmc", "hmc", "na"):
            j = k % nd
            q = base(kind, k)
        else:
            j = back[k % nd]
            q = base(kind, k - k % nd + j)
        if box and (j in flip or m == "na"):
            return 1 - q
        return -q if kind == "n" and j in flip else q

    def choice(kind, k, mm):
        if kind == "p":
            return [(q * (mm - 1) + k) % mm for q in range(mm)]
        v = (5 * k + 1) % mm
        return to[v] if second[0] and mm == nd else v

    env.policy, env.choice = draws, choice

    def T(x):
        y = [None] * nd
        for j in range(nd):
            y[to[j]] = -x[j] if j in flip else x[j]
        return y

    def law(x):
        return sum((j + 1) * (x[j] - 0.5) * (x[j] - 0.5) for j in range(nd)) + (x[0] * x[-1] if nd > 1 else 0)

    def pick(k):
        if m not in OPTIMIZERS:
            return float((3 * k) % 4) if sym else None
        if k == cfg.get("late"):
            return any_rank(env, f"rank{k}", [c.f for c in fa.calls[-2 * n:]] + [min(c.f for c in fa.calls)])
        if k % n == cfg.get("focus") and (m != "vdcma" or k // n == cfg["maxiter"] - 3):
            return any_rank(env, f"rank{k}", [c.f for c in fa.calls])
        return float((2 * k + k // n) % (n + 2)) - 0.0171 * k

    if cfg.get("f") == "law":
        fa = Objective(env, pick=lambda k: None)
        fa.value = lambda x: law(list(env.flat(x)[0]))
        fb = Objective(env, name="g", pick=lambda k: None)
        inv = lambda y: [-y[to[j]] if j in flip else y[to[j]] for j in range(nd)]  # noqa: E731
        fb.value = lambda y: law(inv(list(env.flat(y)[0])))
    else:
        fa = Objective(env, pick=pick)
        fb = Objective(env, name="g", pick=lambda k: fa.calls[k].f if k < len(fa.calls) else 0.0)
    st = env.load()
    oa, ob = dict(cfg.get("opt", {}), return_all=True), dict(cfg.get("opt", {}), return_all=True)
    if m == "hmc" and cfg.get("f") != "law":
        ga = oa["jac"] = Slope(env, nd)
        ob["jac"] = Slope(env, nd, lambda k: T(ga.calls[k]) if k < len(ga.calls) else [0.0] * nd)
    A = drive(env, dict(cfg, opt=oa), st=st, f=fa, cb=Callback(env, fa), bounds=b, x0=x0)
    env.ndraw = {k: 0 for k in env.ndraw}
    second[0] = True
    lo, up = T(lower), T(upper)
    bb = [[up[to[j]], lo[to[j]]] if j in flip else [lo[to[j]], up[to[j]]] for j in range(nd)]
    bb = [bb[back[j]] for j in range(nd)]
    y0 = None if x0 is None else env.array([T(r) for r in x0] if len(env.shape(x0)) == 2 else T(x0))
    B = drive(env, dict(cfg, opt=ob), st=st, f=fb, cb=Callback(env, fb), bounds=bb, x0=y0)
    info = lambda: {"mirrored": flip, "renumbered": to, "points": [c.x for c in fa.calls], "points of the image": [c.x for c in fb.calls],  # noqa: E731
                    "values": [c.f for c in fa.calls], "exceptions": [repr(r.out.exc) for r in (A, B)]}
    env.check("both runs end without an exception", env.true(A.out.ok and B.out.ok), info)
    if not (A.out.ok and B.out.ok):
        return
    if cfg.get("f") != "law":
        for k, (p, q) in enumerate(zip(fa.calls, fb.calls)):
            env.check("the image's points are the images of the points", env.same(q.x, T(p.x)), lambda: dict(info(), call=k))  # noqa: B023
    env.check("the same number of points is evaluated", env.true(len(fa.calls) == len(fb.calls) and A.res.nit == B.res.nit), info)
    env.check("the image's result is the image of the result", env.and_(env.same(B.res.x, T(A.res.x)), env.eq(A.res.fun, B.res.fun)), info)
    nrow = len(env.flat(A.res.xall)[0]) // nd
    env.check("histories of the same length", env.true(len(env.flat(B.res.xall)[0]) == nrow * nd), info)
    if len(env.flat(B.res.xall)[0]) == nrow * nd:
        xa, xb = A.res.xall.reshape(nrow, nd), B.res.xall.reshape(nrow, nd)
        for i in range(nrow):
            env.check("the image's history is the image of the history", env.same(xb[i], T(xa[i])), info)


def configs(tier):
    c = []
    big = tier != "quick"
    hows = {1: [dict(flip=(0,))], 2: [dict(flip=(1,)), dict(to=(1, 0))], 3: [dict(flip=(0, 2)), dict(to=(1, 2, 0)), dict(flip=(1,), to=(2, 1, 0))],
            4: [dict(flip=(3,), to=(1, 3, 2, 0))]}
    for m in ("de", "pso", "cpso"):
        for up in ("immediate", "deferred"):
            cons = ("Random" if m == "de" else "Shrink", None)
            for nd in (1, 2, 3, 4):
                for h in hows[nd]:
                    for con in cons:
                        if con == "Random" and "to" in h:
                            continue  # the number of draws per individual depends on it
                        o = dict(updating=up, constraints=con)
                        if m == "de":
                            o.update(mutation=1.75, recombination=0.6)
                        else:
                            o.update(sociability=3.5)
                        c.append(dict(method=m, popsize=4, ndim=nd, maxiter=3, x0="grid", focus=nd % 3, opt=o, **h))
                        if nd < 4 and (m != "de" or con is None) and (nd < 3 or big):
                            c.append(dict(method=m, popsize=4, ndim=nd, maxiter=2, x0="grid", sym=(nd, nd) if m == "de" else (0, 2 * nd), opt=o, **h))
            if m == "cpso":
                for g in (1.0, 2.0):
                    for h in hows[2] + hows[3]:
                        c.append(dict(method=m, popsize=4, ndim=2 if h in hows[2] else 3, maxiter=3, x0="thin", focus=0, opt=dict(updating=up, competitivity=g), **h))
                        if g == 2.0:  # a swarm that hardly moves
                            for j in range(2 if h in hows[2] else 3):
                                c.append(dict(method=m, popsize=4, ndim=2 if h in hows[2] else 3, maxiter=4, x0="thin", thick=j, focus=0, opt=dict(updating=up, inertia=0.1, cognitivity=0.2, sociability=0.1, competitivity=g), **h))
                        c.append(dict(method=m, popsize=4, ndim=2 if h in hows[2] else 3, maxiter=4, x0="cluster", focus=0, opt=dict(updating=up, competitivity=g), **h))
    for h in (dict(flip=(0, 4, 9)), dict(to=tuple(range(9, -1, -1)))):  # many variables, many individuals
        for m in ("de", "pso", "cpso", "vdcma"):
            for up in ("immediate", "deferred") if m != "vdcma" else (None,):
                o = dict(updating=up) if up else {}
                if m == "de":
                    c.append(dict(method=m, popsize=4, ndim=10, maxiter=4, x0="grid", opt=dict(o, recombination=0.1, strategy="rand1bin"), **h))
                c.append(dict(method=m, popsize=4, ndim=10, maxiter=4, x0="grid", focus=1, opt=o, **h))
                c.append(dict(method=m, popsize=18, ndim=10, maxiter=4 if m == "vdcma" else 3, x0="grid", opt=o, **h))
        c.append(dict(method="mcmc", ndim=10, maxiter=4, x0="grid", opt=dict(perc=1.0, stepsize=0.5), **h))
    for h in hows[2] + hows[3][2:]:  # long runs
        nd = 2 if h in hows[2] else 3
        for m in ("de", "pso", "cpso"):
            for up in ("immediate", "deferred"):
                o = dict(updating=up)
                if m == "de":
                    o["recombination"] = 0.6 if up == "immediate" else 0.1
                c.append(dict(method=m, popsize=4, ndim=nd, maxiter=40, x0="grid", late=150, opt=o, **h))
        c.append(dict(method="mcmc", ndim=nd, maxiter=40, x0="grid", sym=(9 * nd, nd), opt=dict(perc=1.0, stepsize=0.5), **h))
    for h in (dict(flip=(0, 3)), dict(to=(2, 0, 4, 1, 3))):
        c.append(dict(method="vdcma", popsize=4, ndim=5, maxiter=12, x0="grid", late=30, opt=dict(sigma=0.7), **h))
    for s in ("best1bin", "rand2bin", "best2bin"):
        for h in hows[3]:
            c.append(dict(method="de", popsize=6, ndim=3, maxiter=2, x0="grid", focus=1, opt=dict(strategy=s), **h))
    for nd, h in ((1, dict(flip=(0,))), (2, dict(flip=(0, 1))), (3, dict(flip=(0, 1, 2)))):
        for n, it in ((3, 2), (4, 3 if nd < 3 or big else 2)):
            c.append(dict(method="na", popsize=n, ndim=nd, maxiter=it, x0="grid", focus=1, opt=dict(nrperc=0.5), **h))
        if nd < 3 or big:
            c.append(dict(method="na", popsize=3, ndim=nd, maxiter=2, x0="grid", sym=(0, 1), opt=dict(nrperc=0.5), **h))
    for nd, h in ((5, dict(flip=(0, 3))), (5, dict(to=(2, 0, 4, 1, 3))), (6, dict(flip=(5,), to=(5, 4, 3, 2, 1, 0)))):
        for con in (None, "Penalize"):
            for n, it in ((4, 3), (5, 4)):
                c.append(dict(method="vdcma", popsize=n, ndim=nd, maxiter=it, x0="grid" if n == 4 else "far", focus=2, opt=dict(constraints=con, sigma=0.7), **h))
    for m in ("mcmc", "hmc"):
        for con in (None, "Reject"):
            for nd in (1, 2, 3):
                for h in hows[nd]:
                    if m == "mcmc":
                        c.append(dict(method=m, ndim=nd, maxiter=4, x0="grid", opt=dict(constraints=con, perc=1.0, stepsize=0.5), **h))
                        if "to" not in h:
                            c.append(dict(method=m, ndim=nd, maxiter=4, x0="grid", opt=dict(constraints=con, perc=0.5, stepsize=0.5), **h))
                    else:
                        if nd < 3 or big:
                            c.append(dict(method=m, ndim=nd, maxiter=2, x0="grid", opt=dict(constraints=con, nleap=2 if nd < 3 else 1, stepsize=0.3), **h))
                        c.append(dict(method=m, ndim=nd, maxiter=3, x0="grid", f="law", opt=dict(constraints=con, nleap=2, stepsize=0.3, finite_diff_abs_step=0.125), **h))
    for k in c:
        k["fork"] = True
    return named(c)
