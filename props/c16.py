"""An affine change of variables, applied to the box, the starting points and the objective, changes nothing else."""
from symex.harness import Callback, Objective

from .common import GRID, LONG, OPTIMIZERS, any_rank, drive, extended, make_bounds, make_x0, named, quiet

BOUNDS = ("populations of 2-4, 1-3 variables, 1-3 iterations or 2-4 samples; symbolic draws with scales 4, 1/4, 1e-9, 1e9, or "
          "symbolic shifts, or symbolic scales (1/4 to 8) with one sequence of draws; every rank of one individual's values") + LONG
NUM = {"num": ((4.0, -3.0), (0.25, 10.0), (8.0, -100.0)), "tiny": ((1e-9, 0.0), (1e9, 0.0), (1e-6, 0.0)), "mirror": ((1e9, 0.0), (1e-9, 0.0), (2.0, 0.0))}


def scenario(env, cfg):
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    nd, m = len(lower), cfg["method"]
    n = cfg.get("popsize", 3) if m in OPTIMIZERS else 1
    how = cfg["by"]
    if how in NUM:
        ab = (NUM[how] * 4)[:nd]
    elif how == "shift":
        ab = [(1.0, env.real(f"c{j}", -50, 50)) for j in range(nd)]
    else:
        ab = [(env.real(f"a{j}", 0.25, 8), 0.0) for j in range(nd)]
    to = lambda x: [x[j] * ab[j][0] + ab[j][1] for j in range(nd)]  # noqa: E731

    if cfg.get("fixed"):
        env.policy = lambda kind, k: float(GRID[(3 * k + k // 8) % 8]) if kind == "u" else (0.5, -1.0, 0.75, -0.25, 1.25)[k % 5]
        env.choice = lambda kind, k, n: (5 * k + 1) % n if kind == "i" else [(q * (n - 1) + k) % n for q in range(n)]

    def pick(k):
        if m not in OPTIMIZERS:
            return float((3 * k) % 4) if cfg.get("fixed") else None
        if k % n == cfg.get("focus"):
            return any_rank(env, f"rank{k}", [c.f for c in fa.calls])
        return float((2 * k + k // n) % (n + 2)) - 0.0171 * k

    fa = Objective(env, pick=quiet(env, cfg) if cfg.get("long") else pick)
    fb = Objective(env, name="g", pick=lambda k: fa.calls[k].f if k < len(fa.calls) else 0.0)
    st = env.load()
    ca, cb = Callback(env, fa), Callback(env, fb)
    A = drive(env, cfg, st=st, f=fa, cb=ca, bounds=b, x0=x0)
    env.ndraw = {k: 0 for k in env.ndraw}
    bb = [list(r) for r in zip(to(lower), to(upper))]
    y0 = None if x0 is None else env.array([to(r) for r in x0] if len(env.shape(x0)) == 2 else to(x0))
    B = drive(env, cfg, st=st, f=fb, cb=cb, bounds=bb, x0=y0)
    info = lambda: {"scales and shifts": ab, "points": [c.x for c in fa.calls], "points in the other units": [c.x for c in fb.calls],  # noqa: E731
                    "values": [c.f for c in fa.calls], "exceptions": [repr(r.out.exc) for r in (A, B)]}
    env.check("both runs end without an exception", env.true(A.out.ok and B.out.ok), info)
    if not (A.out.ok and B.out.ok):
        return

    def moved(x, y):
        x, y = env.flat(x)[0], env.flat(y)[0]
        if how in NUM:
            return env.and_([env.eq(x[j], (y[j] - ab[j][1]) / ab[j][0]) for j in range(nd)])
        return env.same(y, to(x))

    for k, (p, q) in enumerate(zip(fa.calls, fb.calls)):
        env.check("the points move with the units", moved(p.x, q.x), lambda: dict(info(), call=k))  # noqa: B023
    env.check("the same number of points is evaluated", env.true(len(fa.calls) == len(fb.calls) and A.res.nit == B.res.nit), info)
    env.check("the result moves with the units", env.and_(moved(A.res.x, B.res.x), env.eq(A.res.fun, B.res.fun)), info)
    if A.res.get("xall") is not None and len(A.res.xall) == len(B.res.xall):
        nrow = len(env.flat(A.res.xall)[0]) // nd
        xa, xb = A.res.xall.reshape(nrow, nd), B.res.xall.reshape(nrow, nd)
        for i in range(nrow):
            env.check("the history moves with the units", moved(xa[i], xb[i]), info)


def configs(tier):
    c = []
    big = tier != "quick"
    for m in OPTIMIZERS:
        ups = ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,)
        for up in ups:
            o = dict(updating=up) if up else {}
            cma = m in ("cmaes", "vdcma")
            for by in ("num", "tiny", "mirror", "shift", "scale"):
                if by in ("num", "tiny") and (up != "deferred" or big):  # all draws symbolic
                    c.append(dict(method=m, by=by, popsize=3, ndim=1 if m != "pso" else 2, maxiter=2, opt=o, **(dict(fixed=True) if m in ("de",) else {})))
                c.append(dict(method=m, by=by, popsize=3, ndim=2, maxiter=3 if not cma or by != "scale" else 2, opt=o, fixed=True, focus=1, x0="grid", return_all=True))
                c.append(dict(method=m, by=by, popsize=4, ndim=3, maxiter=2, opt=o, fixed=True, focus=2))
        if m == "de":
            for s in ("best1bin", "rand2bin", "best2bin"):
                c.append(dict(method=m, by="num", popsize=6 if s == "rand2bin" else 5, ndim=2, maxiter=2, focus=0, fixed=True, opt=dict(strategy=s)))
            for by in ("num", "shift", "scale", "mirror"):
                c.append(dict(method=m, by=by, popsize=4, ndim=2, maxiter=2, focus=0, fixed=True, x0="grid", opt=dict(constraints="Random", mutation=1.75)))
        if m in ("pso", "cpso"):
            for by in ("num", "shift", "scale", "mirror"):
                c.append(dict(method=m, by=by, popsize=3, ndim=2, maxiter=2, focus=0, fixed=True, x0="grid", opt=dict(constraints="Shrink", sociability=4.0)))
        if m in ("cmaes", "vdcma"):
            for by in ("num", "shift", "tiny"):
                c.append(dict(method=m, by=by, popsize=4, ndim=2, maxiter=2, fixed=True, opt=dict(constraints="Penalize", sigma=1.0)))
    for by in ("num", "tiny", "mirror", "shift", "scale"):
        for nd in (1, 2):
            for mi in (2, 3) + ((4,) if big or by == "num" else ()):
                c.append(dict(method="mcmc", by=by, ndim=nd, maxiter=mi, x0="grid" if mi == 2 else "none", return_all=True, opt=dict(perc=0.5) if mi > 2 else {},
                              **(dict(fixed=True) if by == "scale" else {})))
        c.append(dict(method="mcmc", by=by, ndim=3, maxiter=3, return_all=True, opt=dict(perc=0.67, stepsize=1.0, constraints="Reject"), fixed=True))
    for m in OPTIMIZERS:
        for by in ("num", "tiny", "mirror"):
            if m in ("na", "vdcma", "cmaes") and by != "num":
                continue
            c += extended(m, 24 if by != "num" else 0, 30 if m not in ("na", "vdcma") else 8, ("fall", "settle"), x0="grid", by=by, opt=dict(updating="deferred" if by == "num" else "immediate") if m in ("de", "pso", "cpso") else {})
    for by in ("num", "tiny", "mirror"):
        for law in ("fall", "noise"):
            c.append(dict(method="mcmc", by=by, maxiter=40, ndim=2, x0="grid", long=law, free=(30,), return_all=True))
    for k in c:
        k["fork"] = True
    return named(c)
