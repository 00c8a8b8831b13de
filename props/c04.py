"""Termination: at most maxiter iterations, stop at the first iteration that satisfies the tolerances, truthful status."""
import math

import numpy as np

from symex.harness import Objective

from .c28 import Apart, draws, sort
from .common import BOXES, ELITIST, LONG, OPTIMIZERS, drive, extended, named
from .refcma import Cma, Vd

BOUNDS = ("popsize 2-4, 1-2 variables, maxiter 1-4 (25 for the flatness criteria of CMA-ES and VD-CMA, there with fixed "
          "draws and symbolic objective levels), xtol in [0, 3], ftol and objective values in [-10, 10]") + LONG

MESSAGES = {
    -8: "TolX", -7: "TolFun", -6: "TolXUp", -5: "EqualFunValues", -4: "ConditionCov", -3: "NoEffectCoord",
    -2: "NoEffectAxis", -1: "maximum number of iterations is reached",
    0: "best solution changes less than xtol", 1: "best solution value is lower than ftol",
}


def scenario(env, cfg):
    if cfg.get("flat"):
        return flat(env, cfg)
    if cfg.get("moves"):
        return tolerances(env, cfg)
    if cfg.get("numeric"):
        return numeric(env, cfg)
    if cfg.get("fixed"):
        env.policy = lambda kind, k: (0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)[(k + k // 7) % 7]
        env.choice = lambda kind, k, mm: (5 * k + 1) % mm if kind == "i" else [(q * (mm - 1) + k) % mm for q in range(mm)]
    f = None
    if cfg.get("fixed"):
        late = cfg["popsize"] * (cfg["maxiter"] - 1)
        f = Objective(env, pick=lambda k: None if k >= late else float((2 * k) % 5))
    r = drive(env, cfg, f=f)
    if not ended(env, r):
        return
    m, n, st, maxiter = cfg["method"], r.res.nit, r.res.status, cfg["maxiter"]
    log = r.cb.log
    info = lambda: {"nit": n, "status": st, "fun": [s["fun"] for s in log], "ftol": r.opts["ftol"], "xtol": r.opts["xtol"],  # noqa: E731
                    "x": [s["x"] for s in log]}
    static(env, r, n, st, maxiter, info)
    if len(log) != n:
        return  # C05
    ftol, fun = r.opts["ftol"], r.res.fun
    first = 2 if m in ELITIST else 1
    for k in range(first, n):
        env.check("stops as soon as the best value reaches ftol", env.gt(log[k - 1]["fun"], ftol), info)
    if m in ELITIST:
        if n == 1:
            env.check("one iteration: no improvement to compare with", env.or_(env.true(st == -1), env.and_(env.true(st == 1), env.le(fun, ftol))), info)
        if n >= 2:
            env.check("tolerance status when and only when ftol is reached",
                      env.iff(env.le(fun, ftol), env.true(st in (0, 1))), info)
            if cfg.get("ndim", 2) == 1 and (m == "na" or cfg.get("opt", {}).get("updating") == "deferred"):
                a, b = log[n - 2]["x"][0], log[n - 1]["x"][0]
                xtol = r.opts["xtol"]
                if m == "na":  # distances are relative to the box
                    xtol = xtol * (r.upper[0] - r.lower[0])
                small = env.and_(env.le(a - b, xtol), env.le(b - a, xtol))
                if st == 0:
                    env.check("status 0: the best point moved less than xtol", small, info)
                if st == 1:
                    env.check("status 1: the best point moved more than xtol", env.not_(small), info)
            if cfg.get("fixed") and cfg.get("opt", {}).get("updating") != "deferred":
                moved(env, r, cfg["popsize"], n, st, info)
            env.check("status is a tolerance or the number of iterations", env.true(st in (-1, 0, 1)), info)
            env.check("stops early only for a tolerance", env.or_(env.true(n == maxiter), env.true(st in (0, 1))), info)
    else:
        if n < maxiter:
            env.check("stops below maxiter with ftol reached: status 0 or 1",
                      env.implies(env.le(fun, ftol), env.true(st in (0, 1))), info)
            env.check("status 0 or 1: ftol is reached", env.implies(env.true(st in (0, 1)), env.le(fun, ftol)), info)


def moved(env, r, pop, n, st, info):
    """Immediate updating: the improvements of the last iteration, one by one."""
    calls, ftol, xtol = r.f.calls, r.opts["ftol"], r.opts["xtol"]
    if len(calls) != n * pop:
        return  # C05
    best = None
    some, small, large = [], [], []
    for k, c in enumerate(calls):
        if best is None or env.decide(env.le(c.f, best.f)):
            if k >= (n - 1) * pop and env.decide(env.le(c.f, ftol)):
                step = sum((env.item(a) - env.item(b)) ** 2 for a, b in zip(env.flat(best.x)[0], env.flat(c.x)[0]))
                near = env.le(step, xtol * xtol)
                some.append(near)
                small.append(near)
                large.append(env.not_(near))
            best = c if k >= pop or best is None or env.decide(env.lt(c.f, best.f)) else best
    if st == 0:
        env.check("status 0: an improvement moved less than xtol", env.or_(small), info)
    if st == 1 and some:
        env.check("status 1: an improvement moved more than xtol", env.or_(large), info)


def ended(env, r):
    env.check("the run ends with a result", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    return r.out.ok


def static(env, r, n, st, maxiter, info):
    env.check("iterations", env.true(1 <= n <= maxiter), info)
    env.check("status is documented", env.true(st in MESSAGES), info)
    env.check("success is status >= 0", env.true(bool(r.res.success) == (st >= 0)), info)
    env.check("message of the status", env.true(r.res.message == MESSAGES.get(st)), info)
    env.check("status -1 only at maxiter", env.true(st != -1 or n == maxiter), info)
    env.check("not converged below maxiter: a reason is given", env.true(n == maxiter or st != -1), info)


def flat(env, cfg):
    """CMA-ES / VD-CMA with fixed draws; the best value of each generation is free.  Stopping must depend on the
    differences of objective values only, and the flatness criteria must mean what they say."""
    m, n, pop = cfg["method"], cfg["maxiter"], cfg["popsize"]
    env.policy = lambda kind, k: 0.37 if kind == "u" else (0.9, -1.3, 0.4, 1.7, -0.6, -0.2, 1.1)[k % 7]
    lev = [env.real(f"lev{i}", -1, 1) for i in range(cfg["free"])]
    # the values within a generation differ by a fixed amount: their order is not at stake
    def run(shift):
        class F(Objective):
            def value(self, x):
                k = len(self.calls)
                g, i = divmod(k, pop)
                base = lev[g] if g < len(lev) else lev[-1] + 0
                return base + shift + cfg["spread"] * ((i * 3) % pop)
        f = F(env)
        r = drive(env, dict(cfg, tol="off", x0="none", ndim=cfg["ndim"]), f=f)
        return r
    shift = env.real("shift", -50, 50)
    a = run(0.0)
    b = run(shift)
    if not (ended(env, a) and ended(env, b)):
        return
    info = lambda: {"nit": (a.res.nit, b.res.nit), "status": (a.res.status, b.res.status), "levels": lev, "shift": shift}  # noqa: E731
    env.check("a constant added to the objective does not change when and why the run stops",
              env.true(a.res.nit == b.res.nit and a.res.status == b.res.status), info)
    static(env, a, a.res.nit, a.res.status, n, info)
    fs = [c.f for c in a.f.calls]
    if len(fs) != a.res.nit * pop:
        return  # C05
    best = [s["fun"] for s in a.cb.log]
    span = int(10 + 30 * cfg["ndim"] / pop)  # iterations looked at
    for g in range(1, a.res.nit + 1):
        last = fs[(g - 1) * pop:g * pop]
        tolfun = env.and_([env.le(u - v, 1e-3) for u in last + best[:g] for v in last + best[:g]]) if g > 2 else env.true(False)
        equal = env.and_([env.le(u - v, 1e-3) for u in best[g - span:g] for v in best[g - span:g]]) if g >= span else env.true(False)
        if g < a.res.nit:
            for name, vals in (("TolFun", last + best[:g] if g > 2 else []), ("EqualFunValues", best[g - span:g] if g >= span else [])):
                if vals and env.decide(env.and_([env.eq(v, vals[0]) for v in vals])):
                    env.check(f"{name}: the run stops when the values are equal", env.true(False), info)
        elif a.res.status == -7:
            env.check("TolFun: all best values and the last generation are equal", tolfun, info)
        elif a.res.status == -5:
            env.check("EqualFunValues: the recent best values are equal", equal, info)


def tolerances(env, cfg):
    """CMA-ES / VD-CMA with fixed draws: the two tolerances, by the move of the mean."""
    m, n, nd, sigma = cfg["method"], cfg["popsize"], cfg["ndim"], cfg["sigma"]
    env.policy = draws
    f = Apart(env, pick=lambda k: None if k in cfg["free"] else float(3 + (3 * k + k // n) % n) + (k % n) / 64 if k % n > 2 else float((k * 7) % 5))
    f.n, f.lo, f.hi = n, -10, 10
    r = drive(env, dict(cfg, opt=dict(sigma=sigma, muperc=1.0)), f=f)
    if not ended(env, r):
        return
    gens, st, ftol, xtol = r.res.nit, r.res.status, r.opts["ftol"], r.opts["xtol"]
    info = lambda: {"nit": gens, "status": st, "values": [c.f for c in f.calls], "ftol": ftol, "xtol": xtol}  # noqa: E731
    static(env, r, gens, st, cfg["maxiter"], info)
    if len(f.calls) != gens * n or gens == cfg["maxiter"]:
        return
    box = np.array(BOXES[nd])
    half, mid = 0.5 * (box[:, 1] - box[:, 0]), 0.5 * (box[:, 1] + box[:, 0])
    mean = [-0.2] * nd
    ref = Cma(mean, n, sigma, 1.0) if m == "cmaes" else Vd(mean, n, sigma, 1.0, [draws("n", j) for j in range(nd)])
    for g in range(gens):
        calls = f.calls[g * n:(g + 1) * n]
        X = (np.array([[float(env.item(q)) for q in env.flat(c.x)[0]] for c in calls]) - mid) / half
        order = sort(env, [c.f for c in calls])
        old = np.array(ref.m)
        if m == "cmaes":
            ref.step(X[order])
        else:
            ref.step(X, np.array(order))
        move, low = float(np.linalg.norm(ref.m - old)), calls[order[0]].f
    if st in (0, 1):
        env.check("status 0 or 1: ftol is reached", env.le(low, ftol), lambda: dict(info(), move=move))
    if st == 0:
        env.check("status 0: the mean moved less than xtol", env.le(move, xtol), lambda: dict(info(), move=move))
    if st == 1:
        env.check("status 1: the mean moved more than xtol", env.or_(env.lt(xtol, move), env.le(ftol, low)), lambda: dict(info(), move=move))


def criteria(ref, sig0, slack):
    """The numerical criteria that hold after a generation, by the reference update."""
    t = 1.0 + slack
    out = set()
    cma = isinstance(ref, Cma)
    covs = [ref.C] if cma else [ref.used, ref.S]
    if slack > 0:  # surely
        some = all
    else:  # possibly
        some = any
    sd = [np.sqrt(np.diag(c)) for c in covs]
    s = ref.sigma
    if cma:
        i = ref.g % ref.N
        if (np.abs(0.1 * s * ref.B[:, i] * np.sqrt(ref.d[i])) * t < 1e-10).all():
            out.add(-2)
        if math.sqrt(ref.d.max()) > 1e7 * t * math.sqrt(ref.d.min()):
            out.add(-4)
    if some((0.2 * s * d * t < 1e-10).any() for d in sd):
        out.add(-3)
    if some((s * d > 1e3 * sig0 * t).any() for d in sd):
        out.add(-6)
    if some(max(np.abs(ref.pc).max(), d.max()) * s * t < 1e-11 * sig0 for d in sd):
        out.add(-8)
    return out


def numeric(env, cfg):
    """CMA-ES / VD-CMA near the limits of the arithmetic: each criterion stops the run when it holds, and names itself."""
    m, n, nd, sigma, frac = cfg["method"], cfg["popsize"], cfg["ndim"], cfg["sigma"], cfg.get("muperc", 1.0)
    e = env.concretize(env.int("scale", 0, len(cfg["scales"]) - 1))
    amp = cfg["scales"][e]
    if cfg["numeric"] == "sigma":
        sigma, amp = sigma * amp, 1.0
    if not isinstance(amp, tuple):
        amp = (amp,) * nd

    def norm(k):
        if m == "vdcma" and k < nd:
            return draws("n", k)
        return amp[k % nd] * draws("n", k)

    env.policy = lambda kind, k: draws(kind, k) if kind == "u" else norm(k)
    # arbitrary ranks of one individual among the best
    f = Apart(env, pick=lambda k: None if k % n == 1 and k < n * cfg.get("gens", 3) else float(3 + (3 * k + k // n) % n) + (k % n) / 64 if k % n > 3 else -9.0 + (k % n))
    f.n, f.lo, f.hi = n, -10, 0
    r = drive(env, dict(cfg, tol="off", opt=dict(sigma=sigma, muperc=frac)), f=f)
    if not ended(env, r):
        return
    gens, st = r.res.nit, r.res.status
    info = lambda: {"nit": gens, "status": st, "message": r.res.message, "sigma": sigma, "draws scaled by": amp,  # noqa: E731
                    "values": [c.f for c in f.calls]}
    static(env, r, gens, st, cfg["maxiter"], info)
    if len(f.calls) != gens * n:
        return  # C05
    box = np.array(BOXES[nd])
    half, mid = 0.5 * (box[:, 1] - box[:, 0]), 0.5 * (box[:, 1] + box[:, 0])
    mean = [-0.2] * nd
    ref = Cma(mean, n, sigma, frac) if m == "cmaes" else Vd(mean, n, sigma, frac, [norm(j) for j in range(nd)])
    for g in range(min(gens, cfg["maxiter"] - 1)):
        calls = f.calls[g * n:(g + 1) * n]
        X = (np.array([[float(env.item(q)) for q in env.flat(c.x)[0]] for c in calls]) - mid) / half
        order = sort(env, [c.f for c in calls])
        if m == "cmaes":
            ref.step(X[order])
        else:
            ref.step(X, np.array(order))
        if ref.edge < 1e-6:
            return
        sure, may = criteria(ref, sigma, 1e-3), criteria(ref, sigma, -1e-3)
        if g + 1 < gens:
            env.check("the run stops as soon as a numerical criterion holds", env.true(not sure), lambda: dict(info(), iteration=g + 1, holds=sorted(sure)))  # noqa: B023
        else:
            env.check("the criterion named by the status holds", env.true(st in may), lambda: dict(info(), holds=sorted(may)))


def configs(tier):
    c = []
    big = tier != "quick"
    for m in ELITIST:
        ups = ({},) if m == "na" else ({}, {"updating": "deferred"})
        for up in ups:
            imm = m != "na" and not up
            c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=3 if big or not imm else 2, ndim=1, tol="sym", opt=up))
            c.append(dict(method=m, popsize=3, maxiter=3 if big or not imm else 2, ndim=1, tol="symf", opt=up))
            c.append(dict(method=m, popsize=3, maxiter=1, ndim=2, tol="sym", opt=up))
            c.append(dict(method=m, popsize=3, maxiter=1, ndim=1, return_all=True, opt=up))
            if imm:
                for it in (2, 3):
                    c.append(dict(method=m, popsize=3 if m == "de" or it == 2 else 2, maxiter=it, ndim=1 if it == 2 else 2, x0="grid", tol="sym", fixed=True, opt=up))
            if imm and m != "de":
                c.append(dict(method=m, popsize=2, maxiter=3, ndim=1, tol="symf", opt=up))
        c.append(dict(method=m, popsize=3 if m == "de" else 2, maxiter=4, ndim=1, tol="sym", opt=dict(ups[-1], workers=2)))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, x0="in", tol="sym", opt=ups[-1]))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, x0="in", tol="symf", opt=ups[0]))
    for m in ("cmaes", "vdcma"):
        c.append(dict(method=m, popsize=3, maxiter=1, ndim=1, tol="sym"))
        c.append(dict(method=m, popsize=4, maxiter=2, ndim=1, tol="symf"))
        c.append(dict(method=m, popsize=3, maxiter=3, ndim=1, tol="symf"))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, tol="sym"))
        c.append(dict(method=m, popsize=3, maxiter=2, ndim=2, tol="symf"))
        c.append(dict(method=m, popsize=8, maxiter=5, ndim=2, flat="tolfun", free=3, spread=0.0))
        c.append(dict(method=m, popsize=8, maxiter=20, ndim=1, flat="equal", free=1, spread=0.5))
        c.append(dict(method=m, popsize=8, maxiter=20, ndim=1, flat="equal", free=2, spread=0.5))
    c.append(dict(method="vdcma", popsize=7, ndim=5, maxiter=33, flat="equal", free=1, spread=0.5))
    c.append(dict(method="cmaes", popsize=7, ndim=2, maxiter=20, flat="equal", free=1, spread=0.5))
    for m, nd in (("cmaes", 1), ("cmaes", 2), ("vdcma", 5)):
        for sigma in (0.1, 0.6):
            c.append(dict(method=m, popsize=4, ndim=nd, maxiter=3, tol="sym", moves=True, sigma=sigma, fork=True, free=(5, 6) if sigma > 0.5 else (1, 6)))
    for m in OPTIMIZERS:
        ups = ({}, {"updating": "deferred"}) if m in ("de", "pso", "cpso") else ({},)
        for up in ups:
            long = 45 if big else 16 if m != "na" else 6
            for tol in ("sym", "symf"):
                c += extended(m, 0, long, ("fall", "noise", "settle", "kept"), opt=up, tol=tol)
            for k in extended(m, 0, long, ("fall", "settle", "plateau"), opt=up, tol="sym"):
                c.append(dict(k, ndim=1))
            if m not in ("na",):
                c += extended(m, 0, 130, ("rise", "kept"), opt=up, tol="off")
    low = tuple(10.0**-k for k in range(6, 14))
    num = [dict(method="cmaes", popsize=5, ndim=1, maxiter=3, numeric="sigma", sigma=1.0, scales=low),
           dict(method="cmaes", popsize=4, ndim=1, maxiter=3, numeric="sigma", sigma=1.0, gens=2, scales=tuple(1e-9 * 1.3**k for k in range(-4, 5))),
           dict(method="cmaes", popsize=5, ndim=3, maxiter=3, numeric="sigma", sigma=1.0, scales=low[:4], gens=2),
           dict(method="cmaes", popsize=70, ndim=2, maxiter=3, gens=1, numeric="coord", sigma=1e-7, scales=((1.0, 1e-1), (1.0, 1e-4), (1e-5, 1.0))),
           dict(method="cmaes", popsize=70, ndim=2, maxiter=3, gens=1, numeric="cond", sigma=0.5, scales=((1.0, 1e-5), (1.0, 1e-8), (1e-8, 1.0), (1.0, 3e-7))),
           dict(method="cmaes", popsize=5, ndim=2, maxiter=4, numeric="up", sigma=0.25, scales=(1.0, 6.0, 20.0, (12.0, 1.0))),
           dict(method="cmaes", popsize=70, ndim=1, maxiter=3, gens=1, numeric="tolx", sigma=1e4, scales=(1e-6, 1e-10, 1e-12)),
           dict(method="vdcma", popsize=5, ndim=6, maxiter=3, numeric="sigma", sigma=1.0, scales=low, gens=2),
           dict(method="vdcma", popsize=5, ndim=6, maxiter=20, numeric="up", sigma=0.25, scales=(1.0, 20.0), gens=1)]
    for k in num:
        k["fork"] = True
    c += num
    return named(c)
