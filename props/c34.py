"""The form in which inputs are given does not matter, only the numbers."""
import numpy as np

from symex.harness import Callback, Objective

from .common import GRID, OPTIMIZERS, any_rank, drive, named
from .c33 import N, Slope, U

BOUNDS = ("populations of 4-5, 1-2 variables, 2-3 iterations or samples (12 individuals with 10 variables, and 30 iterations, in some); bounds, x0 and step sizes as lists, tuples, mixed numbers, transposed, strided, "
          "read-only and integer arrays; counts, options and extra arguments as Python or numpy numbers of either kind; fixed draws (one symbolic) and every rank of one "
          "individual's values, or symbolic values")
IBOX = [[-5, 4], [-3, 4], [1, 3], [-2, 6], [0, 7], [-4, -1], [2, 9], [-1, 1], [-6, 2], [3, 5]]


def frozen(a):
    a.setflags(write=False)
    return a


def rows(env, r, how, intok=True):
    """The same numbers in another container."""
    two = isinstance(r[0], list)
    fl = [float(e) if isinstance(e, int) else e for q in (r if two else [r]) for e in q]
    sh = (len(r), len(r[0])) if two else (len(r),)
    if how == "lists":
        return [list(q) for q in r] if two else list(r)
    if how == "tuples":
        return tuple(tuple(q) for q in r) if two else tuple(r)
    if how == "mixed":  # a list of tuples, or integers among floats
        return [tuple(q) for q in r] if two else [e if k % 2 else (float(e) if isinstance(e, int) else e) for k, e in enumerate(r)]
    if how == "rows":  # a list of arrays
        return [env.arr([float(e) if isinstance(e, int) else e for e in q], (len(q),), "f") for q in r] if two else env.arr(fl, sh, "f")
    if how == "int":
        return env.arr([int(e) for q in (r if two else [r]) for e in q], sh, "i")
    a = env.arr(fl, sh, "f")
    if how == "array":
        return a
    if how == "frozen":
        return frozen(a)
    if how == "transposed":
        return a.T.copy().T if two else a[::-1].copy()[::-1]
    if how == "strided":
        big = np.repeat(np.repeat(a, 2, axis=0), 3, axis=1) if two else np.repeat(a, 2, axis=0)
        return big[::2, ::3] if two else big[::2]
    raise KeyError(how)


def scenario(env, cfg):
    env.tight()
    nd, m = cfg["ndim"], cfg["method"]
    opti = m in OPTIMIZERS
    n = cfg["popsize"]
    pop = opti and m not in ("cmaes", "vdcma")
    box = [list(r) for r in IBOX[:nd]]
    X = None
    if cfg["x0"] != "none":
        X = [[box[j][0] + (2 * i + 3 * j + i * j) % (box[j][1] - box[j][0] + 1) for j in range(nd)] for i in range(n if pop else 1)]
        if cfg["x0"] == "sym":
            X[-1][0] = env.real("x", box[0][0], box[0][1])
    env.policy = lambda kind, k: env.real(f"d{k}", 0.125, 0.875) if k == 1 and m != "na" and cfg.get("opt", {}).get("constraints") != "Penalize" else U[(k + k // 7) % 7] if kind == "u" else N[(k + k // 5) % 5]
    env.choice = lambda kind, k, mm: (5 * k + 1) % mm if kind == "i" else [(q * (mm - 1) + k) % mm for q in range(mm)]

    def pick(k):
        if not opti:
            return None
        if k == n + 1 or k == 1 and not cfg.get("opt", {}).get("constraints"):
            return any_rank(env, f"rank{k}", [c.f for c in fa.calls])
        return float((2 * k + k // n) % (n + 2)) - 0.0171 * k

    fa = Objective(env, pick=pick)
    fb = Objective(env, name="g", pick=lambda k: fa.calls[k].f if k < len(fa.calls) else 0.0)
    st = env.load()
    base = dict(cfg.get("opt", {}), return_all=True)
    oa, ob = dict(base), dict(base)
    if m == "hmc":
        ga = oa["jac"] = Slope(env, nd)
        ob["jac"] = Slope(env, nd, lambda k: ga.calls[k] if k < len(ga.calls) else [0.0] * nd)
    step = [1, 3, 1, 2][:nd] if nd < 5 else [1 + j % 3 for j in range(nd)]
    if not opti and cfg.get("step"):
        oa["stepsize"] = rows(env, step, "array")
        ob["stepsize"] = rows(env, step, cfg["step"])
    for k, v in cfg.get("num", {}).items():  # options that are whole numbers, as another kind of number
        oa[k], ob[k] = float(v), v
        if cfg.get("as"):
            ob[k] = {"np.int64": np.int64, "np.float64": np.float64, "int": int}[cfg["as"]](v)
    if cfg.get("counts"):
        for o, t in ((oa, int), (ob, np.int64)):
            o["maxiter"] = t(cfg["maxiter"])
            if opti:
                o["popsize"] = t(n)
            o["seed"] = t(3)
            if m == "hmc":
                o["nleap"] = t(2)
    A = drive(env, dict(cfg, opt=oa), st=st, f=fa, cb=Callback(env, fa), bounds=rows(env, box, "array"), x0=None if X is None else rows(env, X if pop else X[0], "array"))
    env.ndraw = {k: 0 for k in env.ndraw}
    B = drive(env, dict(cfg, opt=ob), st=st, f=fb, cb=Callback(env, fb), bounds=rows(env, box, cfg["form"]), x0=None if X is None else rows(env, X if pop else X[0], cfg["form"] if cfg["x0"] == "int" or cfg["form"] != "int" else "lists"))
    info = lambda: {"form": cfg["form"], "points": [c.x for c in fa.calls], "points of the other run": [c.x for c in fb.calls],  # noqa: E731
                    "values": [c.f for c in fa.calls], "exceptions": [repr(r.out.exc) for r in (A, B)]}
    env.check("both runs end without an exception", env.true(A.out.ok and B.out.ok), info)
    if not (A.out.ok and B.out.ok):
        return
    for k, (p, q) in enumerate(zip(fa.calls, fb.calls)):
        env.check("the same points are evaluated", env.same(q.x, p.x), lambda: dict(info(), call=k))  # noqa: B023
    env.check("the same number of points is evaluated", env.true(len(fa.calls) == len(fb.calls) and A.res.nit == B.res.nit), info)
    env.check("the same result", env.and_(env.same(B.res.x, A.res.x), env.eq(A.res.fun, B.res.fun)), info)
    env.check("the same history", env.and_(env.same(B.res.xall, A.res.xall), env.same(B.res.funall, A.res.funall)), info)
    for s, t in zip(A.cb.log, B.cb.log):
        env.check("the same callbacks", env.and_(env.same(s["x"], t["x"]), env.same(s["_X"], t["_X"]), env.eq(s["fun"], t["fun"])), info)


def configs(tier):
    c = []
    forms = ("lists", "tuples", "mixed", "rows", "int", "frozen", "transposed", "strided")
    whole = {"de": dict(mutation=1, recombination=1, xtol=0, ftol=-9), "pso": dict(inertia=1, cognitivity=2, sociability=1, verbosity=1), "cpso": dict(inertia=0, cognitivity=1, sociability=3, competitivity=1),
             "na": dict(nrperc=1, xtol=1, ftol=-9), "cmaes": dict(sigma=1, muperc=1, ftol=-9), "vdcma": dict(sigma=1, muperc=1, ftol=-9), "mcmc": dict(stepsize=1, perc=1), "hmc": dict(stepsize=1, finite_diff_abs_step=1)}
    for m in OPTIMIZERS + ("mcmc", "hmc"):
        ups = ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,)
        cons = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize", "mcmc": "Reject", "hmc": "Reject"}.get(m)
        nd = 2
        it = 2 if m in ("na", "vdcma", "cmaes") and tier == "quick" else 3
        for up in ups:
            o = dict(updating=up) if up else dict(nleap=1) if m == "hmc" else {}
            for fm in forms:
                for x0 in ("int", "none") + (("sym",) if fm != "int" else ()):
                    con = cons if (len(c) % 2 or x0 == "none") else None
                    if con == "Penalize" and x0 == "sym" and tier == "quick":
                        con = None
                    c.append(dict(method=m, popsize=4 if m != "na" else 3, ndim=1 if x0 == "sym" and (m == "na" or con in ("Penalize", "Shrink")) else nd, maxiter=it, form=fm, x0=x0, opt=dict(o, constraints=con) if m != "na" else o))
                if m in ("mcmc", "hmc"):
                    c.append(dict(method=m, popsize=1, ndim=2, maxiter=3, form="lists", step=fm, x0="int", opt=o))
            for t in ("int", "np.int64", "np.float64"):
                c.append(dict(method=m, popsize=4, ndim=1, maxiter=it, form="lists", x0="int", num=whole[m], opt=o, **{"as": t}))
            c.append(dict(method=m, popsize=4, ndim=nd, maxiter=it, form="array", x0="int", counts=True, opt=o))
            c.append(dict(method=m, popsize=5, ndim=nd, maxiter=it, form="tuples", x0="none", counts=True, opt=o))
        for fm in ("lists", "int", "strided"):  # many individuals and variables, and long runs
            o = dict(nleap=1) if m == "hmc" else {}
            if m != "cmaes" and (m not in ("hmc", "vdcma") or fm == "int"):
                c.append(dict(method=m, popsize=12 if m != "na" else 4, ndim=10, maxiter=2, form=fm, x0="int", opt=o))
            if m not in ("na", "hmc", "vdcma") or m == "vdcma" and fm == "lists":
                c.append(dict(method=m, popsize=4, ndim=2, maxiter=30 if m != "mcmc" else 8, form=fm, x0="int" if fm != "int" else "none", opt=o, **(dict(step=fm) if m == "mcmc" else {})))
    for k in c:
        k["fork"] = True
        k["anomalies"] = k["method"] == "na"  # cells that fall together give 0/0 in the code
    return named(c)
