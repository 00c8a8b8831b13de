"""Argument validation: accepted exactly inside the documented domain, refused before anything is evaluated."""
from symex.harness import Callback, Objective

from .common import BOXES, OPTIMIZERS, named, options

BOUNDS = ("2 variables, populations 2-7, 1-2 iterations, fixed draws; each parameter a real or integer variable over its domain and "
          "well beyond, compared exactly (no rounding allowance); shapes, names and callables picked by a solver variable")

SHAPES = {"popsize": 3, "ndim": 2}
NEED = {"best1bin": 3, "rand1bin": 4, "best2bin": 5, "rand2bin": 6}
NAMES = {
    "updating": (["immediate", "deferred"], ["", "Immediate", "sync", "async", None]),
    "strategy": (["best1bin", "rand1bin", "best2bin", "rand2bin"], ["", "best3bin", "rand1", "Best1bin", None]),
    "backend": ([None, "loky", "threading"], ["foo", "MPI", "processes", "thread"]),
    "cons-de": ([None, "Random"], ["", "random", "Shrink", "Penalize", "Reject"]),
    "cons-pso": ([None, "Shrink"], ["", "shrink", "Random", "Penalize", "Reject"]),
    "cons-cma": ([None, "Penalize"], ["", "penalize", "Random", "Shrink", "Reject"]),
    "cons-mc": ([None, "Reject"], ["", "reject", "Random", "Shrink", "Penalize"]),
}
CONS = {"de": "cons-de", "pso": "cons-pso", "cpso": "cons-pso", "cmaes": "cons-cma", "vdcma": "cons-cma", "mcmc": "cons-mc",
        "hmc": "cons-mc"}


def inside(env, p, v):
    h = env.holds
    if p in ("mutation", "competitivity"):
        return env.and_(h(v >= 0), h(v <= 2))
    if p in ("recombination", "inertia", "perc"):
        return env.and_(h(v >= 0), h(v <= 1))
    if p in ("cognitivity", "sociability"):
        return env.and_(h(v >= 0), h(v <= 4))
    if p in ("nrperc", "muperc"):
        return env.and_(h(v > 0), h(v <= 1))
    if p == "sigma":
        return h(v > 0)
    if p == "nleap":
        return h(v >= 1)
    raise KeyError(p)


class Jac:
    def __init__(self, env):
        self.env, self.calls = env, 0

    def __call__(self, x, *a):
        self.calls += 1
        return self.env.array([0.5, -0.25])


def scenario(env, cfg):
    st = env.load()
    m, p = cfg["method"], cfg["par"]
    grid = (0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)
    env.policy = lambda kind, k: grid[k % 7] if kind == "u" else (-1.5, 0.75, 0.4, -0.3, 1.1)[k % 5] if kind == "n" else None
    env.choice = lambda kind, k, n: tuple(range(n)) if kind == "p" else 0
    ok = None

    def value(x):
        if not f.calls and ok is not None:  # nothing has been computed with the parameter yet
            env.check("nothing is evaluated with an invalid parameter", ok, info)
        return 5.0 - 0.25 * len(f.calls) * (-1) ** len(f.calls)

    f = Objective(env, fn=value)
    cb = Callback(env, f)
    pop = cfg.get("popsize", 3)
    opt = dict(options(env, dict(cfg, popsize=pop)))
    if m == "de" and "strategy" not in opt:
        opt["strategy"] = "best1bin"
    kw = {}
    bounds = [list(r) for r in BOXES[2]]
    fun = f
    jac = None
    info = {}
    if m == "hmc":
        opt["nleap"] = 1
        if cfg.get("jac", True):
            jac = opt["jac"] = Jac(env)
    one = m in ("cmaes", "vdcma", "mcmc", "hmc")
    if p == "x0":  # shape
        if one:
            d = env.concretize(env.int("dims", 0, 2))
            n = env.concretize(env.int("rows", 1, 4)) if d else 0
            row = [0.5, 1.5, 2.0, -1.0][:n]
            kw["x0"] = 0.5 if d == 0 else row if d == 1 else [row]
            ok = env.true(d == 1 and n == 2)
            if m in ("mcmc", "hmc") and (d == 0 or d == 2):
                return  # only the length is documented
        else:
            d = env.concretize(env.int("dims", 1, 4))
            r, c = env.concretize(env.int("rows", 1, 5)), env.concretize(env.int("cols", 1, 4))
            x = [[0.5 + 0.25 * (i - j) for j in range(c)] for i in range(r)]
            kw["x0"] = x[0] if d == 1 else x if d == 2 else [x] if d == 3 else [[[v, v + 0.125] for v in w] for w in x]
            ok = env.true(d == 2 and r == pop and c == 2)
        if cfg.get("asarray"):
            kw["x0"] = env.array(kw["x0"])
        info["x0"] = kw["x0"]
    elif p == "stepsize":
        d = env.concretize(env.int("dims", 0, 1))
        n = env.concretize(env.int("len", 1, 4)) if d else 0
        opt["stepsize"] = [0.25, 0.5, 0.125, 0.5][:n] if d else 0.25
        ok = env.true(d == 0 or n == 2)
        info["stepsize"] = opt["stepsize"]
    elif p == "bounds":
        d = env.concretize(env.int("dims", 0, 4))
        n = env.concretize(env.int("cols", 1, 4)) if d > 1 else 2
        rows = [[-5.0, 5.0, 6.0, 7.0][:n], [-3.0, 4.0, 8.0, 9.0][:n]]
        bounds = 1.0 if d == 0 else rows[0] if d == 1 else rows if d == 2 else [rows] if d == 3 else [[[v] for v in w] for w in rows]
        ok = env.true(d == 2 and n == 2)
        info["bounds"] = bounds
    elif p in NAMES or p == "constraints":
        good, bad = NAMES[CONS[m] if p == "constraints" else p]
        if m == "de" and p == "strategy":
            opt["popsize"] = 6
        k = env.concretize(env.int("which", 0, len(good) + len(bad) - 1))
        opt[p] = (good + bad)[k]
        ok = env.true(k < len(good))
        info[p] = opt[p]
    elif p == "callable":  # objective, callback and gradient
        k = env.concretize(env.int("which", 0, 5))
        if k == 0:
            fun = 3.0
        elif k == 1:
            fun = None
        elif k == 2:
            cb = 7
        elif k == 3:
            cb = "callback"
        elif k == 4 and m == "hmc":
            opt["jac"] = "2-point"
        elif k == 4:
            return
        ok = env.true(k == 5)
        info.update(fun=fun, callback=cb, jac=opt.get("jac"))
    elif p == "method":
        k = env.concretize(env.int("which", 0, 4))
        m = ("dee", "", "NA", "simplex", None)[k]
        opt = dict(maxiter=2)
        ok = env.true(False)
        info["method"] = m
    elif p == "option":
        k = env.concretize(env.int("which", 0, 2))
        opt[("popsiz", "tol", "Maxiter")[k]] = 1
        ok = env.true(False)
        info["options"] = dict(opt)
    elif p == "popsize":
        opt["popsize"] = v = env.int("popsize", -3, 3 if m == "na" else 7)
        need = NEED[opt["strategy"]] if m == "de" else 2
        ok = env.holds(v >= need)
        info["popsize"] = v
    else:
        if p == "nleap":
            v = env.int(p, -3, 4)
        else:
            v = env.real(p, -3, 6)
        opt[p] = v
        ok = inside(env, p, v)
        info[p] = v
    kw["callback"] = cb
    entry = st.optimize.minimize if cfg["method"] in OPTIMIZERS else st.sample.sample
    out = env.call(entry, fun, bounds, method=m, options=opt, **kw)
    info["exception"] = repr(out.exc)
    info["calls"] = len(f.calls)
    env.check("accepted exactly inside the documented domain", env.iff(ok, env.true(out.ok)), info)
    if not out.ok:
        n = len(f.calls) + (jac.calls if jac else 0) + (len(cb.log) if isinstance(cb, Callback) else 0)
        env.check("refused before anything is called", env.true(n == 0), info)


def configs(tier):
    c = []
    for m in ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc"):
        pars = ["x0", "bounds", "callable"]
        pars += {"de": ["mutation", "recombination", "updating", "strategy"],
                 "pso": ["inertia", "cognitivity", "sociability", "updating"],
                 "cpso": ["inertia", "cognitivity", "sociability", "competitivity", "updating"],
                 "na": ["nrperc"], "cmaes": ["sigma", "muperc"], "vdcma": ["sigma", "muperc"],
                 "mcmc": ["perc", "stepsize"], "hmc": ["nleap", "stepsize"]}[m]
        if m != "na":
            pars.append("constraints")
        if m in OPTIMIZERS:
            pars.append("backend")
        if m in ("pso", "cpso", "na"):
            pars.append("popsize")
        for p in pars:
            for it in (1, 2):
                if it == 2 and p in ("sigma",):
                    continue
                c.append(dict(method=m, par=p, maxiter=it))
        for p in ("x0",):
            c.append(dict(method=m, par=p, maxiter=2, asarray=True))
        if m == "hmc":
            c.append(dict(method=m, par="stepsize", maxiter=2, jac=False))
            c.append(dict(method=m, par="nleap", maxiter=2, jac=False))
        c.append(dict(method=m, par="option", maxiter=1))
        c.append(dict(method=m, par="method", maxiter=2))
        if m in ("de", "pso", "cpso"):
            for p in pars:
                if p in ("mutation", "recombination", "inertia", "cognitivity", "sociability", "competitivity", "constraints",
                         "popsize", "backend", "x0"):
                    c.append(dict(method=m, par=p, maxiter=2, opt=dict(updating="deferred")))
            c.append(dict(method=m, par="backend", maxiter=2, opt=dict(workers=2)))
        if m in ("na", "cmaes", "vdcma"):
            c.append(dict(method=m, par="backend", maxiter=2, opt=dict(workers=2)))
    for s in NEED:
        for u in ("immediate", "deferred"):
            c.append(dict(method="de", par="popsize", maxiter=2, opt=dict(strategy=s, updating=u)))
    return named(c)
