"""Entry points and defaults."""
from symex.harness import Callback, Objective

from .c18 import Grad
from .common import OPTIMIZERS, drive, make_bounds, make_x0, named, options

BOUNDS = ("1-2 variables, populations 2-10, 1-3 iterations (100 for the default number of iterations, with fixed draws); every "
          "scalar option a real variable over its domain when forwarded; draws and objective values symbolic, shared by both runs")

PAR = {
    "de": dict(mutation=(0, 2), recombination=(0, 1)),
    "pso": dict(inertia=(0, 1), cognitivity=(0, 4), sociability=(0, 4)),
    "cpso": dict(inertia=(0, 1), cognitivity=(0, 4), sociability=(0, 4), competitivity=(0, 2)),
    "na": dict(nrperc=(0.01, 1)), "cmaes": dict(sigma=(0.05, 2)), "vdcma": dict(sigma=(0.05, 2)),
    "mcmc": dict(stepsize=(0.05, 1)), "hmc": dict(stepsize=(0.05, 0.5)),
}
POP = dict(maxiter=100, popsize=10, xtol=1.0e-8, ftol=1.0e-8, return_all=False, verbosity=1.0, workers=1, backend=None)
SWARM = dict(POP, inertia=0.7298, cognitivity=1.49618, sociability=1.49618, constraints=None, updating="immediate")
EVOL = dict(POP, sigma=0.1, muperc=0.5, constraints=None)
DEFAULTS = {
    "de": dict(POP, mutation=0.5, recombination=0.9, strategy="best1bin", constraints=None, updating="immediate"),
    "pso": SWARM, "cpso": dict(SWARM, competitivity=1.0), "na": dict(POP, nrperc=0.5), "cmaes": EVOL, "vdcma": EVOL,
    "mcmc": dict(maxiter=100, stepsize=0.1, perc=1.0, constraints=None, return_all=True),
    "hmc": dict(maxiter=100, nleap=10, stepsize=0.01, jac=None, finite_diff_abs_step=1.0e-4, constraints=None, return_all=True),
}


class Rec:
    pass


def compare(env, a, b):
    info = lambda: {"first": dict(a.res or {}), "second": dict(b.res or {}), "first exception": repr(a.out.exc),  # noqa: E731
                    "second exception": repr(b.out.exc), "first points": [c.x for c in a.f.calls],
                    "second points": [c.x for c in b.f.calls]}
    env.check("both runs end the same way", env.true(a.out.ok and b.out.ok), info)
    if not (a.out.ok and b.out.ok):
        return
    env.check("same number of evaluations", env.true(len(a.f.calls) == len(b.f.calls)), info)
    env.check("same points evaluated", env.and_([env.same(c.x, d.x) for c, d in zip(a.f.calls, b.f.calls)]), info)
    env.check("same arguments", env.and_([env.true(len(c.args) == len(d.args)) for c, d in zip(a.f.calls, b.f.calls)]), info)
    x, y = a.res, b.res
    env.check("same fields", env.true(set(x) == set(y) and type(x).__name__ == type(y).__name__), info)
    for k in x:
        if k in y:
            p, q = x[k], y[k]
            if k in ("success", "message", "status", "nit", "nfev"):
                env.check(f"same {k}", env.true(p == q), info)
            else:
                env.check(f"same {k}", env.same(p, q) if tuple(env.shape(p)) == tuple(env.shape(q)) else env.true(False), info)
    if a.cb and b.cb:
        env.check("same callbacks", env.true(len(a.cb.log) == len(b.cb.log)), info)


def scenario(env, cfg):
    env.tight()
    m, mode = cfg["method"], cfg["mode"]
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    opt = options(env, cfg)
    for k in cfg.get("sym", ()):
        opt[k] = env.real(k, *PAR[m][k])
    if cfg.get("draws") == "fixed":
        env.policy = lambda kind, k: ((0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)[k % 7] if kind == "u"
                                      else (-1.5, 0.75, 0.4, -0.3, 1.1)[k % 5] if kind == "n" else None)
        env.choice = lambda kind, k, n: tuple(range(n)) if kind == "p" else 0
    elif m == "na":
        env.choice = lambda kind, k, n: tuple(range(n)) if kind == "p" else 0
    memo = {}
    if m == "hmc" and cfg.get("jac", True):
        opt["jac"] = Grad(env, len(lower))
    skip = cfg.get("skip")
    if skip:
        opt.pop(skip, None)
    extra = tuple(cfg.get("args", ()))

    def objective():
        f = Objective(env, memo=memo, kind=cfg.get("kind", "float"), lo=cfg.get("flo", -10))
        if cfg.get("iters"):
            f.fn = lambda x: 2.0 + (3.0, 1.0, 2.5, 0.5, 4.0, 2.0, 0.25)[len(f.calls) % 7] / (1 + len(f.calls))
        if mode.startswith("options "):
            f.fn = lambda x: 2.0 - 0.25 * (len(f.calls) % 16)
        if cfg.get("kind") == "grid":
            f.pick = lambda k: (3.0, 1.0, 2.5, 0.5, 4.0, 2.0, 0.25)[k % 7] + 1.0 / (1 + k)
        return f

    def run(call):
        env.ndraw = {"u": 0, "n": 0, "i": 0, "p": 0}
        r = Rec()
        r.f = objective()
        r.cb = Callback(env, r.f) if cfg.get("callback") else None
        st = env.load()
        r.out = env.call(call, st, r.f, r.cb, env.copy(b), None if x0 is None else env.copy(x0))
        r.res = r.out.value if r.out.ok else None
        return r

    def entry(st):
        return st.optimize.minimize if m in OPTIMIZERS else st.sample.sample

    def direct(st, name=m):
        return getattr(st.optimize if name in OPTIMIZERS else st.sample, name)

    def kw(cb, x0, args=True):
        k = {}
        if cb is not None:
            k["callback"] = cb
        if x0 is not None:
            k["x0"] = x0
        if extra and args:
            k["args"] = extra
        return k

    def generic(st, f, cb, b, x0, o=opt, name=m):
        return entry(st)(f, b, method=name, options=dict(o), **kw(cb, x0))
    first = generic
    if mode == "direct":
        second = lambda st, f, cb, b, x0: direct(st)(f, b, **dict(opt), **kw(cb, x0))  # noqa: E731
    elif mode == "positional":
        second = lambda st, f, cb, b, x0: direct(st)(f, b, x0, extra, **dict(opt), **({} if cb is None else {"callback": cb}))  # noqa: E731
    elif mode == "generic positional":
        second = lambda st, f, cb, b, x0: entry(st)(f, b, x0, extra, m, dict(opt), cb)  # noqa: E731
    elif mode == "default":  # leaving the option out or giving its documented default
        full = dict(opt, **{skip: DEFAULTS[m][skip]})
        second = lambda st, f, cb, b, x0: direct(st)(f, b, **full, **kw(cb, x0))  # noqa: E731
        if cfg.get("via") == "direct":
            first = lambda st, f, cb, b, x0: direct(st)(f, b, **dict(opt), **kw(cb, x0))  # noqa: E731
    elif mode.startswith("options "):  # no options at all: the defaults
        o = {"options omitted": {}, "options None": {"options": None}, "options empty": {"options": {}}}[mode]
        first = lambda st, f, cb, b, x0: entry(st)(f, b, method=m, **o, **kw(cb, x0))  # noqa: E731
        second = lambda st, f, cb, b, x0: direct(st)(f, b, **kw(cb, x0))  # noqa: E731
    elif mode == "method":  # the default method
        first = lambda st, f, cb, b, x0: entry(st)(f, b, options=dict(opt), **kw(cb, x0))  # noqa: E731
        second = generic
    elif mode == "cpso":
        second = lambda st, f, cb, b, x0: direct(st, "cpso")(f, b, **dict(opt, competitivity=None), **kw(cb, x0))  # noqa: E731
    elif mode == "pso":
        first = lambda st, f, cb, b, x0: direct(st, "pso")(f, b, **dict(opt), **kw(cb, x0))  # noqa: E731
        second = lambda st, f, cb, b, x0: generic(st, f, cb, b, x0, dict(opt, competitivity=None), "cpso")  # noqa: E731
    a, c = run(first), run(second)
    compare(env, a, c)
    if cfg.get("iters"):
        env.check("the default number of iterations", env.true(a.out.ok and a.res.nit == cfg["iters"]), lambda: {"nit": a.res})


def configs(tier):
    c = []
    big = tier != "quick"
    for m in OPTIMIZERS + ("mcmc", "hmc"):
        opti = m in OPTIMIZERS
        one = m in ("cmaes", "vdcma", "mcmc", "hmc")
        cons = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize", "mcmc": "Reject",
                "hmc": "Reject"}.get(m)
        base = dict(method=m, ndim=1, popsize=3, maxiter=2)
        o = dict(nleap=1) if m == "hmc" else {}
        cheap = dict(kind="grid") if m in ("na", "cmaes", "vdcma") else {}
        modes = ["direct", "positional", "generic positional"] + (["cpso", "pso"] if m == "pso" else [])
        for k, mode in enumerate(("options omitted", "options None", "options empty")):
            if m != "hmc" or big or k == 0:
                c.append(dict(base, mode=mode, kind="fixed", draws="fixed", x0="in" if k == 1 and one else "none", args=(3,) if k == 2 else (), callback=k == 1, cost=60))
        for mode in modes:
            c.append(dict(base, mode=mode, **cheap, opt=o))
            c.append(dict(base, mode=mode, **cheap, opt=dict(o, return_all=mode == "direct")))
            c.append(dict(base, mode=mode, x0="in", args=(1, 2), callback=True, kind="grid", opt=o))
            if cons:
                c.append(dict(base, mode=mode, kind="grid", maxiter=3, draws="fixed" if m in ("cmaes", "vdcma") else "free",
                              **({"popsize": 2} if m in ("pso", "cpso") else {}),
                              opt=dict(o, constraints=cons)))
            for k in PAR[m]:
                c.append(dict(base, mode=mode, kind="grid", maxiter=3 if m in ("pso", "cpso") else 2, sym=(k,),
                              draws="fixed" if m in ("na", "cmaes", "vdcma", "cpso") else "free", opt=o))
            if m in ("cmaes", "vdcma"):
                for mp in (0.34, 1.0):
                    c.append(dict(base, mode=mode, kind="grid", popsize=4, maxiter=3, draws="fixed", opt=dict(o, muperc=mp)))
            if m == "mcmc":
                c.append(dict(base, mode=mode, ndim=2, kind="grid", maxiter=3, opt=dict(o, perc=0.5)))
            if m == "hmc":
                c.append(dict(base, mode=mode, kind="grid", jac=False, opt=dict(nleap=2, finite_diff_abs_step=0.125)))
            if m == "de":
                for s in ("rand1bin", "best2bin", "rand2bin"):
                    c.append(dict(base, mode=mode, kind="grid", popsize=6, draws="fixed", opt=dict(strategy=s)))
            if m in ("de", "pso", "cpso"):
                c.append(dict(base, mode=mode, opt=dict(updating="deferred")))
            if opti:
                c.append(dict(base, mode=mode, tol="sym", **cheap))
                c.append(dict(base, mode=mode, kind="grid", return_all=True, verbosity=0.5))
                c.append(dict(base, mode=mode, kind="grid", draws="fixed", opt=dict(workers=2, backend="loky")))
        if m in ("de", "mcmc"):
            c.append(dict(base, mode="method", **cheap, opt=o))
        for via in ("generic", "direct"):
            d = dict(base, mode="default", via=via, kind="grid")
            for k in DEFAULTS[m]:
                fx = dict(draws="fixed")
                if k == "maxiter":
                    if m != "na" or via == "direct":
                        c.append(dict(d, skip=k, popsize=3 if m != "na" else 2, iters=100, jac=False, **fx, opt=o, cost=60))
                elif k == "popsize":
                    c.append(dict(d, skip=k, **fx))
                elif k == "nleap":
                    c.append(dict(d, skip=k, **fx))
                elif k in ("xtol", "ftol"):
                    c.append(dict(dict(d, kind="float"), skip=k, flo=-1, popsize=3 if m != "na" else 2,
                                  **({} if m in ("de", "pso") else fx), opt=dict(ftol=0.5) if k == "xtol" else dict(xtol=-1.0)))
                elif k in ("return_all", "verbosity", "workers", "backend", "jac"):
                    c.append(dict(d, skip=k, **fx, jac=k != "jac", opt=dict(o, **({"return_all": True} if k == "verbosity" else {}))))
                elif k == "finite_diff_abs_step":
                    c.append(dict(d, skip=k, kind="float", jac=False, **fx, opt=o))
                elif k == "muperc":
                    c.append(dict(d, skip=k, popsize=6, maxiter=3, **fx))
                elif k in ("nrperc",):
                    c.append(dict(d, skip=k, popsize=5, maxiter=3, **fx))
                elif k in ("updating", "strategy", "perc"):
                    c.append(dict(d, skip=k, ndim=2, popsize=6 if m == "de" else 3, maxiter=3, **fx, opt=o))
                else:
                    c.append(dict(d, skip=k, maxiter=3, **(fx if m in ("na", "cmaes", "vdcma", "cpso") else {}), opt=o))
                    if big:
                        c.append(dict(d, skip=k, maxiter=3, ndim=2, **(fx if m in ("na", "cmaes", "vdcma", "cpso") else {}), opt=o))
    return named(c)
