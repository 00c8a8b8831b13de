"""Observing a run changes nothing."""
from symex.harness import Callback, Objective

from .c18 import Grad, Slope
from .common import LONG, OPTIMIZERS, drive, extended, make_bounds, make_x0, named, quiet

BOUNDS = ("1-2 variables, populations 2-4, 1-3 iterations or samples, verbosity a real variable in [0, 1], draws and objective values "
          "symbolic (integers when the kind of number returned changes), shared by both runs") + LONG


class Kinds(Objective):
    """The same values, given as another kind of number."""

    def __init__(self, env, as_, **k):
        super().__init__(env, **k)
        self.as_ = as_

    def __call__(self, x, *args):
        v = super().__call__(x, *args)
        if self.as_ == "array0":
            return self.env.arr([v], (1,), None)[0]
        if self.as_ == "float":
            return v * 1.0
        if self.as_ == "mixed":
            return v * 1.0 if len(self.calls) % 2 else v
        return v


def scenario(env, cfg):
    env.tight()
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    m = cfg["method"]
    if cfg.get("draws") == "fixed":
        env.policy = lambda kind, k: ((0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)[k % 7] if kind == "u"
                                      else (-1.5, 0.75, 0.4, -0.3, 1.1)[k % 5] if kind == "n" else None)
    if cfg.get("draws") == "fixed" or m == "na":
        env.choice = lambda kind, k, n: tuple(range(n)) if kind == "p" else 0
    law = quiet(env, cfg) if cfg.get("long") else None
    memo = {}
    opt = dict(cfg.get("opt", {}))
    if m == "hmc":
        opt["nleap"] = 1
        opt["jac"] = (Slope if cfg.get("long") else Grad)(env, len(lower))

    def run(observe, as_):
        env.ndraw = {"u": 0, "n": 0, "i": 0, "p": 0}
        f = Kinds(env, as_, memo=memo, kind="int" if cfg.get("kinds") else "float",
                  pick=(lambda k: (3.0, 1.0, 2.5, 0.5, 4.0, 2.0, 0.25)[k % 7] + 1.0 / (1 + k)) if cfg.get("f") == "grid" else law)
        o = dict(opt)
        if observe:
            o["return_all"] = cfg.get("keep", True)
            if m in OPTIMIZERS:
                o["verbosity"] = env.real("verbosity", 0, 1) if cfg.get("symv") else cfg.get("verb", 1.0)
        else:
            o["return_all"] = cfg.get("kinds") is not None and cfg.get("keep", True)
        cb = Callback(env, f) if observe and cfg.get("callback", True) else False
        return drive(env, dict(cfg, opt=o), f=f, cb=cb, bounds=env.copy(b), x0=None if x0 is None else env.copy(x0))

    kinds = cfg.get("kinds")
    a = run(False, "plain")
    c = run(kinds is None or cfg.get("observe", False), kinds or "plain")
    x, y = a.res, c.res
    info = lambda: {"plain": dict(x or {}), "observed": dict(y or {}), "exceptions": [repr(a.out.exc), repr(c.out.exc)],  # noqa: E731
                    "plain points": [e.x for e in a.f.calls], "observed points": [e.x for e in c.f.calls]}
    env.check("both runs complete", env.true(a.out.ok and c.out.ok), info)
    env.check("same number of evaluations", env.true(len(a.f.calls) == len(c.f.calls)), info)
    env.check("same points evaluated", env.and_([env.same(e.x, d.x) for e, d in zip(a.f.calls, c.f.calls)]), info)
    if not (a.out.ok and c.out.ok):
        return
    env.check("same result", env.and_([env.same(x.x, y.x), env.eq(x.fun, y.fun), env.true("accept_ratio" not in x)
                                     if "accept_ratio" not in x else env.eq(x.accept_ratio, y.accept_ratio)]), info)
    for k in ("nit", "nfev", "status", "success", "message"):
        env.check(f"same {k}", env.true(x.get(k) == y.get(k)), info)
    for k in ("xall", "funall"):
        if k in x and k in y:
            env.check("same history", env.same(x[k], y[k]), info)


def configs(tier):
    c = []
    big = tier != "quick"
    for m in OPTIMIZERS + ("mcmc", "hmc"):
        cons = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize", "mcmc": "Reject",
                "hmc": "Reject"}.get(m)
        opti = m in OPTIMIZERS
        free = dict(draws="fixed") if m in ("na", "cmaes", "vdcma") else {}
        pop = 3 if m == "de" else 2
        base = dict(method=m, popsize=pop)
        opts = [{}]
        if cons:
            opts.append(dict(constraints=cons))
        if m in ("de", "pso", "cpso"):
            opts.append(dict(updating="deferred"))
        for o in opts:
            for nd, it in ((1, 2), (2, 2), (1, 3)) + (((2, 3), (3, 2)) if big else ()):
                slow = it == 3 and opti
                g = dict(f="grid") if slow or m in ("cmaes", "vdcma", "na") else {}
                fr = dict(draws="fixed") if slow and (m != "de") else free
                c.append(dict(base, ndim=nd, maxiter=it, opt=o, **g, **fr))
                c.append(dict(base, ndim=nd, maxiter=it, opt=o, callback=False, **g, **fr))
                if opti:
                    c.append(dict(base, ndim=nd, maxiter=it, opt=o, symv=True, f="grid", **fr))
                    c.append(dict(base, ndim=nd, maxiter=it, opt=o, keep=False, **g, **fr))
                else:
                    c.append(dict(base, ndim=nd, maxiter=it, opt=o, keep=False))
            for kd in ("float", "mixed", "array0"):
                for it in (1, 2):
                    c.append(dict(base, ndim=1, maxiter=it, opt=o, kinds=kd, **(free if m != "na" else dict(draws="fixed"))))
                c.append(dict(base, ndim=1, maxiter=2, opt=o, kinds=kd, x0="in", observe=True, **free))
        if opti:
            c.append(dict(base, ndim=1, maxiter=2, tol="sym", f="grid", **free))
            c.append(dict(dict(base, popsize=4), ndim=2, maxiter=3, tol="symf", symv=True, f="grid", draws="fixed"))
        if m in ("cmaes", "vdcma"):
            c.append(dict(base, ndim=2, maxiter=12, f="grid", draws="fixed"))
    for m in OPTIMIZERS:
        con = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}.get(m)
        for up in ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,):
            o = dict(updating=up) if up else {}
            c += extended(m, 24, 40 if m not in ("na", "vdcma") else 8, ("fall", "noise", "kept"), opt=o)
            c += extended(m, 0, 40, ("settle", "plateau"), opt=dict(o, constraints=con) if con not in (None, "Penalize") else o, tol="symf")
    for m in ("mcmc", "hmc"):
        for law in ("fall", "noise"):
            c.append(dict(method=m, maxiter=40, ndim=2, long=law, free=(30,)))
    return named(c)
