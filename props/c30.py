"""A longer run starts with the shorter one."""
from symex.harness import Callback, Objective

from .c18 import Grad
from .common import OPTIMIZERS, drive, make_bounds, make_x0, named

BOUNDS = ("1-2 variables, populations 2-5, runs of up to 5 iterations or samples (with fixed draws and values up to 130; 10 variables in some), draws and "
          "objective values symbolic and shared by both runs, tolerances out of reach or symbolic; CPSO with competitivity is not covered")


def scenario(env, cfg):
    env.tight()
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    m = cfg["method"]
    if cfg.get("draws") == "fixed":
        env.policy = lambda kind, k: ((0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)[(k + k // 7) % 7] if kind == "u"
                                      else (-1.5, 0.75, 0.4, -0.3, 1.1)[(k + k // 5) % 5] if kind == "n" else None)
    if cfg.get("draws") == "fixed" or m == "na":
        env.choice = lambda kind, k, n: tuple((j + k) % n for j in range(n)) if kind == "p" else k % n
    memo = {}
    opt = dict(cfg.get("opt", {}), return_all=cfg.get("keep", True))
    if m == "hmc":
        opt["nleap"] = 1
        opt["jac"] = Grad(env, len(lower))
        if cfg["maxiter"] + cfg["more"] > 35:  # a fixed gradient
            opt["jac"] = lambda x, *args: env.array([(0.5, -1.25)[j % 2] for j in range(len(lower))])

    def pick(k):
        p = cfg["popsize"]
        if cfg["f"] == "one" and k == cfg["free"]:
            return env.real("value", -1, 8) if m != "na" else float(env.concretize(env.int("value", -1, 8)))
        if cfg["f"] == "stagnate":  # the best value never changes while the others do
            return 1.0 if k % p == 0 else 2.0 + ((k * 7) % 11) / 4
        return (3.0, 1.0, 2.5, 0.5, 4.0, 2.0, 0.25)[(k + k // p) % 7] + 1.0 / (1 + k)

    def run(n):
        env.ndraw = {"u": 0, "n": 0, "i": 0, "p": 0}
        f = Objective(env, memo=memo, pick=pick if "f" in cfg else None)
        return drive(env, dict(cfg, opt=opt, maxiter=n), st=st, f=f, cb=Callback(env, f), bounds=env.copy(b), x0=None if x0 is None else env.copy(x0))

    st = env.load()
    n = cfg["maxiter"]
    a, c = run(n), run(n + cfg["more"])
    x, y = a.res, c.res
    info = lambda: {"short": dict(x or {}), "long": dict(y or {}), "exceptions": [repr(a.out.exc), repr(c.out.exc)],  # noqa: E731
                    "short points": [e.x for e in a.f.calls], "long points": [e.x for e in c.f.calls]}
    env.check("both runs complete", env.true(a.out.ok and c.out.ok), info)
    if not (a.out.ok and c.out.ok):
        return
    env.check("the long run evaluates at least as many points", env.true(len(c.f.calls) >= len(a.f.calls)), info)
    env.check("the long run starts with the points of the short one",
              env.and_([env.same(e.x, d.x) for e, d in zip(a.f.calls, c.f.calls)]), info)
    opti = m in OPTIMIZERS
    if opti and x.status != -1:
        env.check("a run that ended before does not change", env.and_([env.true(x.nit == y.nit and x.status == y.status and x.nfev == y.nfev),
                                                                       env.same(x.x, y.x), env.eq(x.fun, y.fun)]), info)
    env.check("a callback per iteration of the short run", env.true(len(c.cb.log) >= len(a.cb.log) and len(a.cb.log) >= 1), info)
    if len(c.cb.log) < len(a.cb.log):
        return
    for s, t in zip(a.cb.log, c.cb.log):
        env.check("both callbacks see the same", env.and_([env.same(s[k], t[k]) for k in ("x", "_X")] + [env.eq(s["fun"], t["fun"])] + [
            env.true(s.get(k) == t.get(k)) for k in ("nit", "nfev")]), info)
    t = c.cb.log[len(a.cb.log) - 1]
    env.check("the result of the short run is the state of the long one", env.and_([env.same(x.x, t["x"]), env.eq(x.fun, t["fun"])] + [
        env.true(x.get(k) == t.get(k)) for k in ("nit", "nfev") if k in t]), info)
    for k in ("xall", "funall"):
        if k in x:
            env.check("the history of the long run starts with that of the short one",
                      env.and_(env.true(len(y[k]) >= len(x[k])), env.same(x[k], y[k][:len(x[k])])), info)


def configs(tier):
    c = []
    big = tier != "quick"
    for m in OPTIMIZERS + ("mcmc", "hmc"):
        cons = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize", "mcmc": "Reject",
                "hmc": "Reject"}.get(m)
        opti = m in OPTIMIZERS
        pop = 3 if m == "de" else 2
        base = dict(method=m, popsize=pop)
        opts = [{}]
        if cons:
            opts.append(dict(constraints=cons))
        if m in ("de", "pso", "cpso"):
            opts.append(dict(updating="deferred"))
        for o in opts:
            if m == "cpso":
                o = dict(o, competitivity=None)
            for nd, n, more in ((1, 1, 1), (2, 1, 2), (1, 2, 1)) + (((2, 2, 2), (1, 3, 1)) if big else ()):
                slow = opti and n + more > 2
                g = dict(f="grid") if slow or m in ("cmaes", "vdcma", "na") else {}
                fr = dict(draws="fixed") if m in ("cmaes", "vdcma", "na") or (slow and m != "de") else {}
                c.append(dict(base, ndim=nd, maxiter=n, more=more, opt=o, **g, **fr))
            if opti:
                c.append(dict(base, ndim=2, maxiter=2, more=1, opt=o, x0="in", f="grid", draws="fixed"))
                c.append(dict(base, ndim=1, maxiter=2, more=1, opt=o, tol="symf", f="grid", draws="fixed", keep=False))
            # long runs: fixed draws and one arbitrary value
            free = (5, 17) if opti else (1, 4)
            for k in free:
                for n, more in ((3, 2), (8, 1), (8, 3 if m == "hmc" else 22)) + (((20, 5), (30, 70)) if big else ()):
                    if m == "na" and n > 3:  # exact arithmetic on the cells is slow
                        n, more = 5, min(more, 3)
                    c.append(dict(dict(base, popsize=5), ndim=1 if m == "na" else 2, maxiter=n, more=more, opt=o, f="one", free=k, draws="fixed",
                                  fork=True) if opti else dict(base, ndim=2, maxiter=n, more=more, opt=o, f="one", free=k, draws="fixed"))
            # beyond a hundred iterations, and with many variables
            if not o or big:
                if m != "na":
                    for n, more in ((45, 5), (60, 70)) if m != "hmc" else ((8, 30), (30, 40)):
                        c.append(dict(base, popsize=4, ndim=2, maxiter=n, more=more, opt=o, f="one", free=(n - 2) * (4 if opti else 1) + 1, draws="fixed", fork=opti))
                c.append(dict(base, popsize=12, ndim=10, maxiter=3, more=2, opt=o, f="one", free=17 if opti else 1, draws="fixed", fork=opti))
    # options that change how draws are spent
    for o in (dict(perc=0.5), dict(perc=0.2), dict(perc=0.5, constraints="Reject"), dict(perc=0.25, stepsize=0.3)):
        for nd in (2, 4):
            c.append(dict(method="mcmc", ndim=nd, maxiter=2, more=2, opt=o, f="grid", draws="fixed", popsize=5))
            c.append(dict(method="mcmc", ndim=nd, maxiter=4, more=3, opt=o, f="one", free=1, draws="fixed", popsize=5))
    for o in (dict(strategy="best1bin"), dict(strategy="rand2bin", updating="deferred"), dict(strategy="best2bin")):
        c.append(dict(method="de", ndim=2, maxiter=4, more=3, opt=o, f="one", free=7, draws="fixed", popsize=6, fork=True))
    c.append(dict(method="na", ndim=1, maxiter=3, more=2, opt=dict(nrperc=0.2), f="grid", draws="fixed", popsize=5))
    for o in (dict(muperc=0.25), dict(sigma=0.5), dict(muperc=1.0, constraints="Penalize")):
        for m in ("cmaes", "vdcma"):
            c.append(dict(method=m, ndim=2, maxiter=6, more=4, opt=o, f="one", free=17, draws="fixed", popsize=5, fork=True))
    # a best value that stagnates, with the stop on a flat history about to happen
    for m in OPTIMIZERS:
        if m != "na":
            for n, more in ((4, 12), (12, 2), (14, 26)) + (((9, 60), (25, 5)) if big else ()):
                for nd in (1, 2) if m != "vdcma" else (2,):
                    o = dict(competitivity=None) if m == "cpso" else {}
                    c.append(dict(method=m, ndim=nd, maxiter=n, more=more, opt=o, f="stagnate", draws="fixed", popsize=6, fork=True))
    return named(c)
