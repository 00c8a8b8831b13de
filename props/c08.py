"""Same seed, same run: points evaluated and results do not depend on what happened before."""
from symex.harness import Callback, Objective

from .common import LONG, OPTIMIZERS, drive, extended, make_bounds, make_x0, named, quiet

BOUNDS = ("popsize 2-4, 1-2 variables, 1-3 iterations or 3 samples, seeds 1 and 0, arbitrary contents of uninitialised "
          "arrays, another run and arbitrary draws in between") + LONG


def same_run(env, what, a, b):
    info = lambda: {"first": [c.x for c in a.f.calls], "second": [c.x for c in b.f.calls],  # noqa: E731
                    "results": [dict(r.res or {}) for r in (a, b)], "exceptions": [repr(r.out.exc) for r in (a, b)]}
    env.check(f"{what}: same number of evaluations", env.true(len(a.f.calls) == len(b.f.calls)), info)
    env.check(f"{what}: same points evaluated",
              env.and_([env.true()] + [env.same(x.x, y.x) for x, y in zip(a.f.calls, b.f.calls)]), info)
    env.check(f"{what}: same outcome", env.true(a.out.ok == b.out.ok), info)
    env.check("the runs end without an exception", env.true(a.out.ok and b.out.ok), lambda: {"exceptions": [repr(a.out.exc), repr(b.out.exc)]})
    if not (a.out.ok and b.out.ok):
        return
    x, y = a.res, b.res
    env.check(f"{what}: same result", env.and_(env.true(x.nit == y.nit and x.get("status") == y.get("status")),
                                               env.same(x.x, y.x), env.eq(x.fun, y.fun)), info)
    for k in ("xall", "funall"):
        if x.get(k) is not None and y.get(k) is not None:
            env.check(f"{what}: same history", env.same(x[k], y[k]), info)


def scenario(env, cfg):
    env.tight()
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    memo = {}
    law = quiet(env, cfg) if cfg.get("long") else None

    def one(st, **opt):
        f = Objective(env, memo=memo, pick=law)
        c = dict(cfg, opt=dict(cfg.get("opt", {}), **opt))
        return drive(env, c, st=st, f=f, cb=Callback(env, f) if cfg.get("cb") else False, bounds=b,
                     x0=None if x0 is None else env.copy(x0))
    mode = cfg["again"]
    seed = cfg.get("seed", 1)
    st = env.load()
    rnd = env.random
    a = one(st)
    if mode == "between":  # draws of the caller and a run of another method in the meantime
        rnd.rand(2)
        other = "pso" if cfg["method"] != "pso" else "de"
        drive(env, dict(method=other, popsize=3, maxiter=2, ndim=1, seed=None if cfg.get("noseed") else 5), st=st, cb=False)
        rnd.randn(1)
        second = one(st)
    elif mode == "fresh":  # a new process
        second = one(env.load())
    elif mode == "global":  # the caller seeds the generator instead
        st2 = env.load()
        env.random.seed(seed)
        second = one(st2, seed=None)
    same_run(env, {"between": "after other runs and draws", "fresh": "in a new process",
                   "global": "seeding the global generator"}[mode], a, second)


def configs(tier):
    c = []
    big = tier != "quick"
    for mode in ("between", "fresh", "global"):
        for m in OPTIMIZERS + ("mcmc", "hmc"):
            if m in OPTIMIZERS:
                upd = m in ("de", "pso", "cpso")
                c.append(dict(method=m, again=mode, popsize=3, maxiter=2, ndim=1, return_all=True))
                if mode == "fresh" or big:
                    if upd:
                        c.append(dict(method=m, again=mode, popsize=3, maxiter=2, ndim=2, opt={"updating": "deferred"}))
                    c.append(dict(method=m, again=mode, popsize=3, maxiter=2, ndim=1, x0="in", cb=True))
                con = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}.get(m)
                if con:
                    c.append(dict(method=m, again=mode, popsize=3, maxiter=1 if con == "Penalize" else 2, ndim=1, bounds="std",
                                  x0="grid" if upd else "out", kind="float", opt=dict(constraints=con, **({"updating": "deferred"} if upd else {}))))
            else:
                c.append(dict(method=m, again=mode, maxiter=3, ndim=2 if m == "mcmc" else 1, cb=True, opt=dict(nleap=1) if m == "hmc" else dict(perc=0.5)))
                c.append(dict(method=m, again=mode, maxiter=2, ndim=1, x0="in", opt=dict(nleap=1, constraints="Reject") if m == "hmc" else dict(constraints="Reject")))
    c.append(dict(method="cpso", again="between", bounds="tiny", x0="grid", popsize=3, maxiter=3, ndim=1, kind="firstbest", opt=dict(competitivity=2.0, updating="deferred")))
    for m in ("de", "mcmc"):
        c.append(dict(method=m, again="fresh", seed=0, popsize=3, maxiter=2, ndim=1))
        c.append(dict(method=m, again="between", seed=0, popsize=3, maxiter=2, ndim=1))
    for m in OPTIMIZERS:
        for up in ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,):
            for mode in ("fresh", "between"):
                con = {"de": "Random", "pso": "Shrink", "cpso": "Shrink"}.get(m)
                if con:
                    c += extended(m, 24, 30, ("fall",) if mode == "fresh" else ("noise",), again=mode, x0="edge", opt=dict(updating=up, constraints=con))
                c += extended(m, 24 if mode == "fresh" else 0, 40 if m != "na" else 6, ("fall", "plateau") if mode == "fresh" else ("settle", "kept"), again=mode, x0="grid" if mode == "between" else "none",
                              return_all=True, opt=dict(updating=up) if up else {})
    for m in ("mcmc", "hmc"):
        for mode in ("fresh", "between"):
            for law in ("fall", "noise"):
                c.append(dict(method=m, again=mode, maxiter=40, ndim=2, long=law, free=(30,), opt=dict(nleap=2) if m == "hmc" else {}))
    return named(c)
