"""Samplers: the reported best, the pairing of samples and values, and the statistics."""
from symex.harness import Callback, Objective

from .common import LONG, drive, evaluated, is_min, make_bounds, make_x0, named, quiet

BOUNDS = "1-2 variables, 1-5 samples; objective values in [-10, 10]; draws symbolic (normals away from zero)" + LONG


class Flat:
    """A zero gradient."""

    def __init__(self, env, nd):
        self.env, self.nd = env, nd

    def __call__(self, x, *args):
        return self.env.array([0.0] * self.nd)


def scenario(env, cfg):
    env.tight()
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    nd, n = len(lower), cfg["maxiter"]
    if cfg.get("moves", True):  # a proposal never equals the sample it starts from
        env.policy = lambda kind, k: env.real(f"z{k}", 0.1, 3) if kind == "n" else None
    if cfg.get("long"):
        law = quiet(env, cfg)
        env.policy = lambda kind, k: 0.25 + (5 * k % 7) / 4 if kind == "n" else None if k == n - 5 else 0.02 if k % 4 else 0.7
    opt = dict(cfg.get("opt", {}))
    if cfg.get("jac"):
        opt["jac"] = Flat(env, nd)
    if cfg.get("before"):  # another run in the same session
        st = env.load()
        env.call(st.sample.sample, lambda x: 1.0, [list(q) for q in b] if isinstance(b, list) else b, x0=env.copy(x0), method=cfg["method"],
                 options=dict(opt, maxiter=2, seed=3))
    else:
        st = None
    f = Objective(env, pick=law) if cfg.get("long") else Objective(env)
    r = drive(env, dict(cfg, opt=opt), st=st, f=f, cb=Callback(env, f) if cfg.get("callback", True) else False, bounds=b, x0=x0)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    res, log = r.res, r.cb.log if r.cb else []
    keep = cfg.get("return_all", True)
    if r.cb:
        env.check("one callback per sample", env.true(len(log) == n), lambda: {"callbacks": len(log)})
        if len(log) != n:
            return
    if keep:
        X, F = res.xall, res.funall
        env.check("the history holds every sample", env.true(tuple(env.shape(X)) == (n, nd) and tuple(env.shape(F)) == (n,)))
        if tuple(env.shape(X)) != (n, nd):
            return
    else:
        X = [s["_X"] for s in log]
        F = None
        env.check("no history unless asked for", env.true(all(res.get(k) is None for k in ("xall", "funall"))
                                                          and all(s.get(k) is None for s in log for k in ("xall", "funall"))))
    if F is None:  # values by point
        F = [f.memo.get(env.key(env.flat(x)[0])) for x in X]
        if any(v is None for v in F):
            env.check("samples are evaluated points", env.true(False), lambda: {"samples": X})
            return
    info = lambda: {"samples": X, "values": F, "x": res.x, "fun": res.fun}  # noqa: E731
    for k in range(n):
        env.check("each sample is paired with its value", evaluated(env, X[k], F[k], f.calls), info)
    best = lambda x, v, m: env.and_(is_min(env, v, [F[k] for k in range(m)]),  # noqa: E731
                                    env.or_([env.and_(env.same(x, X[k]), env.eq(v, F[k])) for k in range(m)]))
    env.check("the result is the best of all samples", best(res.x, res.fun, n), info)
    env.check("nit counts the samples", env.eq(res.nit, n))
    if cfg["method"] == "hmc":
        env.check("nfev counts the calls", env.eq(res.nfev, len(f.calls)), lambda: {"nfev": res.nfev, "calls": len(f.calls)})
    for k, s in enumerate(log):
        ci = lambda: {"callback": k + 1, "x": s.get("x"), "fun": s.get("fun"), "xk": s["_X"], "samples": X, "values": F,  # noqa: B023,E731
                      "xall": s.get("xall"), "funall": s.get("funall"), "nit": s.get("nit")}
        env.check("callback: the sample", env.same(s["_X"], X[k]), ci)
        env.check("callback: the best so far", best(s["x"], s["fun"], k + 1), ci)
        env.check("callback: nit", env.eq(s["nit"], k + 1), ci)
        if keep:
            env.check("callback: the samples so far", env.and_(env.same(s["xall"], [X[i] for i in range(k + 1)]),
                                                              env.same(s["funall"], [F[i] for i in range(k + 1)])), ci)
    if not cfg.get("moves", True) or cfg["method"] == "hmc" and not cfg.get("jac"):
        return
    acc = 0
    for k in range(1, n):
        if env.decide(env.not_(env.same(X[k], X[k - 1]))):
            acc += 1
        if k < len(log):
            env.check("callback: acceptance ratio", env.eq(log[k]["accept_ratio"], acc / (k + 1)),
                      lambda: {"k": k, "given": log[k]["accept_ratio"], "accepted": acc})  # noqa: B023
    env.check("acceptance ratio", env.eq(res.accept_ratio, acc / n), lambda: {"given": res.accept_ratio, "accepted": acc, "samples": n})


def configs(tier):
    c = []
    big = tier != "quick"
    for m, jac in (("mcmc", False), ("hmc", True), ("hmc", False)):
        j = dict(jac=True) if jac else {}
        for n in (1, 2, 3) + ((4, 5) if m == "mcmc" or jac else ()) + ((6,) if big and m == "mcmc" else ()):
            c.append(dict(method=m, x0="in", maxiter=n, ndim=1, opt={}, **j))
        c.append(dict(method=m, x0="in", maxiter=3, ndim=2, opt={} if m == "hmc" else dict(perc=0.5), **j))
        c.append(dict(method=m, maxiter=3, ndim=2, opt={}, **j))
        c.append(dict(method=m, x0="in", maxiter=3, ndim=1, return_all=False, opt={}, **j))
        c.append(dict(method=m, x0="in", maxiter=3, ndim=1, callback=False, opt={}, **j))
        c.append(dict(method=m, x0="in", maxiter=3, ndim=1, opt=dict(constraints="Reject"), **j))
        c.append(dict(method=m, x0="list", maxiter=2, ndim=2, kind="int", opt={}, **j))
        c.append(dict(method=m, x0="in", maxiter=2, ndim=1, before=True, opt={}, **j))
        c.append(dict(method=m, x0="in", maxiter=2, ndim=2, moves=False, opt={}, **j))
    c.append(dict(method="mcmc", x0="in", maxiter=4, ndim=3, opt=dict(perc=0.34)))
    c.append(dict(method="mcmc", x0="in", maxiter=4, ndim=2, opt=dict(constraints="Reject", perc=0.5)))
    for m, jac in (("mcmc", False), ("hmc", True)):
        for law in ("kept", "noise", "fall", "settle"):
            for v in (True, False):
                c.append(dict(method=m, x0="grid", maxiter=90 if v and law == "kept" else 45, ndim=1 if law == "fall" else 2, long=law, free=(40,), return_all=v, opt={}, **(dict(jac=True) if jac else {})))
    return named(c)
