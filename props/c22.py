"""Valid problems run to completion and give finite numbers."""
import math

from symex.harness import Callback, Objective

from .common import BOXES, LONG, OPTIMIZERS, drive, extended, make_bounds, make_x0, named, quiet

BOUNDS = ("1-2 variables, populations of the smallest valid size up to 4, 1-4 iterations or samples; draws and objective values "
          "symbolic (fixed where stated), fractions of parents symbolic over their domain, float, integer and list inputs, boxes with "
          "a fixed variable. Divisions by a symbolic zero (two coinciding draws) are outside") + LONG

NEED = {"best1bin": 3, "rand1bin": 4, "best2bin": 5, "rand2bin": 6}


def finite(env, a):
    return all(not isinstance(e, float) or math.isfinite(e) for e in env.flat(a)[0])


def scenario(env, cfg):
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    opt = dict(cfg.get("opt", {}))
    for k, v in cfg.get("sym", {}).items():
        opt[k] = env.real(k, *v[:2])
        if v[2:] == ("open",):
            env.assume(env.holds(opt[k] > v[0]))
    if cfg.get("draws") == "fixed":
        env.policy = lambda kind, k: ((0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)[k % 7] if kind == "u"
                                      else (-1.5, 0.75, 0.4, -0.3, 1.1)[k % 5] if kind == "n" else None)
    if cfg.get("wide"):  # far draws
        env.policy = lambda kind, k: (12.0, -9.0, 15.0, 0.25, -0.5, 3.0, -11.0)[k % 7] if kind == "n" else None
    f = Objective(env, kind=cfg.get("kind", "float"), fn=(lambda x: 1.0) if cfg.get("kind") == "flat" else None)
    if cfg.get("kind") == "grid":
        f.pick = lambda k: (3.0, 1.0, 2.5, 0.5, 4.0, 2.0, 0.25)[k % 7] + k // 7
    if cfg.get("long"):
        f.pick = quiet(env, cfg)
    r = drive(env, dict(cfg, opt=opt), f=f, cb=Callback(env, f), bounds=b, x0=x0)
    info = {"exception": repr(r.out.exc), "calls": len(f.calls)}
    env.check("the run ends without an exception", env.true(r.out.ok), info)
    if not r.out.ok:
        return
    res = r.res
    env.check("every evaluated point is finite", env.true(all(finite(env, c.x) for c in f.calls)),
              lambda: {"points": [c.x for c in f.calls]})
    for k in ("x", "fun", "xall", "funall", "nit", "nfev", "accept_ratio"):
        if res.get(k) is not None:
            env.check(f"{k} is finite", env.true(finite(env, res[k])), lambda: {k: res[k]})  # noqa: B023
    env.check("callback states are finite", env.true(all(finite(env, s["x"]) and finite(env, s["fun"]) and finite(env, s["_X"])
                                                         for s in r.cb.log)), lambda: {"states": r.cb.log})
    if "status" in res:
        env.check("success and message are set", env.true(isinstance(res.message, str) and len(res.message) > 0))


def configs(tier):
    c = []
    big = tier != "quick"
    for m in OPTIMIZERS:
        cma = m in ("cmaes", "vdcma")
        strategies = ("best1bin", "rand1bin", "best2bin", "rand2bin") if m == "de" else (None,)
        upd = ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,)
        cons = {"de": (None, "Random"), "pso": (None, "Shrink"), "cpso": (None, "Shrink"), "na": (None,)}.get(m, (None, "Penalize"))
        for s in strategies:
            for u in upd:
                for cn in cons:
                    o = {k: v for k, v in (("strategy", s), ("updating", u), ("constraints", cn)) if v is not None}
                    p = NEED.get(s, 2)
                    for nd in (1, 2):
                        for it in (1, 2):
                            sym = p <= 3 and (it == 1 or nd == 1 or m == "de") and not cma
                            c.append(dict(method=m, ndim=nd, popsize=p, maxiter=it, kind="float" if sym else "grid", opt=o,
                                          **({} if m not in ("na",) or it == 1 else dict(draws="fixed"))))
                        for bd in ("fixed", "int"):
                            for x0 in ("list", "int"):
                                if (x0 == "int" and bd == "fixed") or (m == "de" and p > 4):
                                    continue
                                c.append(dict(method=m, ndim=nd, popsize=p, maxiter=2, bounds=bd, x0="int" if x0 == "int" else "grid",
                                              kind="grid", opt=o, **({} if m != "na" else dict(draws="fixed"))))
                    for nd in (1, 2):
                        c.append(dict(method=m, ndim=nd, popsize=p, maxiter=2, bounds="degenerate", anomalies=True, kind="grid", opt=o,
                                      **({} if m != "na" else dict(draws="fixed"))))
                        c.append(dict(method=m, ndim=nd, popsize=p, maxiter=2, bounds="degenerate", anomalies=True, kind="grid", x0="in", opt=o,
                                      **({} if m != "na" else dict(draws="fixed"))))
                    c.append(dict(method=m, ndim=2, popsize=p, maxiter=3, kind="flat", draws="fixed", opt=o))
                    for q, nd in ((p, 1), (p, 2), (p + 1, 2)):
                        c.append(dict(method=m, ndim=nd, popsize=q, maxiter=3 if m != "na" else 2, kind="grid", x0="edge", draws="fixed", anomalies=True, opt=o))
                    c.append(dict(method=m, ndim=1 if m == "na" else 2, popsize=p, maxiter=3, kind="grid", draws="fixed", return_all=True, tol="sym",
                                  opt=o, sym=dict(verbosity=(0, 1))))
        if m == "na":
            for p in (2, 3, 4):
                c.append(dict(method=m, ndim=1, popsize=p, maxiter=2, kind="grid", draws="fixed", sym=dict(nrperc=(0, 1, "open"))))
            c.append(dict(method=m, ndim=2, popsize=2, maxiter=3 if big else 2, kind="grid", draws="fixed", sym=dict(nrperc=(0, 1, "open"))))
        if cma:
            for p in (2, 3, 4) + ((5, 7) if big else ()):
                for cn in cons:
                    for nd in (1, 2):
                        c.append(dict(method=m, ndim=nd, popsize=p, maxiter=3, kind="grid", draws="fixed",
                                      opt={} if cn is None else dict(constraints=cn), sym=dict(muperc=(0, 1, "open"))))
                        c.append(dict(method=m, ndim=nd, popsize=p, maxiter=2, kind="grid", draws="fixed", x0="grid",
                                      opt={} if cn is None else dict(constraints=cn), sym=dict(sigma=(0.05, 2))))
                if p <= 3 or big:
                    c.append(dict(method=m, ndim=2, popsize=p, maxiter=3, kind="grid", wide=True, opt=dict(constraints="Penalize")))
                    c.append(dict(method=m, ndim=1, popsize=p, maxiter=3, kind="flat", wide=True, opt=dict(constraints="Penalize")))
            c.append(dict(method=m, ndim=2, popsize=3, maxiter=2, kind="float", draws="fixed"))
            c.append(dict(method=m, ndim=2, popsize=3, maxiter=2, kind="float", wide=True, opt=dict(constraints="Penalize")))
    for m in ("mcmc", "hmc"):
        for cn in (None, "Reject"):
            o = dict(constraints=cn) if cn else {}
            if m == "hmc":
                o["nleap"] = 1
            for nd in (1, 2):
                for it in (1, 2, 3):
                    c.append(dict(method=m, ndim=nd, maxiter=it, opt=o))
                for bd in ("int", "degenerate"):
                    c.append(dict(method=m, ndim=nd, maxiter=2, bounds=bd, anomalies=True, opt=o))
                    c.append(dict(method=m, ndim=nd, maxiter=2, bounds=bd, anomalies=True, x0="in", opt=o))
                c.append(dict(method=m, ndim=nd, maxiter=2, bounds="int", x0="int", opt=o))
                c.append(dict(method=m, ndim=nd, maxiter=3, kind="int", draws="fixed", opt=o))
            if m == "mcmc":
                for nd in (1, 2, 3) + ((4,) if big else ()):
                    for it in (2, 3, 4) + ((5, 6) if big else ()):
                        c.append(dict(method=m, ndim=nd, maxiter=it, draws="fixed", opt=o, sym=dict(perc=(0, 1))))
    for m in OPTIMIZERS:
        con = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}.get(m)
        for up in ("immediate", "deferred") if m in ("de", "pso", "cpso") else (None,):
            o = dict(updating=up) if up else {}
            c += extended(m, 24, 45, opt=o, anomalies=True)
            c += extended(m, 0, 45, ("flat", "fall", "plateau", "noise"), opt=dict(o, constraints=con) if con not in (None, "Penalize") else o, x0="edge", anomalies=True)
            c += extended(m, 0, 130, ("kept", "settle"), opt=o, anomalies=True)
    for m in ("mcmc", "hmc"):
        for law in ("fall", "noise", "flat"):
            c.append(dict(method=m, maxiter=60, ndim=2, long=law, free=(30,), opt=dict(nleap=2) if m == "hmc" else {}))
    return named(c)
