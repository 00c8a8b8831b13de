"""Variables with equal bounds."""
from symex.harness import Callback, Objective

from .common import BOXES, OPTIMIZERS, drive, named

BOUNDS = ("2-3 variables one of which is fixed, in any position, at a real value in [-10, 10]; populations 2-3, 2-3 iterations; also 10 variables, populations of 18 and 25 iterations with fixed draws and values; draws "
          "and objective values symbolic (fixed draws for NA beyond the first move, CMA-ES and VD-CMA), shared by both runs")


def scenario(env, cfg):
    env.tight()
    m, nd, at = cfg["method"], cfg["ndim"], cfg["at"]
    va, vb = env.real("va", -10, 10), env.real("vb", -10, 10)
    if cfg.get("draws") == "fixed":
        env.policy = lambda kind, k: ((0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)[k % 7] if kind == "u"
                                      else (-1.5, 0.75, 0.4, -0.3, 1.1)[k % 5] if kind == "n" else None)
    if cfg.get("draws") == "fixed" or m == "na":
        env.choice = lambda kind, k, n: tuple(range(n)) if kind == "p" else 0
    pop = cfg.get("popsize", 3)
    grid = (0.125, 0.75, 0.5, 0.9375, 0.25, 0.625, 0.0625, 0.375)
    vals = []

    def run(v):
        env.ndraw = {"u": 0, "n": 0, "i": 0, "p": 0}
        b = [list(BOXES[3][j] if j < 3 else BOXES[10][j]) for j in range(nd)]
        b[at] = [v, v]
        x0 = None
        if cfg.get("x0"):
            one = m in ("cmaes", "vdcma", "mcmc", "hmc")
            rows = [[v if j == at else b[j][0] + grid[(2 * i + 3 * j) % 8] * (b[j][1] - b[j][0]) for j in range(nd)]
                    for i in range(1 if one else pop)]
            x0 = rows[0] if one else rows
        f = Objective(env)

        def value(x):
            k = len(f.calls)
            if k == len(vals):
                vals.append(env.real(f"f{k}", -10, 10) if cfg.get("f") != "grid" else
                            (3.0, 1.0, 2.5, 0.5, 4.0, 2.0, 0.25)[k % 7] + 1.0 / (1 + k))
            return vals[k]
        f.fn = value
        c = dict(cfg)
        c.pop("x0", None)
        r = drive(env, dict(c, return_all=True), f=f, cb=Callback(env, f), bounds=b, x0=x0)
        env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
        for c in r.f.calls:
            env.check("every evaluated point keeps the value", env.eq(c.x[at], v), lambda: {"x": c.x, "value": v}, at=c)  # noqa: B023
        for s in r.cb.log:
            env.check("every callback keeps the value", env.and_([env.eq(s["x"][at], v)] + [env.eq(x[at], v) for x in s["_X"]]),
                      lambda: {"x": s["x"], "X": s["_X"], "value": v})  # noqa: B023
        if r.out.ok:
            env.check("the result keeps the value", env.eq(r.res.x[at], v), lambda: {"x": r.res.x, "value": v})
            env.check("the history keeps the value", env.and_([env.eq(x[at], v) for it in r.res.xall for x in it]),
                      lambda: {"xall": r.res.xall, "value": v})
        return r
    a = run(va)
    if not cfg.get("both", True) or not a.out.ok:
        return
    c = run(vb)
    info = lambda: {"first": [e.x for e in a.f.calls], "second": [e.x for e in c.f.calls], "values": [va, vb]}  # noqa: E731
    env.check("same number of evaluations", env.true(len(a.f.calls) == len(c.f.calls)), info)
    env.check("the other variables do not depend on the value",
              env.and_([env.eq(e.x[j], d.x[j]) for e, d in zip(a.f.calls, c.f.calls) for j in range(nd) if j != at]), info)


def configs(tier):
    c = []
    big = tier != "quick"
    for m in OPTIMIZERS:
        cma = m in ("cmaes", "vdcma")
        cons = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize"}.get(m)
        pop = 3 if m in ("de", "cpso") else 2
        for nd, at in ((2, 0), (2, 1), (3, 1)):
            for x0 in (False, True):
                for o in [{}] + ([dict(constraints=cons)] if cons else []) + ([dict(updating="deferred")] if m in ("de", "pso", "cpso") else []):
                    g = {} if m == "de" else dict(f="grid")
                    d = dict(draws="fixed") if cma or m == "na" else {}
                    c.append(dict(method=m, ndim=nd, at=at, x0=x0, popsize=pop, maxiter=2, opt=o, tol="off", **g, **d))
                    if nd == 2 and (at == 0 or big):
                        c.append(dict(method=m, ndim=nd, at=at, x0=x0, popsize=pop, maxiter=3, opt=o, f="grid", draws="fixed"))
                        if m == "cpso" and not o:
                            c.append(dict(method=m, ndim=nd, at=at, x0=x0, popsize=2, maxiter=3, opt=dict(competitivity=2.0), f="grid",
                                          draws="fixed"))
        if m == "de":
            for s, p in (("rand1bin", 4), ("best2bin", 5), ("rand2bin", 6)):
                c.append(dict(method=m, ndim=2, at=1, x0=False, popsize=p, maxiter=2, opt=dict(strategy=s), f="grid"))
        # long and wide
        for o in [{}] + ([dict(constraints=cons)] if cons else []):
            far = dict(method=m, f="grid", draws="fixed", opt=o, both=m != "na")
            if m != "na":
                for at in (0, 1):
                    c.append(dict(far, ndim=2, at=at, x0=False, popsize=4, maxiter=25 if m not in ("cmaes", "vdcma") or big else 12))
            if m != "cmaes":
                for x0 in (False, True):
                    c.append(dict(far, ndim=10, at=7, x0=x0, popsize=6 if m == "na" else 18, maxiter=3))
        if m == "na":
            for at in (0, 1):
                c.append(dict(method=m, ndim=2, at=at, x0=False, popsize=2, maxiter=2, f="grid"))
    return named(c)
