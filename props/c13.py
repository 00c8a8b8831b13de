"""NA: new points lie in the Voronoi cells of the best points found before."""
from symex.harness import Callback, Objective

from .common import GRID, LONG, any_rank, drive, make_bounds, make_x0, named, quiet

BOUNDS = ("populations of 2-5, 1-3 variables (one of them possibly fixed), up to 3 generations from fixed starting points; the "
          "uniform draws (in [1/64, 63/64]) of one generation and the objective values of one individual per generation are symbolic") + LONG


def scenario(env, cfg):
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    n, nd, gens = cfg["popsize"], len(lower), cfg["maxiter"] - 1
    free = [j for j in range(nd) if upper[j] > lower[j]]
    span = {j: upper[j] - lower[j] for j in free}
    nr = max(1, int(cfg["nrperc"] * n))
    f = None

    focus = cfg.get("focus", 0)
    first = [None]

    def draws(kind, k):  # arbitrary for one individual of the last generation, fixed before
        if f is not None and len(f.calls) >= n * gens:
            if first[0] is None:
                first[0] = k
            if (k - first[0]) // len(free) == focus and ((k - first[0]) % len(free)) in cfg.get("axes", (0, 1)):
                return env.real(f"u{k}", 0.015625, 0.984375)  # at the very edge of a cell rounding may pick the side
        return GRID[(5 * k + k // 8) % 8]

    def pick(k):
        i, g = k % n, k // n
        if cfg.get("long"):
            return law(k)
        if g < gens and (cfg.get("values") or i == (focus + g) % n):  # any rank among the values so far
            return any_rank(env, f"rank{k}", [c.f for c in f.calls])
        return 1.0 * ((i * 2 + g) % n) - 0.3 * g * (-1) ** i - 0.01 * k

    law = quiet(env, cfg) if cfg.get("long") else None
    env.policy = draws
    f = Objective(env, pick=pick)
    r = drive(env, dict(cfg, opt=dict(cfg.get("opt", {}), nrperc=cfg["nrperc"])), f=f, cb=Callback(env, f), bounds=b, x0=x0)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    env.check("popsize points per generation", env.true(len(f.calls) == n * (gens + 1)), lambda: {"calls": len(f.calls)})
    if len(f.calls) != n * (gens + 1):
        return
    for a in range(len(f.calls)):  # ties may be broken either way
        for c in range(a):
            if f.calls[a].f is not f.calls[c].f:
                env.assume(env.not_(env.eq(f.calls[a].f, f.calls[c].f)))
    for g in range(1, gens + 1):
        seen = list(range(g * n))
        rank = sorted_by(env, seen, f)[:nr]
        for i in range(n):
            x, v = f.calls[g * n + i].x, f.calls[rank[i % nr]].x
            for k in seen:
                w = f.calls[k].x
                if k == rank[i % nr]:
                    continue
                d = sum(((x[j] - v[j]) / span[j]) * ((x[j] - v[j]) / span[j]) - ((x[j] - w[j]) / span[j]) * ((x[j] - w[j]) / span[j])
                        for j in free)
                env.check("a new point is nearest to its cell's centre", env.le(d, 0),
                          lambda: {"generation": g, "individual": i, "point": x, "centre": v, "other": w})  # noqa: B023
            env.check("a new point is in the box", env.and_([env.between(lower[j], x[j], upper[j]) for j in range(nd)]),
                      lambda: {"point": x})  # noqa: B023
    for g, s in enumerate(r.cb.log):
        env.check("the callback shows the points of the generation", env.same(s["_X"], [c.x for c in f.calls[g * n:g * n + n]]))


def sorted_by(env, ks, f):
    out = []
    for k in ks:
        i = len(out)
        while i and env.decide(env.lt(f.calls[k].f, f.calls[out[i - 1]].f)):
            i -= 1
        out.insert(i, k)
    return out


def configs(tier):
    c = []
    big = tier != "quick"
    sizes = ((2, 0.5), (2, 1.0), (3, 0.34), (3, 0.67), (3, 1.0), (4, 0.5)) + (((4, 1.0), (5, 0.4)) if big else ())
    for nd in (1, 2, 3):
        axes = ((0, 1),) if nd < 3 else ((0,), (1,), (2,))
        for n, nrp in sizes:
            for focus in range(n) if nd < 3 or n < 4 or big else (0,):
                for ax in axes if focus in (0, n - 1) or big else axes[:1]:
                    c.append(dict(method="na", popsize=n, nrperc=nrp, x0="grid", ndim=nd, maxiter=2, focus=focus, axes=ax))
    for nd, n, nrp in ((1, 2, 0.5), (1, 3, 0.67), (2, 2, 0.5), (2, 2, 1.0), (2, 3, 0.34), (2, 3, 0.67), (3, 2, 1.0)):
        for focus in range(n) if nd < 3 or big else (0,):
            for ax in range(nd) if focus in (0, n - 1) or big else (0,):
                c.append(dict(method="na", popsize=n, nrperc=nrp, x0="grid", ndim=nd, maxiter=3, focus=focus, axes=(ax,)))
    c.append(dict(method="na", popsize=2, nrperc=0.5, x0="grid", ndim=1, maxiter=4))
    c.append(dict(method="na", popsize=2, nrperc=1.0, x0="grid", ndim=2, maxiter=4, axes=(1,)))
    c.append(dict(method="na", popsize=3, nrperc=1.0, x0="grid", ndim=2, maxiter=2, values=True, axes=(0,)))
    if big:
        c.append(dict(method="na", popsize=2, nrperc=1.0, x0="grid", ndim=3, maxiter=2, axes=(0, 1, 2)))
        c.append(dict(method="na", popsize=3, nrperc=0.67, x0="grid", ndim=3, maxiter=2, axes=(0, 1, 2)))
        c.append(dict(method="na", popsize=2, nrperc=1.0, x0="grid", ndim=2, maxiter=3, axes=(0, 1)))
    for focus in range(3):
        c.append(dict(method="na", popsize=3, nrperc=0.67, x0="grid", ndim=2, maxiter=2, focus=focus, opt=dict(workers=2)))
    for dd, nd in ((0, 2), (1, 2), (0, 3), (1, 3), (2, 3)):
        for n, nrp, mi in ((2, 0.5, 2), (3, 0.67, 2), (2, 1.0, 3)):
            for focus in range(2):
                for ax in range(nd - 1):
                    c.append(dict(method="na", popsize=n, nrperc=nrp, x0="grid", ndim=nd, maxiter=mi, focus=focus, axes=(ax,),
                                  bounds="degenerate", degdim=dd))
    for n, nrp, nd, mi in ((2, 0.5, 2, 40), (4, 0.25, 2, 22), (3, 1.0, 1, 14), (26, 0.1, 2, 3), (6, 0.5, 9, 3)):  # long and wide runs
        for law in ("rise", "settle", "noise") if mi > 3 else ("noise",):
            c.append(dict(method="na", popsize=n, nrperc=nrp, x0="grid", ndim=nd, maxiter=mi, focus=n - 1, axes=(nd - 1,), fork=True, long=law, free=(n * (mi - 2),)))
    return named(c)
