"""PSO and CPSO: the velocity law, the Shrink constraint and the restarts of CPSO."""
from symex.harness import Callback, Objective

from .common import GRID, LONG, any_rank, drive, make_bounds, make_x0, named, quiet

BOUNDS = ("swarms of 2-5, 1-3 variables, 1-4 iterations; symbolic inertia, cognitivity and sociability, or symbolic draws (one "
          "shared by all, or independent ones for one particle); every rank of one particle's values among the others'") + LONG


def scenario(env, cfg):
    env.tight(1e-8, 1e-10)
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    n, nd, gens, m = cfg["popsize"], len(lower), cfg["maxiter"] - 1, cfg["method"]
    focus, mode = cfg.get("focus", 0), cfg["draws"]
    coef = cfg.get("coef")
    w, c1, c2 = coef if coef else (env.real("w", 0, 1), env.real("c1", 0, 4), env.real("c2", 0, 4))
    u = env.real("u", 0.015625, 0.984375) if mode == "shared" else 0.5

    box = {}

    def draws(kind, k):
        if env.in_box and mode != "free":  # restarted particles start at different places
            rows = box.setdefault(len(cb.log), [])
            rows.append(GRID[(3 * k + k // 8) % 8] + (k // 8 / 1024 if cfg.get("long") else 0))
            return rows[-1]
        if mode != "free":
            return u
        return None if k // nd % n == focus else GRID[(3 * k) % 8]

    def pick(k):
        i, g = k % n, k // n
        if cfg.get("long"):
            v = law(k)
            if v is None:
                v = env.real(f"f{k}", -10, 10)
            for j, c in enumerate(f.calls):  # ties are another property's business
                if k in cfg["free"] or j in cfg["free"]:
                    env.assume(env.not_(env.eq(v, c.f)))
            return v
        if (i == focus or cfg.get("values")) and g < gens and g in cfg.get("ranks", (0, 1, 2)):
            return any_rank(env, f"rank{k}", [c.f for c in f.calls])
        return 1.0 * ((i + 1) % n) + (-0.6 if (i + g) % 2 else 0.3) * g - 0.01 * k

    law = quiet(env, cfg) if cfg.get("long") else None
    env.choice, env.policy = None, draws
    opt = dict(cfg.get("opt", {}), inertia=w, cognitivity=c1, sociability=c2, updating=cfg.get("updating", "immediate"))
    if m == "cpso":
        opt["competitivity"] = cfg["gamma"]
    f = Objective(env, pick=pick)
    cb = Callback(env, f)
    r = drive(env, dict(cfg, opt=opt), f=f, cb=cb, bounds=b, x0=x0)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    env.check("every particle moves once per iteration", env.true(len(f.calls) == n * (gens + 1)), lambda: {"calls": len(f.calls)})
    if len(f.calls) != n * (gens + 1):
        return
    X = [list(env.flat(c.x)[0]) for c in f.calls[:n]]
    fit = [c.f for c in f.calls[:n]]
    V = [[0.0] * nd for _ in X]
    P, gx, gf = [list(x) for x in X], None, None
    for i in range(n):
        if gf is None or fit[i] < gf:
            gx, gf = list(X[i]), fit[i]
    shrink = opt.get("constraints") == "Shrink"
    for g in range(1, gens + 1):
        reset, before = [], list(fit)
        gx0 = list(gx)
        for i in range(n):
            c = f.calls[g * n + i]
            t = list(env.flat(c.x)[0])
            lead = gx if opt["updating"] == "immediate" else gx0
            info = lambda: {"iteration": g, "particle": i, "from": X[i], "velocity": V[i], "own best": P[i], "swarm best": lead,  # noqa: B023,E731
                            "to": t, "w": w, "c1": c1, "c2": c2, "draws": u, "values": before}
            if mode == "free":
                a = [c1 * (P[i][j] - X[i][j]) for j in range(nd)]
                d = [c2 * (lead[j] - X[i][j]) for j in range(nd)]
                law = env.true()
                for j in range(nd):
                    x, z = X[i][j] + w * V[i][j], 0.0
                    law = env.and_(law, env.or_([env.and_(env.le(x + p + q, t[j]), env.le(t[j], x + s + o))
                                                 for p, s in ((a[j], z), (z, a[j])) for q, o in ((d[j], z), (z, d[j]))]))
            else:
                v = [w * V[i][j] + c1 * u * (P[i][j] - X[i][j]) + c2 * u * (lead[j] - X[i][j]) for j in range(nd)]
                law = moved(env, X[i], v, t, lower, upper, shrink)
            if m == "cpso" and g > 1 and not env.decide(env.about(law)):
                rows = box.get(g, [])
                rows = [rows[a:a + nd] for a in range(0, len(rows), nd)] + [[u] * nd]
                starts = [[lo + d * (hi - lo) for d, lo, hi in zip(row, lower, upper)] for row in rows]
                rests = [moved(env, R, [c2 * u * (lead[j] - R[j]) for j in range(nd)], t, lower, upper, shrink) for R in starts]
                env.check("a particle follows the PSO law or restarts in the box at rest", env.or_(rests), info)
                R = next((R for R, m in zip(starts, rests) if env.decide(env.about(m))), None)
                if R is None:
                    return
                reset.append(i)
                V[i] = [t[j] - R[j] for j in range(nd)]
                P[i], fit[i] = t, c.f
            else:
                env.check("a particle follows the PSO law", law, info)
                V[i] = [t[j] - X[i][j] for j in range(nd)]
                if c.f < fit[i]:
                    P[i], fit[i] = t, c.f
            X[i] = t
            if c.f < gf:
                gx, gf = t, c.f
        if reset:
            env.check("the best particle is not restarted", env.true(any(before[k] == min(before) for k in range(n) if k not in reset)), lambda: {"iteration": g, "restarted": reset, "values": before})  # noqa: B023
        for a in reset:
            env.check("only the worst particles are restarted", env.true(all(before[k] <= before[a] for k in range(n) if k not in reset)),
                      lambda: {"iteration": g, "restarted": reset, "own best values": before})  # noqa: B023
        env.check("the callback shows the particles", env.same(r.cb.log[g]["_X"], X), lambda: {"given": r.cb.log[g]["_X"], "particles": X})  # noqa: B023


def moved(env, x, v, t, lower, upper, shrink):
    """t is x + v, shrunk into the box when the constraint asks for it."""
    nd = len(x)
    full = env.and_([env.eq(t[j], x[j] + v[j]) for j in range(nd)])
    if not shrink:
        return full
    inside = env.and_([env.between(lower[j], x[j] + v[j], upper[j]) for j in range(nd)])
    alts = [env.and_(inside, full)]
    for k in range(nd):
        for bound, out in ((lower[k], env.lt(x[k] + v[k], lower[k])), (upper[k], env.gt(x[k] + v[k], upper[k]))):
            alts.append(env.and_([out] + [env.eq((t[j] - x[j]) * v[k], (bound - x[k]) * v[j]) for j in range(nd)]
                                 + [env.eq(t[k], bound)] + [env.between(lower[j], t[j], upper[j]) for j in range(nd)]))
    return env.or_(alts)


def configs(tier):
    c = []
    big = tier != "quick"
    half = (0.5, 1.5, 0.75)
    for m in ("pso", "cpso"):
        for up in ("immediate", "deferred"):
            base = dict(method=m, updating=up, x0="grid", **(dict(gamma=None) if m == "cpso" else {}))
            for n, nd, mi in ((2, 1, 2), (2, 2, 2), (3, 2, 2), (2, 1, 3), (2, 2, 3)) + (((3, 1, 3), (2, 1, 4)) if big else ()):
                if m == "cpso" and not big and (n, nd, mi) != (2, 2, 3):
                    continue
                for focus in range(n):
                    c.append(dict(base, popsize=n, ndim=nd, maxiter=mi, draws="half", focus=focus))
                    c.append(dict(base, popsize=n, ndim=nd, maxiter=mi, draws="shared", coef=half, focus=focus))
                    if mi == 2 or nd == 1:
                        c.append(dict(base, popsize=n, ndim=nd, maxiter=mi, draws="free", coef=half, focus=focus))
            for n, nd, mi, co in ((2, 1, 3, (0.875, 1.0, 3.5)), (2, 2, 2, (0.5, 1.0, 4.0)), (2, 2, 3, (0.875, 1.0, 3.0)), (3, 2, 3, (0.75, 1.0, 3.75))):
                for focus in range(n):
                    for mode in ("half", "shared") if mi == 2 or nd == 1 and m == "pso" and focus or big else ("half",):
                        c.append(dict(base, popsize=n, ndim=nd, maxiter=mi, draws=mode, coef=co, focus=focus, opt=dict(constraints="Shrink")))
            for n, nd in ((2, 2), (3, 2), (4, 3)):
                for focus in range(n) if n < 4 or big else (0, 3):
                    c.append(dict(dict(base, x0="edge"), popsize=n, ndim=nd, maxiter=3, draws="half", coef=(0.5, 1.0, 3.75), focus=focus, anomalies=True, opt=dict(constraints="Shrink")))
            for corner in ("ll", "lu", "ul", "uu") + (("lll", "ulu") if big else ()):
                if m == "pso" or big:
                    c.append(dict(base, x0="corner", corner=corner, popsize=2, ndim=len(corner), maxiter=2, draws="half", coef=(0.5, 1.0, 3.75), focus=1,
                                  opt=dict(constraints="Shrink")))
    for up in ("immediate", "deferred"):
        for n, gamma, mi in ((2, 2.0, 3), (3, 1.5, 3), (4, 1.5, 3), (4, 2.0, 4), (5, 1.0, 3), (5, 1.25, 4)):
            for focus in range(n) if n < 5 or big else (0, 2, 4):
                base = dict(method="cpso", updating=up, x0="cluster", gamma=gamma, popsize=n, ndim=2, maxiter=mi, draws="half", focus=focus, eps=1e-6,
                            **(dict(ranks=(0, 2)) if mi > 3 and not big else {}))
                c.append(dict(base, coef=half))
                if focus < 2:
                    c.append(dict(base, coef=(0.75, 1.0, 1.5), opt=dict(constraints="Shrink")))
        c.append(dict(method="cpso", updating=up, x0="cluster", gamma=1.5, popsize=2, ndim=1, maxiter=3, draws="half", values=True, eps=1e-6, coef=half))
        c.append(dict(method="pso", updating=up, popsize=4, ndim=2, maxiter=3, draws="half", x0="cluster", eps=1e-6, coef=half))
    for m in ("pso", "cpso"):  # long runs, and large swarms in many variables
        for up in ("immediate", "deferred"):
            base = dict(method=m, updating=up, x0="grid", draws="half", coef=(0.75, 1.0, 0.5), fork=True, **(dict(gamma=None) if m == "cpso" else {}))
            for law in ("rise", "settle", "noise"):
                c.append(dict(base, popsize=4, ndim=2, maxiter=40, long=law, free=(141,)))
            c.append(dict(base, popsize=24, ndim=10, maxiter=3, long="noise", free=(30,)))
            if m == "cpso":
                c.append(dict(dict(base, x0="cluster"), popsize=4, ndim=2, maxiter=30, long="settle", free=(101,), eps=1e-6, gamma=1.0))
                c.append(dict(dict(base, x0="cluster"), popsize=20, ndim=2, maxiter=4, long="noise", free=(25,), eps=1e-6, gamma=1.0))
    return named(c)
