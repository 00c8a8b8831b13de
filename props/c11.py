"""DE: every trial is the strategy's mutant crossed with its parent; greedy selection."""
import itertools

from symex.harness import Callback, Objective

from .common import GRID, LONG, drive, make_bounds, make_x0, named, quiet

BOUNDS = ("populations of 3-7, 1-3 variables, 1-3 generations from fixed starting points (one generation from symbolic ones); F, "
          "CR, the donors' permutations, the forced component, the crossover draws and the objective values are symbolic") + LONG
NEED = {"best1bin": 2, "rand1bin": 3, "best2bin": 4, "rand2bin": 5}


def mutants(strategy, X, i, gbest, F):
    """Every mutant the strategy may form for individual i."""
    others = [k for k in range(len(X)) if k != i]
    nd = range(len(X[0]))
    bases = [None] if strategy.startswith("best") else others
    pairs = 2 if strategy[4] == "2" else 1
    out = []
    for b in bases:
        base = gbest if b is None else X[b]
        rest = [k for k in others if k != b]
        for plus in itertools.combinations(rest, pairs):
            for minus in itertools.combinations([k for k in rest if k not in plus], pairs):
                out.append([base[j] + F * (sum(X[k][j] for k in plus) - sum(X[k][j] for k in minus)) for j in nd])
    return out


def scenario(env, cfg):
    env.tight(1e-8, 1e-10)
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    n, nd, gens = cfg["popsize"], len(lower), cfg["maxiter"] - 1
    strategy = cfg["strategy"]
    F = cfg["F"] if "F" in cfg else env.real("F", 0.1, 2)
    CR = cfg["CR"] if "CR" in cfg else env.real("CR", 0.05, 0.95)
    # the draws of one individual are arbitrary, those of the others fixed
    late = cfg.get("late")  # the generation in which that individual's draws are arbitrary, if not in all
    focus, u = cfg["focus"], env.real("u", 0.001, 0.999) if cfg.get("shared") else None

    def draws(kind, k):
        if u is not None:  # every crossover draw is the same number
            return u
        return None if k // nd % n == focus and k // nd // n + 1 == (late or k // nd // n + 1) or opt.get("constraints") else GRID[(3 * k) % 8]

    def choice(kind, k, m):
        now = k % n == focus and k // n + 1 == (late or k // n + 1)
        if kind == "p":
            return env.some_perm(f"perm{k}", m) if now else [(k + 2 * i) % m if m % 2 else (k + i) % m for i in range(m)]
        return None if now else k % m
    up = cfg.get("updating", "immediate")
    opt = dict(cfg.get("opt", {}), strategy=strategy, mutation=F, recombination=CR, updating=up)
    def pick(k):
        i, g = k % n, k // n
        if late and (i != focus or g != late):
            return law(k)
        if i == focus and g or cfg.get("values"):
            return None
        start = 1.0 * ((i + focus // 2 + 1) % n)
        return start if g == 0 else start + (-0.6 if (i + g) % 2 else 0.2) * g - 0.01 * i

    law = quiet(env, cfg) if late else None
    env.policy, env.choice = draws, choice
    f = Objective(env, pick=pick)
    r = drive(env, dict(cfg, opt=opt), f=f, cb=Callback(env, f), bounds=b, x0=x0)
    env.check("the run ends without an exception", env.true(r.out.ok), lambda: {"exception": repr(r.out.exc)})
    if not r.out.ok:
        return
    env.check("one trial per individual and generation", env.true(len(f.calls) == n * (gens + 1)), lambda: {"calls": len(f.calls)})
    if len(f.calls) != n * (gens + 1) or len(r.cb.log) != gens + 1:
        return
    vals = [c.f for c in f.calls]
    for a in range(len(vals)):  # which of two equally good points is kept is another property's business
        for c in range(a):
            if f.calls[a].f is not f.calls[c].f:
                env.assume(env.not_(env.eq(vals[a], vals[c])))
    X = [list(env.flat(c.x)[0]) for c in f.calls[:n]]
    fit = vals[:n]

    def best():
        k = 0
        for i in range(1, n):
            if env.decide(env.lt(fit[i], fit[k])):
                k = i
        return X[k]

    resample = opt.get("constraints") == "Random"
    for g in range(1, gens + 1):
        bestx = best() if strategy.startswith("best") else None
        P, new = [list(x) for x in X], list(fit)
        for i in range(n):
            c = f.calls[g * n + i]
            t = list(env.flat(c.x)[0])
            ms = mutants(strategy, X, i, bestx, F)
            info = lambda: {"generation": g, "individual": i, "trial": t, "parent": X[i], "population": X, "best": bestx,  # noqa: B023,E731
                            "F": F, "CR": CR, "u": u, "mutants": ms[:6]}

            def hit(j, v):  # noqa: B023
                e = env.eq(t[j], v)  # noqa: B023
                if resample:
                    e = env.or_(e, env.not_(env.between(lower[j], v, upper[j])))
                return e
            alts, full, one = [], [], []
            for m in ms:
                h = [hit(j, m[j]) for j in range(nd)]
                p = [env.eq(t[j], X[i][j]) for j in range(nd)]  # parents are in the box
                alts.append(env.and_([env.or_(h[j], p[j]) for j in range(nd)] + [env.or_(h)]))
                full.append(env.and_(h))
                one.append(env.or_([env.and_([h[j] if j == k else p[j] for j in range(nd)]) for k in range(nd)]))
            env.check("a trial mixes its parent and one mutant of distinct others", env.or_(alts), info)
            if u is not None:
                env.check("a draw below CR takes the mutant's component", env.implies(env.lt(u, CR), env.or_(full)), info)
                env.check("a draw above CR takes the parent's component, but for one", env.implies(env.gt(u, CR), env.or_(one)), info)
            elif CR == 1:
                env.check("with CR = 1 the trial is the mutant", env.or_(full), info)
            elif CR == 0:
                env.check("with CR = 0 one component comes from the mutant", env.or_(one), info)
            better = fit[i] is not c.f and env.decide(env.lt(c.f, fit[i]))
            if better:
                P[i], new[i] = t, c.f
            if up == "immediate":
                X, fit = [list(x) for x in P], list(new)
                if strategy.startswith("best") and better:
                    bestx = best()
        X, fit = P, new
        seen = r.cb.log[g]["_X"]
        env.check("a trial replaces its parent exactly when it is better", env.same(seen, X),
                  lambda: {"generation": g, "population": seen, "expected": X, "values": fit})  # noqa: B023


def configs(tier):
    c = []
    big = tier != "quick"
    for up in ("immediate", "deferred"):
        for s, k in NEED.items():
            n = k + 1
            for focus in range(n):
                base = dict(method="de", popsize=n, strategy=s, updating=up, x0="grid", ndim=2, focus=focus, **(dict(time=60, cost=9) if n > 5 else {}))
                if n <= 4 or focus in (0, n - 1):
                    c.append(dict(base, maxiter=2, F=0.5 if n > 5 else 0.625))
                    if big or n <= 5 or focus == 0:
                        c.append(dict(base, maxiter=2, F=0.5, shared=True))
                if n <= 4:
                    c.append(dict(base, maxiter=2))
                    c.append(dict(base, maxiter=2, CR=focus % 2))
                if n <= 4 and (big or focus in (0, n - 1)):
                    c.append(dict(base, maxiter=2, CR=1 - focus % 2))
                    c.append(dict(base, maxiter=2, ndim=1))
                    c.append(dict(base, maxiter=2, opt=dict(constraints="Random")))
                    c.append(dict(dict(base, x0="edge"), maxiter=2, CR=0, opt=dict(constraints="Random")))
        c.append(dict(method="de", popsize=3, strategy="best1bin", updating=up, x0="grid", ndim=1, maxiter=3, F=0.5, focus=1))
        c.append(dict(method="de", popsize=3, strategy="best1bin", updating=up, x0="grid", ndim=3, maxiter=2, F=0.5, focus=2))
        c.append(dict(method="de", popsize=4, strategy="best1bin", updating=up, x0="grid", ndim=1, maxiter=2, F=0.5, focus=2))
        c.append(dict(method="de", popsize=4, strategy="rand1bin", updating=up, x0="in", ndim=1, maxiter=2, F=0.5, focus=2))
        c.append(dict(method="de", popsize=4, strategy="rand1bin", updating=up, x0="grid", ndim=1, maxiter=3, F=0.5, CR=1, focus=3))
    for up in ("immediate", "deferred"):  # long runs, and large populations in many variables
        for law in ("rise", "settle", "noise"):
            c.append(dict(method="de", popsize=3, strategy="best1bin", updating=up, x0="grid", ndim=2, maxiter=30, F=0.5, CR=0.5, focus=1, late=27, long=law))
        c.append(dict(method="de", popsize=4, strategy="rand1bin", updating=up, x0="grid", ndim=1, maxiter=25, F=0.5, CR=0.5, focus=2, late=23, long="rise"))
        c.append(dict(method="de", popsize=3, strategy="best1bin", updating=up, x0="grid", ndim=10, maxiter=3, F=0.5, CR=0.5, focus=1, late=1, long="noise"))
        c.append(dict(method="de", popsize=18, strategy="best1bin", updating=up, x0="grid", ndim=2, maxiter=3, F=0.5, CR=0.5, focus=1, late=9, long="noise"))
    return named(c)
