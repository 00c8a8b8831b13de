"""Parallel evaluation changes nothing: every individual once, values in place, the serial result on every rank."""
from symex.harness import Callback, Objective
from symex.mpi import CollectiveMismatch, World, module

from .common import LONG, drive, make_bounds, make_x0, named, options, quiet

BOUNDS = ("popsize 2-5, 1-3 variables, 1-3 iterations; joblib tasks run in any order (a symbolic permutation per "
          "batch), or overlap (up to three threads: at the start and the end of every call of the objective another task may begin, and ends there), MPI with 2 and 3 ranks in lockstep, seeded; objective values in [-10, 10]") + LONG
ASSUMPTIONS = ["mpi4py is a stand-in: collectives complete when every rank has entered the same one"]


def same_result(env, what, a, b, info):
    if a.out.ok != b.out.ok:
        env.check(f"{what}: same outcome", env.true(False), info)
        return
    env.check("the runs end without an exception", env.true(a.out.ok and b.out.ok), lambda: {"exceptions": [repr(a.out.exc), repr(b.out.exc)]})
    if not a.out.ok:
        return
    x, y = a.res, b.res
    env.check(f"{what}: same result", env.and_(
        env.true(x.nit == y.nit and x.status == y.status and x.nfev == y.nfev), env.same(x.x, y.x), env.eq(x.fun, y.fun)), info)
    for k in ("xall", "funall"):
        if x.get(k) is not None:
            env.check(f"{what}: same history", env.same(x[k], y[k]) if y.get(k) is not None else env.true(False), info)
    if a.cb and b.cb and a.cb.log and b.cb.log:
        env.check(f"{what}: same callbacks", env.and_([env.true(len(a.cb.log) == len(b.cb.log))] + [
            env.and_(env.same(s["x"], t["x"]), env.same(s["_X"], t["_X"])) for s, t in zip(a.cb.log, b.cb.log)]), info)


def scenario(env, cfg):
    env.tight()
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    memo = {}
    base = dict(cfg)
    mode = cfg["mode"]

    def one(st, opt, rank=None):
        f = Objective(env, memo=memo, pick=quiet(env, cfg) if cfg.get("long") else None)
        f.tag = rank
        c = dict(base, opt=dict(base.get("opt", {}), **opt))
        return drive(env, c, st=st, f=f, cb=Callback(env, f), bounds=b, x0=None if x0 is None else env.copy(x0))
    upd = cfg["method"] in ("de", "pso", "cpso")
    if mode["kind"] == "serial":
        a, c = one(env.load(), {"workers": 1}), one(env.load(), {"workers": mode["workers"]})
        same_result(env, "no parallel workers", a, c, lambda: {"serial": dict(a.res or {}), "workers": dict(c.res or {}), "exception": repr(c.out.exc)})
        once(env, a.f.calls, c.f.calls)
        return
    serial = one(env.load(), {"updating": "deferred"} if upd else {})
    if mode["kind"] == "joblib":
        par = one(env.load(order=mode.get("order")), {k: v for k, v in mode.items() if k in ("workers", "backend")})
        info = lambda: {"serial": dict(serial.res or {}), "parallel": dict(par.res or {}), "exception": repr(par.out.exc)}  # noqa: E731
        same_result(env, "parallel", serial, par, info)
        once(env, serial.f.calls, par.f.calls)
        return
    n = mode["ranks"]
    w = World(n)
    sts = [env.load(mpi=module(w, r)) for r in range(n)]
    recs = w.run([lambda r: one(sts[r], {"backend": "mpi"}, r) for _ in range(n)])
    for r, rec in enumerate(recs):
        info = lambda: {"rank": r, "serial": dict(serial.res or {}), "mpi": dict(rec.res or {}), "exception": repr(rec.out.exc)}  # noqa: B023,E731
        env.check("the ranks agree on the collectives", env.true(not isinstance(rec.out.exc, CollectiveMismatch)), info)
        same_result(env, "mpi", serial, rec, info)
    once(env, serial.f.calls, [c for rec in recs for c in rec.f.calls])


def once(env, want, got):
    """The same points, each evaluated exactly once."""
    info = lambda: {"serial": [c.x for c in want], "parallel": [c.x for c in got]}  # noqa: E731
    env.check("each individual is evaluated once", env.true(len(want) == len(got)), info)
    if len(want) != len(got):
        return
    env.check("the same points are evaluated", env.and_([
        env.or_([env.same(a.x, b.x) for b in got]) for a in want]), info)
    env.check("with the same extra arguments", env.true({str(c.args) for c in got} <= {str(c.args) for c in want}),
              lambda: {"arguments": sorted({str(c.args) for c in want + got})})


def configs(tier):
    c = []
    big = tier != "quick"
    for m in ("de", "pso", "cpso", "na", "cmaes", "vdcma"):
        pop = 3
        heavy = m in ("na", "vdcma", "cmaes")
        c.append(dict(method=m, popsize=pop, maxiter=2, ndim=1 if heavy else 2, mode=dict(kind="joblib", order="symbolic", workers=2)))
        c.append(dict(method=m, popsize=4, maxiter=2, ndim=1, mode=dict(kind="joblib", order="reverse", workers=3, backend="loky")))
        c.append(dict(method=m, popsize=pop, maxiter=2, ndim=1, x0="in", return_all=True, mode=dict(kind="joblib", order="reverse", workers=-1)))
        c.append(dict(method=m, popsize=pop, maxiter=2 if heavy else 3, ndim=2 if m != "na" else 1, mode=dict(kind="mpi", ranks=2)))
        c.append(dict(method=m, popsize=4, maxiter=2, ndim=1, x0="in", return_all=True, mode=dict(kind="mpi", ranks=3)))
        if m in ("de", "pso", "cpso", "na"):
            c.append(dict(method=m, popsize=3, maxiter=3, ndim=1, tol="symf", mode=dict(kind="mpi", ranks=2)))
            c.append(dict(method=m, popsize=3, maxiter=3, ndim=1, tol="symf", mode=dict(kind="joblib", workers=2)))
        if m in ("pso", "cpso"):
            c.append(dict(method=m, popsize=3, maxiter=2, ndim=1, x0="grid", mode=dict(kind="mpi", ranks=2), opt=dict(constraints="Shrink")))
        if m == "de":
            c.append(dict(method=m, popsize=4, maxiter=2, ndim=2, mode=dict(kind="mpi", ranks=2), opt=dict(constraints="Random", strategy="rand1bin")))
        c.append(dict(method=m, popsize=3, maxiter=1, ndim=1, mode=dict(kind="mpi", ranks=4)))
        if m in ("cmaes", "vdcma"):
            c.append(dict(method=m, popsize=3, maxiter=1, ndim=1, mode=dict(kind="mpi", ranks=2), opt=dict(constraints="Penalize")))
        for n, it, mode in ((33, 2, dict(kind="joblib", order="reverse", workers=2)), (18, 3, dict(kind="mpi", ranks=5)), (4, 20, dict(kind="joblib", order="reverse", workers=2)),
                            (4, 20, dict(kind="mpi", ranks=2))):
            c.append(dict(method=m, popsize=n, maxiter=min(it, 10) if m == "na" else it, ndim=2, return_all=True, long="noise", free=(n + 2,), fork=True, mode=mode))
        for w, n, it, nd, free in ((2, 4, 1, 3, (2,)), (2, 3, 2, 2, (4,)), (-1, 3, 2, 1, ()), (3, 4, 1, 2, ())):  # threads overlap inside the objective
            c.append(dict(method=m, popsize=n, maxiter=it, ndim=nd, return_all=True, args=(1, "a"), long="noise", free=free, fork=True, mode=dict(kind="joblib", order="overlap", workers=w)))
        c.append(dict(method=m, popsize=4, maxiter=2, ndim=2, args=(2.5, "b"), long="noise", free=(), mode=dict(kind="mpi", ranks=2)))
        c.append(dict(method=m, popsize=4, maxiter=2, ndim=2, args=(2.5, "b"), long="noise", free=(), mode=dict(kind="joblib", order="reverse", workers=2, backend="loky")))
        for it, x0 in ((1, "in"), (2, "in")):
            c.append(dict(method=m, popsize=3, maxiter=it, ndim=1, x0=x0, mode=dict(kind="serial", workers=0)))
    if big:
        for m in ("de", "pso", "cpso"):
            c.append(dict(method=m, popsize=4, maxiter=3, ndim=2, mode=dict(kind="joblib", order="symbolic", workers=2)))
    return named(c)
