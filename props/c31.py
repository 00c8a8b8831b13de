"""Exceptions raised by the caller's functions reach the caller, stop the run and leave nothing behind."""
import numpy as np

from symex.harness import Callback, Objective

from .c18 import Grad
from .common import OPTIMIZERS, drive, make_bounds, make_x0, named

BOUNDS = ("1-2 variables, populations 2-4, 1-3 iterations or samples (50 with exceptions at any of three late calls; populations of 20 with 10 variables), any call of the objective, gradient or callback raising one of 22 "
          "kinds of exception (the three outside Exception included); draws and objective values symbolic; serial and thread execution")


class Own(Exception):
    pass


KINDS = {"own": Own, "value": ValueError, "key": KeyError, "stop": StopIteration, "zero": ZeroDivisionError, "import": ImportError}
MORE = {"runtime": RuntimeError, "type": TypeError, "index": IndexError, "overflow": OverflowError, "floating": FloatingPointError, "attribute": AttributeError,
        "memory": MemoryError, "os": OSError, "assertion": AssertionError, "interrupt": KeyboardInterrupt, "exit": SystemExit, "generator": GeneratorExit,
        "linalg": np.linalg.LinAlgError, "timeout": TimeoutError, "warning": UserWarning, "none": NotImplementedError}


def scenario(env, cfg):
    env.tight()
    b, lower, upper = make_bounds(env, cfg)
    x0 = make_x0(env, cfg, lower, upper)
    m, where = cfg["method"], cfg["where"]
    if cfg.get("draws") == "fixed":
        env.policy = lambda kind, k: ((0.35, 0.8, 0.55, 0.15, 0.65, 0.25, 0.9)[(k + k // 7) % 7] if kind == "u"
                                      else (-1.5, 0.75, 0.4, -0.3, 1.1)[(k + k // 5) % 5] if kind == "n" else None)
        env.choice = lambda kind, k, n: tuple((j + k) % n for j in range(n)) if kind == "p" else k % n
    boom = env.expected = (KINDS | MORE)[cfg["kind"]]("from the caller")
    state = {"armed": False, "raised": 0, "calls": 0, "after": []}
    last = max(cfg.get("late", (cfg.get("upto", 12),)))

    def event(w):
        """Called for every call of a function of the caller."""
        if not state["armed"]:
            return
        if state["raised"]:
            state["after"].append(w)
            return
        if w != where or state["calls"] > last:
            return
        state["calls"] += 1
        if "late" in cfg and state["calls"] not in cfg["late"]:
            return
        if env.concretize(env.int(f"raise{state['calls']}", 0, 1)):
            state["raised"] += 1
            raise boom

    class F(Objective):
        def __call__(self, x, *args):
            v = super().__call__(x, *args)
            event("objective")
            return v

    class G(Grad):
        def __call__(self, q, *args):
            v = super().__call__(q, *args)
            event("gradient")
            return v

    class C(Callback):
        def __call__(self, X, s):
            super().__call__(X, s)
            event("callback")

    memo = {}
    opt = dict(cfg.get("opt", {}))
    if m == "hmc":
        opt["nleap"] = 1
        opt["jac"] = G(env, len(lower))
    pick = (lambda k: (3.0, 1.0, 2.5, 0.5, 4.0, 2.0, 0.25)[k % 7] + 1.0 / (1 + k)) if cfg.get("f") == "grid" else None

    def run():
        env.ndraw = {"u": 0, "n": 0, "i": 0, "p": 0}
        f = F(env, memo=memo, pick=pick)
        return drive(env, dict(cfg, opt=opt), st=st, f=f, cb=C(env, f), bounds=b, x0=x0)

    st = env.load(order=cfg.get("order"))
    kb, kx, ko = env.copy(b), None if x0 is None else env.copy(x0), dict(opt)
    state["armed"] = True
    a = run()
    state["armed"] = False
    info = lambda: {"raised": repr(boom) if state["raised"] else None, "exception": repr(a.out.exc), "called afterwards": state["after"],  # noqa: E731
                    "points": [e.x for e in a.f.calls]}
    if not state["raised"]:
        env.check("a run without exception completes", env.true(a.out.ok), info)
        return
    env.check("the exception reaches the caller", env.true(a.out.exc is boom), info)
    if "order" not in cfg:
        env.check("nothing is called after the exception", env.true(not state["after"]), info)
    env.check("the options are left alone", env.true(opt == ko))
    env.check("the arguments are left alone", env.and_([env.identical(b, kb)] + ([env.identical(x0, kx)] if x0 is not None else [])), info)
    c = run()  # once more, undisturbed
    st = env.load(order=cfg.get("order"))
    d = run()
    info2 = lambda: dict(info(), **{"points of the next run": [e.x for e in c.f.calls], "points of a first run": [e.x for e in d.f.calls],  # noqa: E731
                                    "exceptions": [repr(c.out.exc), repr(d.out.exc)]})
    env.check("the next run completes", env.true(c.out.ok and d.out.ok), info2)
    env.check("the next run is not affected", env.and_([env.true(len(c.f.calls) == len(d.f.calls))] + [
        env.same(p.x, q.x) for p, q in zip(c.f.calls, d.f.calls)]), info2)
    n = len(a.f.calls)
    env.check("the run went as without the exception until then", env.and_([env.true(n <= len(d.f.calls))] + [
        env.same(p.x, q.x) for p, q in zip(a.f.calls[:n if "order" not in cfg else 1], d.f.calls)]) if "order" not in cfg else env.true(), info2)
    if c.out.ok and d.out.ok:
        env.check("the next result is not affected", env.and_(env.same(c.res.x, d.res.x), env.eq(c.res.fun, d.res.fun),
                                                              env.true(c.res.get("nit") == d.res.get("nit") and c.res.get("nfev") == d.res.get("nfev"))), info2)


def configs(tier):
    c = []
    big = tier != "quick"
    kinds = list(KINDS)
    q = 0
    for m in OPTIMIZERS + ("mcmc", "hmc"):
        cons = {"de": "Random", "pso": "Shrink", "cpso": "Shrink", "cmaes": "Penalize", "vdcma": "Penalize", "mcmc": "Reject",
                "hmc": "Reject"}.get(m)
        opti = m in OPTIMIZERS
        pop = 3 if m == "de" else 2
        base = dict(method=m, popsize=pop, ndim=2)
        opts = [{}]
        if cons:
            opts.append(dict(constraints=cons))
        if m in ("de", "pso", "cpso"):
            opts.append(dict(updating="deferred"))
        for o in opts:
            for where in ("objective", "callback") + (("gradient",) if m == "hmc" else ()):
                for kind in kinds if big else (kinds[q % 6], kinds[(q + 1) % 6]):
                    q += 1
                    c.append(dict(base, where=where, kind=kind, maxiter=3 if not opti or big else 2, opt=o, f="grid", draws="fixed", x0="in" if q % 2 else "none"))
        for kind in MORE:  # at the last but one call of each
            for where, at in (("objective", 2 * pop), ("callback", 2)) + ((("gradient", 3),) if m == "hmc" else ()):
                c.append(dict(base, where=where, kind=kind, maxiter=3, late=(at,), opt={}, f="grid", draws="fixed"))
        for kind in kinds:
            c.append(dict(base, where="objective", kind=kind, maxiter=2, opt={}, f="grid", draws="fixed"))
        if opti:
            for workers in (2, -1):
                o = dict(workers=workers, **(dict(updating="deferred") if m in ("de", "pso", "cpso") else {}))
                for kind in (kinds[q % 6], kinds[(q + 1) % 6]):
                    q += 1
                    c.append(dict(base, where="objective", kind=kind, maxiter=2, opt=dict(o, backend="threading"), order="reverse" if q % 2 else None,
                                  f="grid", draws="fixed"))
        # late in a long run, and many individuals and variables
        for w in ("objective", "callback"):
            kind = kinds[q % 6]
            q += 1
            n = 5 if m == "na" else 12 if m == "hmc" else 50
            o = dict(xtol=-1.0, ftol=-1e40) if opti else {}
            calls = 4 * n if w == "objective" and opti else n
            c.append(dict(method=m, popsize=4, ndim=2, where=w, kind=kind, maxiter=n, late=(calls - 9, calls - 5, calls - 1), opt=o, f="grid", draws="fixed"))
            if m in ("de", "pso", "cpso"):
                c.append(dict(method=m, popsize=20, ndim=10, where=w, kind=kind, maxiter=3, late=(37, 41, 59) if w == "objective" else (2, 3), opt=o, f="grid", draws="fixed"))
        if m not in ("na", "cmaes", "vdcma"):
            c.append(dict(base, ndim=1, where="objective", kind="own", maxiter=2, f="grid" if opti else None))
            c.append(dict(base, ndim=1, where="callback", kind="value", maxiter=2, f="grid" if opti else None))
    return named(c)
