"""Results: one mapping seen through attributes and items."""
import copy
import types

from symex.harness import Objective

from .common import BOXES, named

BOUNDS = ("every sequence of 2 operations (3 in depth) among setting, deleting, updating and popping through attributes and items, on "
          "6 names (2 of them histories), values real variables, starting from a fresh result or from one returned by each method")
OPS = ("setattr", "setitem", "delattr", "delitem", "update", "pop")
KEYS = ("fun", "xall", "extra", "funall", "recall", "_x")


def look(env, res, want, info):
    """The result against a plain dictionary."""
    names = [k for k in want] + [k for k in KEYS + ("missing",) if k not in want]
    for k in names:
        a = env.call(getattr, res, k)
        i = env.call(lambda: res[k])  # noqa: B023
        if k in want:
            env.check("a key is readable as an attribute and as an item", env.true(a.ok and i.ok and a.value is want[k] and i.value is want[k]),
                      lambda: dict(info, key=k, attribute=repr(a.exc or a.value), item=repr(i.exc or i.value)))  # noqa: B023
        else:
            env.check("a missing name raises AttributeError", env.true(isinstance(a.exc, AttributeError) and isinstance(i.exc, KeyError)),
                      lambda: dict(info, key=k, attribute=repr(a.exc or a.value), item=repr(i.exc or i.value)))  # noqa: B023
        env.check("hasattr and get agree", env.true(hasattr(res, k) == (k in want) and (k in res) == (k in want)
                                                    and res.get(k) is want.get(k)), lambda: dict(info, key=k))  # noqa: B023
    env.check("the keys", env.true(set(res.keys()) == set(want) and len(res) == len(want)), lambda: dict(info, keys=list(res.keys())))
    d = dir(res)
    env.check("dir lists the keys", env.true(set(want) <= set(d)), lambda: dict(info, dir=d))
    t = env.call(repr, res)
    shown = [] if not t.ok else [s.split(":", 1)[0].strip() for s in str(t.value).split("\n") if ":" in s]
    env.check("the printed form shows every key except the histories",
              env.true(t.ok and [k for k in sorted(want) if k not in ("xall", "funall")] == sorted(k for k in shown if k in want)
                       and not {"xall", "funall"} & set(shown)), lambda: dict(info, text=repr(t.exc or t.value)))
    if t.ok:
        env.check("the printed form gives the values", env.true(all(repr(want[k]) in t.value for k in want if k in shown)),
                  lambda: dict(info, text=t.value))
    c = copy.copy(res)
    env.check("a copy is an equal result of the same type", env.true(type(c) is type(res) and set(c) == set(want)
                                                                    and all(c[k] is want[k] for k in want)), info)


def scenario(env, cfg):
    st = env.load()
    if cfg["start"] == "fresh":
        cls = st.optimize.OptimizeResult if cfg["kind"] == "optimize" else st.sample.SampleResult
        res = cls()
        want = {}
        t = env.call(repr, res)
        env.check("an empty result prints its type", env.true(t.ok and type(res).__name__ in t.value), lambda: {"text": repr(t.exc or t.value)})
        look(env, res, want, {"operations": "none"})
        res = cls(fun=1.5, xall=[2.5])
        want = {"fun": res["fun"], "xall": res["xall"]}
    else:
        m = cfg["method"]
        env.policy = lambda kind, k: (0.35, 0.8, 0.55, 0.15)[k % 4] if kind == "u" else (-0.5, 0.75, 0.4)[k % 3] if kind == "n" else None
        env.choice = lambda kind, k, n: tuple(range(n)) if kind == "p" else 0
        f = Objective(env, fn=lambda x: 5.0 - 0.25 * len(f.calls))
        opt = dict(maxiter=2, seed=1, return_all=cfg["keep"])
        if m in ("mcmc", "hmc"):
            fn = st.sample.sample
        else:
            fn, opt["popsize"] = st.optimize.minimize, 3
        if m == "hmc":
            opt["nleap"] = 1
        out = env.call(fn, f, [list(r) for r in BOXES[1]], method=m, options=opt)
        env.check("the run ends without an exception", env.true(out.ok), lambda: {"exception": repr(out.exc)})
        if not out.ok:
            return
        res = out.value
        env.check("the result type", env.true(type(res).__name__ == ("SampleResult" if m in ("mcmc", "hmc") else "OptimizeResult")))
        want = {k: res[k] for k in res.keys()}
        env.check("histories only on request", env.true(("xall" in want and "funall" in want) == cfg["keep"]))
    look(env, res, want, {"operations": "none"})
    log = []
    for n in range(cfg["steps"]):
        op = OPS[env.concretize(env.int(f"op{n}", 0, len(OPS) - 1))]
        k = KEYS[env.concretize(env.int(f"key{n}", 0, len(KEYS) - 1))]
        v = env.real(f"val{n}", -5, 5)
        log.append((op, k))
        if op == "setattr":
            o = env.call(setattr, res, k, v)
            want[k] = v
        elif op == "setitem":
            o = env.call(res.__setitem__, k, v)
            want[k] = v
        elif op == "update":
            o = env.call(res.update, {k: v})
            want[k] = v
        elif op == "pop":
            o = env.call(res.pop, k, None)
            want.pop(k, None)
        elif k in want:
            o = env.call(delattr, res, k) if op == "delattr" else env.call(res.__delitem__, k)
            del want[k]
        else:
            o = env.call(delattr, res, k) if op == "delattr" else env.call(res.__delitem__, k)
            env.check("deleting a missing key is an error", env.true(not o.ok), lambda: {"operations": list(log)})
            o = types.SimpleNamespace(ok=True)
        env.check("the operation is accepted", env.true(o.ok), lambda: {"operations": list(log), "exception": repr(getattr(o, "exc", None))})
        look(env, res, want, {"operations": list(log)})


def configs(tier):
    steps = 2 if tier == "quick" else 3
    c = [dict(start="fresh", kind=k, steps=steps) for k in ("optimize", "sample")]
    for m in ("de", "pso", "cpso", "na", "cmaes", "vdcma", "mcmc", "hmc"):
        for keep in (False, True):
            c.append(dict(start="run", method=m, keep=keep, steps=1 if tier == "quick" else 2))
    return named(c)
