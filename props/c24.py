"""Benchmark functions."""
import math

from symex import engine as en

from .common import named

BOUNDS = ("1-3 variables (4 for the separable ones), every component a real variable in [-10, 10]; 5, 12, 33 and 300 variables with two of them symbolic and the others fixed; cosine, exponential and square root "
          "enter through range, monotonicity and sign facts")

# name -> minimiser of one component, allowed distance of the minimum from zero per variable
FUNCS = {"ackley": (0.0, 0.0), "griewank": (0.0, 0.0), "quartic": (0.0, 0.0), "rastrigin": (0.0, 0.0), "rosenbrock": (1.0, 0.0),
         "sphere": (0.0, 0.0), "styblinski_tang": (-2.903534, 2.0e-4)}


def reference(env, name, x):
    """The textbook formulas."""
    cos, exp, sqrt = (en.el_cos, en.el_exp, en.el_sqrt) if env.sym else (math.cos, math.exp, math.sqrt)
    n = len(x)
    sq = sum((v * v for v in x), 0.0)
    if name == "sphere":
        return sq
    if name == "quartic":
        return sum(((i + 1) * (v * v * v * v) for i, v in enumerate(x)), 0.0)
    if name == "rosenbrock":
        return sum(((x[i + 1] - x[i] * x[i]) * (x[i + 1] - x[i] * x[i]) * 100.0 + (1.0 - x[i]) * (1.0 - x[i])
                    for i in range(n - 1)), 0.0)
    if name == "styblinski_tang":
        return sum((v * v * v * v - 16.0 * (v * v) + 5.0 * v for v in x), 0.0) * 0.5 + 39.16599 * n
    if name == "rastrigin":
        return sq - sum((10.0 * cos(v * (2.0 * math.pi)) for v in x), 0.0) + 10.0 * n
    if name == "griewank":
        p = 1.0
        for i, v in enumerate(x):
            p = p * cos(v / math.sqrt(i + 1.0))
        return sq * (1.0 / 4000.0) + 1.0 - p
    s = sum((cos(v * (2.0 * math.pi)) for v in x), 0.0) * (1.0 / n)
    return 20.0 + math.e - 20.0 * exp(sqrt(sq * (1.0 / n)) * -0.2) - exp(s)


def scenario(env, cfg):
    name, nd, kind, what = cfg["fn"], cfg["ndim"], cfg.get("as", "array"), cfg["what"]
    fn = getattr(env.load().factory, name)
    xm, slack = FUNCS[name]

    def give(vals):
        if kind in ("list", "intlist"):
            return list(vals)
        if kind == "tuple":
            return tuple(vals)
        return env.arr(list(vals), (nd,), "i" if kind == "int" else "f")
    if what == "minimiser":
        at = [xm] * nd if kind not in ("int", "intlist") else [int(xm)] * nd
        out = env.call(fn, give(at))
        env.check("the minimum is attained", env.and_(env.true(out.ok), env.between(-slack * nd, out.value, slack * nd))
                  if out.ok else env.true(False), lambda: {"x": at, "value": out.value, "exception": repr(out.exc)})
        return
    if kind in ("int", "intlist"):
        x = [env.int(f"x{i}", -10, 10) for i in range(nd)]
    else:
        x = [env.real(f"x{i}", -10, 10) for i in range(nd)]
    if cfg.get("free"):  # the others fixed
        x = [v if i in cfg["free"] else ((7 * i) % 5 - 2 if kind in ("int", "intlist") else ((7 * i) % 9 - 4) / 4) for i, v in enumerate(x)]
    arg = give(x)
    out = env.call(fn, arg)
    info = lambda: {"x": x, "value": out.value, "exception": repr(out.exc)}  # noqa: E731
    env.check("no exception", env.true(out.ok), info)
    if not out.ok:
        return
    env.emit("value", out.value)
    if what == "lower":
        env.check("never below the minimum", env.le(-slack * nd, out.value), info)
    else:
        env.check("the value of the formula", env.eq(out.value, reference(env, name, x)), info)
        env.check("the argument is not modified", env.identical(arg, x), lambda: {"x": x, "argument": arg})


def configs(tier):
    c = []
    for f in FUNCS:
        for nd in (1, 2, 3) + ((4,) if tier != "quick" or f in ("sphere", "quartic", "rosenbrock") else ()):
            for k in ("array", "list", "tuple", "int", "intlist"):
                c.append(dict(fn=f, ndim=nd, what="formula", **{"as": k}))
                if f != "styblinski_tang" or k in ("array", "list", "tuple"):
                    c.append(dict(fn=f, ndim=nd, what="minimiser", **{"as": k}))
            c.append(dict(fn=f, ndim=nd, what="lower"))
            c.append(dict(fn=f, ndim=nd, what="lower", **{"as": "intlist"}))
        for nd in (5, 12, 33, 300):
            for k in ("array", "list", "int") if nd < 300 else ("array",):
                for free in ((0, nd - 1), (nd // 2, nd - 2)):
                    c.append(dict(fn=f, ndim=nd, what="formula", free=free, **{"as": k}))
                if f != "styblinski_tang" or k != "int":
                    c.append(dict(fn=f, ndim=nd, what="minimiser", **{"as": k}))
    return named(c)
