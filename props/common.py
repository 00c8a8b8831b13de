"""Configurations and drivers shared by the properties."""
from symex.harness import Callback, Objective

OPTIMIZERS = ("de", "pso", "cpso", "na", "cmaes", "vdcma")
ELITIST = ("de", "pso", "cpso", "na")
BOXES = {
    1: [[-2.0, 3.0]],
    2: [[-5.0, 5.0], [-3.0, 4.0]],
    3: [[-5.0, 5.0], [-3.0, 4.0], [1.0, 2.5]],
    4: [[-5.0, 5.0], [-3.0, 4.0], [1.0, 2.5], [-1.0, 1.0]],
    5: [[-5.0, 5.0], [-3.0, 4.0], [1.0, 2.5], [-1.0, 1.0], [0.0, 8.0]],
}
BOXES[6] = BOXES[5] + [[-3.0, -1.0]]
BOXES[7] = BOXES[6] + [[2.0, 3.0]]
for _n in range(8, 25):
    BOXES[_n] = (4 * BOXES[7])[:_n]


def name_of(cfg):
    parts = []
    for k, v in cfg.items():
        if k in ("name", "gens", "eps", "time", "cost", "run", "nval", "scale", "fork", "anomalies"):
            continue
        if k == "opt":
            parts += [f"{a}={b}" for a, b in v.items()]
        elif k == "method":
            parts.insert(0, str(v))
        else:
            parts.append(f"{k}={v}")
    return ",".join(parts)


def named(cfgs):
    for c in cfgs:
        c.setdefault("name", name_of(c))
    seen, out = set(), []
    for c in cfgs:
        if c["name"] not in seen:
            seen.add(c["name"])
            out.append(c)
    return out


GRID = (0.125, 0.75, 0.5, 0.9375, 0.25, 0.625, 0.0625, 0.375)


class Rec:
    pass


def make_bounds(env, cfg):
    """(bounds as given to the code, lower list, upper list)."""
    nd = cfg.get("ndim", 2)
    kind = cfg.get("bounds", "fixed")
    if kind == "fixed":
        b = [list(r) for r in BOXES[nd]]
    elif kind == "std":
        b = [[-1.0, 1.0] for _ in range(nd)]
    elif kind == "int":
        b = [[-5, 5], [-3, 4], [1, 3]][:nd]
    elif kind == "tiny":
        b = [[-0.002, 0.003], [0.001, 0.004], [1.0, 1.003]][:nd]
    elif kind == "degenerate":  # the first variable is fixed by its bounds
        b = [list(r) for r in BOXES[nd]]
        b[cfg.get("degdim", 0)] = [2.0, 2.0]
    elif kind == "sym":
        b = []
        for j in range(nd):
            lo = env.real(f"lo{j}", -10, 10)
            w = env.real(f"w{j}", 1, 10)
            b.append([lo, lo + w])
    lower = [r[0] for r in b]
    upper = [r[1] for r in b]
    if cfg.get("boundsarray"):
        b = env.array(b)
    return b, lower, upper


def make_x0(env, cfg, lower, upper):
    kind = cfg.get("x0", "none")
    if kind == "none":
        return None
    nd = len(lower)
    one = cfg["method"] in ("cmaes", "vdcma", "mcmc", "hmc")
    n = 1 if one else cfg.get("popsize", 3)
    rows = []
    for i in range(n):
        row = []
        for j in range(nd):
            if kind == "grid":  # fixed points inside the box
                t = float(GRID[(2 * i + 3 * j + i * j) % len(GRID)]) + (i // 8) / 64
                row.append(lower[j] + t * (upper[j] - lower[j]))
            elif kind == "edge":  # on the bounds, some inside
                t = float(GRID[(2 * i + 3 * j + i * j) % len(GRID)])
                q = (0.0, t, 1.0, 1.0 - t)[(i + 2 * j) % 4]
                row.append(upper[j] if q == 1.0 else lower[j] + q * (upper[j] - lower[j]))
            elif kind == "far":  # outside the box, on either side
                row.append(lower[j] - 0.7 * (upper[j] - lower[j]) if (i + j) % 2 else upper[j] + 1.1 * (upper[j] - lower[j]))
            elif kind == "cluster":  # close to each other
                t = float(GRID[(2 * i + 3 * j + i * j) % len(GRID)])
                row.append(lower[j] + 0.25 * (upper[j] - lower[j]) + t / 32 + (i // 8) / 512)
            elif kind == "thin":  # close to each other but for one variable
                t = float(GRID[(2 * i + 3 * j + i * j) % len(GRID)])
                row.append(lower[j] + 0.25 * (upper[j] - lower[j]) + (t / 32 if j != cfg.get("thick", nd - 1) else t * (upper[j] - lower[j])))
            elif kind == "corner":  # the last near a corner, the others anywhere
                if i == n - 1:
                    q = ((0.125, 0.0625, 0.25)[j] if cfg["corner"][j] == "l" else (0.9375, 0.875, 0.75)[j])
                    row.append(lower[j] + q * (upper[j] - lower[j]))
                else:
                    row.append(env.real(f"x0_{i}_{j}", lower[j], upper[j]))
            elif kind in ("out", "outlist"):  # anywhere around the box
                num = isinstance(lower[j], (int, float))
                row.append(env.real(f"x0_{i}_{j}", lower[j] - 3 if num else -20, upper[j] + 3 if num else 30))
            elif kind == "int":
                row.append(env.int(f"x0_{i}_{j}", int(lower[j]), int(upper[j])))
            else:
                t = env.real(f"x0_{i}_{j}", lower[j], upper[j]) if not env.sym or isinstance(lower[j], (int, float)) \
                    else env.real(f"x0_{i}_{j}", -10, 20)
                if not isinstance(lower[j], (int, float)):
                    env.assume(env.between(lower[j], t, upper[j]))
                row.append(t)
        rows.append(row)
    if kind in ("list", "outlist"):
        return rows[0] if one else rows
    if kind == "int":
        a = env.arr([e for r in rows for e in r], (n, nd), "i")
    else:
        a = env.arr([e for r in rows for e in r], (n, nd), "f")
    return a[0].copy() if one else a


def options(env, cfg):
    o = dict(maxiter=cfg.get("maxiter", 2), seed=cfg.get("seed", 1))
    m = cfg["method"]
    if m in OPTIMIZERS:
        o["popsize"] = cfg.get("popsize", 3)
        tol = cfg.get("tol", "off")
        if tol == "off":  # neither tolerance can be met
            o["xtol"], o["ftol"] = -1.0, -1.0e9
        elif tol == "sym":
            o["xtol"] = env.real("xtol", 0, 3)
            o["ftol"] = env.real("ftol", -10, 10)
        elif tol == "symf":
            o["xtol"] = -1.0
            o["ftol"] = env.real("ftol", -10, 10)
    for k in ("return_all", "verbosity"):
        if k in cfg:
            o[k] = cfg[k]
    o.update(cfg.get("opt", {}))
    if o.get("seed", 0) is None:
        del o["seed"]
    return o


def quiet(env, cfg):
    """Long and wide runs: fixed draws, and fixed values but for the calls listed in cfg["free"]."""
    n = cfg.get("popsize", 3)

    def draw(kind, k):
        k = env.nth  # runs of one seed get the same draws
        u = (0.37 + 0.6180339887498949 * k) % 1.0
        u = (int(u * 61) + 1) / 64
        return u if kind == "u" else 4 * (u - 0.5) + (0.25 if k % 3 else -0.5)

    def choice(kind, k, m):
        k = env.nth
        return (5 * k + k // 3) % m if kind == "i" else [(q + k) % m for q in range(m)][:: 1 if k % 2 else -1]

    def pick(k):
        if k in cfg.get("free", ()):
            return None
        v = value(k)
        return v + k / 4096 if cfg["method"] == "na" and k else v  # how equal values are sorted depends on their number

    def value(k):
        law = cfg["long"]
        if law == "flat":
            return 1.0
        if law == "rise":
            return 1.0 + k / 16
        if law == "fall":
            return 1.0 - k / 128
        if law == "kept":  # the first is the best, the others alike
            return float(1 + min(k, 1 + k // n))
        if law == "noise":
            return ((7 * k + 3 * (k // 5)) % 31) / 4 + k / 1024
        if law == "start":  # all starting points are alike and nothing is better
            return 1.0 + (k // n + 1) / 8 if k >= n else 1.0
        if law == "plateau":  # everyone ends up alike
            return 1.0 - min(k // n, 5)
        return 1.0 + ((7 * k) % 5) / 4 - min(k // n, 5) + k / 512  # "settle": improves during five iterations only
    env.policy, env.choice = draw, choice
    return pick


LONG = ("; besides, long runs (up to 130 iterations or samples) and wide ones (up to 40 individuals, 10 variables) with fixed draws, "
        "the values following a few laws but for one or two arbitrary values at arbitrary places among the others")

LAWS = ("flat", "rise", "fall", "kept", "noise", "settle", "plateau", "start")


def extended(m, wide=24, it=45, laws=LAWS, n=4, **kw):
    """Configurations of long runs and of many individuals and variables."""
    if m == "na":  # every step measures against all the previous points
        it = min(it, 16)
    c = [dict(method=m, popsize=n, ndim=2, maxiter=it, long=law, free=((3 * i + 1) % n + n * max(it - 8 - 3 * i, 1 + i),), fork=True, **kw) for i, law in enumerate(laws)]
    if wide:
        c.append(dict(method=m, popsize=wide, ndim=10, maxiter=3, long="noise", free=(wide // 2, wide + 1), fork=True, **kw))
        c.append(dict(method=m, popsize=wide + 16, ndim=2, maxiter=3, long="noise", free=(wide + 3,), fork=True, **kw))
    return c


def drive(env, cfg, st=None, f=None, cb=None, bounds=None, x0=None, opts=None, args=None):
    """One run through the public entry point."""
    r = Rec()
    st = st or env.load(order=cfg.get("order"))
    r.st = st
    if bounds is None:
        r.bounds, r.lower, r.upper = make_bounds(env, cfg)
        r.x0 = make_x0(env, cfg, r.lower, r.upper) if x0 is None else x0
    else:
        r.bounds = bounds
        r.lower, r.upper = [b[0] for b in bounds], [b[1] for b in bounds]
        r.x0 = x0
    if f is None and cfg.get("long"):
        f = Objective(env, pick=quiet(env, cfg), kind=cfg.get("kind", "float"))
    r.f = f or Objective(env, lo=cfg.get("flo", -10), hi=cfg.get("fhi", 10), kind=cfg.get("kind", "float"))
    r.cb = (cb or None) if cb is not None else (Callback(env, r.f) if cfg.get("cb", True) else None)
    r.opts = opts if opts is not None else options(env, cfg)
    r.args = args if args is not None else tuple(cfg.get("args", ()))
    kw = {}
    if r.x0 is not None:
        kw["x0"] = r.x0
    if r.args:
        kw["args"] = r.args
    if r.cb is not None:
        kw["callback"] = r.cb
    fn = st.optimize.minimize if cfg["method"] in OPTIMIZERS else st.sample.sample
    r.out = env.call(fn, r.f, r.bounds, method=cfg["method"], options=r.opts, **kw)
    if r.out.ok:
        v = r.out.value
        r.res = v
        env.emit("res", tuple(v.get(k) for k in ("x", "fun", "nit", "nfev", "status", "success", "message", "xall",
                                                 "funall", "accept_ratio")))
    else:
        r.res = None
        env.emit("exc", type(r.out.exc).__name__)
    return r


def evaluated(env, x, fun, calls, exact=True, penal=False):
    """(x, fun) is one of the evaluated pairs (with a penalty: fun is at least the value there)."""
    alts = []
    for c in calls:
        if not env.sym and len(c.x) != len(x):
            continue
        if not penal and isinstance(c.f, float) and isinstance(fun, float) and abs(fun - c.f) > 1e-6:
            continue
        alts.append(env.and_(env.same(x, c.x), env.le(c.f, fun) if penal else env.eq(fun, c.f)))
    return env.or_([env.true(False)] + alts)


def is_min(env, fun, vals):
    return env.and_([env.le(fun, v) for v in vals] + [env.or_([env.eq(fun, v) for v in vals])])


def any_rank(env, name, known):
    """A value at an arbitrary place among the (distinct, numeric) ones known so far."""
    known = sorted(set(known))
    if not known:
        return 0.0
    j = env.concretize(env.int(f"{name}of{len(known)}", 0, len(known)))
    return (([known[0] - 2] + known)[j] + (known + [known[-1] + 2])[j]) * 0.5
