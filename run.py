#!/opt/venv/bin/python
"""run.py <property> [--tier quick|thorough] [--only SUBSTRING] [-v]: decide one property on /repo's current source."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import numpy  # noqa: F401,E402  (before the tool environment's own numpy can be seen)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.setrecursionlimit(6000)
warnings.simplefilter("ignore")

WORKERS = 8


def work(job):
    pid, idx, cfg, limit, seed, nval = job
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = importlib.import_module("props." + pid.lower())
    from symex import harness as h
    t0 = time.time()
    out = {"idx": idx, "name": cfg["name"]}
    opts = dict(getattr(mod, "RUN", {}))
    opts.update(cfg.get("run", {}))
    r = h.Run(mod.scenario, cfg, deadline=t0 + limit, **opts)
    r.salt = seed
    try:
        good, bad = r.validate(cfg.get("nval", nval), seed)
        out["validated"], out["mismatch"] = good, bad
        r.explore()
    except MemoryError:
        out["error"] = "out of memory"
    e = r.engine
    out.update(paths=e.paths, complete=e.complete_paths, decisions=e.decisions, exhausted=e.exhausted,
               budget=r.budget, obligations=r.obligations, cut=e.cut, unsupported=e.unsupported,
               queries=e.stats.queries, unsat=e.stats.unsat, sat=e.stats.sat, unknown=e.stats.unknown,
               tiers=e.stats.by_tier, solver_s=e.stats.time, violations=r.violations, replays=r.replays, tolerated=r.tolerated,
               functions=sorted(r.functions), samples=r.samples, inputs=len(r.inputs), wall=time.time() - t0)
    if r.error:
        out["error"] = r.error
    return out


def child(job, conn):
    try:
        conn.send(work(job))
    except BaseException as x:  # noqa: BLE001
        import traceback
        conn.send({"idx": job[1], "name": job[2]["name"], "error": f"{type(x).__name__}: {x}",
                   "traceback": traceback.format_exc()[-2000:]})
    finally:
        conn.close()


def run_jobs(jobs, stop_on, hard):
    """Each job in its own process; at most WORKERS at a time."""
    ctx = mp.get_context("fork")
    pending, live, results = list(jobs), [], []
    t_end = time.time() + hard
    while pending or live:
        while pending and len(live) < WORKERS:
            j = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(j, b), daemon=True)
            p.start()
            b.close()
            live.append((p, a, j, time.time()))
        mp.connection.wait([a for _, a, _, _ in live], timeout=1.0)
        for item in list(live):
            p, a, j, t0 = item
            res = None
            if a.poll():
                try:
                    res = a.recv()
                except EOFError:
                    res = {"idx": j[1], "name": j[2]["name"], "error": "worker ended without a result"}
            elif not p.is_alive():
                res = {"idx": j[1], "name": j[2]["name"], "error": "worker ended without a result"}
            elif time.time() - t0 > j[3] * 1.5 + 30 or time.time() > t_end:
                p.kill()
                res = {"idx": j[1], "name": j[2]["name"], "error": "stopped: time limit"}
            if res is not None:
                live.remove(item)
                p.join(2)
                results.append(res)
                if stop_on(res):
                    for q, *_ in live:
                        q.kill()
                    return results
        if time.time() > t_end:
            for j in pending:
                results.append({"idx": j[1], "name": j[2]["name"], "error": "not started: time limit"})
            pending = []
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--all", action="store_true", help="go on after a violation and list them all")
    a = ap.parse_args()
    pid = a.property.upper()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    mod = importlib.import_module("props." + pid.lower())
    cfgs = mod.configs(a.tier)
    for i, c in enumerate(cfgs):
        c.setdefault("name", f"{pid}-{i}")
    if a.only:
        cfgs = [c for c in cfgs if a.only in c["name"]]
    names = [c["name"] for c in cfgs]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    dflt = 25 if a.tier == "quick" else 900
    hard = 780 if a.tier == "quick" else 6 * 3600
    nval = 2 if a.tier == "quick" else 5
    jobs = [(pid, i, c, c.get("time", dflt) * (1 if a.tier == "quick" else c.get("scale", 1)), seed, nval)
            for i, c in enumerate(cfgs)]
    jobs.sort(key=lambda j: -j[2].get("cost", 1))
    known = load_known(pid)
    confirmed = []

    def stop_on(res):
        if a.v:
            show(res)
        for v in res.get("violations", []):
            path = save_replay(pid, res["name"], v)
            rc = subprocess.run([sys.executable, os.path.join(HERE, "replay.py"), path, "-q"],
                                capture_output=True, text=True)
            v["replay"] = path
            v["confirmed"] = rc.returncode == 1
            v["replay_output"] = (rc.stdout + rc.stderr)[-600:]
            if v["confirmed"]:
                confirmed.append(v)
                if a.all:
                    print(f"violation: {v['config']['name']}: {v['label']}: {str(v['info'])[:300]}", flush=True)
                return not a.all
        return False

    results = run_jobs(jobs, stop_on, hard)
    results.sort(key=lambda r: r["idx"])
    wall = time.time() - t0
    ev, status = evidence(pid, mod, a.tier, seed, results, cfgs, wall, confirmed)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not a.only:
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    c = ev["coverage"]
    print(f"{pid} {a.tier}: {c['configurations']} configurations, {c['states']} paths, "
          f"{c['obligations_total']} obligations ({c['obligations_normal_form']} by normal form, "
          f"{c['obligations_solver']} by the solver, {c['obligations_undecided']} undecided), "
          f"{c['queries']} queries, {c['solver_s']} s in the solver, "
          f"{c['traces_validated_against_impl']} traces validated, {wall:.1f} s")
    for n in c["not_decided"]:
        print("INCONCLUSIVE", n)
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if confirmed:
        v = confirmed[0]
        print(f"counterexample in {v['config']['name']}: {v['label']}")
        print(v["replay_output"])
        print(f"VIOLATION property={pid} replay={v['replay']}")
        return 1
    return status


def show(r):
    o = r.get("obligations", {})
    print(f"  {r['name']}: {r.get('wall', 0):.1f}s paths {r.get('paths')}/{r.get('complete')} dec {r.get('decisions')} "
          f"q {r.get('queries')} val {r.get('validated')} exh {r.get('exhausted')} "
          f"{ {k: v for k, v in o.items()} } {r.get('cut') or ''} {r.get('unsupported') or ''} "
          f"{r.get('mismatch') or ''} {r.get('error') or ''} "
          f"{[(v['label'], str(v['info'])[:1500]) for v in r.get('violations', [])] or ''}", flush=True)
    if r.get("traceback"):
        print(r["traceback"])


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith(f"known: property={pid} "):
                out.append(line.split(" ", 2)[2].strip())
    return out


def save_replay(pid, name, v):
    d = os.path.join(HERE, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    safe = "".join(ch if ch.isalnum() or ch in "-_." else "_" for ch in name)
    p = os.path.join(d, f"{pid}-{safe}.json")
    with open(p, "w") as f:
        json.dump({"property": pid, "config": v["config"], "values": v["values"], "salt": v["salt"],
                   "label": v["label"], "info": v["info"]}, f, indent=1)
    return p


def evidence(pid, mod, tier, seed, results, cfgs, wall, confirmed):
    tot = lambda k: sum(r.get(k) or 0 for r in results)  # noqa: E731
    lab = {}
    for r in results:
        for k, v in (r.get("obligations") or {}).items():
            x = lab.setdefault(k, [0, 0, 0, 0])
            for i in range(4):
                x[i] += v[i]
    nd = []
    cut, uns = {}, {}
    for r in results:
        if r.get("error"):
            nd.append(f"{r['name']}: {r['error']}")
        if r.get("budget"):
            nd.append(f"{r['name']}: not exhausted ({r.get('paths')} paths explored)")
        for k, n in (r.get("unsupported") or {}).items():
            uns[k] = uns.get(k, 0) + n
            nd.append(f"{r['name']}: {n} paths left at an unsupported operation: {k}")
        for k, n in (r.get("cut") or {}).items():
            cut[k] = cut.get(k, 0) + n
        for k, v in (r.get("obligations") or {}).items():
            if v[3]:
                nd.append(f"{r['name']}: {v[3]} of {v[0]} obligations '{k}' undecided")
        for m in r.get("mismatch") or []:
            nd.append(f"{r['name']}: encoding and implementation differ: {m[:300]}")
        for v in r.get("violations") or []:
            if not v.get("confirmed"):
                nd.append(f"{r['name']}: counterexample to '{v['label']}' not reproduced in a fresh process")
        if not r.get("error") and not r.get("violations") and not r.get("complete"):
            nd.append(f"{r['name']}: no path reached the end")
    samples = []
    for r in results:
        for s in r.get("samples") or []:
            if len(samples) < 8:
                samples.append({"configuration": r["name"], **s})
    for v in confirmed:
        samples.append({"configuration": v["config"]["name"], "violated": v["label"], "values": v["values"]})
    fns = sorted({f for r in results for f in r.get("functions") or []})
    tiers = {}
    for r in results:
        for k, n in (r.get("tiers") or {}).items():
            tiers[k] = tiers.get(k, 0) + n
    cov = {
        "states": tot("paths"), "transitions": tot("decisions"),
        "traces_validated_against_impl": tot("validated"), "samples": samples,
        "configurations": len(results), "configurations_exhausted": sum(1 for r in results if r.get("exhausted")),
        "complete_paths": tot("complete"),
        "obligations_total": sum(v[0] for v in lab.values()),
        "obligations_normal_form": sum(v[1] for v in lab.values()),
        "obligations_solver": sum(v[2] for v in lab.values()),
        "obligations_undecided": sum(v[3] for v in lab.values()),
        "obligations_by_label": lab,
        "queries": tot("queries"), "queries_unsat": tot("unsat"), "queries_sat": tot("sat"),
        "queries_unknown": tot("unknown"), "queries_by_tier": tiers, "solver_s": round(tot("solver_s"), 2),
        "replays_of_models": tot("replays"), "obligations_holding_up_to_rounding": tot("tolerated"),
        "functions_encoded": fns, "bounds": getattr(mod, "BOUNDS", ""), "cut": cut, "unsupported": uns,
        "not_decided": nd,
        "per_configuration": [{k: r.get(k) for k in ("name", "paths", "complete", "decisions", "queries", "exhausted",
                                                     "validated", "inputs", "wall", "error")} for r in results],
        "rule": "a state is one explored path of the real code under one configuration; a transition is one "
                "symbolic branch decision; a validated trace is a concrete run of the encoding compared value by "
                "value with the real code on the real numpy",
    }
    decided = cov["obligations_normal_form"] + cov["obligations_solver"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": list(COMMON_ASSUMPTIONS) + list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(wall, 2), "violations": len(confirmed)}
    return ev, (0 if decided and cov["complete_paths"] else 2)


COMMON_ASSUMPTIONS = [
    "arithmetic is over the reals (constants are the exact values of the doubles); rounding is outside the claim",
    "random draws are arbitrary values of their range: uniform in (0, 1), normal in [-6, 6], any permutation",
    "objective values are finite and the objective returns equal values at equal points",
    "divisions by an exact zero, roots of negatives and logarithms of non-positives are assumed away where listed "
    "under cut",
    "joblib.Parallel returns results in task order, having run each task exactly once (in any order)",
    "numpy's own behaviour is that of the modelled functions (compared by the validated traces)",
]

if __name__ == "__main__":
    sys.exit(main())
