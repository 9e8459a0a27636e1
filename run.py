#!/opt/venv/bin/python
"""run.py PROPERTY [--tier quick|thorough] [--only HARNESS] : decide one property on /repo's current tree."""
import os
import sys

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("HOME", "/root")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
EVID = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
sys.path.insert(0, HERE)
REPO = os.environ.setdefault("VERIF_REPO", "/repo")
os.environ.setdefault("TQDM_DISABLE", "1")
sys.path.insert(1, REPO)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import argparse  # noqa
import warnings  # noqa

warnings.simplefilter("ignore")
import importlib  # noqa
import json  # noqa
import multiprocessing as mp  # noqa
import time  # noqa
import traceback  # noqa


def child(q, prop, hname, opts):
    try:
        sys.setrecursionlimit(20000)
        m = importlib.import_module(f"props.{prop}")
        from symx.session import run_harness, search_only

        h = m.HARNESSES[hname]
        r = (search_only if opts.get("search_only") else run_harness)(h["fn"], opts)
    except BaseException as ex:  # noqa
        r = {"status": "inconclusive", "notes": ["crash: " + "".join(traceback.format_exception(ex))[-3000:]], "stats": {}, "functions": [], "goals": {}, "wall_s": 0, "paths": 0, "replays": 0}
    q.put((hname, r))


def load_known(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: ") and f"property={prop} " in line:
                out.append(line[len("finding: "):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    import z3  # noqa
    import jax  # noqa
    import numpyro  # noqa
    import jax.numpy  # noqa
    import arviz  # noqa
    import h5py  # noqa
    import xarray  # noqa
    import mpmath  # noqa
    import sympy  # noqa
    import scipy.stats  # noqa

    m = importlib.import_module(f"props.{a.prop}")
    todo = []
    for n, h in m.HARNESSES.items():
        if a.only and n != a.only:
            continue
        if tier == "quick" and h.get("tier") == "thorough":
            continue
        o = dict(h.get("opts", {}))
        if tier == "thorough":
            o["time"] = o.get("time", 240) * 3
            o["prove_ms"] = o.get("prove_ms", 15000) * 3
            o["max_paths"] = o.get("max_paths", 4000) * 4
            o["witnesses"] = 8
            o.update(h.get("thorough", {}))
        o["seed"] = seed
        todo.append((n, o))
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    running = {}
    results = {}
    limit = {n: o.get("time", 240) + 100 for n, o in todo}
    opts_of, killed = dict(todo), set()
    pend = sorted(todo, key=lambda x: -m.HARNESSES[x[0]].get("weight", 1))
    total = len(pend)
    while len(results) < total:
        while pend and len(running) < a.jobs:
            n, o = pend.pop(0)
            p = ctx.Process(target=child, args=(q, a.prop, n, o))
            p.start()
            running[n] = (p, time.time())
        try:
            n, r = q.get(timeout=1)
            results[n] = r
            p, _ = running.pop(n)
            p.join(5)
            if a.v:
                print(f"[{time.time()-t0:6.1f}s] {n}: {r['status']} paths={r.get('paths')} goals={sum(r.get('goals', {}).values())} wall={r['wall_s']}", flush=True)
                for x in r.get("notes", []):
                    print("      ", x)
        except Exception:  # queue.Empty
            for n, (p, ts) in list(running.items()):
                if n in results:
                    continue
                if not p.is_alive():
                    time.sleep(0.3)
                    if q.empty():
                        results[n] = {"status": "inconclusive", "notes": [f"process ended with {p.exitcode}"], "stats": {}, "functions": [], "goals": {}, "wall_s": time.time() - ts, "paths": 0}
                        running.pop(n)
                elif time.time() - ts > limit[n]:
                    p.kill()
                    if n in killed:
                        results[n] = {"status": "inconclusive", "notes": ["hard time limit"], "stats": {}, "functions": [], "goals": {}, "wall_s": time.time() - ts, "paths": 0}
                        running.pop(n)
                        continue
                    killed.add(n)
                    limit[n] = 100
                    p = ctx.Process(target=child, args=(q, a.prop, n, dict(opts_of[n], search_only=True)))
                    p.start()
                    running[n] = (p, time.time())
    code = report(a.prop, m, tier, seed, results, time.time() - t0, a.only)
    sys.stdout.flush()
    os._exit(code)


def report(prop, m, tier, seed, results, wall, only):
    known = load_known(prop)
    viols = []
    inconc = []
    tot = {}
    funcs = set()
    goals = {}
    for n, r in results.items():
        for k, v in r.get("stats", {}).items():
            if isinstance(v, (int, float)):
                tot[k] = max(tot.get(k, 0), v) if k == "max_atoms" else tot.get(k, 0) + v
            elif k == "by":
                for kk, vv in v.items():
                    tot.setdefault("by", {})[kk] = tot.setdefault("by", {}).get(kk, 0) + vv
        funcs |= set(r.get("functions", []))
        goals[n] = {"goals": r.get("goals", {}), "status": r["status"], "paths": r.get("paths"), "wall_s": r["wall_s"], "witnesses_replayed": r.get("witness_ok", 0), "notes": r.get("notes", [])}
        if r["status"] == "violation":
            viols.append((n, r["violation"]))
        elif r["status"] != "holds":
            inconc.append((n, r.get("notes", [])))
    rep_dir = os.path.join(EVID, "replay")
    os.makedirs(rep_dir, exist_ok=True)
    out_v = []
    knownhits = []
    for n, v in viols:
        tag = f"harness={n} goal={v['goal']}"
        hit = [k for k in known if f"harness={n} " in k + " " and f"goal={v['goal']}" in k]
        if hit:
            knownhits.append(hit[0])
            continue
        path = os.path.join(rep_dir, f"{prop}_{n}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": n, **v}, f, indent=1, default=str)
        out_v.append((path, tag, v))
    cov = {
        "functions_encoded": sorted(funcs),
        "bounds": getattr(m, "BOUNDS", ""),
        "outside_bounds": getattr(m, "OUTSIDE", ""),
        "paths_explored": tot.get("paths", 0),
        "goals_decided": tot.get("goals", 0),
        "goals_closed_by_exact_normal_form": tot.get("goals_norm", 0),
        "goals_sent_to_solver": tot.get("goals_smt", 0),
        "solver_queries": tot.get("queries", 0),
        "solver_unsat": tot.get("unsat", 0),
        "solver_sat": tot.get("sat", 0),
        "solver_unknown": tot.get("unknown", 0),
        "unsat_by_engine": tot.get("by", {}),
        "solver_seconds": round(tot.get("solver_s", 0), 2),
        "harnesses": goals,
        "inconclusive": [n for n, _ in inconc],
        "explanation": "bounded symbolic execution of the current source of the listed functions over exact reals; every path condition and goal decided by SMT (z3 nlsat/smt, cvc5 second opinion); counterexamples are replayed on the real package in float64",
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(m, "LEVEL", "other"),
        "coverage": cov,
        "assumptions": list(getattr(m, "ASSUMPTIONS", [])) + COMMON_ASSUMPTIONS,
        "violations": [{"replay": p, "what": t, "detail": str(v.get("detail"))} for p, t, v in out_v],
        "wall_s": round(wall, 2),
    }
    if not only:
        with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    print(f"{prop} [{tier}] harnesses={len(results)} paths={cov['paths_explored']} goals={cov['goals_decided']} (solver {cov['goals_sent_to_solver']}) queries={cov['solver_queries']} solver_s={cov['solver_seconds']} functions={len(funcs)} wall={wall:.1f}s")
    for k in knownhits:
        print(f"KNOWN-FINDING: {k}")
    for n, notes in inconc:
        print(f"INCONCLUSIVE property={prop} harness={n}: " + " | ".join(notes)[:1500])
    for p, t, v in out_v:
        print(f"  {t}: {v.get('detail')} inputs={v.get('inputs')} choices={v.get('choices')} [{v.get('source')}]")
        print(f"VIOLATION property={prop} replay={p}")
    if out_v:
        return 1
    if inconc:
        return 2
    return 0


COMMON_ASSUMPTIONS = [
    "arithmetic is exact real arithmetic with IEEE nan/inf propagation; rounding, overflow and underflow are outside the encoding",
    "numpy/jax/scipy primitives are replaced by exact versions of their documented meaning (jit = identity, vmap/fori_loop/scan unrolled)",
    "float literals that print as short decimals or known constants (pi, sqrt 2, ...) denote those exact numbers",
]

if __name__ == "__main__":
    main()
