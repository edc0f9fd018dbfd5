"""python3-vt -m vc.run PROP --out FILE: discharge the obligations of one property."""
from __future__ import annotations

import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time


def work(args):
    prop, k, seed, limit, debug = args
    sys.setrecursionlimit(20000)
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    from . import prove
    from .expr import Unsupported
    from .prove import TimeLimit

    m = importlib.import_module(f"specs.{prop.lower()}")
    name, fn, opts = m.CASES[k]

    def alarm(*_):
        raise TimeLimit("time limit")

    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit, 2)
    try:
        try:
            res, info = prove.run_case(fn, seed, stubs=m.stubs, debug=debug, **opts)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except (Unsupported, TimeLimit, MemoryError, RecursionError) as e:
        res, info = {}, {"error": f"{type(e).__name__}: {e}", "z3_time": 0, "z3_calls": 0, "paths": 0,
                         "feasible_paths": 0, "functions": [], "wall": 0}
    except Exception as e:
        if debug:
            raise
        res, info = {}, {"error": f"crash {type(e).__name__}: {e}", "z3_time": 0, "z3_calls": 0, "paths": 0,
                         "feasible_paths": 0, "functions": [], "wall": 0}
    obl = [{"name": f"{name}: {r.name}", "status": r.status or "unsupported", "reason": r.reason,
            "paths": r.paths, "backend": sorted(r.backend)} for r in res.values()]
    if not obl:
        obl = [{"name": f"{name}: all obligations", "status": "unsupported", "reason": info["error"], "paths": 0,
                "backend": []}]
    return name, obl, info


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out")
    ap.add_argument("--case")
    ap.add_argument("--debug", action="store_true")
    ap.add_argument("--limit", type=int, default=0)
    a = ap.parse_args()
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    m = importlib.import_module(f"specs.{a.prop.lower()}")
    limit = a.limit or (300 if a.tier == "quick" else 1500)
    jobs = [(a.prop, k, a.seed, limit, a.debug) for k, c in enumerate(m.CASES)
            if a.case is None or a.case in c[0]]
    t0 = time.time()
    if a.debug:
        out = [work(j) for j in jobs]
    else:
        with mp.get_context("fork").Pool(min(6, len(jobs)), maxtasksperchild=1) as pool:
            out = pool.map(work, jobs, chunksize=1)
    obl, fns, z3t, z3c, infos = [], set(), 0.0, 0, {}
    backends = {}
    for name, o, info in out:
        obl += o
        fns |= set(info["functions"])
        z3t += info["z3_time"]
        z3c += info["z3_calls"]
        infos[name] = {k: v for k, v in info.items() if k != "functions"}
        for x in o:
            if x["status"] == "proved":
                for b in x["backend"]:
                    backends[b] = backends.get(b, 0) + 1
    res = {"obligations": obl, "functions": sorted(fns), "solver_s": z3t, "z3_calls": z3c, "cases": infos,
           "backends": backends, "trusted": list(getattr(m, "TRUSTED", [])),
           "assumptions": list(getattr(m, "ASSUMPTIONS", [])), "bounded": list(getattr(m, "BOUNDED", [])),
           "vacuity": {n: i["feasible_paths"] for n, i in infos.items()}, "wall_s": time.time() - t0}
    if a.out:
        with open(a.out, "w") as f:
            json.dump(res, f, indent=1)
    else:
        for o in obl:
            print(f"{o['status']:12s} {o['name']} (paths {o['paths']}) {o['reason'] if o['status'] != 'proved' else ''}")
        for n, i in infos.items():
            print(f"  {n}: {i['paths']} paths ({i['feasible_paths']} feasible), {i['wall']:.1f} s, z3 {i['z3_calls']} calls {i['z3_time']:.1f} s {i['error']}")
        if a.debug:
            print(sorted(fns))


if __name__ == "__main__":
    main()
