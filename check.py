#!/usr/bin/env python3
"""Decide one property: python3 check.py C01 [--tier quick|thorough].

1. The deductive verifier (vc/) generates the obligations of the property's contracts from the
   sources in /repo as they are now and discharges them (python3-vt, z3 + term normal forms).
2. The same contracts are evaluated at run time on the real code for inputs derived from
   VERIF_SEED (rt/): conformance of the verifier's stubs, bounded stand-in for functions beyond
   the verifier, and search for failing inputs.

Exit 0: no contract is violated. Exit 1 with a VIOLATION line: a contract is violated. Any other
exit: no answer.
"""
import argparse
import json
import os
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
RT_PY = "/opt/venv/bin/python"
VC_PY = "/usr/local/bin/python3-vt"
LIMIT = {"quick": 420, "thorough": 3000}
BUDGET = {"quick": 60, "thorough": 900}


def env():
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLBACKEND="Agg",
             TORCH_FORCE_NO_WEIGHTS_ONLY_LOAD="1", PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", PYTHONPATH=HERE)
    return e


def start(cmd, log):
    f = open(log, "w")
    return subprocess.Popen(cmd, cwd=HERE, env=env(), stdout=f, stderr=subprocess.STDOUT,
                            start_new_session=True)


def finish(p, limit, out):
    try:
        p.wait(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None, "time limit"
    if p.returncode != 0:
        return None, f"exit code {p.returncode}"
    try:
        with open(out) as f:
            return json.load(f), ""
    except (OSError, ValueError) as e:
        return None, str(e)


def known_findings(prop):
    """(recorded findings, repaired ones) of this property."""
    known, fixed = [], []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known:") and f"property={prop} " in line:
                known.append(dict(kv.split("=", 1) for kv in line[6:].split("|")[0].split()
                                  if "=" in kv) | {"text": line.split("|", 1)[1].strip()})
            elif line.startswith("fixed:") and f"property={prop} " in line:
                fixed.append(line)
    return known, fixed


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    a = ap.parse_args()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    t0 = time.time()
    evdir = os.path.join(HERE, "evidence")
    work = os.path.join(evdir, "work")
    os.makedirs(work, exist_ok=True)
    tag = os.path.join(work, prop)
    for suffix in (".rt.json", ".vc.json"):
        if os.path.exists(tag + suffix):
            os.remove(tag + suffix)
    spec = os.path.join(HERE, "specs", f"{prop.lower()}.py")
    procs = {}
    if os.path.exists(spec):
        procs["vc"] = start([VC_PY, "-m", "vc.run", prop, "--tier", tier, "--seed", str(a.seed),
                             "--out", tag + ".vc.json"], tag + ".vc.log")
    procs["rt"] = start([RT_PY, "-m", "rt.common", prop, "--tier", tier, "--seed", str(a.seed),
                         "--budget", str(BUDGET[tier]), "--out", tag + ".rt.json"], tag + ".rt.log")
    res, why = {}, {}
    for k, p in procs.items():
        limit = max(5, LIMIT[tier] - (time.time() - t0))
        res[k], why[k] = finish(p, limit, tag + f".{k}.json")
    rt, vc = res["rt"], res.get("vc")
    problems = []
    if rt is None:
        problems.append(f"run-time contracts: {why['rt']}, see {tag}.rt.log")
    elif rt["errors"]:
        problems += [f"harness {e['harness']} (seed {e['seed']}): {e['message']}"
                     for e in rt["errors"]]
    if rt is not None and rt["evaluations"] == 0:
        problems.append("no contract was evaluated")
    if "vc" in procs and vc is None:
        problems.append(f"verifier: {why['vc']}, see {tag}.vc.log")

    known, fixed = known_findings(prop)
    violations = []
    if rt is not None:
        for v in rt["violations"] + rt["malformed"]:
            violations.append(v)
    refuted = []
    if vc is not None:
        refuted = [o for o in vc["obligations"] if o["status"] == "refuted"]

    # ------------------------------------------------------------------ evidence
    proved = [o for o in (vc or {}).get("obligations", []) if o["status"] == "proved"]
    nobl = len((vc or {}).get("obligations", []))
    level = "proof" if vc is not None and proved else "exploration"
    bounded = {
        "label": "bounded: contracts evaluated on the real code for generated inputs only",
        "evaluations": rt["evaluations"] if rt else 0,
        "skipped_preconditions": rt["skipped"] if rt else 0,
        "harnesses": rt["harnesses"] if rt else {},
        "truncated_by_budget": bool(rt and rt.get("truncated")),
    }
    cov = {}
    if vc is not None:
        cov.update({
            "obligations": nobl,
            "discharged": len(proved),
            "checker_cmd": f"python3-vt -m vc.run {prop} --tier {tier} --seed {a.seed}",
            "trusted_base": vc.get("trusted", []),
            "functions_under_contract": vc.get("functions", []),
            "back_ends": vc.get("backends", {}),
            "solver_s": round(vc.get("solver_s", 0.0), 3),
            "undecided": [{k: str(o.get(k))[:300] for k in ("name", "status", "reason")}
                          for o in vc["obligations"] if o["status"] not in ("proved",)][:40],
            "vacuity_checks": vc.get("vacuity", {}),
            "obligation_names": sorted({o["name"] for o in vc["obligations"]})[:120],
            "bounded_part": vc.get("bounded", []),
        })
    cov["bounded_runtime_contracts"] = bounded
    cov["evaluations"] = bounded["evaluations"]
    cov["distinct_nontrivial"] = rt["distinct"] if rt else 0
    cov["rule"] = ("each evaluation draws a problem (model, loss, data, operator, call format, "
                   "settings) from a generator seeded with VERIF_SEED; distinct: the generator "
                   "seeds differ; non-trivial: the precondition held and the postcondition was "
                   "evaluated against an independent oracle")
    cov["samples"] = (rt["samples"] if rt else [])[:4] or ["none"]
    ev = {
        "property": prop, "tier": tier, "seed": a.seed, "level": level, "coverage": cov,
        "assumptions": (vc or {}).get("assumptions", []) + [
            "run-time contracts compare with tolerances; floating point rounding is not verified"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations) + (len(refuted) if not violations else 0),
    }
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)

    # ------------------------------------------------------------------ verdict
    code = 0
    rep = os.path.join(evdir, "replay")
    os.makedirs(rep, exist_ok=True)
    for v in violations:
        k = next((k for k in known if k.get("harness") == v["harness"]), None)
        if k is not None:
            continue
        path = os.path.join(rep, f"{prop}-{v['harness']}.json")
        v = dict(v, replay=f"cd {HERE} && OMP_NUM_THREADS=1 {RT_PY} -m rt.common {prop} "
                           f"--only {v['harness']} --case-seed {v['seed']}",
                 refuted_obligations=[o["name"] for o in refuted])
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print(f"contract violated ({v['harness']}, seed {v['seed']}): {v['message']}")
        print(f"VIOLATION property={prop} replay={path}")
        code = 1
    for k in known:
        hit = any(v["harness"] == k.get("harness") for v in violations)
        if hit:
            print(f"KNOWN-FINDING: property={prop} {k['text']}")
    if code == 0 and refuted:
        path = os.path.join(rep, f"{prop}-obligations.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "failed_obligations": refuted,
                       "note": "no failing input was found by evaluating the contracts"}, f,
                      indent=1)
        for o in refuted[:10]:
            print(f"obligation refuted: {o['name']}: {o.get('reason', '')}"[:2000])
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        code = 1
    if code == 0 and problems:
        # a verifier without an answer leaves the bounded stand-in; without that: no answer
        for p in problems:
            print("no answer:", p)
        if rt is None or rt["errors"] or rt["evaluations"] == 0:
            code = 2
    und = nobl - len(proved) - len(refuted)
    print(f"{prop}: {len(proved)}/{nobl} obligations discharged, {und} undecided; "
          f"{bounded['evaluations']} bounded evaluations of contracts; {ev['wall_s']} s; "
          f"exit {code}")
    return code


if __name__ == "__main__":
    sys.exit(main())
