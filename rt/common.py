"""Run-time evaluation of the contracts on the real code (bounded, labelled as such).

Every function decorated with ``case`` is one contract harness: it builds random inputs
from ``rng`` that satisfy the precondition, calls the real code of /repo, and evaluates
the postcondition with an oracle that is written independently of /repo.
"""
import contextlib
import io
import json
import os
import random
import sys
import time
import traceback
import warnings

REGISTRY = {}
QUICK = 6  # evaluations of a harness in the quick tier, relative to its base number


class Violation(Exception):
    """The postcondition is false for the inputs described in the message."""


class Skip(Exception):
    """The generated input does not satisfy the precondition."""


def case(prop, reps=3, thorough=None):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(
            (fn.__name__, fn, reps, thorough or 8 * reps)
        )
        return fn

    return deco


def ensure(cond, msg, **info):
    if not cond:
        extra = "; ".join(f"{k}={v!r}" for k, v in info.items())
        raise Violation(f"{msg}" + (f" [{extra}]" if extra else ""))


def raises(exc, fn, msg):
    """The contract says that ``fn`` is rejected with (a sub-class of) ``exc``."""
    try:
        fn()
    except exc as e:
        # the exception must be of this type, not a broader accident
        return e
    except Exception as e:
        raise Violation(f"{msg}: expected {exc.__name__}, got {type(e).__name__}: {e}")
    raise Violation(f"{msg}: expected {exc.__name__}, but the call was accepted")


def in_repo(tb):
    """Whether any frame of the traceback is code of the repository."""
    for fr in traceback.extract_tb(tb):
        f = fr.filename.replace("\\", "/")
        if "/curvlinops/" in f and "/verif/" not in f:
            return True
    return False


def run_one(prop, name, fn, seed):
    """Returns (status, message) with status in ok/skip/violation/error."""
    import numpy
    import torch

    numpy.random.seed(seed % 2**32)
    torch.manual_seed(seed)
    random.seed(seed)
    rng = random.Random(seed * 7919 + 13)
    out = io.StringIO()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                fn(rng)
        return "ok", ""
    except Skip:
        return "skip", ""
    except Violation as e:
        return "violation", str(e)
    except ImportError as e:
        return "unavailable", f"{type(e).__name__}: {e}"
    except Exception as e:
        txt = traceback.format_exc(limit=-6)
        if in_repo(sys.exc_info()[2]):
            return (
                "violation",
                f"the call raised {type(e).__name__}: {e}, which its contract excludes\n{txt}",
            )
        if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, RuntimeError,
                          ArithmeticError)):
            # the same harness passes on the unchanged tree: the call returned something the
            # postcondition does not even apply to (None, another type, another length, ...)
            return "malformed", f"the postcondition does not apply to the result:\n{txt}"
        return "error", txt


def seed_of(base, prop, name, rep):
    import zlib

    return (zlib.crc32(f"{prop}/{name}".encode()) * 31 + base * 1000003 + rep) % (2**31)


def run_property(prop, base_seed, tier, budget, only=None):
    """Evaluate all harnesses; stops at the first violation of each harness."""
    import importlib

    importlib.import_module(f"rt.{prop.lower()}")
    res = {"evaluations": 0, "skipped": 0, "harnesses": {}, "violations": [], "errors": [],
           "malformed": [], "unavailable": [], "samples": []}
    t0 = time.time()
    todo = REGISTRY.get(prop, [])
    maxreps = max([(min(QUICK * r, th) if tier == "quick" else th) for _, _, r, th in todo] or [0])
    dead, seen = set(), set()
    for rep in range(maxreps):
        for name, fn, reps, th in todo:
            if only and name != only:
                continue
            n = min(QUICK * reps, th) if tier == "quick" else th
            if rep >= n or name in dead:
                continue
            if time.time() - t0 > budget and rep > 0:
                res["truncated"] = True
                continue
            seed = seed_of(base_seed, prop, name, rep)
            st, msg = run_one(prop, name, fn, seed)
            h = res["harnesses"].setdefault(name, 0)
            if st == "ok":
                res["evaluations"] += 1
                seen.add((name, seed))
                res["harnesses"][name] = h + 1
                if len(res["samples"]) < 4 and h == 0:
                    res["samples"].append(f"harness {name}, generator seed {seed}: contract holds")
            elif st == "skip":
                res["skipped"] += 1
            elif st == "violation":
                res["evaluations"] += 1
                dead.add(name)
                res["violations"].append(
                    {"property": prop, "harness": name, "seed": seed, "message": msg}
                )
            elif st == "malformed":
                res["evaluations"] += 1
                dead.add(name)
                res["malformed"].append(
                    {"property": prop, "harness": name, "seed": seed, "message": msg}
                )
            elif st == "unavailable":
                dead.add(name)
                res["unavailable"].append({"harness": name, "message": msg})
            else:
                dead.add(name)
                res["errors"].append({"harness": name, "seed": seed, "message": msg})
    res["wall_s"] = time.time() - t0
    res["distinct"] = len(seen)
    return res


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--budget", type=float, default=60)
    ap.add_argument("--only")
    ap.add_argument("--case-seed", type=int)
    ap.add_argument("--out")
    a = ap.parse_args(argv)
    import torch

    torch.set_num_threads(1)
    import curvlinops

    repo = os.environ.get("VC_REPO", "/repo")
    here = os.path.realpath(os.path.dirname(curvlinops.__file__))
    if here != os.path.realpath(os.path.join(repo, "curvlinops")):
        print(f"curvlinops imported from {here}, not from {repo}")
        return 3
    if a.case_seed is not None:
        import importlib

        importlib.import_module(f"rt.{a.prop.lower()}")
        for name, fn, _, _ in REGISTRY[a.prop]:
            if name == a.only:
                st, msg = run_one(a.prop, name, fn, a.case_seed)
                print(st, msg)
                return {"violation": 1, "malformed": 1, "ok": 0, "skip": 0}.get(st, 2)
        return 3
    res = run_property(a.prop, a.seed, a.tier, a.budget, a.only)
    txt = json.dumps(res)
    if a.out:
        with open(a.out, "w") as f:
            f.write(txt)
    else:
        print(json.dumps(res, indent=1))
    return 0


if __name__ == "__main__":
    # one module object, also for the harness modules
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    from rt import common as _c

    sys.exit(_c.main(sys.argv[1:]))
