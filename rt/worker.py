"""Run the run-time contract of one property against the real giddy.

  worker.py PROP --tier quick --seed 1 --out FILE [--hints FILE] [--cases FILE]
            [--budget SECONDS]
Writes a JSON report; exit 0 whatever the verdict, 3 on a harness error.
"""
import argparse
import importlib
import json
import os
import resource
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
CASE_CPU_S = 100  # (the slowest case of the unchanged tree takes a few seconds)


class Stuck(BaseException):
    pass


def stuck(*_):
    raise Stuck()


MODULES = ["p_markov", "p_ergodic", "p_spatial", "p_rank", "p_misc"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--out", required=True)
    ap.add_argument("--hints")
    ap.add_argument("--cases", help="JSON list of cases to check instead of generating")
    ap.add_argument("--first", help="JSON list of cases to check before the generated ones")
    ap.add_argument("--budget", type=float, default=60.0)
    a = ap.parse_args()
    import core
    import numpy as np
    for m in MODULES:
        importlib.import_module(m)
    prop = core.PROPS[a.prop]
    h = json.load(open(a.hints)) if a.hints else {}
    hints = core.Hints(h.get("ints", ()), h.get("floats", ()), h.get("strs", ()))
    rng = np.random.default_rng([a.seed, sum(map(ord, a.prop))])
    t0 = time.time()

    def source():
        if a.cases:
            yield from json.load(open(a.cases))
            return
        if a.first:
            yield from json.load(open(a.first))
        yield from prop.gen(rng, a.tier, hints)

    rep = {"prop": a.prop, "evaluations": 0, "skipped": 0, "distinct_nontrivial": 0, "failures": [],
           "known": {}, "samples": [], "rule": prop.rule, "budget_hit": False}
    seen = set()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    signal.signal(signal.SIGPROF, stuck)
    for case in source():
        case = json.loads(json.dumps(case))
        np.random.seed(case.get("seed", a.seed) % (2 ** 32))
        t1 = time.time()
        try:
            try:
                signal.setitimer(signal.ITIMER_PROF, CASE_CPU_S)
                prop.check(case)
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
        except Stuck:
            rep["failures"].append({"case": case, "message": f"no result within {CASE_CPU_S} s of processor time"})
            break
        except core.Skip:
            rep["skipped"] += 1
            continue
        except core.Known as e:
            rep["known"].setdefault(e.key, {"msg": str(e), "count": 0, "case": case})
            rep["known"][e.key]["count"] += 1
        except core.Violation as e:
            rep["failures"].append({"case": case, "message": str(e)[:3000]})
        except (MemoryError, OSError):
            rep["error"] = {"case": case, "trace": traceback.format_exc()[-3000:]}
            break
        except Exception as e:
            # the contract could not even be evaluated: an attribute, shape or type it
            # reads is not there (every other input of the unchanged code has it)
            rep["failures"].append({"case": case, "message": "the result does not have the form the "
                                    f"contract reads: {type(e).__name__}: {e}\n" + traceback.format_exc()[-2000:]})
        rep["evaluations"] += 1
        rep["slowest_s"] = max(rep.get("slowest_s", 0), round(time.time() - t1, 2))
        key = hash(core.jkey(case))
        if key not in seen and not prop.trivial(case):
            seen.add(key)
            if len(rep["samples"]) < 3 and len(core.jkey(case)) < 1500 and len(seen) % 7 == 1:
                rep["samples"].append(case)
        if len(rep["failures"]) >= 3:
            break
        if time.time() - t0 > a.budget:
            rep["budget_hit"] = True
            break
    rep["distinct_nontrivial"] = len(seen)
    rep["wall_s"] = round(time.time() - t0, 2)
    with open(a.out, "w") as f:
        json.dump(rep, f)
    sys.stdout.write("done\n")
    sys.exit(3 if "error" in rep else 0)


if __name__ == "__main__":
    main()
