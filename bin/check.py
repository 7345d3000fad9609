#!/usr/bin/env python3
"""Decide one property on /repo's current tree.

  check.py ID [--tier quick|thorough] [--repo /repo]

1. The deductive engine (pyvc/) extracts the functions the property depends on
   from the current source, generates the proof obligations of their contracts
   (contracts/) and discharges them.
2. The same contracts are run on the real code (rt/): counterexamples of failed
   obligations are replayed there, and functions outside the engine's reach are
   checked on generated inputs (bounded).
Exit 0: held; 1: a VIOLATION line was printed; 2: the check itself failed.
"""
import argparse
import ast
import collections
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
RT_PY = "/opt/venv/bin/python"
FILES = ["markov", "ergodic", "rank", "mobility", "sequence", "directional", "components", "util",
         "plotting"]


def literals(tree):
    """Multiset of numeric and string constants outside docstrings, per function."""
    out = collections.Counter()

    def walk(node, name):
        for ch in ast.iter_child_nodes(node):
            nm = name
            if isinstance(ch, (ast.FunctionDef, ast.ClassDef)):
                nm = name + "." + ch.name if name else ch.name
            if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
                continue
            if isinstance(ch, ast.Constant) and not isinstance(ch.value, (bool, type(None))):
                if isinstance(ch.value, (int, float, str)):
                    out[repr(ch.value)] += 1
            # narrow machine types stand for the sizes at which they wrap or round
            name_ = getattr(ch, "attr", None) or getattr(ch, "id", None) or getattr(ch, "value", None)
            if isinstance(ch, (ast.Attribute, ast.Name, ast.Constant)) and \
                    isinstance(name_, str) and name_ in NARROW:
                for v in NARROW[name_]:
                    out[repr(v)] += 1
            walk(ch, nm)

    walk(tree, "")
    return out


NARROW = {"int8": (127, 255), "uint8": (255, 254), "byte": (127,), "ubyte": (255,),
          "int16": (181, 32767), "uint16": (256, 65535),
          "float16": (2049, 0.0001), "float32": (16777217.0, 1e-8), "single": (16777217.0, 1e-8),
          "i1": (127, 255), "u1": (255,), "i2": (181, 32767), "u2": (256,), "f2": (2049,),
          "f4": (16777217.0, 1e-8)}


def functions(tree):
    """Hash of the code of every function (docstrings and comments dropped)."""
    out = {}

    def strip(node):
        for n in ast.walk(node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
                b = n.body
                if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant):
                    n.body = b[1:] or [ast.Pass()]
        return node

    def walk(node, name):
        for ch in node.body:
            if isinstance(ch, ast.FunctionDef):
                out[name + ch.name] = hashlib.sha256(
                    ast.dump(strip(ch)).encode()).hexdigest()[:16]
            elif isinstance(ch, ast.ClassDef):
                walk(ch, ch.name + ".")
        rest = [ch for ch in node.body if not isinstance(ch, (ast.FunctionDef, ast.ClassDef))]
        if rest:
            out[name + "<body>"] = hashlib.sha256(
                "".join(ast.dump(strip(r)) for r in rest).encode()).hexdigest()[:16]

    walk(strip(tree), "")
    return out


def scan(repo):
    lits, funs = {}, {}
    for f in FILES:
        path = os.path.join(repo, "giddy", f + ".py")
        with open(path) as fh:
            tree = ast.parse(fh.read())
        lits[f] = dict(literals(tree))
        funs[f] = functions(ast.parse(open(path).read()))
    return lits, funs


def hints(repo):
    """New constants in the source, and the functions that differ from the baseline
    the contracts were written against (they only widen the search)."""
    lits, funs = scan(repo)
    base = json.load(open(os.path.join(HERE, "contracts", "baseline.json")))
    h = {"ints": [], "floats": [], "strs": []}
    for f in FILES:
        for lit, n in lits[f].items():
            if n > base["literals"].get(f, {}).get(lit, 0):
                v = ast.literal_eval(lit)
                key = "ints" if isinstance(v, int) else "floats" if isinstance(v, float) else "strs"
                h[key].append(v)
    changed = []
    for f in FILES:
        b = base["functions"].get(f, {})
        for k in set(b) | set(funs[f]):
            if b.get(k) != funs[f].get(k):
                changed.append(f + "." + k)
    return h, sorted(changed)


def known_findings():
    path = os.path.join(HERE, "known_findings.json")
    return json.load(open(path)) if os.path.exists(path) else {"known": [], "fixed": []}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default=os.environ.get("GIDDY_REPO", "/repo"))
    ap.add_argument("--no-engine", action="store_true")
    ap.add_argument("--no-runtime", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    pid, t0 = a.id, time.time()
    for d in ("evidence", "replays", ".cache"):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    manifest = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    entry = next(c for c in manifest["checks"] if c["property"] == pid)

    hs, changed = hints(a.repo)
    tag = f"{pid}_{os.getpid()}"
    hp = os.path.join(HERE, ".cache", f"hints_{tag}.json")
    op = os.path.join(HERE, ".cache", f"rt_{tag}.json")
    json.dump(hs, open(hp, "w"))
    deep = bool(changed)
    budget = 420 if a.tier == "thorough" else (110 if deep else 60)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED=str(seed % 1000))
    env["PYTHONPATH"] = a.repo
    cmd = [RT_PY, os.path.join(HERE, "rt", "worker.py"), pid, "--seed", str(seed), "--out", op,
           "--hints", hp, "--tier", "thorough" if a.tier == "thorough" or deep else "quick",
           "--budget", str(budget)]
    proc = None
    if not a.no_runtime:
        proc = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                cwd=os.path.join(HERE, ".cache"))

    # ---- deductive part
    eng = {"obligations": [], "status": "none", "trusted": [], "bounded": []}
    if not a.no_engine:
        try:
            from pyvc import driver
            eng = driver.run(pid, a.repo, tier=a.tier, seed=seed)
        except ImportError as e:
            if "pyvc" not in str(e):
                raise
    # ---- run-time part
    rep = {"evaluations": 0, "distinct_nontrivial": 0, "failures": [], "known": {}, "samples": [],
           "rule": "", "skipped": 0}
    if proc is not None:
        try:
            _, err = proc.communicate(timeout=budget + 240)
        except subprocess.TimeoutExpired:
            proc.kill()
            _, err = proc.communicate()
        if os.path.exists(op):
            rep = json.load(open(op))
        if proc.returncode != 0 or "error" in rep or not os.path.exists(op):
            if not startup_ok(a.repo, env):
                # the package no longer imports: no property of it holds
                rep["failures"].append({"case": "import giddy", "message": err.decode()[-1500:]})
            else:
                sys.stderr.write(json.dumps(rep.get("error", ""), indent=1)[:4000] + "\n"
                                 + err.decode()[-2000:] + "\n")
                sys.exit(2)
    # directed replay of counter-models
    if eng.get("candidates") and not rep["failures"] and proc is not None:
        cp = os.path.join(HERE, ".cache", f"cand_{tag}.json")
        json.dump(eng["candidates"], open(cp, "w"))
        r = subprocess.run(cmd[:2] + [pid, "--seed", str(seed), "--out", op, "--cases", cp],
                           env=env, capture_output=True, timeout=300)
        if r.returncode == 0:
            more = json.load(open(op))
            rep["failures"] += more["failures"]
            rep["evaluations"] += more["evaluations"]
        os.remove(cp)
    for p in (hp, op):
        if os.path.exists(p):
            os.remove(p)

    # ---- decision
    kf = known_findings()
    listed = {k["key"] for k in kf["known"] if k["property"] == pid}
    violations, out = [], []
    for key, info in rep["known"].items():
        if key in listed:
            out.append(f"KNOWN-FINDING: property={pid} {key}: {info['msg'][:200]}")
        else:
            violations.append(("input", {"case": info["case"], "message": info["msg"]}))
    for f in rep["failures"]:
        violations.append(("input", f))
    refuted = [o for o in eng["obligations"] if o["status"] == "refuted"
               and o.get("finding") not in listed]
    if not violations:
        for o in refuted:
            violations.append(("obligation", o))
    rc = 0
    if violations:
        rc = 1
        kind, v = violations[0]
        path = os.path.join(HERE, "replays", f"{pid}.json")
        json.dump({"property": pid, "kind": kind, "violation": v, "others": violations[1:3],
                   "failed_obligations": [o for o in eng["obligations"] if o["status"] != "proved"][:10],
                   "replay_cmd": f"{RT_PY} {HERE}/rt/worker.py {pid} --out /tmp/replay.json "
                                 "--cases <file holding [violation.case]>"},
                  open(path, "w"), indent=1, default=str)
        msg = v.get("message") or v.get("name")
        out.append(f"{pid}: {str(msg)[:600]}")
        out.append(f"VIOLATION property={pid} replay={path}"
                   + ("" if kind == "input" else " no-failing-input-found"))

    # ---- evidence
    obs = eng["obligations"]
    proved = [o for o in obs if o["status"] == "proved"]
    level = entry["level"]
    if level == "proof" and (not obs or len(proved) < len(obs)):
        level = "exploration"  # this run did not prove the property
    cov = {
        "evaluations": rep["evaluations"], "distinct_nontrivial": rep["distinct_nontrivial"],
        "rule": rep["rule"] or "no run-time cases", "samples": rep["samples"][:3],
        "skipped_outside_precondition": rep["skipped"],
        "obligations": len(obs), "discharged": len(proved),
        "checker_cmd": f"python3-vt bin/check.py {pid} --tier {a.tier}",
        "trusted_base": eng.get("trusted", []),
        "functions_under_contract": eng.get("functions", []),
        "callees_checked_against_their_contract": eng.get("callee_contracts", []),
        "bounded_functions": eng.get("bounded", []),
        "backends": eng.get("backends", {}), "solver_s": eng.get("solver_s", 0),
        "z3_queries": eng.get("z3_queries", 0),
        "undischarged": [{k: str(o.get(k, ""))[:200] for k in ("name", "status", "reason")}
                         for o in obs if o["status"] != "proved"][:20],
        "obligation_names": [o["name"] for o in obs][:80],
        "changed_functions_since_baseline": changed[:20],
    }
    ev = {"property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
          "seed": seed, "level": level, "coverage": cov,
          "assumptions": eng.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    ep = os.path.join(HERE, entry.get("evidence_file") or f"evidence/{pid}.json")
    text = json.dumps(ev, indent=1, default=str)
    if len(text) > 60000:
        cov["samples"] = []
        cov["obligation_names"] = cov["obligation_names"][:10]
        text = json.dumps(ev, indent=1, default=str)
    open(ep, "w").write(text)
    print("\n".join(out + [f"{pid}: {len(proved)}/{len(obs)} obligations discharged, "
                           f"{rep['evaluations']} executions of the real code, "
                           f"{round(time.time() - t0, 1)} s"]))
    sys.exit(rc)


def startup_ok(repo, env):
    r = subprocess.run([RT_PY, "-c", "import giddy.markov, giddy.rank, giddy.sequence, "
                        "giddy.directional, giddy.components, giddy.util, giddy.mobility, "
                        "giddy.plotting"], env=env, capture_output=True, cwd="/")
    return r.returncode == 0


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
