"""Rewrite contracts/baseline.json from the current /repo tree (a maintenance
command, never run by a check)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402

lits, funs = check.scan(sys.argv[1] if len(sys.argv) > 1 else "/repo")
json.dump({"literals": lits, "functions": funs},
          open(os.path.join(check.HERE, "contracts", "baseline.json"), "w"), indent=1, sort_keys=True)
