#!/opt/veriftools/pyvenv/bin/python
"""check.py <property> [--tier quick|thorough] [--only harness] | --replay FILE"""
import argparse
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0" or sys.flags.dont_write_bytecode == 0:
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, *sys.argv])
os.environ.pop("REBULK_CHECK_DECLARED_KEYS", None)
os.environ.pop("REBULK_REGEX_ENABLED", None)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from symx import api, rewrite, runner  # noqa: E402

if os.environ.pop("SYMX_REWRITE", None):
    rewrite.activate()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--only", action="append")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--procs", type=int, default=int(os.environ.get("VERIF_PROCS", "0")) or os.cpu_count() or 4)
    ap.add_argument("--replay")
    ap.add_argument("-v", "--verbose", action="store_true")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        s = runner.Server(r["property"])
        rep = s.run(r["harness"], r["params"], r["values"], 60)
        s.stop()
        print(json.dumps(rep, indent=1))
        if rep["result"] == "fail":
            print(f"VIOLATION property={r['property']} replay={a.replay}")
            return 1
        return 0 if rep["result"] == "ok" else 2
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = a.budget or (700 if a.tier == "quick" else 840)
    try:
        c = runner.Check(a.property, a.tier, seed, budget, a.procs, a.only, a.verbose)
        rc = c.run()
        if rc == runner.REWRITE:
            print("note: hashing enumerates symbolic values; running again with rewritten tables", flush=True)
            os.environ["SYMX_REWRITE"] = "1"
            os.execv(sys.executable, [sys.executable, *sys.argv])
        return rc
    except Exception:
        import traceback

        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
