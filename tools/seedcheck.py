#!/usr/bin/env python3
"""seedcheck.py OUT.json [id...]: apply every planted bug to a scratch copy of /repo and run its property's quick check."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join("/verif", "seeded")
out = sys.argv[1]
ids = sys.argv[2:] or sorted(os.listdir(S))


def one(i):
    prop = json.load(open(f"{S}/{i}/meta.json"))["property"]
    d = tempfile.mkdtemp(prefix="seedcheck-")
    try:
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {d} && cd {d} && git init -q . && git apply {S}/{i}/patch.diff", shell=True, check=True, capture_output=True)
        t = time.time()
        r = subprocess.run([f"{V}/check.py", prop, "--procs", os.environ.get("PROCS", "3")], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=1500)
        how = [x for x in r.stdout.splitlines() if x.startswith("counterexample")]
        res = "caught" if r.returncode == 1 else f"missed rc={r.returncode}"
        return i, prop, res, round(time.time() - t), (how or [r.stdout[-200:]])[0][:160]
    except Exception as e:
        return i, prop, "error " + repr(e)[:200], 0, ""
    finally:
        shutil.rmtree(d)


rows = []
with cf.ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
    for row in ex.map(one, ids):
        rows.append(row)
        if row[2] != "caught":
            print(row, flush=True)
json.dump(rows, open(out, "w"), indent=0)
print(len(rows), sum(r[2] == "caught" for r in rows), "caught; slowest", sorted(((r[3], r[0]) for r in rows))[-3:])
