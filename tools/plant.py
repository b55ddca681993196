#!/usr/bin/python3
"""plant.py SPEC.py [ID...] : confirm planted bugs and file them in /verif/seeded.

SPEC.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)], demo (python source),
needs, breaks.  Each is applied to a scratch copy of /repo, must keep the suite passing (in the three
modes), its demo must fail there and pass on /repo; then the property's quick check is run on the copy."""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
BASE = os.environ.get("BASE", "7b7aa3a")
ENV = {**os.environ, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1"}
for k in ("REBULK_REGEX_ENABLED", "REBULK_CHECK_DECLARED_KEYS"):
    ENV.pop(k, None)


def sh(cmd, cwd, env=None, timeout=1500):
    p = subprocess.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def blame_original(path, lineno):
    r, o = sh(["git", "blame", "-s", f"-L{lineno},{lineno}", f"{BASE}..HEAD", "--", path], "/repo")
    return o.startswith("^")


def one(s, skip_check=False):
    d = tempfile.mkdtemp(prefix="seed-")
    os.rmdir(d)
    log = []
    try:
        shutil.copytree("/repo", d, symlinks=True)
        for f, old, new in s["edits"]:
            p = f"{d}/rebulk/{f}"
            t = open(p).read()
            if t.count(old) != 1:
                return s["id"], "BADEDIT", f"{f}: count {t.count(old)}: {old[:60]!r}"
            open(p, "w").write(t.replace(old, new))
        r, diff = sh(["git", "diff"], d)
        import re
        orig = 0
        mine = 0
        cur = None
        for line in diff.splitlines():
            if line.startswith("--- a/"):
                cur = line[6:]
            elif line.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", line).group(1))
            elif line.startswith("-") and not line.startswith("---"):
                if blame_original(cur, n):
                    orig += 1
                else:
                    mine += 1
                n += 1
            elif line.startswith(" "):
                n += 1
        if not orig or mine:
            log.append(f"blame: original {orig} mine {mine}")
        with ThreadPoolExecutor(3) as ex:
            base = [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider"]
            rs = list(ex.map(lambda a: sh(base + a[0], d, a[1]), [
                ([], {}), ([], {"REBULK_REGEX_ENABLED": "1"}),
                (["--ignore=README.md"], {"REBULK_CHECK_DECLARED_KEYS": "1"})]))
        if any(r for r, _ in rs):
            return s["id"], "TESTS-CATCH", "\n".join(o[-600:] for r, o in rs if r)[:800]
        out = f"/verif/seeded/{s['id']}"
        os.makedirs(out, exist_ok=True)
        open(f"{out}/patch.diff", "w").write(diff)
        open(f"{out}/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + s["demo"].lstrip("\n"))
        env = "".join(f"export {k}={v}\n" for k, v in s.get("env", {}).items())
        open(f"{out}/demo.sh", "w").write('#!/bin/bash\n' + env + 'export PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f"{out}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{out}/meta.json", "w"), indent=1)
        r0, o0 = sh(["bash", f"{out}/demo.sh"], "/repo")
        r1, o1 = sh(["bash", f"{out}/demo.sh"], d)
        if r0 or not r1:
            shutil.rmtree(out)
            return s["id"], "BADDEMO", f"repo rc={r0} patched rc={r1}\n{o0[-500:]}\n{o1[-500:]}"
        if skip_check:
            return s["id"], "KEPT", "; ".join(log)
        r, o = sh(["/verif/check.py", s["property"]], "/verif", {"VERIF_REPO": d, "VERIF_SEED": "1", "VERIF_TIER": "quick",
                                                                "VERIF_PROCS": "4", "VERIF_EVIDENCE": tempfile.gettempdir()})
        v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + s["property"])]
        st = "CAUGHT" if r == 1 and v else f"MISSED(rc={r})"
        return s["id"], st, "; ".join(log) + ("" if st == "CAUGHT" else o[-700:])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    seeds = [s for s in ns["SEEDS"] if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("PAR", "3"))) as ex:
        for i, st, msg in ex.map(one, seeds):
            print(f"{st:12} {i}  {msg}", flush=True)


main()
