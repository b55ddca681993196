#!/usr/bin/python3
"""Refreshes the planted patches against /repo's HEAD; lists those that do not apply, change no line of the
original repository, or change lines added by fix commits."""
import glob, re, shutil, subprocess, tempfile
BASE = "7b7aa3a"
W = tempfile.mkdtemp() + "/w"
subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
cache = {}
def run(*a):
    return subprocess.run(a, cwd=W, capture_output=True, text=True)
def orig(f):
    if f not in cache:
        o = run("git", "blame", "-s", f"{BASE}..HEAD", "--", f).stdout
        cache[f] = [l.startswith("^") for l in o.splitlines()]
    return cache[f]
for d in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    name = d.split("/")[3]
    r = run("git", "apply", d)
    if r.returncode:
        print(name, "DOES NOT APPLY"); continue
    diff = run("git", "diff").stdout
    run("git", "checkout", "-q", "--", ".")
    if diff != open(d).read():
        open(d, "w").write(diff)
    o = m = 0
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            cur = line[6:].strip()
        elif line.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", line).group(1))
        elif line.startswith("-") and not line.startswith("---"):
            if orig(cur)[n - 1]: o += 1
            else: m += 1
            n += 1
        elif line.startswith(" "):
            n += 1
    if not o or m:
        print(name, "original", o, "mine", m)
shutil.rmtree(W)
