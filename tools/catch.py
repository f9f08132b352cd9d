"""Runs the checks against the planted bugs, each in a copy of /repo: python tools/catch.py [-a] [id ...]   (-a: all checks, not only the property's)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

OUT = Path("/verif/seeded")
ALL = [f"C{i:02}" for i in range(1, 21)]


def check(c, repo, ev):
    t = time.time()
    env = {**os.environ, "PV_REPO": repo, "PYTHONPATH": repo, "PV_EVIDENCE": ev}
    r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pv.run", c, "--tier", "quick"], cwd="/verif", capture_output=True, text=True, env=env)
    line = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    return c, r.returncode, "no input" if line and "no-failing" in line[0] else ("input" if line else "no violation"), round(time.time() - t)


def bug(i):
    prop = json.loads((OUT / i / "meta.json").read_text())["property"]
    d = tempfile.mkdtemp(prefix="catch")
    try:
        repo = f"{d}/repo"
        shutil.copytree("/repo", repo)
        subprocess.run(["git", "-C", repo, "apply", str(OUT / i / "patch.diff")], check=True)
        res = [check(c, repo, f"{d}/ev") for c in (ALL if every else [prop])]
    finally:
        shutil.rmtree(d)
    print(i, " ".join(f"{c}:{rc}:{k}({t}s)" for c, rc, k, t in res if rc or c == prop), flush=True)


args = sys.argv[1:]
every = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(p.name for p in OUT.iterdir())
with ThreadPoolExecutor(int(os.environ.get("P", "3"))) as ex:
    list(ex.map(bug, ids))
