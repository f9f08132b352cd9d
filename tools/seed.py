"""Builds and verifies the planted bugs: python tools/seed.py [id ...]

Each bug is an edit of /repo (old text -> new text) with a demonstration; it is kept only if it builds, the stable tests
pass with it, and the demonstration exits 0 without and nonzero with it.  /repo is restored afterwards.
"""
import json
import re
import subprocess
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).parent))
from seeds import LOCAL, SEEDS

REPO, OUT = Path("/repo"), Path("/verif/seeded")
BASE = json.loads(Path("/opt/vp/BASELINE.json").read_text())

DEMO = '''#!/bin/bash
# exit 0: the property holds on the inputs below, 1: it does not
exec /opt/venv/bin/python -B - <<'EOF'
import sys
sys.path.insert(0, ".")
from pycep import BicepParser
from pycep.models import BicepElement


def parse(text, **kw):
    return BicepParser(cache=False, **kw).parse(text=text)


{body}
EOF
'''


def sh(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, **kw)


def main():
    want = sys.argv[1:]
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout, "/repo is not clean"
    bad = 0
    for s in SEEDS:
        if s["id"] in LOCAL:
            continue
        if want and s["id"] not in want:
            continue
        d = OUT / s["id"]
        try:
            for f, old, new in s["edits"]:
                p = REPO / f
                t = p.read_text()
                assert t.count(old) == 1, (s["id"], f, t.count(old), old)
                p.write_text(t.replace(old, new))
            diff = sh("git", "-C", "/repo", "diff").stdout
            build = sh("bash", "/opt/vp/build.sh")
            sh("bash", "/opt/vp/test.sh", "/tmp/seed.json")
            res = json.loads(Path("/tmp/seed.json").read_text())
            failed = failing(res)
            d.mkdir(parents=True, exist_ok=True)
            (d / "patch.diff").write_text(diff)
            (d / "demo.sh").write_text(DEMO.format(body=s["demo"].strip()))
            (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, indent=1) + "\n")
            with_patch = sh("bash", str(d / "demo.sh"), cwd="/repo")
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        without = sh("bash", str(d / "demo.sh"), cwd="/repo")
        ok = build.returncode == 0 and not failed and with_patch.returncode != 0 and without.returncode == 0
        print(s["id"], "OK" if ok else f"BAD build={build.returncode} failed={failed} with={with_patch.returncode} without={without.returncode} {without.stderr[-300:]}")
        if not ok:
            bad += 1
            sh("rm", "-rf", f"/verif/seeded/{s['id']}")
    return bad


def failing(res):
    text = json.dumps(res)
    stable = BASE.get("stable") or BASE.get("passed") or BASE.get("tests") or BASE
    passed = res.get("passed") or [k for k, v in res.get("tests", {}).items() if v in ("pass", "passed")]
    return sorted(set(stable) - set(passed))[:4]


sys.exit(main())
