"""The committed list of genuine defects that are recorded instead of repaired (KNOWN_FINDINGS.txt)."""
from __future__ import annotations

import json
from collections import defaultdict
from pathlib import Path

FILE = Path(__file__).resolve().parent.parent / "KNOWN_FINDINGS.txt"
KNOWN: dict = defaultdict(list)
for _line in FILE.read_text().splitlines():
    if _line.startswith("known: "):
        _d = json.loads(_line[7:])
        KNOWN[_d["property"]].append(_d)


def announce(prop, sub):
    """Prints a line for each listed finding that still fails; returns how many."""
    n = 0
    for k in KNOWN[prop]:
        kind, res = sub.run(k["input"])
        if kind == "ok" and project(res, k) == k["expected"]:
            continue
        print(f"KNOWN-FINDING: property={prop} {k['key']}: {k['what']}")
        n += 1
    return n


def project(res, k):
    for step in k["at"]:
        res = res.get(step) if isinstance(res, dict) else None
    return res
