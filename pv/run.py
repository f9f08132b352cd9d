"""Decides one property: python -m pv.run C05 [--tier quick|thorough] [--seed N]"""
from __future__ import annotations

import argparse
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback
from pathlib import Path

sys.dont_write_bytecode = True
ROOT = Path(__file__).resolve().parent.parent
EVIDENCE = Path(os.environ.get("PV_EVIDENCE", ROOT / "evidence"))
REPO = Path(os.environ.get("PV_REPO", "/repo"))
sys.path.insert(0, str(REPO))
Z3_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def write_replay(prop, data):
    d = EVIDENCE / "replay"
    d.mkdir(parents=True, exist_ok=True)
    f = d / f"{prop}.json"
    f.write_text(json.dumps(data, indent=1, default=repr, ensure_ascii=False) + "\n")
    return f


class Child:
    """A computation in a forked process."""

    def __init__(self, fn):
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            rc = 1
            try:
                data = pickle.dumps(fn())
                with os.fdopen(w, "wb") as f:
                    f.write(data)
                rc = 0
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
            os._exit(rc)
        os.close(w)
        self.r = r

    def result(self, seconds):
        """The result, or None when the process takes too long."""
        data = b""
        end = time.time() + seconds
        while True:
            ready, _, _ = select.select([self.r], [], [], max(0.0, end - time.time()))
            if not ready:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
                return None
            part = os.read(self.r, 1 << 20)
            if not part:
                break
            data += part
        _, status = os.waitpid(self.pid, 0)
        if status:
            raise RuntimeError("the bounded part fails")
        return pickle.loads(data)


def run_bounded(b, prop, scale):
    from pv import props
    from pv.bounded import Finding

    try:
        props.BOUNDED[prop](b, prop, scale)
        props.special(b, prop, scale)
    except Finding as f:
        return json.loads(json.dumps({"property": prop, "kind": "input", "what": f.what, **f.replay}, default=repr))
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--bounded-only", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()

    import pycep

    if Path(pycep.__file__).resolve().parent.parent != REPO.resolve():
        print(f"pycep is not imported from {REPO}: {pycep.__file__}", file=sys.stderr)
        return 2

    from pv import known
    from pv.bounded import Bounded

    sys.setrecursionlimit(20000)
    scale = 1 if a.tier == "quick" else 10
    b = Bounded(a.seed, REPO)
    violation = None
    n_known = known.announce(a.prop, b.sub)
    sys.stdout.flush()
    if a.bounded_only:
        violation, proof = run_bounded(b, a.prop, scale), None
    else:
        from pv import proofs

        child = Child(lambda: (run_bounded(b, a.prop, scale), b.cases, b.other))
        proof = proofs.prove(a.prop, a.tier, REPO)
        violation, b.cases, b.other = child.result(400 if a.tier == "quick" else 2400) or (None, 0, {"not finished": 1})
        if violation is None:
            violation = proofs.verdict(a.prop, proof, b, 60 if a.tier == "quick" else 300)
        if a.v:
            for r in proof.open + proof.failures:
                print(r)
    bounded = {"cases": b.cases, "seed": a.seed, "scale": scale,
               "rule": "files generated from the specification grammar (pv/sgrammar.py), run through the real parser, results compared with "
                       "the meaning given by the specification; bounded, not counted as proved",
               "differences_of_other_properties": b.other}
    if proof:
        cov = {**proof.coverage(), "bounded": bounded}
        level, assumptions = "proof", proof.assumptions()
    else:
        cov = {"evaluations": b.cases, "distinct_nontrivial": b.cases, "rule": bounded["rule"], "samples": [], "bounded": bounded}
        level, assumptions = "exploration", []
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": level, "coverage": cov,
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": int(violation is not None), "known_findings": n_known}
    EVIDENCE.mkdir(parents=True, exist_ok=True)
    (EVIDENCE / f"{a.prop}.json").write_text(json.dumps(ev, indent=1, default=repr) + "\n")
    if violation is not None:
        f = write_replay(a.prop, violation)
        suffix = "" if violation["kind"] == "input" else " no-failing-input-found"
        print(violation["what"])
        print(f"VIOLATION property={a.prop} replay={f}{suffix}")
        return 1
    print(f"{a.prop}: holds ({b.cases} bounded cases" + (f", {proof.discharged}/{proof.obligations} obligations" if proof else "") + ")")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # noqa: BLE001
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
