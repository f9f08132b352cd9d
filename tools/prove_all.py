"""All proof obligations of all properties once: prove_all.py [--all-failures]; PV_REPO selects the repository."""
import os
import sys
import time

REPO = os.environ.get("PV_REPO", "/repo")
sys.path[:0] = [REPO, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))]
sys.setrecursionlimit(20000)
for f in list(sys.meta_path):
    if "editable" in repr(f).lower():
        sys.meta_path.remove(f)


def main():
    import pycep

    assert pycep.__file__.startswith(REPO + "/"), pycep.__file__
    from pv import proofs

    t0 = time.time()
    seen = {}

    def union(_):
        out = []
        for p in proofs.PROPS:
            for t in original(p):
                if t not in out:
                    out.append(t)
        return out

    original = proofs.tasks
    proofs.tasks = union
    proof = proofs.prove("C20", "quick", REPO)
    bad = 0
    for pid, key, what in proof.c_failed + proof.c_undecided:
        if pid not in seen:
            seen[pid] = 1
            print("tree", pid, what[:300])
            bad += 1
    m = proof.machine
    lex = {}
    for (k, s), what in [*m.sampled.items(), *m.misread.items()]:
        lex.setdefault(k, what)
    for k, what in lex.items():
        print("lex", k, str(what)[:300])
        bad += 1
    for r in proof.results:
        if r.status != "proved":
            bad += 1
            print(repr(r)[:600])
    print("plumbing", proof.plumbing, "results", len(proof.results), "not proved", bad, f"{time.time() - t0:.0f} s")


main()
