"""Records the constants of the current tree (see pv/mine.py)."""
import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from pv import mine  # noqa: E402

t, n = mine.constants("/repo")
mine.BASELINE.write_text(json.dumps({"texts": t, "numbers": n, "groups": mine.groups("/repo"),
                                     "words": sorted(mine.fragments(mine.constants("/repo", 1000)[0]))}, indent=0, ensure_ascii=False) + "\n")
