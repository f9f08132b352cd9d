"""Writes KNOWN_FINDINGS.txt (run by hand; the checks only read the file)."""
import json
import sys
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
(ROOT / "KNOWN_FINDINGS.txt").touch()
from pv import precedence as p  # noqa: E402
from pv.bounded import Subject  # noqa: E402

sub = Subject()
lines = ["# Genuine defects of gruebel/pycep: 'known:' lines are recorded and not repaired (one JSON object each),",
         "# 'fixed:' lines are repaired in /repo by the named commit and suppress nothing.", ""]


def known(**kw):
    lines.append("known: " + json.dumps(kw, ensure_ascii=False))


text = "import * as a from 'x'\nimport * as b from 'y'\n"
kind, res = sub.run(text)
known(property="C01", key="two-wildcard-imports", input=text, at=["imports"],
      what="two wildcard imports are filed under the same key '*', the later one replaces the earlier one",
      expected={"a": {"file_path": "x"}, "b": {"file_path": "y"}}, reported=res["imports"])
text = ("resource p 'A/b@1' = {\n  resource c 'c' = {\n    x: 1\n  }\n  resource d 'd' = {\n    x: 2\n  }\n}\n")
kind, res = sub.run(text)
known(property="C03", key="two-direct-children", input=text, at=["resources", "p__c"],
      what="of several resources nested directly in one resource only the last is reported (the existing test loop/child enshrines it)",
      expected={"decorators": [], "type": "A/b/c", "api_version": "1", "existing": False, "config": {"x": 1, "depends_on": ["p"]}},
      reported=None)
for name, (text, exp, act) in p.outcomes(sub, p.OPERANDS[0]).items():
    if exp != act:
        known(property="C20", key=name, input=text, at=["variables", "v", "value"], what=f"the chain {name!r} is nested to the right",
              expected=exp, reported=act)
lines.append("")
lines += [x for x in (ROOT / "KNOWN_FINDINGS.txt").read_text().splitlines() if x.startswith("fixed: ")]  # added by hand
(ROOT / "KNOWN_FINDINGS.txt").write_text("\n".join(lines) + "\n")
