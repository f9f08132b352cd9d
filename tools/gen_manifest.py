"""Writes MANIFEST.json from properties.jsonl."""
import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python -B -m pv.run"
TECH = "contract-based deductive verification: "
A = "callback contracts discharged by symbolic execution of pycep's source with z3"
C = "parse contracts discharged by a fixpoint and induction over pycep's real LALR machine"
L = "lexer contracts over its scanners, decided on automata"
C += "; " + L
NOTES = {
    "C01": (f"{A}; {C}", "What a file reports for a declaration of each production among any others, and the empty file, are obligations over all values and "
            "all numbers of declarations."),
    "C02": (f"{A}; {C}", "One obligation per declaration production: the reported entry is the specified one for all values of its parts."),
    "C03": (f"{A}; {C}", "process_child_resource has a contract (recursive, used by its callers and by itself); several resources nested directly in one "
            "resource are a recorded finding."),
    "C04": (f"{A}; {C}", "Every contract with line numbers on; the tree of every phrase spans its first to its last token (obligations over all trees)."),
    "C05": (f"{A}; {C}", "One obligation per operator production for all operand values; one parse obligation per production and parser context."),
    "C06": (f"{A}; {C}", "One obligation per built-in function and documented arity, for all argument values and any number of variadic arguments."),
    "C07": (f"{A}; {C}", "All names (as unknown texts of their class), any number of arguments."),
    "C08": (f"{A}; {C}", "One obligation per decorator production and for decorator lists of any length."),
    "C09": (f"{A}; {C}", "Contents of literals are unknown texts of their class."),
    "C10": (f"{A}; {C}", "Arrays and objects of any length by induction over the repetition."),
    "C11": (f"{A} (regular expressions in z3); {C}", "References over the allowed characters; the patterns are translated to z3 regular expressions."),
    "C12": (f"{A}; {C}", "The scope entry of every file, and that every text outside the four scopes is rejected."),
    "C13": (f"contracts of BicepParser and frame conditions by symbolic execution of the source; {C}", "Lark, Path.read_text and Transformer.transform are "
            "assumed; the callbacks are proved not to change global or transformer state; histories are run as a bounded addition."),
    "C14": (f"{A}; {C}", "One obligation per loop and condition production, for all sources, filters and bodies."),
    "C15": (f"{A}; {C}", "Any number of array suffixes and union members by induction over the repetition."),
    "C16": (A, "Every contract also excludes tokens and marker keys in the results."),
    "C17": (f"{A}; {C}", "No exception on any path of any contract; every phrase is accepted in every context in which it can begin."),
    "C18": (f"{A}; {C}", "Any number of lambda variables and function parameters by induction over the repetition."),
    "C19": (f"{C}", "Line breaks and comments leave no trace in any tree (parse contracts, any number of breaks); every comment, directive, blank and line "
            "break text is read as one such token by every scanner (lexer contracts)."),
    "C20": (f"{A}; {C}; lemma over the derivations of all chains of two operators", "All pairs; the pairs that pycep nests wrongly are recorded findings."),
}
checks = []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    tech, note = NOTES[p["id"]]
    checks.append({
        "property": p["id"],
        "quick_cmd": f"{PY} {p['id']} --tier quick",
        "thorough_cmd": f"{PY} {p['id']} --tier thorough",
        "technique": TECH + tech,
        "level": "proof",
        "level_note": note + " Every text of a token class is read as its token by every scanner that may be asked for it (lexer contracts), every phrase is "
                             "accepted and becomes the trees that the callback contracts are about. A bounded part runs generated files through the "
                             "real parser in addition (labelled bounded in the evidence, not counted as proved).",
    })
(ROOT / "MANIFEST.json").write_text(json.dumps({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": []}, indent=1) + "\n")
