"""The obligations of each property and what the provers say about them.

Layers (each over the code in /repo's working tree as it is now):

* C (pv.lr): contracts of the phrases with pycep's real LALR machine - that every phrase is accepted in every context and
  which trees it becomes, by a fixpoint over the parser states and an induction over repetitions;
* D (pv.lexing): contracts of the contextual scanners - that every text of a token class is read as its token wherever the
  parser may ask for it, by exploring the product of the class's automaton with the compiled pattern's ordered ways;
* A (pv.layer_a): contracts of the tree callbacks - symbolic execution of pycep's source, z3 for strings and integers;
* P (pv.layer_p): the contract of BicepParser;
* Q (pv.layer_q): the nesting of operator chains, from the contracts of A and C.

A failed obligation is a violation of the properties it belongs to.  For an obligation that the provers do not decide
concrete inputs are searched; when none is found the obligation is reported as not discharged (no-failing-input-found).
"""
from __future__ import annotations

import gc
import inspect
import multiprocessing
import os
import random
import re
import signal
import time

from pv import sgrammar as S
from pv.bounded import Finding

PROPS = [f"C{i:02d}" for i in range(1, 21)]
ALL_A = {"C09", "C13", "C16", "C17"}  # take part in every obligation of layer A
KINDS = {"C01": {"entry"}, "C03": {"nested", "value", "raise", "entry"}, "C04": {"lines"}, "C12": {"scope", "raise", "value"}, "C13": {"frame"},
         "C16": {"token"}, "C17": {"raise"}}
OWN = {"value", "raise"}
HARD = {"E", "P", "Q", "ARR", "OBJ", "CALL", "DECL", "FILE"}  # what these mean is reported as it is
WORKERS = 8
C_SECONDS = 300

ENGINE = None
PARSER = None


LEX = None

# --------------------------------------------------------------------------- tasks of layers A and P


def _value(pid, lines):
    from pv import layer_a

    return layer_a.production(ENGINE, pid, lines)


def _file(pid, lines):
    from pv import layer_a

    return layer_a.declaration(ENGINE, pid, lines)


def _empty(lines):
    from pv import layer_a

    return layer_a.empty_file(ENGINE, lines)


def _scope():
    from pv import layer_a

    return layer_a.invalid_scope(ENGINE)


def _nested(lines, overlay):
    from pv import layer_a

    return layer_a.nested_contract(ENGINE, lines, overlay)


def _property():
    from pv import layer_a

    return layer_a.nested_property(ENGINE)


def _parse(text, path, lines):
    from pv import layer_p

    return layer_p.parse_contract(ENGINE, PARSER, text, path, lines)


def _constructor():
    from pv import layer_p

    return layer_p.constructor_contract(ENGINE, PARSER)


def tasks(prop):
    """[(function, arguments)] of layers A and P for a property."""
    from pv.layer_a import PUBLIC

    out = []
    both = (False, True)
    for nt in PUBLIC:
        for p in S.BY_NT[nt]:
            if prop in ALL_A or prop == "C04" or prop in p.props or prop == "C20" and "C05" in p.props:
                out += [(_value, (p.pid, lines)) for lines in both]
    for p in S.BY_NT["DECL"]:
        if prop in ALL_A or prop in ("C01", "C04") or prop in p.props:
            out += [(_file, (p.pid, lines)) for lines in both]
        elif prop == "C03" and p.pid.startswith("resource"):
            out += [(_file, (p.pid, lines)) for lines in both]
    if prop in ALL_A or prop in ("C01", "C04", "C12"):
        out += [(_empty, (lines,)) for lines in both]
    if prop == "C12":
        out += [(_file, (p.pid, False)) for p in S.BY_NT["DECL"] if prop not in p.props]
    if prop in ("C12", "C13", "C16"):
        out += [(_scope, ())]
    if prop in ALL_A or prop in ("C03", "C04", "C14"):
        out += [(_nested, (lines, o)) for lines in both for o in both] + [(_property, ())]
    out += [(_parse, (t, p, lines)) for t in both for p in both for lines in both if prop == "C13" or t or p]
    if prop in ("C13", "C17", "C04"):
        out += [(_constructor, ())]
    if prop == "C04":
        out += [(_marks, (p.pid,)) for p in marked()]
    return out


def marked():
    """The productions whose first or last line can be that of a declaration."""
    todo, seen = ["DECL", "CHILD"], set()
    out = {}
    for side in (0, -1):
        todo, seen = ["DECL", "CHILD"], set()
        while todo:
            nt = todo.pop()
            if nt in seen:
                continue
            seen.add(nt)
            for p in S.BY_NT[nt]:
                out[p.pid] = p
                rhs = list(p.rhs)[::1 if side == 0 else -1]
                for el in rhs:
                    if isinstance(el, S.N):
                        todo.append(el.nt)
                    if isinstance(el, S.R):
                        todo += [x.nt for x in el.body if isinstance(x, S.N)]
                    if isinstance(el, (S.K, S.T, S.N)) or isinstance(el, S.R) and el.min:
                        break
    return [p for p in out.values() if not starts_with_break(p)]


def starts_with_break(p):
    return isinstance(p.rhs[0], S.NL) or isinstance(p.rhs[-1], S.NL)


def _marks(pid):
    """The tree of a phrase spans exactly its first and last token."""
    from lark import Token

    from pv.layer_a import Result
    from pv.sym import line_marks

    t0 = time.time()
    res = Result(f"lines:{pid}", pid)
    p = S.BY_PID[pid]
    fams, problem = ENGINE.all_families.get(ENGINE.group_of[pid], ((), "no tree"))
    if problem or not fams:
        res.undecided(f"no trees: {problem}")
    for root, counts in fams:
        res.paths += 1
        a, b = line_marks(p, [k for k, v in counts.items() if v == {0}])
        want = [("line", a), ("end_line", b)]
        if root is None:
            res.undecided("a phrase without a tree")
            continue
        if isinstance(root, Token):
            got = [root.line, root.end_line]
        else:
            m = root.meta
            got = None if m.empty else [m.container_line, m.container_end_line]
        if got != want:
            res.fail(f"the phrase spans {got} instead of {want}", kind="lines")
    res.seconds = time.time() - t0
    return res


def run_task(i):
    from pv import symval
    from pv.layer_a import Result

    fn, args = TASKS[i]
    q0, s0 = symval.STATS["queries"], symval.STATS["seconds"]
    signal.signal(signal.SIGALRM, _timeout)
    signal.alarm(TASK_SECONDS)
    try:
        r = fn(*args)
    except Exception as e:  # noqa: BLE001
        r = Result(f"{fn.__name__[1:]}:{':'.join(map(str, args))}", str(args[0]) if args else "file")
        r.undecided(f"the prover fails: {type(e).__name__}: {e}")
    finally:
        signal.alarm(0)
    r.queries = symval.STATS["queries"] - q0
    r.solver = symval.STATS["seconds"] - s0
    r.task = i
    return r


def confused(r):
    """Is a literal reported as an identifier or the other way round, whatever is around it?"""
    return r.status == "failed" and re.search(r"expected (elem|lit):(.*), got (str|BicepElement):\2$", str(r.what), re.S) is not None


class TooLong(Exception):
    pass


def _timeout(*_):
    raise TooLong("out of time")


TASKS: list = []
TASK_SECONDS = 90


# --------------------------------------------------------------------------- the proof of a property


class Proof:
    def __init__(self, prop):
        self.prop = prop
        self.results: list = []  # layer A, P, Q
        self.contexts = 0
        self.c_obligations = 0
        self.c_failed: list = []  # (pid of the group, context, message)
        self.c_undecided: list = []
        self.seconds: dict = {}
        self.plumbing = None
        self.masked: list = []
        self.lexer: dict = {}
        self.inputs = 0  # of the search for undecided obligations

    # what counts for the property
    def relevant(self, r):
        if self.prop == "C09" and r.pid in S.BY_PID and "C09" not in S.BY_PID[r.pid].props and not r.name.startswith(("lex:", "parse:")):
            return confused(r)
        if self.prop == "C04":
            return r.kind == "lines" or r.name.endswith(":lines") and r.kind in ("value", "raise", "entry", "nested", "scope") and self.alone(r)
        kinds = KINDS.get(self.prop, OWN)
        if r.name.startswith("lex:"):
            return True
        if r.name.startswith("parse:"):
            return self.prop == "C13" or self.prop == "C17" and r.kind == "raise" or self.prop in ("C09", "C19") and r.kind == "text"
        return r.kind in kinds

    def alone(self, r):
        """Does it hold without line numbers?"""
        name = r.name[: -len(":lines")]
        return any(x.name == name and x.status == "proved" for x in self.results)

    @property
    def failures(self):
        return [r for r in self.results if r.status == "failed" and self.relevant(r)]

    @property
    def open(self):
        return [r for r in self.results if r.status == "undecided" or r.status == "failed" and not self.relevant(r)]

    @property
    def obligations(self):
        return self.c_obligations + len(self.results)

    @property
    def discharged(self):
        return self.c_obligations - len(self.c_failed) - len(self.c_undecided) + sum(r.status == "proved" for r in self.results)

    def coverage(self):
        by: dict = {}
        for r in self.results:
            k = r.name.split(":")[0]
            if k.startswith("lex"):
                continue
            s = by.setdefault(k, {"obligations": 0, "discharged": 0, "paths": 0, "solver_queries": 0, "solver_seconds": 0.0, "seconds": 0.0})
            s["obligations"] += 1
            s["discharged"] += r.status == "proved"
            s["paths"] += r.paths
            s["solver_queries"] += r.queries
            s["solver_seconds"] = round(s["solver_seconds"] + r.solver, 3)
            s["seconds"] = round(s["seconds"] + r.seconds, 3)
        return {
            "obligations": self.obligations,
            "discharged": self.discharged,
            "checker_cmd": f"/opt/venv/bin/python -B -m pv.run {self.prop}",
            "trusted_base": TRUSTED,
            "back_ends": {
                "parse contracts (fixpoint and induction over the real LALR tables, scanners and tree builders)": {
                    "contexts": self.contexts, "obligations": self.c_obligations,
                    "discharged": self.c_obligations - len(self.c_failed) - len(self.c_undecided), "seconds": round(self.seconds.get("C", 0), 2)},
                "lexer contracts (product of the class's automaton and the ordered ways of the compiled pattern)": {
                    **self.lexer, "obligations": sum(r.name.startswith("lex") for r in self.results),
                    "discharged": sum(r.name.startswith("lex") and r.status == "proved" for r in self.results)},
                "callback contracts (symbolic execution of the source, z3)": by,
            },
            "functions_under_contract": sorted({u for r in self.results for u in r.used}),
            "not_discharged": [repr(r)[:400] for r in self.results if r.status != "proved"] + [f"tree:{p}: {m}" for p, _, m in
                                                                                              self.c_failed + self.c_undecided][:50],
            "inputs_tried_for_them": self.inputs,
        }

    def assumptions(self):
        return ASSUMPTIONS


TRUSTED = [
    "pv/sgrammar.py, pv/props.py, the token classes of pv/lexing.py: the specification (written from the language documentation)",
    "pv/lr.py: the parse contract checker; pv/rex.py, pv/lexing.py: the lexer contract checker (its reading of the scanners' patterns is tested against "
    "the compiled patterns on random texts in every run); pv/interp.py, pv/sym.py, pv/layer_a.py, pv/layer_p.py: the symbolic executor of the source; "
    "pv/symval.py: its encoding",
    "z3 4 (strings and integers)",
    "lark 1.3.1: that its LALR parser executes its own table, scanners and tree callbacks (the tables and the compiled scanners are read from the "
    "running Lark object), that the contextual scanner takes the first match of its combined pattern, Transformer.transform calls the callbacks "
    "bottom-up, Token/Tree/Meta",
    "CPython 3.12: semantics of the subset that the executor covers; re, regex, str and dict methods",
]
ASSUMPTIONS = [
    "What may stand directly behind a token (without a blank) is the follow relation of the specification grammar, restricted to pairs that do not "
    "join to another token; anything may stand behind a blank.",
    "Identifiers are not the words null, true, false, for, if, resource, items, in; a variable or property named sys or az is not directly followed by a dot.",
    "The text of an interpolation is a sequence of texts without quotes and braces, complete strings and balanced braces.",
    "A token class of a scanner for which a lexer contract is not decided is represented by sample lexemes; such a contract is listed under "
    "not_discharged (none on the unchanged tree).",
    "Recursion depth and memory are unlimited; Python integers are mathematical.",
    "Lark(grammar, options) depends on its arguments only; Path.read_text gives the file's content.",
    "Texts are sequences of Unicode characters below U+30000 in the solver's encoding.",
]


def find_lark(parser):
    import lark

    for v in vars(parser).values():
        if isinstance(v, lark.Lark):
            return v
    raise LookupError("no Lark object in the parser")


def find_transformer():
    import lark.visitors
    import pycep.transformer as t

    if inspect.isclass(getattr(t, "BicepToJson", None)):
        return t.BicepToJson
    for v in vars(t).values():
        if inspect.isclass(v) and issubclass(v, lark.visitors.Transformer) and v.__module__ == t.__name__:
            return v
    raise LookupError("no transformer")


def prove(prop, tier, repo="/repo"):
    """Runs the provers for a property."""
    global ENGINE, PARSER, TASKS
    from pycep import BicepParser

    from pv import layer_a, lr
    from pv.sym import Unsupported

    proof = Proof(prop)
    t0 = time.time()
    gc.disable()
    signal.signal(signal.SIGALRM, _timeout)
    signal.alarm(C_SECONDS)
    c = None
    try:
        PARSER = BicepParser
        c = lr.Contracts(find_lark(BicepParser(cache=False))).run()
        fams = c.families()
        problem = None
    except Exception as e:  # noqa: BLE001
        problem = f"{type(e).__name__}: {e}"
    finally:
        signal.alarm(0)
    proof.seconds["C"] = time.time() - t0
    if problem:
        proof.c_obligations = 1
        proof.c_undecided.append(("file", None, f"the parse contracts are not decided: {problem}"))
        return proof
    parse_contracts(proof, c)
    lexer_contracts(proof, c)
    lex_results = proof.results
    cls = find_transformer()
    ENGINE = layer_a.Engine(str(repo), cls, fams, c.group_of)
    ENGINE.all_families = fams
    try:
        layer_a.find_helper(ENGINE)
    except Unsupported:
        pass  # the obligations about nested resources will not be decided
    proof.plumbing = layer_a.plumbing(cls)
    TASKS = tasks(prop)
    t0 = time.time()
    gc.freeze()
    if TASKS:
        order = sorted(range(len(TASKS)), key=lambda i: TASKS[i][0] is not _nested)
        with multiprocessing.get_context("fork").Pool(WORKERS) as pool:
            proof.results = list(pool.imap_unordered(run_task, order))
        proof.results.sort(key=lambda r: r.task)
        if prop == "C09":  # of the phrases around a literal or identifier it counts that these stay what they are
            proof.results = [r for r in proof.results if r.status == "proved" or r.name.startswith("parse:") or confused(r) or (
                r.pid in S.BY_PID and "C09" in S.BY_PID[r.pid].props)]
    proof.results = lex_results + proof.results
    if prop == "C20":
        from pv import layer_q

        proof.results += layer_q.chains()
    proof.seconds["A"] = time.time() - t0
    if proof.plumbing:
        for r in proof.results:
            if r.name.startswith("lex"):
                continue
            r.status, r.what = "undecided", proof.plumbing
    gc.enable()
    return proof


DEFINITE = ("cannot be followed by", "unexpected ", "ends the phrase too early", "is not recognised", "the end of the file is not accepted")


def parse_contracts(proof, c):
    prop = proof.prop
    proof.contexts = len(c.order)
    groups = {}
    for nt, gs in c.groups.items():
        for g in gs:
            props = {x for p in g for x in p.props} | {"C17", "C19"}
            if nt == "FILE":
                props |= {"C01", "C12", "C13"}
            if "C05" in props:
                props.add("C20")
            groups[g[0].pid] = props
    mine = {pid for pid, props in groups.items() if prop in props}
    proof.c_obligations = sum(g[0].pid in mine for key in c.order for g in c.groups[key[2]])
    # a phrase that is read in some places but not in others: the places are wrong, too
    tried: dict = {}
    for key in c.order:
        for g in c.groups[key[2]]:
            tried.setdefault(g[0].pid, set()).add(key)
    wrong: dict = {}
    for pid, key in c.problems:
        wrong.setdefault(pid, set()).add(key)
    for (pid, key), what in c.problems.items():
        if pid in mine or (wrong[pid] < tried[pid] and any(prop in S.BY_PID[a].props for a in c.askers[key] if a in S.BY_PID)):
            (proof.c_failed if any(d in what for d in DEFINITE) else proof.c_undecided).append((pid, key, what))


def lexer_contracts(proof, c):
    """Results of layer D: one for each token class that belongs to the property (paths: its scanners)."""
    global LEX
    from pv import lexing
    from pv.layer_a import Result

    t0 = time.time()
    m = c.m
    LEX = m.lexing
    proof.machine = m
    props: dict = {}
    for p in S.PRODS:
        for el in lexing.flat(p.rhs):
            k = lexing.key(el)
            props.setdefault(("FNU", "other") if k == ("FNU",) else k, set()).update(p.props)
            props.setdefault(k, set()).update(p.props)
    for k in (*[(x,) for x in lexing.LAYOUT], ("NL",), ("EOFC",)):
        props[k] = {"C10", "C19"}
    groups: dict = {}
    for k, s in [*m.layout(), *m._types, *m.sampled]:
        groups.setdefault(k, set()).add(s)
    for k, scanners in sorted(groups.items(), key=str):
        name = ":".join(x.replace("\n", "LF").replace("\r", "CR") for x in k if x)
        mine = proof.prop in props.get(k, ())
        res = Result(f"lex:{name}", None)
        lin = Result(f"lexlines:{name}", None)
        for r in (res, lin):
            r.key, r.words, r.paths = k, [], len(scanners)
        for s in sorted(scanners):
            why = m.sampled.get((k, s))
            if why:
                res.undecided(why)
                lin.undecided(why)
            for word, rest, what in m.misread.get((k, s), ()):
                r, kind = (lin, "lines") if "not counted" in what else (res, "lex")
                r.fail(f"the text {word!r}{f' before {rest!r}' if rest else ''} is not read as its token: {what}", kind=kind,
                       facts=[f"scanner of the parser states {[q for q, x in m.scanner.items() if x == s][:5]}"])
                if word not in r.words:
                    r.words.append(word)
        if mine:
            proof.results.append(res)
        if proof.prop == "C04" and k[0] in ("NL", "MLS", "BLOCK", "QS"):
            proof.results.append(lin)
    proof.seconds["D"] = time.time() - t0
    proof.lexer = {"products": m.lexing.products, "states": m.lexing.states, "scanners": len(m.lexing.lexers), "character_classes": len(m.lexing.alphabet.letters)}


# --------------------------------------------------------------------------- verdict


def verdict(prop, proof, b, seconds=60):
    """The violation that the proof shows (a dictionary for the replay file) or None."""
    from pv.guided import random_words, search, search_lex
    from pv.layer_a import Result

    t_end = time.time() + seconds
    failed = proof.failures
    trees: dict = {}
    for pid, _, what in proof.c_failed + proof.c_undecided:
        trees.setdefault(pid, what)
    jobs = []
    for r in failed:
        jobs.append((r, 400, True))
    for pid, what in trees.items():
        r = Result(f"tree:{pid}", pid)
        r.fail(what, kind="tree")
        if pid in S.BY_PID:
            jobs.append((r, 400, True))
    for r in proof.open:
        jobs.append((r, 300, False))
    try:
        for i, (r, n, _) in enumerate(jobs):
            left = t_end - time.time()
            if left <= 0:
                break
            share = max(1.0, left / max(1, min(len(jobs) - i, 12)))
            if r.name.startswith("lex"):
                words = r.words or random_words(LEX, r.key, random.Random(r.name))
                proof.inputs += search_lex(b, prop, r.key, words, n, share)
            else:
                proof.inputs += search(b, prop, r, n, share)
    except Finding as f:
        return {"property": prop, "kind": "input", "what": f"{r.name}: {r.what}; shown by: {f.what}", "obligation": r.name, "verifier": verifier(r), **f.replay}
    unproved = {S.BY_PID[r.pid].nt for r in proof.results if r.status != "proved" and r.pid in S.BY_PID and r.name.startswith("value:")}
    for r in failed:
        if r.name.startswith("lex"):
            return {"property": prop, "kind": "obligation", "what": f"obligation {r.name} fails: {r.what}", "obligation": r.name, "verifier": verifier(r)}
        nt = S.BY_PID[r.pid].nt if r.pid in S.BY_PID and not r.name.startswith(("file:", "parse:")) else "FILE"
        if r.name.startswith("nested") and r.kind != "raise" or nt not in HARD or (r.nts - HARD) & unproved:
            continue
        if r.kind == "state":
            continue
        return {"property": prop, "kind": "obligation", "what": f"obligation {r.name} fails: {r.what}", "obligation": r.name, "verifier": verifier(r)}
    for pid, key, what in proof.c_failed:
        return {"property": prop, "kind": "obligation", "what": f"obligation tree:{pid} fails: {what}", "obligation": f"tree:{pid}",
                "verifier": {"message": what, "context": repr(key)}}
    # what is left: failures of inner contracts, which the obligations of their users rest on, and what the provers do not decide
    rest = [(r.name, r.what, verifier(r)) for r in failed]
    rest += [(r.name, r.what, verifier(r)) for r in proof.results if r.status == "undecided" and (prop in ("C13", "C17") or not r.name.startswith("parse:"))]
    rest += [(f"tree:{pid}", what, {"message": what, "context": repr(key)}) for pid, key, what in proof.c_undecided]
    for name, what, output in rest[:1]:
        return {"property": prop, "kind": "obligation", "what": f"{len(rest)} obligations are not discharged; {name}: {what}", "obligation": name,
                "verifier": output, "not_discharged": [n for n, *_ in rest]}
    return None


def verifier(r):
    return {"message": str(r.what), "failing case": [str(f) for f in r.facts], "kind": r.kind}
