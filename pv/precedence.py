"""C20: the nesting of unparenthesised chains of two operators."""
from __future__ import annotations

import itertools

from pv import sgrammar as S
from pv.bounded import Finding

# higher binds tighter; all of these associate to the left
BINARY = {"*": 10, "/": 10, "%": 10, "+": 9, "-": 9, "<": 8, "<=": 8, ">": 8, ">=": 8, "==": 7, "!=": 7, "=~": 7, "!~": 7, "&&": 6, "||": 5, "??": 4}
ACCESSOR = {".": 12, "::": 12}
KIND = {**S.OPS, **S.ACCESS}


def b2(op, x, y):
    return {"operator": {"type": KIND[op], "operands": {"operand_1": x, "operand_2": y}}}


def u(op, x):
    return {"operator": {"type": "not", "operands": {"bool_value": x}}} if op == "!" else {
        "operator": {"type": "minus", "operands": {"integer_value": x}}}


def idx(x, y):
    return {"operator": {"type": "index_accessor", "operands": {"operand_1": x, "operand_2": y}}}


def fn(x):
    return {"operator": {"type": "function_accessor", "operands": {"operand_1": x, "func_name": "listKeys"}}}


def cond(x, y, z):
    return {"operator": {"type": "conditional", "operands": {"condition": x, "true_value": y, "false_value": z}}}


def chains():
    """(name, text with {a}..{d}, expected nesting) for every ordered pair of operators."""
    a, b, c, d = "a", "b", "c", "d"
    lv = {**BINARY, **ACCESSOR}
    for p, q in itertools.product(lv, lv):
        left = lv[p] >= lv[q]
        yield f"{p} {q}", f"{{a}} {p} {{b}} {q} {{c}}", (lambda x, y, z, p=p, q=q, left=left: b2(q, b2(p, x, y), z) if left else b2(p, x, b2(q, y, z)))
    for p in ("!", "-"):
        for q in BINARY:
            yield f"{p}_ {q}", f"{p} {{a}} {q} {{b}}", (lambda x, y, z, p=p, q=q: b2(q, u(p, x), y))
            yield f"{q} {p}_", f"{{a}} {q} {p} {{b}}", (lambda x, y, z, p=p, q=q: b2(q, x, u(p, y)))
        for q in ACCESSOR:
            yield f"{p}_ {q}", f"{p} {{a}} {q} {{b}}", (lambda x, y, z, p=p, q=q: u(p, b2(q, x, y)))
        yield f"{p}_ []", f"{p} {{a}} [ {{b}} ]", (lambda x, y, z, p=p: u(p, idx(x, y)))
        yield f"{p}_ .list()", f"{p} {{a}} . listKeys()", (lambda x, y, z, p=p: u(p, fn(x)))
        yield f"{p}_ ?:", f"{p} {{a}} ? {{b}} : {{c}}", (lambda x, y, z, p=p: cond(u(p, x), y, z))
        yield f"?: {p}_", f"{{a}} ? {{b}} : {p} {{c}}", (lambda x, y, z, p=p: cond(x, y, u(p, z)))
    for p, q in itertools.product(("!", "-"), repeat=2):
        yield f"{p}_ {q}_", f"{p} {q} {{a}}", (lambda x, y, z, p=p, q=q: u(p, u(q, x)))
    for p in BINARY:
        yield f"{p} []", f"{{a}} {p} {{b}} [ {{c}} ]", (lambda x, y, z, p=p: b2(p, x, idx(y, z)))
        yield f"{p} .list()", f"{{a}} {p} {{b}} . listKeys()", (lambda x, y, z, p=p: b2(p, x, fn(y)))
        yield f"[] {p}", f"{{a}} [ {{b}} ] {p} {{c}}", (lambda x, y, z, p=p: b2(p, idx(x, y), z))
        yield f".list() {p}", f"{{a}} . listKeys() {p} {{b}}", (lambda x, y, z, p=p: b2(p, fn(x), y))
        if p != "??":
            yield f"{p} ?:", f"{{a}} {p} {{b}} ? {{c}} : {{d}}", (lambda x, y, z, w="d", p=p: cond(b2(p, x, y), z, w))
            yield f"?: {p}", f"{{a}} ? {{b}} : {{c}} {p} {{d}}", (lambda x, y, z, w="d", p=p: cond(x, y, b2(p, z, w)))
    for p in ACCESSOR:
        yield f"{p} []", f"{{a}} {p} {{b}} [ {{c}} ]", (lambda x, y, z, p=p: idx(b2(p, x, y), z))
        yield f"{p} .list()", f"{{a}} {p} {{b}} . listKeys()", (lambda x, y, z, p=p: fn(b2(p, x, y)))
        yield f"[] {p}", f"{{a}} [ {{b}} ] {p} {{c}}", (lambda x, y, z, p=p: b2(p, idx(x, y), z))
        yield f".list() {p}", f"{{a}} . listKeys() {p} {{b}}", (lambda x, y, z, p=p: b2(p, fn(x), y))
        yield f"{p} ?:", f"{{a}} {p} {{b}} ? {{c}} : {{d}}", (lambda x, y, z, w="d", p=p: cond(b2(p, x, y), z, w))
        yield f"?: {p}", f"{{a}} ? {{b}} : {{c}} {p} {{d}}", (lambda x, y, z, w="d", p=p: cond(x, y, b2(p, z, w)))
    yield "[] []", "{a} [ {b} ] [ {c} ]", lambda x, y, z: idx(idx(x, y), z)
    yield "[] .list()", "{a} [ {b} ] . listKeys()", lambda x, y, z: fn(idx(x, y))
    yield ".list() []", "{a} . listKeys() [ {b} ]", lambda x, y, z: idx(fn(x), y)
    yield "[] ?:", "{a} [ {b} ] ? {c} : {d}", lambda x, y, z, w="d": cond(idx(x, y), z, w)
    yield "?: []", "{a} ? {b} : {c} [ {d} ]", lambda x, y, z, w="d": cond(x, y, idx(z, w))
    yield "?: .list()", "{a} ? {b} : {c} . listKeys()", lambda x, y, z: cond(x, y, fn(z))
    yield "?: ?:", "{a} ? {b} : {c} ? {d} : {a}", lambda x, y, z, w="d": cond(x, y, cond(z, w, x))


OPERANDS = [
    [("a", "a"), ("b", "b"), ("c", "c"), ("d", "d")],
    [("1", 1), ("0", 0), ("2", 2), ("3", 3)],
    [("''", ""), ("'x'", "x"), ("'y'", "y"), ("'z'", "z")],
    [("(a)", "a"), ("(0)", 0), ("(null)", None), ("(b)", "b")],
    [("true", True), ("false", False), ("null", None), ("x", "x")],
    [("[]", []), ("{}", {}), ("[1]", [1]), ("{}", {})],
]


def outcomes(sub, operands):
    """name -> (text, expected, reported)"""
    out = {}
    for name, tmpl, want in chains():
        text = "var v = " + tmpl.format(**{k: o[0] for k, o in zip("abcd", operands)}) + "\n"
        vals = [o[1] for o in operands]
        exp = want(*vals) if "w" in want.__code__.co_varnames else want(*vals[:3])
        kind, res = sub.run(text)
        out[name] = (text, exp, res["variables"]["v"]["value"] if kind == "ok" else res)
    return out


def check(b, prop, scale):
    from pv.known import KNOWN

    known = {k["key"]: k["reported"] for k in KNOWN[prop]}
    for i, ops in enumerate(OPERANDS):
        by = {k: o[1] for k, o in zip("abcd", ops)}
        for name, (text, exp, act) in outcomes(b.sub, ops).items():
            b.cases += 1
            if exp == act or name in known and act == substitute_ops(known[name], by):
                continue
            raise Finding(prop, f"chain {name!r}: expected {exp}, got {act}", {"text": text, "expected": exp, "reported": repr(act)})


def substitute_ops(x, by):
    """The recorded nesting with other operands (only the operand slots hold operands)."""
    if isinstance(x, dict) and "operator" in x:
        o = x["operator"]
        return {"operator": {"type": o["type"], "operands": {
            k: v if k == "func_name" else substitute_ops(v, by) for k, v in o["operands"].items()}}}
    return by[x]
