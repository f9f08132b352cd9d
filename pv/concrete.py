"""The concrete builder: what a text must be reported as, and the comparison with what pycep reports."""
from __future__ import annotations


class Loose(str):
    """Expected text: any str but not a lark token."""


class Elem(str):
    """Expected Bicep element."""


class Lit(str):
    """Expected plain string (not a Bicep element)."""


class Ordered(dict):
    """Expected object: the properties are in this order."""


class Concrete:
    concrete = True

    def text(self, x):
        return Loose(x)

    def elem(self, x):
        return Elem(x)

    def lit(self, x):
        return Lit(x)

    def cat(self, *parts):
        return Loose("".join(parts))

    def map(self, rep, fn):
        return [fn(x) for x in rep]

    def concat(self, lists):
        return [x for part in lists for x in part]

    def dict(self, pairs):
        return Ordered(pairs)

    def numbered(self, d, prefix, start, items):
        for i, x in enumerate(items):
            d[f"{prefix}{start + i}"] = x

    def copy(self, d):
        return dict(d)

    def nested(self, child, fn, *_context):
        return [] if child is None else fn(child)

    def with_parent(self, config, parent):
        out = dict(config)
        deps = out.get("depends_on", [])
        out["depends_on"] = [*(deps if isinstance(deps, list) else [deps]), Elem(parent)]
        return out

    def lined(self, attrs, lines):
        if lines is None:
            return attrs
        return {**attrs, "__start_line__": lines[0], "__end_line__": lines[1]}

    def wrap_arrays(self, base, rep):
        for _ in rep:
            base = {"type": "array", "item_type": base}
        return base

    def join(self, sep, items):
        return Loose(sep.join(items))

    def neg(self, i):
        return -i

    def int_text(self, i):
        return Loose(str(i))


_M = object()


def diff(exp, act, path=""):
    """None if `act` is what is expected, else a description of the first difference."""
    if isinstance(exp, str):
        if type(exp) is Elem:
            ok = type(act).__name__ == "BicepElement"
        elif type(exp) is Lit:
            ok = type(act) is str
        else:
            ok = isinstance(act, str) and type(act).__name__ != "Token"
        if not ok or str.__str__(act) != str.__str__(exp):
            return f"{path or '/'}: expected {type(exp).__name__} {str(exp)!r}, got {type(act).__name__} {act!r}"
        return None
    if exp is None or isinstance(exp, (bool, int)):
        if type(act) is not type(exp) or act != exp:
            return f"{path or '/'}: expected {exp!r}, got {type(act).__name__} {act!r}"
        return None
    if isinstance(exp, dict):
        if type(act) is not dict:
            return f"{path or '/'}: expected an object, got {act!r}"
        for k in exp:
            if k not in act:
                return f"{path}/{k}: missing"
        for k in act:
            if k not in exp:
                return f"{path}/{k}: unexpected ({act[k]!r})"
        for k, v in exp.items():
            d = diff(v, act[k], f"{path}/{k}")
            if d:
                return d
        if type(exp) is Ordered and list(exp) != list(act):
            return f"{path or '/'}: expected the order {list(exp)}, got {list(act)}"
        return None
    if isinstance(exp, list):
        if type(act) is not list:
            return f"{path or '/'}: expected a list, got {act!r}"
        for i, v in enumerate(exp):
            if i >= len(act):
                return f"{path}/{i}: missing"
            d = diff(v, act[i], f"{path}/{i}")
            if d:
                return d
        if len(act) > len(exp):
            return f"{path}/{len(exp)}: unexpected ({act[len(exp)]!r})"
        return None
    raise AssertionError(f"unexpected expectation {exp!r}")


def leaf(exp, act):
    """(expected, reported) at the first difference if both are texts, numbers, booleans or null there, else None."""
    if isinstance(exp, dict) and isinstance(act, dict) and set(exp) == set(act):
        pairs = [(v, act[k]) for k, v in exp.items()]
    elif isinstance(exp, list) and isinstance(act, list) and len(exp) == len(act):
        pairs = list(zip(exp, act))
    else:
        simple = (str, int, type(None))
        return (exp, act) if isinstance(exp, simple) and isinstance(act, simple) and diff(exp, act) else None
    for e, a in pairs:
        if diff(e, a):
            return leaf(e, a)
    return None


def plain(exp):
    """The expectation as plain JSON data (for replay files)."""
    if isinstance(exp, str):
        return str(exp)
    if isinstance(exp, dict):
        return {str(k): plain(v) for k, v in exp.items()}
    if isinstance(exp, list):
        return [plain(v) for v in exp]
    return exp
