"""Values of the symbolic execution, and their SMT encoding."""
from __future__ import annotations

import itertools
import re
import sys
from dataclasses import dataclass
from functools import lru_cache
from typing import Any

Z3_PATH = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if Z3_PATH not in sys.path:
    sys.path.append(Z3_PATH)
import z3  # noqa: E402

from pv import sgrammar as S  # noqa: E402



class Unsupported(Exception):
    """The execution leaves what is modelled: nothing can be said."""


# --------------------------------------------------------------------------- atoms and strings


@dataclass(frozen=True)
class Atom:
    """The unknown text of a part of a token; `kind` names its class."""

    kind: str
    path: tuple

    def name(self):
        return f"{self.kind}|{'/'.join(map(str, self.path))}"


@dataclass(frozen=True)
class SInt:
    """const + sum of coefficient * unknown integer; unknowns are (kind, path)."""

    const: int
    terms: tuple  # sorted ((name, path), coefficient)

    @staticmethod
    def of(kind, path):
        return SInt(0, (((kind, path), 1),))

    def __repr__(self):
        return " + ".join([*([str(self.const)] if self.const or not self.terms else []),
                           *(f"{c if c != 1 else ''}{k[0]}{'/'.join(map(str, k[1]))}" for k, c in self.terms)])


def int_of(x):
    return SInt(int(x), ()) if isinstance(x, int) else x


def int_add(a, b, sign=1):
    a, b = int_of(a), int_of(b)
    terms = dict(a.terms)
    for k, c in b.terms:
        terms[k] = terms.get(k, 0) + sign * c
    return int_norm(a.const + sign * b.const, terms)


def int_norm(const, terms):
    t = tuple(sorted(((k, c) for k, c in terms.items() if c), key=repr))
    return SInt(const, t) if t else const


def int_mul(a, k):
    a = int_of(a)
    return int_norm(a.const * k, {n: c * k for n, c in a.terms})


@dataclass(frozen=True)
class IntText:
    """The decimal text of an integer."""

    value: SInt


@dataclass(frozen=True)
class Cut:
    """The characters lo to hi of a text."""

    text: "SStr"
    lo: int
    hi: int


@dataclass(frozen=True)
class Join:
    """The texts of a sequence (a tuple of strings and (Seg, text per case)), joined by `sep`."""

    sep: str
    items: Any


@dataclass(frozen=True)
class SStr:
    """parts: str | Atom | IntText | Join;  cls: str | BicepElement | Token (actual values), text | elem | lit (expected ones)."""

    parts: tuple
    cls: str = "str"
    ttype: str | None = None

    def __repr__(self):
        return f"{self.cls}:" + "".join(p if isinstance(p, str) else f"«{p.name()}»" if isinstance(p, Atom) else f"«{p}»" for p in self.parts)


def norm(parts):
    out: list = []
    for p in parts:
        if isinstance(p, str):
            if p:
                if out and isinstance(out[-1], str):
                    out[-1] += p
                else:
                    out.append(p)
        elif isinstance(p, IntText) and not isinstance(p.value, SInt):
            out[-1:] = list(norm([*out[-1:], str(p.value)]))
        else:
            out.append(p)
    return tuple(out)


def parts_of(x):
    return x.parts if isinstance(x, SStr) else norm((str.__str__(x),))


def make_str(parts, cls="str", ttype=None):
    parts = norm(parts)
    if cls == "str" and all(isinstance(p, str) for p in parts):
        return parts[0] if parts else ""
    return SStr(parts, cls, ttype)


def is_str(x):
    return isinstance(x, (str, SStr))


# --------------------------------------------------------------------------- containers


_SERIAL = itertools.count(1)


class VDict:
    """A dictionary: the log of its insertions, each ('k', key, value) or ('seg', Seg of (key, value))."""

    factory = None  # of a defaultdict

    def __init__(self, log=(), level=0):
        self.log = list(log)
        self.level = level
        self.serial = next(_SERIAL)
        self.changed = False

    def __repr__(self):
        return "{" + ", ".join(f"{e[1]!r}: {e[2]!r}" if e[0] == "k" else f"**{e[1]!r}" for e in self.log) + "}"


class VSeq:
    """A list or tuple: values and Segs."""

    def __init__(self, items=(), kind="list", level=0):
        self.items = list(items)
        self.kind = kind
        self.level = level
        self.serial = next(_SERIAL)
        self.changed = False
        self.cls = None  # the class of a named tuple

    def __repr__(self):
        o, c = "[]" if self.kind == "list" else "()"
        return o + ", ".join(map(repr, self.items)) + c


class Seg:
    """What the members of a repetition contribute: per case (facts about the member) a list of items.

    `rep` = (path prefix, slot, index): the repetition; the generic member has index '*'.
    """

    def __init__(self, rep, cases, min_=0):
        self.rep = rep
        self.cases = cases  # [(facts, [items])]
        self.min = min_

    @property
    def index(self):
        return SInt.of("index", self.rep)

    @property
    def count(self):
        return SInt.of("count", self.rep)

    def mapped(self, fn):
        return Seg(self.rep, [(f, fn(items)) for f, items in self.cases], self.min)

    def only(self):
        return self.cases[0][1] if len(self.cases) == 1 and not any(isinstance(x, Seg) for x in self.cases[0][1]) else None

    def __repr__(self):
        c = " | ".join(map(repr, (x for _, x in self.cases)))
        return f"*<{'/'.join(map(str, self.rep[1:]))}: {c}>"


@dataclass(frozen=True)
class Root:
    """A phrase whose value is unknown.  mode sem: the specified value; raw: what the code makes of its tree."""

    mode: str
    nt: str
    path: tuple


@dataclass(frozen=True)
class LV:
    """(A part of) the value of a phrase."""

    root: Root
    sub: tuple = ()

    # the specification's functions use these
    def __getitem__(self, k):
        return LV(self.root, (*self.sub, k))

    def __iter__(self):
        if self.root.nt not in PAIRS or self.sub:
            raise TypeError(f"{self} is not a pair")
        return iter((self[0], self[1]))

    def __call__(self, *args):
        return Apply(self, args)

    def get(self, *a):
        raise TypeError("the specification must not inspect a phrase")

    def __repr__(self):
        return f"⟨{self.root.mode}:{self.root.nt}:{'/'.join(map(str, self.root.path))}{''.join(f'[{k!r}]' for k in self.sub)}⟩"


PAIRS = {"RB", "RBO", "ROBJ", "PAIR"}


@dataclass(frozen=True)
class Apply:
    """A specified value that is a function of the surrounding declaration, applied to it."""

    fn: Any
    args: tuple

    def __hash__(self):
        return hash(self.fn)

    def __eq__(self, o):
        return self is o


@dataclass(frozen=True)
class Nested:
    """The entries of everything nested in a resource body (`child`: the specified description of the nested resource)."""

    parent: Any
    typ: Any
    api: Any
    child: LV


class SegKey:
    """Key under which the specification stores the entries of a repetition in a native dictionary."""

    def __init__(self, seg):
        self.seg = seg  # of (key, value)


# --------------------------------------------------------------------------- SMT

WORD = "[A-Za-z0-9_]"
RESERVED = ("null", "true", "false", "for", "if", "resource", "items", "in")  # no identifiers (see ASSUMPTIONS)


@lru_cache(None)
def charset(kind):
    """(z3 regex of one character, python predicate) of the named character set."""
    sets = {
        "word": ([("a", "z"), ("A", "Z"), ("0", "9"), ("_", "_")], True),
        "path.": ([("a", "z"), ("A", "Z"), ("0", "9"), ("_", "_"), ("/", "/"), ("-", "-"), (".", ".")], True),
        "path": ([("a", "z"), ("A", "Z"), ("0", "9"), ("_", "_"), ("/", "/"), ("-", "-")], True),
        "tag": ([("a", "z"), ("A", "Z"), ("0", "9"), ("_", "_"), ("-", "-"), (".", ".")], True),
        "num-": ([("0", "9"), ("-", "-")], False),
        "rg": ([("a", "z"), ("A", "Z"), ("0", "9"), ("_", "_"), ("-", "-"), (".", "."), ("(", "("), (")", ")")], True),
        "digit": ([("0", "9")], False),
    }
    rs, uni = sets[kind]
    zs = [z3.Range(a, b) for a, b in rs]
    if uni:
        zs.append(z3.Range(chr(0x80), chr(0x2FFFF)))
    return z3.Union(*zs) if len(zs) > 1 else zs[0]


CHARSETS = {"MP.registry": "word", "MP.alias": "word", "MP.aliasx": "word", "MP.path.": "path.", "MP.path": "path", "MP.tag": "tag", "MP.sub": "num-",
            "MP.rg": "rg", "MP.name": "tag", "MP.version": "tag"}
CHARS = {  # members of the sets as python text, for the regular expressions
    "word": "\\w", "path.": "\\w/\\-.", "path": "\\w/\\-", "tag": "\\w.\\-", "num-": "\\d\\-", "rg": "\\w.\\-()", "digit": "\\d"}


def atom_constraint(a: Atom, x):
    """What is known about the text of an atom."""
    w = charset("word")
    out = []
    k = a.kind
    if k == "ID":
        out.append(z3.InRe(x, z3.Concat(z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Re("_")), z3.Star(w))))
        out += [x != word for word in RESERVED]
    elif k in ("INT", "DIGITS"):
        out.append(z3.InRe(x, z3.Plus(charset("digit"))))
    elif k == "LF":
        out.append(z3.InRe(x, z3.Plus(w)))
    elif k == "FNU":
        out.append(z3.InRe(x, z3.Plus(w)))
        out += [x != n for n in sorted(S.BUILTIN_NAMES)]
    elif k == "FNUQ":
        out.append(z3.InRe(x, z3.Concat(z3.Union(z3.Re("sys."), z3.Re("az.")), z3.Plus(w))))
        out += [x != n for n in sorted(S.BUILTIN_NAMES)]
    elif k == "DNU":
        w2 = z3.Union(z3.Range("a", "z"), z3.Range("A", "Z"), z3.Range("0", "9"))
        out.append(z3.InRe(x, z3.Concat(z3.Option(z3.Re("sys.")), z3.Plus(w2))))
        out += [x != n for n in sorted(S.DECO_NAMES)]
    elif k == "QTA.type":
        out += [z3.Not(z3.Contains(x, "@")), z3.Length(x) > 0, z3.Not(z3.PrefixOf("''", x))]
    elif k == "QTA.api":
        out += [z3.Not(z3.Contains(x, "@")), z3.Length(x) > 0]
    elif k == "MLS":  # no leading line break written
        out += [z3.Not(z3.PrefixOf("\n", x)), z3.Not(z3.PrefixOf("\r\n", x)), z3.Not(z3.Contains(x, "'''"))]
    elif k == "MLS+":
        out += [z3.Not(z3.Contains(x, "'''"))]
    elif k == "SCOPE":
        out.append(z3.Or(*(x == s for s in S.B_SCOPES)))
    elif k == "NOSCOPE":
        out += [x != s for s in S.B_SCOPES]
    elif k == "MP.local":
        out += [z3.Not(z3.PrefixOf(p, x)) for p in ("br:", "br/", "ts:", "ts/")]
    elif k in CHARSETS:
        out.append(z3.InRe(x, z3.Plus(charset(CHARSETS[k]))))
        if k == "MP.aliasx":
            out.append(x != "public")
    elif k in ("QS", "ANY"):
        pass
    else:
        raise AssertionError(k)
    return out


def nonempty(a: Atom):
    return a.kind not in ("QS", "ANY", "MLS", "MLS+", "MP.local", "NOSCOPE")


def star(path):
    """The generic member of a repetition."""
    return (*path[:-1], (*path[-1], f"{path[-1][1]}*"))


class Encoder:
    """Encodes strings and integers; collects what is known about the unknowns that occur."""

    def __init__(self):
        self.vars = {}
        self.known = {}
        self.int_paths = {}

    def atom(self, a):
        if a not in self.vars:
            x = z3.String(a.name())
            self.vars[a] = x
            self.known[str(x)] = atom_constraint(a, x)
        return self.vars[a]

    def integer(self, v):
        if isinstance(v, int):
            return z3.IntVal(v)
        out = z3.IntVal(v.const)
        for (kind, path), c in v.terms:
            if kind == "len":
                out = out + c * z3.Length(self.string(path))
                continue
            n = f"{kind}:{path}"
            if n not in self.vars:
                x = z3.Int(n)
                self.vars[n] = x
                # an index belongs to the generic member of its repetition
                self.int_paths[n] = star(path) if kind == "index" else path[:-1] if kind == "filtered" else path
                self.known[n] = [x >= (1 if "line" in kind else 0)]
                if kind == "delimiters":
                    self.known[n].append((x == 0) == z3.Not(z3.Contains(self.atom(Atom("ANY", path)), z3.StringVal("'''"))))
            out = out + c * self.vars[n]
        return out

    def string(self, s):
        ps = []
        for p in parts_of(s):
            if isinstance(p, str):
                ps.append(z3.StringVal(p))
            elif isinstance(p, Atom):
                ps.append(self.atom(p))
            elif isinstance(p, IntText):
                n = f"text({p.value})"
                if n not in self.vars:
                    x = z3.String(n)
                    self.vars[n] = x
                    self.known[n] = [z3.InRe(x, z3.Concat(z3.Option(z3.Re("-")), z3.Plus(charset("digit"))))]
                    paths = [star(path) if kind == "index" else path for (kind, path), _ in p.value.terms if kind != "len"]
                    self.int_paths[n] = max(paths, key=len, default=())
                ps.append(self.vars[n])
            elif isinstance(p, Cut):
                ps.append(z3.SubString(self.string(p.text), p.lo, max(0, p.hi - p.lo)))
            else:
                raise Unsupported("a decision on a text made by a loop")
        if not ps:
            return z3.StringVal("")
        return z3.Concat(*ps) if len(ps) > 1 else ps[0]

    def constraints(self, formulas):
        """What is known about the unknowns of the formulas."""
        names = set()
        for f in formulas:
            names |= variables(f)
        return [c for n in sorted(names) for c in self.known.get(n, ())]


_VARS: dict = {}


def variables(f):
    k = f.get_id()
    if k in _VARS and _VARS[k][0] is f:
        return _VARS[k][1]
    out, todo, seen = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(str(x))
        todo += x.children()
    _VARS[k] = (f, out)
    return out


_RESULTS: dict = {}
STATS = {"queries": 0, "seconds": 0.0, "unknown": 0}


def check(formulas):
    """'sat' | 'unsat' | 'unknown' and, for sat, the model."""
    import time

    k = tuple(sorted({f.sexpr() for f in formulas}))
    if k not in _RESULTS:
        t = time.time()
        s = z3.Solver()
        s.set("timeout", 3000)
        s.add(*formulas)
        r = str(s.check())
        _RESULTS[k] = (r, s.model() if r == "sat" else None)
        STATS["queries"] += 1
        STATS["seconds"] += time.time() - t
        STATS["unknown"] += r == "unknown"
    return _RESULTS[k]


def serial():
    return next(_SERIAL)


def unescape(z):
    """The text of a z3 string value."""
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m[1], 16)), z.as_string())
