"""Phrases of the specification grammar through pycep's real LALR machine.

For every nonterminal N of the specification and every context in which a phrase of N can begin (parser
state q after the reductions its first token causes, scanner of that first token, set of first terminals
that lead to q), the *outcome* of the phrase is computed: for each scanner that reads the token behind the
phrase and each such next terminal t, the one grammar symbol that stands above q once t has driven the
reductions that concern the phrase alone.  Outcomes are a least fixpoint over the productions of the
specification, so a statement about them holds for phrases of any size (induction over the derivation).
What runs is pycep's own machine: its parse table, its tree building callbacks, its contextual scanners.

Besides the outcomes this yields, for each production, the parse *terms*: the trees pycep builds for it,
with leaves for the inner phrases and a family for each repetition (induction over the repetitions: the
machine configuration after k repetitions is the one after k-1 with one more member in the family).
"""
from __future__ import annotations

import copy
import re
from collections import defaultdict

from lark import Token, Tree
from lark.lexer import TextSlice
from lark.parsers.lalr_analysis import Shift

from pv import lexing, rex
from pv import sgrammar as S

# --------------------------------------------------------------------------- file level

FILE_PRODS = [
    S.Prod("FILE", "file", (S.NL0, S.R("d", (S.N("DECL", "x"),), sep=(S.NL1,)), S.NL0), None),
    S.Prod("FILE", "file.comment", (S.NL0, S.R("d", (S.N("DECL", "x"),), sep=(S.NL1,)), S.NL0, S.T("EOFC", "c")), None),
]
PRODS_OF = {**S.BY_NT, "FILE": FILE_PRODS}
PROD = {p.pid: p for ps in PRODS_OF.values() for p in ps}

# --------------------------------------------------------------------------- representative lexemes
#
# The terminals of a token class come from the lexer contracts (pv.lexing), for all texts of the class.  Only where those are
# undecided, these lexemes stand for the class (`Machine.sampled`; such an obligation is not counted as discharged).

KEYWORDS = ["targetScope", "import", "extension", "metadata", "param", "var", "output", "module", "type", "func", "from", "with", "as",
            "existing"]
LEXEMES = {
    "ID": ["ident_1", "x", *KEYWORDS],
    "INT": ["7", "12"],
    "QS": ["''", "'a'", "'a b'", "'${x}'", "'a.b'"],
    "MLS": ["'''m'''", "''''''", "'''\nm\n'''"],
    "LF": [("listKeys", "("), ("getSecret", "("), ("list", "(")],
    "FNU": ["myFunc(", "f(", "foo_bar("],
    "FNUQ": ["sys.f(", "az.foo_bar("],
    "DNU": ["foo", "sys.foo"],
    "QT": ["'a'", "'a/b'"],
    "QTA": ["'A.b/c@2020-01-01'"],
    "QM": ["'./a.bicep'", "'br:a.azurecr.io/b:c'"],
    "QSCOPE": ["'tenant'"],
    "STAR": ["*"],
    "EOFC": ["// c"],
}
NL_LEXEMES = ["\n", "\r\n", "// c\n"]
NL_ONE = S.NL(1, 1)


def lexemes(el):
    if isinstance(el, S.K):
        return [el.text]
    if isinstance(el, S.NL):
        return NL_LEXEMES
    if el.cls == "FN":
        return [el.arg + "("]
    if el.cls == "DN":
        return [el.arg]
    if el.cls == "MLS":
        return [f"'''{el.arg or ''}m'''", f"'''{el.arg or ''}'''", f"'''{el.arg or ''}m\nn'''"]
    return LEXEMES[el.cls]


class Problem(Exception):
    pass


# --------------------------------------------------------------------------- values


class Leaf(Tree):
    """An inner phrase."""

    def __init__(self, nt, path):
        super().__init__("⟨leaf⟩", [])
        self.nt, self.path = nt, path
        span(self.meta, ("line", path), ("end_line", path))


class Fam(Tree):
    """A repetition: the children contributed by each member (its index is '*')."""

    def __init__(self, slot, index, template):
        super().__init__("⟨family⟩", [])
        self.slot, self.index, self.template = slot, index, template
        first = last = None
        for t in template:
            if isinstance(t, Token):
                a, b = ("line", t.path), ("end_line", t.path)
            elif t is not None and not t.meta.empty:
                a, b = t.meta.container_line, t.meta.container_end_line
            else:
                continue
            first, last = first or a, b
        if first:
            d = len(index)
            span(self.meta, _reindex(first, d, slot, "*", "^"), _reindex(last, d, slot, "*", "$"))


def _reindex(x, depth, slot, old, new):
    kind, path = x
    if len(path) > depth + 1 and path[depth + 1] == f"{slot}{old}":
        return kind, (*path[: depth + 1], f"{slot}{new}", *path[depth + 2:])
    return x


def span(m, first, last):
    m.empty = False
    m.line = m.container_line = first
    m.end_line = m.container_end_line = last
    m.column = m.end_column = m.start_pos = m.end_pos = 0
    m.container_column = m.container_end_column = m.container_start_pos = m.container_end_pos = 0


class Sym(Token):
    """A token of the specification (its text may be symbolic)."""

    def __new__(cls, type_, value, el, path):
        t = super().__new__(cls, type_, value, 0, ("line", path), 0, ("end_line", path), 0, 0)
        t.el, t.path = el, path
        return t

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def copy_value(v):
    """A private copy for the (mutating) tree building callbacks."""
    if isinstance(v, Token) or v is None:
        return v
    out = object.__new__(type(v))
    out.__dict__.update(v.__dict__)
    out.children = [copy_value(c) for c in v.children]
    out._meta = copy.copy(v.meta)
    return out


def show(v):
    if isinstance(v, Sym):
        return f"{v.type}!{'.'.join(v.path)}" + (f"={str(v)}" if isinstance(v.el, S.K) else "")
    if isinstance(v, Leaf):
        return f"<{v.nt}:{'.'.join(v.path)}{_meta(v)}>"
    if isinstance(v, Fam):
        return f"[{v.slot}{'.'.join(v.index)}*{_meta(v)} {' '.join(map(show, v.template))}]"
    if isinstance(v, Tree):
        return f"({v.data}{_meta(v)} {' '.join(map(show, v.children))})"
    return repr(v)


def _meta(v):
    m = v.meta
    if m.empty:
        return "@-"
    f = lambda n: _m(getattr(m, n, None))  # noqa: E731
    a, b, c, d = f("line"), f("end_line"), f("container_line"), f("container_end_line")
    return f"@{a}~{b}" + (f"~{c}~{d}" if (a, b) != (c, d) else "")


def _m(x):
    return f"{x[0][0]}{'.'.join(x[1])}" if isinstance(x, tuple) else str(x)


def rebuild(v, path_of, meta_of, children_of):
    """A copy of v with renamed paths."""
    if v is None:
        return None
    if isinstance(v, Sym):
        p = path_of(v.path)
        return v if p == v.path else Sym(v.type, str(v), v.el, p)
    out = object.__new__(type(v))
    out.__dict__.update(v.__dict__)
    out._meta = copy.copy(v.meta)
    if not out._meta.empty:
        for n in ("line", "end_line", "container_line", "container_end_line"):
            x = getattr(out._meta, n, None)
            if isinstance(x, tuple):
                setattr(out._meta, n, meta_of(x))
    if isinstance(v, Leaf):
        out.path = path_of(v.path)
    elif isinstance(v, Fam):
        out.template = [rebuild(c, path_of, meta_of, children_of) for c in v.template]
        out.index = tuple(path_of(("", *v.index)))[1:]
    else:
        out.children = children_of([rebuild(c, path_of, meta_of, children_of) for c in v.children])
    return out


def paths(v):
    if v is None:
        return
    if isinstance(v, Sym):
        yield v.path
        return
    if isinstance(v, Leaf):
        yield v.path
    if isinstance(v, Fam):
        yield ("", *v.index)
        for c in v.template:
            yield from paths(c)
    m = v.meta
    if not m.empty:
        for n in ("line", "end_line"):
            x = getattr(m, n, None)
            if isinstance(x, tuple):
                yield x[1]
    for c in v.children:
        yield from paths(c)


def member(path, depth, slot):
    """Index of the repetition `slot` (at nesting depth) in a path, or None."""
    if len(path) > depth + 1:
        x = path[depth + 1]
        if x.startswith(slot) and x[len(slot):].isdigit():
            return int(x[len(slot):])
    return None


class NotUniform(Exception):
    pass


def collapse(root, counts):
    """Replaces the members of each repetition by a family (counts: [((slot, *indices), number)])."""
    # inner repetitions first
    for (slot, *index), n in sorted(counts, key=lambda c: -len(c[0])):
        if n:
            root = collapse_one(root, slot, tuple(index), n)
    return root


def collapse_one(root, slot, index, n):
    depth = len(index)

    def of(path):
        return member(path, depth, slot) if path[1: depth + 1] == index else None

    def rename(j):
        def path(p):
            return (*p[: depth + 1], f"{slot}*", *p[depth + 2:]) if of(p) == j else p
        return path, (lambda x: (x[0], path(x[1]))), (lambda c: c)

    def owner(v):
        """The member all of a part belongs to."""
        nums = {of(p) for p in paths(v)}
        return next(iter(nums)) if len(nums) == 1 else None

    def children(cs):
        nums = [owner(c) for c in cs]
        out = []
        i = 0
        while i < len(cs):
            if not nums[i]:
                out.append(cs[i])
                i += 1
                continue
            groups: list = []
            while i < len(cs) and nums[i]:
                if nums[i] == len(groups) + 1:
                    groups.append([])
                elif nums[i] != len(groups):
                    raise NotUniform(f"the members of {slot} are not in order")
                groups[-1].append(cs[i])
                i += 1
            if len(groups) != n:
                raise NotUniform(f"{len(groups)} of {n} members of {slot} are together in the tree")
            tmpl = [[rebuild(c, *rename(j + 1)) for c in g] for j, g in enumerate(groups)]
            keys = {" ".join(map(show, g)) for g in tmpl}
            if len(keys) != 1:
                raise NotUniform(f"the members of {slot} differ: {sorted(keys)}")
            out.append(Fam(slot, index, tmpl[0]))
        return out

    def meta(x):
        j = of(x[1])
        if j is None:
            return x
        if x[0] == "line" and j == 1:
            mark = "^"
        elif x[0] == "end_line" and j == n:
            mark = "$"
        else:
            raise NotUniform(f"a position depends on member {j} of {slot}")
        return x[0], (*x[1][: depth + 1], f"{slot}{mark}", *x[1][depth + 2:])

    def top(v):
        if v is None or isinstance(v, (Token, Leaf)):
            return v
        if not {of(p) for p in paths(v)} - {None}:
            return v
        if isinstance(v, Fam):
            raise NotUniform(f"the members of {slot} are inside another repetition")
        out = copy_shallow(v)
        out.children = [c if owner(c) else top(c) for c in v.children]
        out.children = children(out.children)
        return rebuild_meta(out, meta)

    return top(root)


def copy_shallow(v):
    out = object.__new__(type(v))
    out.__dict__.update(v.__dict__)
    out._meta = copy.copy(v.meta)
    return out


def rebuild_meta(v, meta):
    if not v.meta.empty:
        for name in ("line", "end_line", "container_line", "container_end_line"):
            x = getattr(v.meta, name, None)
            if isinstance(x, tuple):
                setattr(v.meta, name, meta(x))
    return v


class Config:
    """Immutable: states from the base upwards, values above the base, a phrase waiting for the next token, the scanner state."""

    __slots__ = ("states", "values", "pending", "scan", "firsts", "counts", "_key")

    def __init__(self, states, values, pending, scan, firsts, counts=()):
        self.states, self.values, self.pending, self.scan, self.firsts, self.counts = states, values, pending, scan, firsts, counts
        self._key = None

    def key(self):
        if self._key is None:
            values = self.values
            self._key = (self.states, values and tuple(map(key_of, values)), self.pending, self.scan, self.firsts, self.counts)
        return self._key

    def state_key(self):
        return self.states, self.pending and self.pending[2], self.scan, self.firsts

    def but(self, **kw):
        c = Config(self.states, self.values, self.pending, self.scan, self.firsts, self.counts)
        for k, v in kw.items():
            setattr(c, k, v)
        return c


_KEYS: dict = {}


def key_of(v):
    if v is None:
        return "None"
    k = _KEYS.get(id(v))
    if k is None or k[0] is not v:
        k = (v, show(v))
        _KEYS[id(v)] = k
    return k[1]


# --------------------------------------------------------------------------- the machine


def one_or_more(rules):
    """The rules `xs: x` of lists (`xs: x x*`)."""
    by: dict = defaultdict(list)
    for r in rules:
        by[r.origin].append(r)

    def has(symbol, x, seen):
        return symbol == x or not symbol.is_term and symbol not in seen and symbol.name.startswith("_") and any(
            has(s, x, seen | {symbol}) for r in by[symbol] for s in r.expansion)

    out = set()
    for r in rules:
        x = r.expansion[0] if len(r.expansion) == 1 and not r.options.expand1 else None
        if x is not None and not x.is_term and any(o.expansion[0] == x and has(o.expansion[1], x, frozenset()) for o in by[r.origin] if len(o.expansion) == 2):
            out.add(r)
    return out


class Machine:
    def __init__(self, lark):
        p = lark.parser
        self.table = p.parser._parse_table
        self.states = self.table.states
        self.callbacks = p.parser.parser.callbacks
        self.lexer = p.lexer.lexer if not hasattr(p.lexer, "lexers") else p.lexer
        self.start = self.table.start_states["start"]
        self.end = self.table.end_states["start"]
        self.ignored = set(lark.ignore_tokens)
        self.terminals = {t.name for t in self.lexer.root_lexer.terminals} | {"$END"}
        # states with the same scanner
        ids: dict = {}
        self.scanner = {}
        for s in self.states:
            lx = self.lexer.lexers[s]
            self.scanner[s] = ids.setdefault(id(lx), s)
        self._types: dict = {}
        self.lexing = lexing.Lexing({s: self.lexer.lexers[s] for s in set(self.scanner.values())}, self.ignored)
        self.sampled: dict = {}  # (element, scanner): why the contract is not decided
        self.misread: dict = {}  # (element, scanner): [(text, what follows, what is wrong)]
        self._memo: dict = {}
        self.lists = one_or_more(lark.rules)
        self._red: dict = {}
        self._traces: dict = {}
        self._terms_at = {q: [t for t in row if t in self.terminals] for q, row in self.states.items()}
        self.entered_by = {arg: name for row in self.states.values() for name, (action, arg) in row.items() if action is Shift}
        self.entered_by[self.start] = None
        self.dot = next((t.name for t in self.lexer.root_lexer.terminals if t.pattern.type == "str" and t.pattern.value == "."), None)
        self.symbols = {(q, arg): name for q, row in self.states.items() for name, (action, arg) in row.items() if action is Shift}

    def scan(self, state, text, pos=0):
        lexer = self.lexer.lexers[state]
        res = lexer.match(TextSlice.cast_from(text), pos)
        if res is None:
            return None
        t = Token(res[1], res[0])
        if t.type in lexer.callback:
            t = lexer.callback[t.type](t)
        return str(t), t.type

    def types(self, el, scanner):
        """The terminals of the texts of an element for a scanner: {terminal: text}."""
        k = (lexing.key(el), scanner)
        out = self._types.get(k)
        if out is None:
            self._types[k] = out = self._find_types(el, *k)
        if isinstance(out, Problem):
            raise out
        return out

    def _find_types(self, el, key, scanner):
        try:
            types, problems = self.lexing.result(scanner, key)
            for word, rest, what in problems:
                if "not counted" not in what:
                    r = self.scan(scanner, word + rest)
                    if r is not None and r[0] == word:
                        raise rex.Unsupported(f"the scanner reads {word!r} before {rest!r} in another way than computed")
        except rex.Unsupported as e:
            self.sampled[key, scanner] = str(e)
            return self.sample(el, scanner)
        if problems:
            self.misread[key, scanner] = problems
        if not types:
            word, rest, _ = problems[0]
            return Problem(f"token {word!r} (before {rest!r}) is not recognised by the scanner of state {scanner}")
        return types

    def sample(self, el, scanner):
        out: dict = {}
        for item in lexemes(el):
            lex, after = item if isinstance(item, tuple) else (item, " x")
            if isinstance(el, S.T) and el.cls == "EOFC":
                after = ""
            if isinstance(el, S.NL):
                after = "x"
            r = self.scan(scanner, lex + after)
            if r is None or r[0] != lex or r[1] in self.ignored:
                return Problem(f"token {lex!r} is not recognised (got {r!r}) by the scanner of state {scanner}")
            out.setdefault(r[1], lex)
        return out

    def layout(self):
        """The contracts of spaces and comments between the tokens, for all scanners: [(element, scanner, problem or None)]"""
        out = []
        for s in sorted(set(self.scanner.values())):
            for el in lexing.LAYOUT:
                try:
                    types, problems = self.lexing.result(s, (el,))
                except rex.Unsupported as e:
                    self.sampled[(el,), s] = str(e)
                    continue
                if not set(types) <= self.ignored:
                    t = next(t for t in types if t not in self.ignored)
                    problems = [*problems, (types[t], "", f"the text is not ignored but read as {t}")]
                if problems:
                    self.misread[(el,), s] = problems
                out.append(((el,), s))
        return out

    def call(self, rule, values):
        """The tree building callback of a rule, on copies."""
        k = (id(rule), tuple(key_of(v) for v in values))
        out = self._memo.get(k)
        if out is None:
            out = self._memo[k] = (self.callbacks[rule]([copy_value(v) for v in values]),)
        return out[0]

    def trace(self, states, t, stop):
        """The reductions that make one phrase of the states above the base when t follows (None: they do not)."""
        k = (states, t, stop)
        if k not in self._traces:
            rules: list | None = []
            while True:
                act = self.states[states[-1]].get(t)
                if act is None:
                    rules = None
                    break
                if act[0] is Shift:
                    break
                rule = act[1]
                size = len(rule.expansion)
                if size >= len(states) or (size == 0 and len(states) == 1):
                    break
                if stop and self.helper(rule, states):
                    break
                nxt = self.states[states[-1 - size]].get(rule.origin.name)
                if nxt is None:
                    break
                states = (*states[: len(states) - size], nxt[1])
                rules.append(rule)
            self._traces[k] = tuple(rules) if rules is not None and len(states) == 2 else None
        return self._traces[k]

    def apply(self, values, rules):
        for rule in rules:
            cut = len(values) - len(rule.expansion)
            values = (*values[:cut], self.call(rule, values[cut:]))
        return values[0]

    def terminals_at(self, state):
        return self._terms_at[state]

    def reduce(self, states, values, t, stop_helpers=False):
        """Reductions on lookahead t: (states, values, "shift" | "below" | "error")."""
        if values is None:
            k = (states, t, stop_helpers)
            r = self._red.get(k)
            if r is None:
                r = self._red[k] = self._reduce(states, None, t, stop_helpers)
            return r
        return self._reduce(states, values, t, stop_helpers)

    def helper(self, rule, states):
        """A reduction that wraps a whole phrase into a helper rule of lark's (for a repetition)."""
        return len(rule.expansion) == 1 and len(states) == 2 and (rule.origin.name.startswith("_") or rule in self.lists)

    def _reduce(self, states, values, t, stop):
        while True:
            act = self.states[states[-1]].get(t)
            if act is None:
                return states, values, "error"
            if act[0] is Shift:
                return states, values, "shift"
            rule = act[1]
            size = len(rule.expansion)
            if size >= len(states) or (size == 0 and len(states) == 1):
                return states, values, "below"
            if stop and self.helper(rule, states):
                return states, values, "below"
            base = states[-1 - size] if size else states[-1]
            nxt = self.states[base].get(rule.origin.name)
            if nxt is None:
                return states, values, "below"
            if values is not None:
                cut = len(values) - size
                values = (*values[:cut], self.call(rule, values[cut:]))
            states = (*states[: len(states) - size], nxt[1])


def shape(rhs):
    """Productions of the same shape go through the machine in the same way if the scanners agree about their lexemes."""
    out = []
    for el in rhs:
        if isinstance(el, S.K):
            out.append(("K", el.text))
        elif isinstance(el, S.T):
            out.append(("T", el.cls, el.slot, el.arg if el.cls == "MLS" else None))
        elif isinstance(el, S.N):
            out.append(("N", el.nt, el.slot))
        elif isinstance(el, S.NL):
            out.append(("NL", el.min, el.max))
        else:
            out.append(("R", el.slot, shape(el.body), shape(el.sep), el.min))
    return tuple(out)


def first_elements():
    """FIRST sets of the nonterminals of the specification, as token elements."""
    first = defaultdict(dict)

    def of(rhs):
        """(elements, nullable)"""
        out = {}
        for el in rhs:
            if isinstance(el, (S.K, S.T)):
                out[repr(el)] = el
                return out, False
            if isinstance(el, S.N):
                out.update(first[el.nt])
                return out, False
            if isinstance(el, S.NL):
                out["NL"] = NL_ONE
                if el.min:
                    return out, False
                continue
            o, nullable = of(el.body)
            out.update(o)
            if el.min and not nullable:
                return out, False
        return out, True

    changed = True
    while changed:
        changed = False
        for nt, ps in PRODS_OF.items():
            for p in ps:
                o, _ = of(p.rhs)
                for k, v in o.items():
                    if k not in first[nt]:
                        first[nt][k] = v
                        changed = True
    return {nt: list(v.values()) for nt, v in first.items()}


class Term:
    """A parse tree of a production: its root, the numbers of members of its repetitions."""

    def __init__(self, root, counts):
        self.root, self.counts = root, {counts}


PASS = {"DECOS"}  # a phrase of these is more than the one phrase it may consist of


class Contracts:
    """Phase 1: the outcomes, a least fixpoint over parser states alone.  Phase 2: every production once more in
    every context, with the trees; whatever is missing now is a problem (a failed obligation)."""

    def __init__(self, lark):
        self.m = Machine(lark)
        self.out: dict = {}  # context -> {(scanner, t): symbol}
        self.terms: dict = defaultdict(dict)  # pid of a group -> {canonical: Term}
        self.problems: dict = {}  # (pid, context) -> message
        self.deps: dict = defaultdict(set)
        self.askers: dict = defaultdict(set)  # context -> productions (first of their group) with a phrase there
        self.first = first_elements()
        self._firsts: dict = {}
        self.groups: dict = {}
        for nt, ps in PRODS_OF.items():
            groups: dict = {}
            for p in ps:
                groups.setdefault(shape(p.rhs), []).append(p)
            self.groups[nt] = list(groups.values())
        self.group_of = {p.pid: g[0].pid for gs in self.groups.values() for g in gs for p in g}
        self.phrases = 0
        self.checked = 0
        self.used: dict = defaultdict(set)  # context -> (scanner, terminal) that follow a phrase somewhere
        self.tails: dict = defaultdict(set)
        self.done: set = set()

    def run(self):
        m = self.m
        self.values = False
        top = (m.start, m.scanner[m.start], "FILE", None)
        self.order = [top]
        self.out[top] = {}
        self.todo = {top}
        while self.todo:
            # inner phrases first: the newest contexts
            key = next(k for k in reversed(self.order) if k in self.todo)
            self.todo.discard(key)
            self.now = key
            self.phrases += 1
            new: dict = {}
            for group in self.groups[key[2]]:
                self.production(key, group, new)
            old = self.out[key]
            changed = False
            for k, v in new.items():
                if not v <= old.get(k, frozenset()):
                    old[k] = old.get(k, frozenset()) | v
                    changed = True
            if changed:
                self.todo |= self.deps[key]
        self.close_used()
        self.values = True
        for key in self.order:
            self.now = key
            for group in self.groups[key[2]]:
                self.checked += 1
                try:
                    self.production(key, group, None)
                except Problem as e:
                    self.problems[(group[0].pid, key)] = str(e)
        return self

    def close_used(self):
        """What follows a phrase follows the phrase it ends with."""
        todo = [(o, i) for o, inner in self.tails.items() for i in inner]
        while todo:
            o, i = todo.pop()
            new = self.used[o] - self.used[i]
            if new:
                self.used[i] |= new
                todo += [(i, j) for j in self.tails.get(i, ())]

    def missing(self, what):
        """Phase 1 may not know yet; phase 2 must."""
        if self.values:
            raise Problem(what)

    def production(self, key, group, res):
        q, s0, nt, firsts = key
        p = group[0]
        self.group = group
        ends = self.seq([Config((q,), () if self.values else None, None, s0, firsts)], p.rhs, ())
        for c in ends:
            if p.nt == "FILE":
                if self.values:
                    self.finish_file(c, p)
                elif c.pending:
                    self.used[c.pending[2]] |= {(s, t) for s, t in self.options(c) if t == "$END"}
            elif not self.values:
                if c.pending:
                    self.tails[key].add(c.pending[2])
                    for (s, t), syms in self.options(c).items():
                        for sym in syms:
                            self.outcome(self.push(c, sym), s, t, res, nt)
                else:
                    for t in self.m.terminals_at(c.states[-1]):
                        self.outcome(c, c.scan, t, res, nt)
            else:
                if c.pending:
                    opts = self.options(c)
                    pushed: dict = {}
                    for s, t in self.used[key]:
                        for sym in opts.get((s, t), ()):
                            if sym not in pushed:
                                pushed[sym] = self.push(c, sym)
                            self.complete(pushed[sym], t, p)
                else:
                    for s, t in self.used[key]:
                        if s == c.scan:
                            self.complete(c, t, p)

    def outcome(self, c, s, t, res, nt):
        states, _, how = self.m.reduce(c.states, None, t, nt not in PASS)
        if how != "error" and len(states) == 2:
            res.setdefault((s, t), set()).add(self.symbol(states))

    def complete(self, c, t, p):
        """The tree of the production when t follows."""
        trace = self.m.trace(c.states, t, p.nt not in PASS)
        if trace is None:
            states, _, how = self.m.reduce(c.states, None, t, p.nt not in PASS)
            if how != "error" and not (p.pid == "q.paren" and t in self.m.types(S.K("!"), c.scan if c.scan is not None else self.m.scanner[c.states[-1]])):
                # (p.bang.paren is the production where '!' becomes a part of the parentheses)
                raise Problem(f"{t} becomes a part of the phrase")
            return  # t cannot follow this one
        key = (p.pid, c.key(), trace)
        if key in self.done:
            return
        self.done.add(key)
        self.term(p, self.m.apply(c.values, trace), c.counts)

    def term(self, p, root, counts):
        k = key_of(root)
        terms = self.terms[p.pid]
        old = terms.get(k)
        if old is None:
            terms[k] = Term(root, counts)
        else:
            old.counts.add(counts)

    def symbol(self, states):
        return self.m.symbols[states]

    def finish_file(self, c, p):
        m = self.m

        def end(d):
            states, values = d.states, d.values
            while True:
                act = m.states[states[-1]].get("$END")
                if act is None or act[0] is Shift:
                    raise Problem("the end of the file is not accepted")
                rule = act[1]
                size = len(rule.expansion)
                cut = len(values) - size
                value = m.call(rule, values[cut:])
                states = states[: len(states) - size]
                states = (*states, m.states[states[-1]][rule.origin.name][1])
                values = (*values[:cut], value)
                if states[-1] == m.end:
                    self.term(p, values[-1], d.counts)
                    return

        if c.pending:
            opts = {sym for (s, t), syms in self.options(c).items() if t == "$END" for sym in syms}
            if not opts:
                raise Problem("no outcome at the end of the file")
            for sym in opts:
                end(self.push(c, sym))
        else:
            end(c)

    # ---- sequences
    def seq(self, configs, rhs, index):
        for el in rhs:
            configs = self.element(configs, el, index)
        return configs

    def dedupe(self, configs):
        seen: dict = {}
        for c in configs:
            seen.setdefault(c.key(), c)
        return list(seen.values())

    def element(self, configs, el, index):
        out = []
        if isinstance(el, (S.K, S.T)):
            for c in configs:
                out += self.token(c, el, index)
        elif isinstance(el, S.N):
            for c in configs:
                out += self.nonterminal(c, el, index)
        elif isinstance(el, S.NL):
            return self.breaks(configs, el)
        else:
            return self.repetition(configs, el, index)
        return self.dedupe(out)

    def options(self, c):
        nt, path, ctx = c.pending
        if ctx not in self.out:
            assert not self.values
            self.out[ctx] = {}
            self.order.append(ctx)
            self.todo.add(ctx)
        self.deps[ctx].add(self.now)
        self.askers[ctx].add(self.group[0].pid)
        return self.out[ctx]

    def push(self, c, sym):
        nt, path, ctx = c.pending
        return Config((*c.states, self.m.states[ctx[0]][sym][1]), (*c.values, leaf(nt, path)) if self.values else None, None, None, None, c.counts)

    def usable(self, els, c):
        """Directly after a dot, the name of a resource function and a parenthesis are a resource function access."""
        if not c.pending and self.m.entered_by[c.states[-1]] == self.m.dot:
            return [S.T("FNU", e.slot, "other") if isinstance(e, S.T) and e.cls == "FNU" else e
                    for e in els if not (isinstance(e, S.T) and e.cls == "FN" and re.match(r"([Ll]ist[A-Za-z]*|getSecret)$", e.arg))]
        return els

    def firsts(self, nt, scanner, c):
        """The terminals that begin a phrase of nt, as a scanner sees them."""
        els = self.usable(self.first[nt], c)
        k = (nt, scanner, len(els))
        if k not in self._firsts:
            try:
                self._firsts[k] = {t for e in els for t in self.m.types(e, scanner)}
            except Problem as e:
                self._firsts[k] = e
        r = self._firsts[k]
        if isinstance(r, Problem):
            self.missing(str(r))
            return set()
        return r

    def nonterminal(self, c, el, index):
        """One configuration for each way the first token of the phrase reduces what stands before it."""
        out: dict = {}
        for d, t in self.before(c, lambda s, _: self.firsts(el.nt, s, c)):
            out.setdefault(d.key(), (d, set()))[1].add(t)
        res = []
        for d, ts in out.values():
            ctx = (d.states[-1], d.scan, el.nt, frozenset(ts))
            n = d.but(pending=(el.nt, (el.slot, *index) if self.values else None, ctx), firsts=None)
            self.options(n)
            res.append(n)
        return res

    def before(self, c, terminals):
        """Ways to read one of the terminals next: (configuration ready to shift, terminal)."""
        out = []
        if c.pending:
            opts = self.options(c)
            ready = {}
            used = self.used[c.pending[2]]
            for s in {s for s, _ in opts}:
                for t in terminals(s, c):
                    used.add((s, t))
                    syms = opts.get((s, t))
                    if not syms:
                        self.missing(f"{c.pending[0]} cannot be followed by {t}")
                        continue
                    for sym in syms:
                        if sym not in ready:
                            ready[sym] = self.push(c, sym)
                        r = self.ready(ready[sym].but(scan=s), t)
                        if r:
                            out.append((r, t))
        else:
            for t in terminals(c.scan, c):
                if c.firsts is not None and len(c.states) == 1 and t not in c.firsts:
                    continue
                r = self.ready(c, t)
                if r:
                    out.append((r, t))
        return out

    def ready(self, c, t):
        states, values, how = self.m.reduce(c.states, c.values, t)
        if how != "shift":
            self.missing(f"unexpected {t}" if how == "error" else f"{t} ends the phrase too early")
            return None
        return c if states is c.states else c.but(states=states, values=values)

    def types(self, els, s):
        ts: dict = {}
        for e in els:
            try:
                ts.update(self.m.types(e, s))
            except Problem as x:
                self.missing(str(x))
        return ts

    def token(self, c, el, index):
        els = [el]
        if isinstance(el, S.T) and el.cls in ("FN", "DN", "QM") and len(self.group) > 1:
            # every production of the group has its own lexeme here
            els = [e for p in self.group for e in flat(p.rhs) if isinstance(e, S.T) and e.cls == el.cls and e.slot == el.slot]
        path = (getattr(el, "slot", None) or f"'{el.text}'", *index)
        out: dict = {}
        for d, t in self.before(c, lambda s, _: self.types(self.usable(els, c), s)):
            k = (d.key(), t)
            if k not in out:
                out[k] = self.shift(d, t, symbol_token(t, self.types(self.usable(els, c), d.scan)[t], el, path) if self.values else None)
        return list(out.values())

    def shift(self, d, t, value):
        q = self.m.states[d.states[-1]][t][1]
        return Config((*d.states, q), (*d.values, value) if self.values else None, None, self.m.scanner[q], None, d.counts)

    def breaks(self, configs, el):
        """Line breaks: a fixpoint (their tokens leave no trace in the trees)."""
        exits = list(configs) if el.min == 0 else []
        seen = {c.key() for c in exits}
        cur = configs
        n = 0
        while cur and (el.max is None or n < el.max):
            n += 1
            nxt = []
            for c in cur:
                for d, t in self.before(c, lambda s, _: self.types([NL_ONE], s)):
                    nxt.append(self.shift(d, t, symbol_token(t, "\n", NL_ONE, ("nl",)) if self.values else None))
            cur = [c for c in self.dedupe(nxt) if c.key() not in seen]
            seen |= {c.key() for c in cur}
            exits += cur
            if n > 8:
                raise Problem("line breaks do not settle")
        return self.dedupe(exits)

    def repetition(self, configs, el, index):
        exits = list(configs) if el.min == 0 else []
        if self.values:
            exits = [c.but(counts=(*c.counts, ((el.slot, *index), 0))) for c in exits]
        cur = configs
        seen: set = set()
        k = 0
        while cur:
            k += 1
            idx = (*index, f"{el.slot}{k}")
            if k > 1:
                cur = self.seq(cur, el.sep, idx)
            cur = self.seq(cur, el.body, idx)
            exits += [c.but(counts=(*c.counts, ((el.slot, *index), k))) if self.values else c for c in cur]
            keys = {c.state_key() for c in cur}
            if keys <= seen and k >= 3:
                break
            seen |= keys
            if k > 12:
                raise Problem(f"the repetition {el.slot} does not settle")
        return exits if self.values else self.dedupe(exits)


    # ---- families
    def families(self):
        """{pid of a group: ([(tree with families, {repetition: set of counts})], problem or None)}"""
        out = {}
        for pid, terms in self.terms.items():
            shapes: dict = {}
            problem = None
            for t in terms.values():
                for counts in t.counts:
                    try:
                        root = collapse(t.root, counts)
                    except NotUniform as e:
                        problem = str(e)
                        continue
                    k = key_of(root)
                    if k not in shapes:
                        shapes[k] = (root, {})
                    for path, n in counts:
                        name = tuple(re.sub(r"\d+$", "", x) for x in path)
                        shapes[k][1].setdefault(name, set()).add(n)
            out[pid] = (list(shapes.values()), problem)
        return out


_LEAVES: dict = {}


def leaf(nt, path):
    k = (nt, path)
    if k not in _LEAVES:
        _LEAVES[k] = Leaf(nt, path)
    return _LEAVES[k]


_SYMS: dict = {}


def symbol_token(t, lex, el, path):
    k = (t, lex if isinstance(el, S.K) else None, repr(el), path)
    if k not in _SYMS:
        _SYMS[k] = Sym(t, lex, el, path)
    return _SYMS[k]


def flat(rhs):
    for el in rhs:
        if isinstance(el, S.R):
            yield from flat(el.body)
            yield from flat(el.sep)
        else:
            yield el
