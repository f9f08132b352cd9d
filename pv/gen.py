"""Derivations of the specification grammar: generation, layout as text, meaning."""
from __future__ import annotations

import random

from pv import sgrammar as S
from pv.concrete import Concrete
from pv.symval import RESERVED

B = Concrete()

IDS = ["x", "y", "foo", "_p", "a1", "foo_bar", "nullable", "trueish", "forEach", "iff", "inner", "itemsX", "typ", "Param",
       "Null", "exist", "resources", "sysx", "azure", "e", "E1", "__", "list", "getSecret", "A", "string", "object"]
KEYWORD_IDS = ["type", "param", "var", "output", "module", "func", "import", "metadata", "extension", "existing", "targetScope",
               "with", "as", "from"]
QSS = ["", "a", "b c", "it\\'s", "${x}", "${a['b']}", "a${x}b${y}c", "// no", "/* no */", "# no", "\\\\", "\\${x}", "${'${x}'}", "null",
       "0", " ", "$", "{", "}", "${concat('a', 'b')}", "foo", "x.y", "a: b", "http://x/y#z", "é✓", "@", "${{a: 1}}", "a\\nb", "depends_on",
       "\\'", "[a]", "true", "${x}}", "condition", "config", "sys.x", "*", "|", "a | b", "\t", "'${x}"[1:], "$${x}", "__child_resource__", "a${x\n}", "${{\n  a: 1\n}}"]
MLSS = ["a\n    ", "\ta\n\t", "    a", " a ", "a\n    b\n  ", "", "a", "line", "it's", "${x}", "// no", "/* no */", "# no\nyes", "a\nb", "a\n\n", "  a\n  b\n", "\\", "null", "'a'b", "a\r\nb", "{\n}", "é"]
INTS = ["0", "1", "2", "5", "10", "010", "007", "42", "100", "65535", "9223372036854775807"]
LFS = ["listKeys", "list", "ListKeys", "listAccountSas", "getSecret", "listSecrets"]
FNUS = ["myFunc", "f", "map", "sort", "reduce", "items", "foo_bar", "cidrSubnet", "deployer", "toObject", "anyx", "concat2", "Concat", "x1", "_f",
        "listCallbackUrl", "resourceIds"]
DNUS = ["foo", "discriminator", "userDefinedConstraint", "secured", "Allowed", "allowed2", "sys.foo", "sys.discriminator", "x"]
QTS = ["d/e/f/g", "v1", "subnets", "a/b", "securityRules", "x", "virtualNetworkPeerings"]
QTAS = [("Microsoft.Network/virtualNetworks", "2020-06-01"), ("A/b", "2021-01-01-preview"), ("Microsoft.KeyVault/vaults/secrets", "2022-07-01"),
        ("x/y/z", "1"), ("A/b/c/d/e", "2020-01-01"), ("Microsoft.Storage/storageAccounts", "2019-06-01")]
PARTS = {
    "local": {"path": ["./a.bicep", "../m/x y.bicep", "mod.bicep", "", "br.bicep", "ts.bicep", "dir/br:x", "brx/a", "a:b", "./br:mcr.microsoft.com/x:1",
                       "BR:mcr.microsoft.com/x:1", "Br/a:b:c", "TS:1/a/b:c", "tS/a:b:c", " br:mcr.microsoft.com/a:1", "br", "ts", "br.x:/", "xts:1/a/b:c", "a@b",
                       "${x}.bicep", "./m.BICEP", "a/br/x:y:z"]},
    "br": {"registry": ["contoso", "my_reg1", "mcr", "public"], "path": ["a", "bicep/modules/x", "a-b/c.d", "x/y/z"], "tag": ["v1", "1.0.0", "a-b_c.d", "latest", "2"]},
    "br.public": {"path": ["bicep/samples/hello-world", "a", "bicep/x/y", "a-b_c/d"], "tag": ["1.0.2", "v1", "a-b_c"]},
    "br.alias": {"alias": ["CoreModules", "publicx", "xpublic", "Public", "a1"], "path": ["storage", "a/b", "a.b/c-d"], "tag": ["2021-12-01", "v1", "1.0.0"]},
    "br.alias.public": {"path": ["samples/hello-world", "a", "a.b/c"], "tag": ["1.0.2", "v1"]},
    "ts": {"sub": ["11111111-1111-1111-1111-111111111111", "0-1"], "rg": ["templateSpecsRG", "a.b_c-(d)", "x"], "name": ["storageSpec", "a.b-c_d"], "version": ["2.0", "v1-a", "v1", "10", "latest"]},
    "ts.alias": {"alias": ["ContosoSpecs", "a_1"], "path": ["storageSpec", "a/b-c"], "tag": ["2.0", "v1"]},
}
SCOPES = ["resourceGroup", "subscription", "managementGroup", "tenant"]
COMMENTS = ["", "// c", "// it is", "//", "// var x = 1", "// {", "// ]", "// 'a", "/* b */", "// @secure()", "//// /* x"]


class Tok:
    __slots__ = ("text", "cls", "val", "line", "end_line")

    def __init__(self, text, cls, val=None):
        self.text, self.cls, self.val = text, cls, val


class Brk:
    __slots__ = ("min", "max", "n")

    def __init__(self, mn, mx, n):
        self.min, self.max, self.n = mn, mx, n


class Node:
    __slots__ = ("prod", "parts", "_lines")

    def __init__(self, prod, parts):
        self.prod, self.parts = prod, parts

    # parts: one per rhs element: Tok | Node | Brk | Rep
    def pieces(self, out):
        _pieces(self.parts, out)

    def sem(self, lines=False):
        return self.prod.sem(B, self.env(lines))

    def env(self, lines):
        e = _env(self.prod.rhs, self.parts, lines)
        e["@"] = None
        if lines:
            ps = []
            self.pieces(ps)
            toks = [p for p in ps if isinstance(p, Tok)]
            e["@"] = (toks[0].line, toks[-1].end_line)
        return e

    def children(self):
        return _children(self.parts)

    def walk(self):
        """All phrases, inner ones first."""
        for c in self.children():
            yield from c.walk()
        yield self

    def size(self):
        return 1 + sum(c.size() for c in self.children())


class Rep:
    __slots__ = ("el", "its", "seps")

    def __init__(self, el, its, seps):
        self.el, self.its, self.seps = el, its, seps


def _pieces(parts, out):
    for p in parts:
        if isinstance(p, Node):
            p.pieces(out)
        elif isinstance(p, Rep):
            for i, it in enumerate(p.its):
                if i:
                    _pieces(p.seps[i - 1], out)
                _pieces(it, out)
        else:
            out.append(p)


def _children(parts):
    out = []
    for p in parts:
        if isinstance(p, Node):
            out.append(p)
        elif isinstance(p, Rep):
            for i, it in enumerate(p.its):
                if i:
                    out += _children(p.seps[i - 1])
                out += _children(it)
    return out


def _env(rhs, parts, lines):
    e = {}
    for el, p in zip(rhs, parts):
        if isinstance(el, S.T):
            e[el.slot] = p.val
        elif isinstance(el, S.N):
            e[el.slot] = p.sem(lines)
        elif isinstance(el, S.R):
            e[el.slot] = [_env(el.body, it, lines) for it in p.its]
    return e


# --------------------------------------------------------------------------- generation

def _height():
    h = {}
    changed = True

    def rhs_h(rhs):
        m = 0
        for el in rhs:
            if isinstance(el, S.N):
                if el.nt not in h:
                    return None
                m = max(m, h[el.nt])
            elif isinstance(el, S.R) and el.min:
                x = rhs_h(el.body)
                if x is None:
                    return None
                m = max(m, x)
        return m

    ph = {}
    while changed:
        changed = False
        for p in S.PRODS:
            x = rhs_h(p.rhs)
            if x is not None and ph.get(p.pid, 99) > x + 1:
                ph[p.pid] = x + 1
                if h.get(p.nt, 99) > x + 1:
                    h[p.nt] = x + 1
                changed = True
    return h, ph


NT_H, PROD_H = _height()
_TERMINAL_Q = [p for p in S.BY_NT["Q"] if PROD_H[p.pid] == 1] + [S.BY_PID["q.array"], S.BY_PID["q.object"]]


class Gen:
    def __init__(self, rng: random.Random, keywords=0.03):
        self.rng = rng
        self.keywords = keywords
        self.used: list = []

    def ident(self):
        x = self.rng.random()
        if x < self.keywords:
            return self.rng.choice(KEYWORD_IDS)
        if x > 0.9 and self.used:
            # a name again, or one that differs only in case
            w = self.rng.choice(self.used[-6:])
            v = self.rng.choice(self.used[-6:])
            w = self.rng.choice([w, w, w.lower(), w.upper(), w.swapcase(), f"{w}__{v}", f"{w}_", f"_{w}", f"{w}{v}", f"{w}__"])[:60]
            if w not in RESERVED:
                return w
        w = self.rng.choice(IDS)
        self.used.append(w)
        return w

    def token(self, el) -> Tok:
        r = self.rng
        c = el.cls
        if c == "ID":
            s = self.ident()
            return Tok(s, c, s)
        if c == "INT":
            s = r.choice(INTS)
            return Tok(s, c, int(s))
        if c == "QS":
            s = r.choice(QSS)
            return Tok(f"'{s}'", c, s)
        if c == "MLS":
            s = r.choice(MLSS)
            return Tok(f"'''{el.arg or ''}{s}'''", c, s)
        if c == "LF":
            s = r.choice(LFS)
            return Tok(s, c, s)
        if c == "FN":
            return Tok(el.arg + "(", c, el.arg)
        if c in ("FNU", "FNUQ"):
            s = r.choice(FNUS)
            if c == "FNUQ":
                s = r.choice(["sys.", "az."]) + s
            return Tok(s + "(", c, s)
        if c == "DN":
            return Tok(el.arg, c, el.arg)
        if c == "DNU":
            s = r.choice(DNUS)
            return Tok(s, c, s)
        if c == "QT":
            s = r.choice(QTS)
            return Tok(f"'{s}'", c, s)
        if c == "QTA":
            t, a = r.choice(QTAS)
            return Tok(f"'{t}@{a}'", c, (t, a))
        if c == "QM":
            parts = {k: r.choice(v) for k, v in PARTS[el.arg].items()}
            text = "".join(parts[x[1:-1]] if x[0] == "{" else x for x in S.MODULE_PATHS[el.arg][0])
            return Tok(f"'{text}'", c, parts)
        if c == "QSCOPE":
            s = r.choice(SCOPES)
            return Tok(f"'{s}'", c, s)
        if c == "STAR":
            return Tok("*", c, "*")
        raise AssertionError(c)

    def reps(self, el, depth):
        r = self.rng
        if depth <= 0:
            return el.min
        return el.min + r.choice([0, 0, 1, 1, 2, 3])

    def seq(self, rhs, depth):
        parts = []
        for el in rhs:
            if isinstance(el, S.K):
                parts.append(Tok(el.text, "K"))
            elif isinstance(el, S.T):
                parts.append(self.token(el))
            elif isinstance(el, S.N):
                parts.append(self.node(el.nt, depth - 1))
            elif isinstance(el, S.NL):
                n = el.min + (self.rng.random() < 0.25 if el.min == 0 else 0)
                parts.append(Brk(el.min, el.max, n))
            else:
                n = self.reps(el, depth)
                its = [self.seq(el.body, depth) for _ in range(n)]
                seps = [self.seq(el.sep, depth) for _ in range(n - 1)]
                parts.append(Rep(el, its, seps))
        return parts

    def pick(self, nt, depth):
        prods = S.BY_NT[nt]
        if nt == "CALL" and depth > 1 and self.rng.random() < 0.3:
            prods = [p for p in prods if p.pid.startswith("call.unknown")]
        if depth < NT_H[nt] or depth <= 0:
            if nt == "E":
                return S.BY_PID["e.prim"]
            if nt == "P":
                return S.BY_PID["p.q"]
            if nt == "Q":
                return self.rng.choice(_TERMINAL_Q)
            if nt == "PAIR" and self.rng.random() < 0.8:
                return S.BY_PID[self.rng.choice(["pair.id", "pair.id", "pair.quoted"])]
            m = min(PROD_H[p.pid] for p in prods)
            return self.rng.choice([p for p in prods if PROD_H[p.pid] == m])
        if nt == "E" and self.rng.random() < 0.5:
            return S.BY_PID["e.prim"]
        if nt == "P":
            return S.BY_PID["p.bang" if self.rng.random() < 0.1 else "p.q"]
        if nt == "Q" and self.rng.random() < 0.3:
            return self.rng.choice(_TERMINAL_Q)
        return self.rng.choice([p for p in prods if PROD_H[p.pid] <= depth + 1] or prods)

    def node(self, nt, depth) -> Node:
        return self.make(self.pick(nt, depth), depth)

    def make(self, p, depth) -> Node:
        node = Node(p, self.seq(p.rhs, depth))
        if p.nt == "OBJ" and self.rng.random() < 0.15:
            # the same key more than once
            keys = [x for rep in node.parts if isinstance(rep, Rep) for it in rep.its for x in it if isinstance(x, Node) and isinstance(x.parts[0], Tok)]
            keys = [x for x in keys if x.prod.pid.startswith(("pair.id", "pair.quoted"))]
            for _ in range(self.rng.choice([1, 1, 2])):
                if len(keys) > 1:
                    a, b = self.rng.sample(keys, 2)
                    if a.parts[0].cls == b.parts[0].cls:
                        a.parts[0] = Tok(b.parts[0].text, b.parts[0].cls, b.parts[0].val)
        return node

    def embed(self, node: Node, target="DECL", extra=0, depth=1) -> Node:
        """Wraps a phrase into bigger phrases until it is a declaration."""
        while node.prod.nt != target:
            opts = PARENTS[node.prod.nt]
            if extra > 0 and self.rng.random() < 0.7:
                extra -= 1
                cand = [o for o in opts if DIST.get(o[0].nt, 99) < 99]
            else:
                m = min(DIST.get(o[0].nt, 99) for o in opts)
                cand = [o for o in opts if DIST.get(o[0].nt, 99) == m]
            # equal chances for each parent nonterminal
            nts = sorted({o[0].nt for o in cand})
            nt = self.rng.choice(nts)
            p, path = self.rng.choice([o for o in cand if o[0].nt == nt])
            node = self.make_with(p, path, node, depth)
        return node

    def make_with(self, p, path, inner, depth):
        """A phrase of production p whose part at `path` is `inner`."""
        parts = self.seq(p.rhs, depth)
        i = path[0]
        if len(path) == 1:
            parts[i] = inner
        else:
            rep = parts[i]
            if not rep.its:
                rep.its = [self.seq(rep.el.body, depth)]
            k = self.rng.randrange(len(rep.its))
            _replace(self, rep.its[k], rep.el.body, path[1:], inner, depth)
        return Node(p, parts)


def _replace(g, parts, body, path, inner, depth):
    i = path[0]
    if len(path) == 1:
        parts[i] = inner
        return
    rep = parts[i]
    if not rep.its:
        rep.its = [g.seq(rep.el.body, depth)]
    k = g.rng.randrange(len(rep.its))
    _replace(g, rep.its[k], rep.el.body, path[1:], inner, depth)


def _positions(rhs, pre=()):
    for i, el in enumerate(rhs):
        if isinstance(el, S.N):
            yield el.nt, pre + (i,)
        elif isinstance(el, S.R):
            yield from _positions(el.body, pre + (i,))


PARENTS: dict = {}
for _p in S.PRODS:
    for _nt, _path in _positions(_p.rhs):
        PARENTS.setdefault(_nt, []).append((_p, _path))
DIST = {"DECL": 0}
_todo = ["DECL"]
_changed = True
while _changed:
    _changed = False
    for _nt, _opts in PARENTS.items():
        _m = min(DIST.get(o[0].nt, 98) for o in _opts) + 1
        if _m < DIST.get(_nt, 99):
            DIST[_nt] = _m
            _changed = True

# --------------------------------------------------------------------------- layout

_PUNCT = set("()[]{},:")


def can_join(a: Tok, b: Tok) -> bool:
    """May the two tokens be written without a space between them?"""
    if a.text.endswith("(") and len(a.text) > 1:  # function name
        return True
    x, y = a.text[-1:], b.text[:1]
    if a.cls == "K" and b.cls == "K" and a.text in _PUNCT and b.text in _PUNCT:
        return not (a.text == ":" and b.text == ":")
    word = lambda t, c: c.isalnum() or c == "_"  # noqa: E731
    if b.text == "(":
        return a.cls in ("DN", "DNU", "K") and not word(a, x)
    if a.cls == "K" and a.text in _PUNCT:
        return True
    if b.cls == "K" and b.text in _PUNCT:
        return True
    if a.text == "@":
        return True
    if a.text == "." and (word(b, y) or b.text == "?") or a.text == "!" and b.text == ".":
        return True
    if b.text == "." and word(a, x) and a.cls == "ID":
        return True
    if (a.text in S.OPS or a.text in ("::", "=", "=>", "?", "!")) and (word(b, y) or y == "'"):
        return True
    if (b.text in S.OPS or b.text in ("::", "=", "=>", "?", "!")) and a.cls in ("ID", "INT", "QS", "MLS", "QT", "QTA", "QM", "QSCOPE"):
        return True
    return False


class Layout:
    """Decides spacing, line breaks and comments."""

    def __init__(self, rng=None, tight=0.0, wide=0.0, block=0.0, comments=0.0, crlf=0.0, blank=0.0, extra_breaks=0.0, hashes=0.0):
        self.rng = rng
        self.tight, self.wide, self.block, self.comments = tight, wide, block, comments
        self.crlf, self.blank, self.extra_breaks, self.hashes = crlf, blank, extra_breaks, hashes

    def chance(self, p):
        return self.rng is not None and p > 0 and self.rng.random() < p

    def space(self, a, b):
        if a.cls == "LF":
            return ""
        if self.chance(self.block):
            return self.rng.choice([" /* c */ ", " /**/ ", " /* var x = 'a' */", " /* // */ ", " /* a\n b */ ", " /*\n\n*/ "]) if not can_join(a, b) else " /* [ */ "
        if self.chance(self.tight) and can_join(a, b):
            return ""
        if self.chance(self.wide):
            return self.rng.choice(["  ", "\t", " \t "])
        return " "

    def brk(self, b: Brk):
        n = b.n
        if n == 0 and self.chance(self.extra_breaks):
            n = 1
        if n and b.max is None and self.chance(self.extra_breaks):
            n += self.rng.choice([1, 2])
        out = ""
        for i in range(n):
            one = ""
            if self.chance(self.comments):
                one = " " + self.rng.choice(COMMENTS)
            elif self.chance(self.hashes):
                one = " #disable-next-line x"
            nl = "\r\n" if self.chance(self.crlf) else "\n"
            one += nl
            if self.chance(self.blank):
                one += nl
            # breaks must not melt into one token
            out += one if i == 0 else " " + one
        return out


DEFAULT_LAYOUT = Layout()


def layout(pieces, lay: Layout = DEFAULT_LAYOUT, line=1):
    """Text of the pieces; notes the lines of each token."""
    out = []
    prev = None
    for p in pieces:
        if isinstance(p, Brk):
            t = lay.brk(p)
            if t:
                out.append(t)
                line += t.count("\n")
                prev = None
                if lay.chance(0.3):
                    out.append("  ")
            continue
        if prev is not None:
            s = lay.space(prev, p)
            out.append(s)
            line += s.count("\n")
        out.append(p.text)
        p.line = line
        line += p.text.count("\n")
        p.end_line = line
        prev = p
    return "".join(out)


class File:
    """A list of declarations with line breaks between them."""

    def __init__(self, decls, lead=None, trail=None):
        self.decls = decls
        self.lead = lead or Brk(0, None, 0)
        self.trail = trail or Brk(0, None, 0)

    def pieces(self):
        out = [self.lead]
        for i, d in enumerate(self.decls):
            if i:
                out.append(Brk(1, None, 1))
            d.pieces(out)
        out.append(self.trail)
        return out

    def text(self, lay=DEFAULT_LAYOUT):
        return layout(self.pieces(), lay)

    def entries(self, lines=False):
        return [x for d in self.decls for x in d.sem(lines)]

    def expected(self, lines=False):
        """Valid after text() (line numbers)."""
        return S.file_result(B, self.entries(lines), lines)

    def walk(self):
        for d in self.decls:
            yield from d.walk()


def distinct(decls):
    """Drops declarations whose symbols were declared before (and imports of the same symbol)."""
    seen = set()
    out = []
    for d in decls:
        names = [(s, str(n)) for s, n, _ in d.sem()]
        if len(set(names)) != len(names) or seen & set(names):
            continue
        seen |= set(names)
        out.append(d)
    return out


def sane(text: str) -> bool:
    """Texts the validator has to accept."""
    return text.count("'''") % 2 == 0
