"""Words and numbers that the source treats specially, for the search of inputs (no part of a proof).

The constants of the runtime modules are candidates for names, keys, texts and sizes: a special case in the code usually
names what it is special about.  Constants that are not in pv/constants.json (those of the tree the machinery was written
for) come first."""
from __future__ import annotations

import ast
import copy
import json
import re
from pathlib import Path

from pv import sgrammar as S
from pv.gen import Gen, Node, Rep, Tok
from pv.symval import RESERVED

BASELINE = Path(__file__).with_name("constants.json")


def constants(repo, size=60):
    """(texts, numbers) in the code of the package."""
    texts, numbers = set(), set()
    for f in sorted(Path(repo, "pycep").rglob("*.py")):
        if f.name == "typing.py" or "test" in f.name:
            continue
        try:
            tree = ast.parse(f.read_text())
        except (SyntaxError, ValueError):
            continue
        docs = set()
        for n in ast.walk(tree):
            body = getattr(n, "body", None)
            if isinstance(body, list) and body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                docs.add(body[0].value)
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and n.value not in docs or isinstance(n, ast.BinOp):
                v = n.value if isinstance(n, ast.Constant) else folded(n)
                if isinstance(v, str) and 0 < len(v) <= size:
                    texts.add(v)
                elif isinstance(v, bytes) and 0 < len(v) <= 60:
                    texts.add(v.decode("latin1"))
                elif isinstance(v, (int, float)) and not isinstance(v, bool) and 0 <= v < 10**20:
                    numbers.add(int(v))
    return sorted(texts), sorted(numbers)


def fragments(texts):
    """The words in texts (such as patterns)."""
    return {w for t in texts for w in re.findall(r"[A-Za-z0-9_.-]{2,}", t)}


def folded(n):
    """The value of an expression of constants, or None."""
    if any(not isinstance(x, (ast.BinOp, ast.Constant, ast.Add, ast.Mult, ast.Sub)) for x in ast.walk(n)):
        return None
    try:
        return eval(compile(ast.Expression(n), "constant", "eval"), {"__builtins__": {}})  # noqa: S307
    except Exception:  # noqa: BLE001
        return None


def groups(repo):
    """Names that stand together in a statement: keys of one object, perhaps."""
    out = set()
    for f in sorted(Path(repo, "pycep").rglob("*.py")):
        if f.name == "typing.py":
            continue
        try:
            tree = ast.parse(f.read_text())
        except (SyntaxError, ValueError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, (ast.Dict, ast.Set, ast.List, ast.Tuple, ast.Compare, ast.BoolOp, ast.If, ast.IfExp, ast.While)):
                body = n.test if isinstance(n, (ast.If, ast.While)) else n
                names = {c.value for c in ast.walk(body) if isinstance(c, ast.Constant) and isinstance(c.value, str) and re.fullmatch(r"[A-Za-z_]\w*", c.value)}
                if 1 <= len(names) <= 5:
                    out.add(tuple(sorted(names)))
    return sorted(out)


class Pool:
    def __init__(self, repo):
        texts, numbers = constants(repo)
        old = json.loads(BASELINE.read_text()) if BASELINE.exists() else {"texts": [], "numbers": []}
        self.new_texts = [t for t in texts if t not in set(old["texts"])]
        self.new_texts += sorted(fragments(constants(repo, 1000)[0]) - set(old.get("words", ())) - set(texts))
        self.new_numbers = [n for n in numbers if n not in set(old["numbers"])]
        self.texts, self.numbers = texts, numbers
        known = {tuple(g) for g in old.get("groups", ())}
        self.groups = groups(repo)
        self.new_groups = [g for g in self.groups if g not in known]

    @property
    def news(self):
        return bool(self.new_texts or self.new_numbers or self.new_groups)


def variants(word):
    out = [word, word.lower(), word.upper(), word.capitalize(), word.swapcase(), word + "x", "x" + word, word + "_1", word * 2, word.strip(), f"${{{word}}}",
           f" {word}", f"{word} ", f"a {word} b", f"{word}/x", f"x/{word}", f"x.{word}", f"{word}.x", f"\n{word}", f"a\n{word}\nb", f"{word}\n"]
    return out


def near(rng, name):
    """Another name that is nearly the same."""
    return rng.choice([name.lower(), name.upper(), name.swapcase(), name.capitalize(), name[:1].lower() + name[1:], name + "_", "_" + name, name + "1", name * 2,
                       name.strip("_") or name, name[:-1] if name[:-1].isidentifier() else name])


class Mined(Gen):
    """Uses the constants of the code as texts, names and sizes."""

    def __init__(self, rng, pool, chance=0.5):
        super().__init__(rng, keywords=0.02)
        self.chance = chance
        self.words = [v for w in pool.new_texts for v in variants(w)] or [v for w in pool.texts for v in variants(w)]
        self.plain = (pool.new_texts or pool.texts)
        self.old = pool.texts
        self.groups = (pool.new_groups if pool.new_groups and rng.random() < 0.7 else pool.groups) or [("x",)]
        self.numbers = pool.new_numbers or pool.numbers
        if pool.new_texts:
            self.numbers = sorted({*self.numbers, *(len(w) for w in pool.new_texts)})
        self.sizes = sorted({m for n in self.numbers for m in (n - 1, n, n + 1, n + 2) if 0 <= m <= 24}) or [4, 8]

    def word(self):
        r = self.rng.random()
        if self.rng.random() < 0.1:
            return self.rng.choice([self.word(), "a", "a\nb"]) + self.rng.choice(self.plain)
        return self.rng.choice(self.plain if r < 0.4 else self.words if r < 0.8 else self.old)

    def token(self, el):
        if self.rng.random() < self.chance:
            for _ in range(6):
                t = self.mined(el)
                if t is not None:
                    return t
        return super().token(el)

    def mined(self, el):
        from pv.guided import safe
        from pv.symval import CHARSETS

        c, r = el.cls, self.rng
        w = self.word()
        if c == "INT":
            n = max(0, r.choice(self.numbers or [0]) + r.choice([-1, 0, 0, 1]))
            return Tok(str(n), c, n)
        if c in ("ID", "DNU", "FNU"):
            if not safe(c, w) or c == "FNU" and w in S.BUILTIN_NAMES or c == "DNU" and w in S.DECO_NAMES or w in ("sys", "az"):
                return None
            return Tok(w + "(" * (c == "FNU"), c, w)
        if c == "QS":
            return Tok(f"'{w}'", c, w) if safe("QS", w) else None
        if c == "MLS":
            if el.arg is None and w[:1] in ("\n", "\r") or "'" in w or "\r" in w or w == "":
                return None
            return Tok(f"'''{el.arg or ''}{w}'''", c, w)
        if c == "QT":
            return Tok(f"'{w}'", c, w) if safe("QT", w) else None
        if c == "QTA":
            tok = super().token(el)
            t, a = tok.val
            t, a = (w if safe("QTA.type", w) and r.random() < 0.6 else t), (w if safe("QTA.api", w) and r.random() < 0.5 else a)
            return Tok(f"'{t}@{a}'", c, (t, a))
        if c == "QM":
            from pv.sym import QM_KIND

            tok = super().token(el)
            parts = dict(tok.val)
            for k, kind in QM_KIND[el.arg].items():
                w = self.word()
                if r.random() < 0.6 and w and safe("QS" if kind == "MP.local" else CHARSETS.get(kind, kind), w) and not (kind == "MP.aliasx" and w == "public") \
                        and not (kind == "MP.local" and re.match(r"(br|ts)[:/]", w)):
                    parts[k] = w
            text = "".join(parts[x[1:-1]] if x[0] == "{" else x for x in S.MODULE_PATHS[el.arg][0])
            return Tok(f"'{text}'", c, parts)
        return None

    def reps(self, el, depth):
        if depth > 0 and self.rng.random() < 0.15:
            return max(el.min, self.rng.choice(self.sizes))
        return super().reps(el, depth)

    def make(self, p, depth):
        node = super().make(p, depth)
        if p.nt == "OBJ" and self.rng.random() < self.chance / 2:
            rep = next((x for x in node.parts if isinstance(x, Rep)), None)
            if rep is not None:
                keys = list(self.rng.choice(self.groups))
                self.rng.shuffle(keys)
                keys = keys[:self.rng.choice([1, len(keys), len(keys)])]
                while len(rep.its) < len(keys):
                    if rep.its:
                        rep.seps.append(super().seq(rep.el.sep, 0))
                    rep.its.append(super().seq(rep.el.body, max(0, depth - 1)))
                if self.rng.random() < 0.6:
                    rep.its, rep.seps = rep.its[:len(keys)], rep.seps[:len(keys) - 1]
                for it, key in zip(rep.its, keys):
                    if self.rng.random() < 0.8:
                        it[:] = [super(Mined, self).make(S.BY_PID["pair.id"], max(0, depth - 1)) if getattr(x, "prod", None) and x.prod.nt == "PAIR" else x for x in it]
                    for x in it:
                        if getattr(getattr(x, "prod", None), "pid", "").startswith(("pair.id", "pair.nullable")) and key not in RESERVED:
                            x.parts[0] = Tok(key, "ID", key)
        return self.twins(node) if depth > 0 and self.rng.random() < 0.1 else node

    def twins(self, node):
        """One phrase repeated at another place of the phrase (for code that compares its parts)."""
        places: dict = {}

        def walk(parts):
            for i, x in enumerate(parts):
                if isinstance(x, Node):
                    places.setdefault(x.prod.nt, []).append((parts, i))
                    walk(x.parts)
                elif isinstance(x, Rep):
                    for it in x.its:
                        walk(it)

        walk(node.parts)
        if node.prod.nt == "OBJ":
            # two keys that are nearly the same
            keys = [p[i].parts for p, i in places.get("PAIR", ()) if p[i].prod.pid.startswith("pair.id")]
            if len(keys) > 1 and self.rng.random() < 0.5:
                a, b = self.rng.sample(keys, 2)
                key = near(self.rng, b[0].text)
                if key not in RESERVED:
                    a[0] = Tok(key, "ID", key)
                    if self.rng.random() < 0.5 and len(a) == len(b):
                        a[1:] = copy.deepcopy(b[1:])
                return node
        several = [v for nt, v in places.items() if len(v) > 1 and nt not in ("DECL", "PAIR")]
        if several:
            (to, i), (src, j) = self.rng.sample(self.rng.choice(several), 2)
            if src[j] is not to[i]:
                to[i] = copy.deepcopy(src[j])
        return node

    def relatives(self, decls):
        """Declarations, one again under a name that is nearly the same."""
        r = self.rng
        if not decls or r.random() < 0.6:
            return decls
        d = copy.deepcopy(r.choice(decls))
        t = next((p for p in d.parts if isinstance(p, Tok) and p.cls == "ID"), None)
        name = near(r, t.text) if t is not None else None
        if name is None or name in (*RESERVED, "sys", "az"):
            return decls
        t.text = t.val = name
        return [*decls, d]

    def seq(self, rhs, depth):
        parts = super().seq(rhs, depth)
        for p in parts:
            if isinstance(p, Rep) and len(p.its) > 6:
                # long repetitions of short members
                p.its = [it if i < 4 else self.seq_short(p.el.body) for i, it in enumerate(p.its)]
        return parts

    def seq_short(self, body):
        return super().seq(body, 0)
