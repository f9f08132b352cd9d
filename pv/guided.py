"""Concrete inputs for a failed (or undecided) obligation: files that contain a phrase of the production, built after what
is known about the failing case (see layer_a.guide), run through the real parser.  What is reported are only files for
which the real parser's result differs from the specification; the search itself is no part of a proof."""
from __future__ import annotations

import random
import re
import time

from pv import lexing
from pv import sgrammar as S
from pv.bounded import ISO, _path, isolated, paired
from pv.gen import DEFAULT_LAYOUT, Brk, File, Gen, Layout, Node, Rep, Tok, distinct
from pv.mine import Mined
from pv.sym import bases, passes
from pv.symval import RESERVED

SAFE = {
    "ID": r"[A-Za-z_][A-Za-z0-9_]{0,40}", "INT": r"[0-9]{1,18}", "QS": r"(?:[^'\\\n\r$]|\$(?!\{)){0,60}", "MLS": r"[^'\r\n][^']{0,60}|",
    "LF": r"(?:[Ll]ist[A-Za-z0-9]*|getSecret)", "FNU": r"[A-Za-z_][A-Za-z0-9_]{0,40}", "DNU": r"[A-Za-z][A-Za-z0-9]{0,40}",
    "QTA.type": r"[A-Za-z0-9./]{1,60}", "QTA.api": r"[A-Za-z0-9.-]{1,60}", "QT": r"[A-Za-z0-9/]{1,60}",
    "word": r"[A-Za-z0-9_]{1,60}", "path.": r"[A-Za-z0-9_/.-]{1,60}", "path": r"[A-Za-z0-9_/-]{1,60}", "tag": r"[A-Za-z0-9_.-]{1,60}",
    "num-": r"[0-9-]{1,60}", "rg": r"[A-Za-z0-9_.()-]{1,60}", "MP.local": r"[A-Za-z0-9_./ -]{0,60}",
}

NAMES = ("ID", "FNU", "DNU", "LF")


def safe(kind, text):
    return text is not None and re.fullmatch(SAFE[kind], text) is not None and (kind not in NAMES or text not in RESERVED)


def chain(nt, target):
    """Productions [(pid, slot)] that lead from nt to target without changing the value, or None."""
    seen, todo = {nt}, [(nt, [])]
    while todo:
        n, way = todo.pop(0)
        if n == target:
            return way
        for p in S.BY_NT[n]:
            t = passes(p.pid)
            if t and t not in seen:
                seen.add(t)
                slot = next(el.slot for el in p.rhs if isinstance(el, S.N))
                todo.append((t, [*way, (p.pid, slot)]))
    return None


class Guided(Gen):
    def __init__(self, rng, guide):
        super().__init__(rng, keywords=0)
        self.guide = guide or {"set": {}, "empty": set(), "nonempty": set(), "keys": {}, "texts": {}, "ints": {}}
        g = self.guide
        self.known_paths = {p for _, p in g["set"]} | set(g["empty"]) | set(g["nonempty"]) | {p for p, _ in g["keys"]} | {p for _, p in g["texts"]}

    def about(self, path):
        n = len(path)
        return [p for p in self.known_paths if p[:n] == path]

    def phrase(self, nt, base, depth):
        opts = self.guide["set"].get((nt, base))
        if not opts:
            below = {p[len(base)][0] for p in self.about(base) if len(p) > len(base)} - {"=", "?", "nested"}
            opts = [x for x in below if x in S.BY_PID or x.startswith("any.")]
        want = nt
        if nt == "ANYV":
            want = "E"
            if not opts:
                return self.node(self.rng.choice(["E", "E", "LOOP"]), depth)
        if not opts:
            return self.node(nt, depth)
        pid = self.rng.choice(opts)
        if pid == "any.list":
            node = self.build(S.BY_PID["arr.lines"], base, depth, "any.list")
            if not node.parts[2].its:
                node = self.make(S.BY_PID["arr.empty"], 0)
        elif pid == "any.object":
            node = self.build(S.BY_PID["obj.lines"], base, depth, "any.object")
            if not node.parts[2].its:
                node = self.make(S.BY_PID["obj.empty"], 0)
        else:
            node = self.build(S.BY_PID[pid], base, depth)
        if nt == "ANYV" and node.prod.nt == "LOOP":
            return node
        way = chain(want, node.prod.nt)
        if way is None:
            return node
        for wpid, slot in reversed(way):
            p = S.BY_PID[wpid]
            node = self.make_with(p, _path(p.rhs, slot), node, 0)
        return node

    def build(self, p, base, depth=1, name=None):
        return Node(p, self.parts(p.rhs, base, name or p.pid, (), depth))

    def parts(self, rhs, base, pid, index, depth):
        out = []
        for el in rhs:
            if isinstance(el, S.K):
                out.append(Tok(el.text, "K"))
            elif isinstance(el, S.T):
                out.append(self.content(el, (*base, (pid, el.slot, *index))))
            elif isinstance(el, S.N):
                out.append(self.phrase(el.nt, (*base, (pid, el.slot, *index)), depth - 1))
            elif isinstance(el, S.NL):
                out.append(Brk(el.min, el.max, el.min))
            else:
                out.append(self.members(el, base, pid, index, depth))
        return out

    def members(self, el, base, pid, index, depth):
        g, r = self.guide, self.rng
        rep = (*base, (pid, el.slot, *index))
        keys = [k for (q, k), yes in g["keys"].items() if q == rep and yes]
        n = g["ints"].get(f"count:{rep}")
        if n is None:
            n = 0 if rep in g["empty"] else max(el.min, r.choice([0, 1, 1, 2, 3]), 1 if rep in g["nonempty"] else 0)
            if not self.about(rep) and r.random() < 0.5:
                n = el.min
        n = max(min(n, 6), len(keys), 0 if pid.startswith("any.") else el.min)
        star = r.randrange(n) if n else 0
        its = []
        for j in range(n):
            if j < len(keys):
                its.append([self.pair(keys[j], (*rep, ("=", keys[j])), depth) if isinstance(x, S.N) and x.nt == "PAIR" else Brk(x.min, x.max, x.min)
                            for x in el.body])
            else:
                its.append(self.parts(el.body, base, pid, (*index, f"{el.slot}*" if j == star else f"{el.slot}:{j}"), depth))
        r.shuffle(its)
        return Rep(el, its, [self.seq(el.sep, 0) for _ in range(max(0, n - 1))])

    def pair(self, key, path, depth):
        v = self.phrase("ANYV", path, depth)
        kind = "resource" if key == "resource" else "quoted" if key.startswith("'") else "id"
        p = S.BY_PID[f"pair.{kind}{'.loop' if v.prod.nt == 'LOOP' else ''}"]
        parts = [Tok(key, "ID", key) if kind == "id" else Tok(key, "QS", key[1:-1]) if kind == "quoted" else Tok("resource", "K"), Tok(":", "K"), v]
        return Node(p, parts)

    def content(self, el, path):
        g = self.guide
        c = el.cls
        get = lambda kind, q=path: g["texts"].get((kind, q))  # noqa: E731
        tok = self.token(el)
        if c == "INT":
            n = g["ints"].get(f"int:{path}")
            s = get("INT") if n is None else str(n)
            if safe("INT", s):
                return Tok(s, c, int(s))
        elif c in ("ID", "LF", "FNU", "DNU"):
            s = get(c)
            if safe(c, s) and (c != "FNU" or s not in S.BUILTIN_NAMES) and (c != "DNU" or s not in S.DECO_NAMES):
                return Tok(s + "(" * (c == "FNU"), c, s)
        elif c == "QS":
            s = get("QS")
            if safe("QS", s):
                return Tok(f"'{s}'", c, s)
        elif c == "MLS":
            s = get("MLS+" if el.arg else "MLS")
            if safe("MLS", s):
                return Tok(f"'''{el.arg or ''}{s}'''", c, s)
        elif c == "QT":
            s = get("QS")
            if safe("QT", s):
                return Tok(f"'{s}'", c, s)
        elif c == "QTA":
            t, a = tok.val
            s, u = get("QTA.type"), get("QTA.api")
            t, a = s if safe("QTA.type", s) else t, u if safe("QTA.api", u) else a
            return Tok(f"'{t}@{a}'", c, (t, a))
        elif c == "QM":
            from pv.sym import QM_KIND
            from pv.symval import CHARSETS

            parts = dict(tok.val)
            for k, kind in QM_KIND[el.arg].items():
                s = get(kind, (*path, k))
                if safe(CHARSETS.get(kind, kind), s) and not (kind == "MP.aliasx" and s == "public"):
                    parts[k] = s
            text = "".join(parts[x[1:-1]] if x[0] == "{" else x for x in S.MODULE_PATHS[el.arg][0])
            return Tok(f"'{text}'", c, parts)
        return tok


def node_for(g, result):
    """A phrase in the failing case of the obligation."""
    name = result.name.split(":")
    if name[0] == "file" and result.pid in S.BY_PID:
        return g.build(S.BY_PID[result.pid], (("file", "x", "d*"),), 1)
    if name[0] == "nested":
        return g.phrase("RB", (("?", "body"),), 1)
    return g.build(S.BY_PID[result.pid], (), 1)


def search(b, prop, result, count, seconds, seed=0):
    """Raises bounded.Finding for a file that breaks the property."""
    t0 = time.time()
    rng = random.Random(f"{seed}/{result.name}")
    n = 0
    if result.pid not in S.BY_PID and not result.name.startswith("nested"):
        for k in range(count):
            g = Mined(rng, b.pool, 0.6) if k % 2 else Gen(rng)
            if time.time() - t0 > seconds:
                break
            decls = [g.node("DECL", rng.randint(1, 4)) for _ in range(rng.randint(0, 4))]
            if isinstance(g, Mined):
                decls = g.relatives(decls)
            f = File(distinct(decls), Brk(0, None, k % 3), Brk(0, None, k % 2))
            n += 1
            b.check(prop, f, b.layouts(rng, k))
        return n
    pairs = iter(())
    if result.pid in S.BY_PID and S.BY_PID[result.pid].nt != "FILE":
        p = S.BY_PID[result.pid]
        # the phrase around every other one
        pairs = paired(rng, [p], count, lambda: Mined(rng, b.pool, 0.6))
    for d in pairs:
        if time.time() - t0 > seconds / 2:
            break
        n += 1
        b.check(prop, File(distinct([d]), Brk(0, None, 0), Brk(0, None, 0)), DEFAULT_LAYOUT)
    for k in range(count):
        if time.time() - t0 > seconds:
            break
        if result.guide and k % 3 != 2:
            g = Guided(rng, result.guide)
            node = node_for(g, result)
        else:
            g = Mined(rng, b.pool, rng.choice([0.3, 0.6, 0.95])) if k % 2 else Gen(rng, keywords=0.03)
            node = g.make(S.BY_PID[result.pid], 1 + k % 3)
        while node.prod.nt == "ANYV":
            node = node.parts[0]
        if node.prod.nt == "DECL":
            decls = [node]
        elif k % 2 == 0:
            decls = [isolated(node)]
        else:
            decls = [g.embed(node, extra=rng.choice([0, 0, 1, 2]), depth=1)]
        if k % 4 == 3:
            decls = [g.node("DECL", 1), *decls, g.node("DECL", 1)]
        if isinstance(g, Mined):
            decls = g.relatives(decls)
        n += 1
        lay = b.layouts(rng, k) if prop in ("C04", "C19") or k % 4 == 1 else DEFAULT_LAYOUT
        b.check(prop, File(distinct(decls), Brk(0, None, k % 5 == 4), Brk(0, None, 0)), lay)
    return n


# --------------------------------------------------------------------------- misread tokens


def value_of(cls, arg, word):
    """The content of a token with this text, or None."""
    if cls in ("ID", "LF", "DNU"):
        return word
    if cls == "INT":
        return int(word)
    if cls in ("QS", "QT"):
        return word[1:-1]
    if cls == "MLS":
        return word[3 + len(arg or ""):-3]
    if cls == "FNU":
        return word[:-1]
    if cls == "FNUQ":
        return word.split(".", 1)[1][:-1]
    if cls == "QTA" and word.count("@") == 1:
        return tuple(word[1:-1].split("@"))
    return None


class Forced(Gen):
    """Uses the given texts for the tokens of one element."""

    def __init__(self, rng, key, words):
        super().__init__(rng, keywords=0.03)
        self.key, self.words = key, words

    def token(self, el):
        if lexing.key(el)[:1] == self.key[:1] and lexing.key(el) in (self.key, self.key[:1]) and self.words:
            word = self.rng.choice(self.words)
            val = value_of(el.cls, el.arg, word)
            if val is not None and not (el.cls == "FNU" and val in S.BUILTIN_NAMES) and not (el.cls == "DNU" and val in S.DECO_NAMES):
                return Tok(word, el.cls, val)
        return super().token(el)


class ForcedLayout(Layout):
    def __init__(self, rng, key, words, **kw):
        super().__init__(rng, **kw)
        self.key, self.words = key, words

    def space(self, a, b):
        if self.key[0] in ("SPACE", "BLOCK") and a.cls != "LF" and self.chance(0.4):
            return f" {self.rng.choice(self.words)} "
        return super().space(a, b)

    def brk(self, b):
        out = super().brk(b)
        if out and self.key[0] == "NL" and self.chance(0.6):
            return " " + self.rng.choice(self.words)
        if out and self.key[0] == "HASH" and self.chance(0.6):
            return " " + self.rng.choice(self.words) + "\n"
        return out


def uses(key):
    """The productions with the element."""
    return [p for p in S.PRODS if any(lexing.key(el) in (key, key[:1]) for el in lexing.flat(p.rhs))] if key[0] not in (*lexing.LAYOUT, "NL") else S.PRODS


def search_lex(b, prop, key, words, count, seconds, seed=0):
    """Files with the texts as tokens (or between tokens)."""
    t0 = time.time()
    rng = random.Random(f"{seed}/{key}")
    words = [w for w in words if key[0] != "MLS" or "\r" not in w]
    prods = uses(key)
    if not prods or not words:
        return 0
    mine = [p for p in prods if prop in p.props] or prods
    n = 0
    for k in range(count):
        if time.time() - t0 > seconds:
            break
        g = Forced(rng, key, words)
        node = g.make(rng.choice(mine if k % 3 else prods), 1 + k % 3)
        d = node if node.prod.nt == "DECL" else isolated(node) if k % 2 else g.embed(node, extra=k % 3, depth=1)
        lay = ForcedLayout(rng, key, words, tight=rng.choice([0, 0.5, 1]), comments=rng.choice([0, 0, 0.3]))
        n += 1
        b.check(prop, File(distinct([d]) + distinct([g.node("DECL", 1)]) * (k % 4 == 3), Brk(0, None, k % 5 == 4), Brk(0, None, 0)), lay)
    return n


def random_words(lex, key, rng, count=60):
    """Random texts of an element (a stand-in where its contract is undecided)."""
    lang = lex.language(lex.pattern(key), lexing.WITHOUT.get(key))
    nested = {"Q": ["'q'", "''", "'${x}'"], "G": ["{x}", "{a['b']}", "{'}'}", "{{a: 1}}"]}
    out = []
    for _ in range(count * 4):
        s, t = lang.start, ""
        for _ in range(rng.choice([3, 6, 12, 30])):
            moves = lang.moves(s)
            if not moves or lang.final(s) and rng.random() < 0.1:
                break
            c, s = rng.choice(moves)
            t += rng.choice(nested[c]) if isinstance(c, str) else lex.alphabet.rep[c]
        t += lex.shortest(lang, s)
        if t not in lexing.NOT.get(key[0], ()):
            out.append(t)
    return out[:count]
