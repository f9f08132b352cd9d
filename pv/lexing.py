"""Contracts of the contextual scanners (layer D): what a scanner makes of *every* text of a token class.

For a scanner and a token class: for every text w of the class and every text r that may come directly behind it, the scanner
reads exactly w from w+r.  The contract yields the terminals that it reports for the class, each with a text for which it does.
Decided on the product of the class's automaton with the ordered ways of the compiled pattern (pv.rex); nothing is sampled.
Nested texts in strings ('${ ... }') are single letters whose reading is the contract of the pattern's named subroutines, by
induction over the nesting.
"""
from __future__ import annotations

import random
import re
from collections import deque

from lark import Token
from lark.lexer import UnlessCallback

from pv import rex
from pv import sgrammar as S
from pv.gen import Tok, can_join

RESERVED = {"null", "true", "false", "for", "if", "resource", "items", "in"}
ANY = "(?s:.)*"
PLAIN = r"'(?:[^'\\$\r\n])*'"
# Q: a string with its quotes; G: a { ... } group in an interpolation
STRING = r"'(?:[^'\\$\r\n]|\\[^\r\n]|\$+(?:[^'\\$\r\n{]|\\[^\r\n]|(?&G)))*\$*'"
GROUP = r"\{(?:[^'{}]|(?&Q)|(?&G))*\}"
NESTED = {"Q": STRING, "G": GROUP}
WORD = r"[A-Za-z_][A-Za-z0-9_]*"
CLASS = {
    "ID": WORD,
    "INT": r"[0-9]+",
    "QS": STRING,
    "MLS": r"'''(?:'{0,2}[^'])*'''",
    "LF": r"(?:[Ll]ist[A-Za-z]*|getSecret)",
    "FNU": WORD + r"\(",
    "FNUQ": r"(?:sys|az)\." + WORD + r"\(",
    "DNU": r"(?:sys\.)?[A-Za-z][A-Za-z0-9]*",
    "QT": PLAIN, "QTA": PLAIN, "QM": PLAIN, "QSCOPE": PLAIN,
    "STAR": r"\*",
    "EOFC": r"//[^\n]*",
    "NL": r"(?://[^\n]*)?(?:\r?\n)+",
    "SPACE": r"[ \t]+",
    "BLOCK": r"/\*(?:[^*]|\*+[^*/])*\*+/",
    "HASH": r"#[^\n]*",
}
SPELL = {"Q": "'q'", "G": "{g}"}
LAYOUT = ("SPACE", "BLOCK", "HASH")
NOT = {"ID": RESERVED, "FNU": {"if("}}
WITHOUT = {("FNU", "other"): r"(?:[Ll]ist[A-Za-z]*|getSecret)\("}  # directly after a dot these are resource functions
BLANK = [r"[ \t\n]" + ANY, r"\r\n" + ANY]
SAMPLE = {"ID": "x", "INT": "7", "QS": "''", "MLS": "''''''", "LF": "list", "FNU": "f(", "FNUQ": "az.f(", "DNU": "x", "QT": "''", "QTA": "''",
          "QM": "''", "QSCOPE": "''", "STAR": "*"}
BEGIN = {"ID": "[A-Za-z_]", "INT": "[0-9]", "STAR": r"\*", "FN": "[A-Za-z]", "DN": "[A-Za-z]", "LF": "[A-Za-z]", "FNU": "[A-Za-z_]", "FNUQ": "[as]",
         "DNU": "[A-Za-z]"}


def key(el):
    """Elements with the same texts."""
    if isinstance(el, S.K):
        return ("K", el.text)
    if isinstance(el, S.NL):
        return ("NL",)
    return (el.cls, el.arg) if el.cls in ("FN", "DN", "MLS") or (el.cls, el.arg) in WITHOUT else (el.cls,)


def kind(k):
    return k if k[0] == "K" else k[:1]


def follow():
    """{element: elements that may come directly behind it (no line break between)}, from the specification's productions."""
    first, last, nullable, fol = {}, {}, {}, {}

    def seq_first(rhs):
        out = set()
        for el in rhs:
            f, n = el_first(el)
            out |= f
            if not n:
                return out, False
        return out, True

    def el_first(el):
        if isinstance(el, S.N):
            return first.get(el.nt, set()), False
        if isinstance(el, S.R):
            f, n = seq_first(el.body)
            return f, n or el.min == 0
        if isinstance(el, S.NL):
            return {("NL",)}, el.min == 0
        return {kind(key(el))}, False

    def el_last(el):
        if isinstance(el, S.N):
            return last.get(el.nt, set()), False
        if isinstance(el, S.R):
            f, n = seq_last(el.body)
            return f, n or el.min == 0
        if isinstance(el, S.NL):
            return {("NL",)}, el.min == 0
        return {kind(key(el))}, False

    def seq_last(rhs):
        out = set()
        for el in reversed(rhs):
            f, n = el_last(el)
            out |= f
            if not n:
                return out, False
        return out, True

    def pairs(rhs, after):
        """rhs in a context where `after` may follow."""
        ch = False
        for i, el in enumerate(rhs):
            f, n = seq_first(rhs[i + 1:])
            nxt = f | (after if n else set())
            if isinstance(el, S.R):
                loop = seq_first((*el.sep, *el.body))[0]
                ch |= pairs(el.body, nxt | loop)
                ch |= pairs(el.sep, seq_first(el.body)[0])
            for a in el_last(el)[0]:
                old = fol.setdefault(a, set())
                if not nxt <= old:
                    old |= nxt
                    ch = True
            if isinstance(el, S.N):
                old = fol.setdefault(el.nt, set())
                if not nxt <= old:
                    old |= nxt
                    ch = True
        return ch

    changed = True
    while changed:
        changed = False
        for nt, ps in S.BY_NT.items():
            for p in ps:
                for table, fn in ((first, seq_first), (last, seq_last)):
                    v = fn(p.rhs)[0]
                    old = table.setdefault(nt, set())
                    if not v <= old:
                        old |= v
                        changed = True
                changed |= pairs(p.rhs, fol.get(nt, set()))
    return {k: {b for b in v if b != ("NL",)} for k, v in fol.items() if isinstance(k, tuple)}


def token(k):
    if k[0] == "K":
        return Tok(k[1], "K")
    return Tok({"FN": "any(", "DN": "secure"}.get(k[0]) or SAMPLE[k[0]], k[0])


def begin(k):
    if k[0] == "K":
        return re.escape(k[1])
    return BEGIN.get(k[0], "'")


class Lexing:
    def __init__(self, lexers, ignored):
        """lexers: {id: contextual lexer of lark's}."""
        self.lexers, self.ignored = lexers, set(ignored)
        self.follow = follow()
        self.unsupported: dict = {}
        self._tails: dict = {}
        self._words: dict = {}
        self._results: dict = {}
        self._matchers: dict = {}
        self._lang: dict = {}
        self.products = 0
        self.states = 0
        trees: dict = {}
        preds: set = set()
        chars = set("'{")
        for i, lx in lexers.items():
            try:
                trees[i] = self.scanner_tree(lx)
                rex.preds_of(trees[i][0], preds)
            except rex.Unsupported as e:
                self.unsupported[i] = f"the pattern of the scanner: {e}"
            for c in lx.callback.values():
                if isinstance(c, UnlessCallback):
                    for t in c.scanner.terminals:
                        chars |= set(t.pattern.value)
        for p in (*CLASS.values(), *WITHOUT.values(), *NESTED.values(), *BEGIN.values(), *BLANK, "[^ \\t]", "[^\\r\\n]"):
            rex.preds_of(rex.Parser(p).parse(), preds)
        for ws in NOT.values():
            chars |= set("".join(ws))
        for p in S.PRODS:
            for el in flat(p.rhs):
                if isinstance(el, S.K):
                    chars |= set(el.text)
                if isinstance(el, S.T) and el.cls in ("FN", "DN", "MLS"):
                    chars |= set(el.arg or "")
        preds |= {(re.escape(c), "") for c in chars}
        self.alphabet = rex.Alphabet(preds)
        self.trees = trees
        self.nested: dict = {}
        self.self_test()

    @staticmethod
    def scanner_tree(lx):
        sc = lx.scanner
        alts = []
        names = set()
        for mre in sc._mres:
            if mre.flags & ~(rex.regex.UNICODE | rex.regex.VERSION0 | re.UNICODE):
                raise rex.Unsupported("flags")
            t = rex.Parser(mre.pattern).parse()
            alts += t[1] if t[0] == "alt" else [t]
        names = {t.name for t in sc.terminals}
        return ("alt", alts), names

    def matcher(self, i):
        if i not in self._matchers:
            tree, names = self.trees[i]
            prog = rex.Prog(tree, names)
            m = rex.Matcher(prog, self.alphabet)
            m.contracts = self.nested_contracts(prog)
            self._matchers[i] = m
        return self._matchers[i]

    def language(self, text, without=None):
        if (text, without) not in self._lang:
            lang = rex.Language(rex.Prog(rex.Parser(text).parse()), self.alphabet)
            self._lang[text, without] = rex.Difference(lang, self.language(without)) if without else lang
        return self._lang[text, without]

    def self_test(self, count=40, seed=1):
        """The translated patterns against the compiled ones on random texts: scanners where they differ are left undecided."""
        rng = random.Random(seed)
        begins = ["'", "'''", "'${", "'a${x}", "sys.", "az.", "//", "/*", "list", "getSecret(", "\r\n", "if(", ""]
        chars = [c for c in self.alphabet.rep if c.isprintable() or c in "\r\n\t"]
        for i in list(self.trees):
            if i in self.unsupported:
                continue
            try:
                m = self.matcher(i)
            except rex.Unsupported as e:
                self.unsupported[i] = str(e)
                continue
            for _ in range(count):
                text = rng.choice(begins) + "".join(rng.choice(chars) for _ in range(rng.randint(0, 10)))
                want = "none"
                for mre in self.lexers[i].scanner._mres:
                    r = mre.match(text)
                    if r:
                        want = (r.lastgroup, r.end())
                        break
                try:
                    got = m.first_match(text)
                except rex.Unsupported:
                    continue
                if got not in ("junk", want):
                    self.unsupported[i] = f"{text!r} is matched in another way than computed ({want} instead of {got})"
                    break

    # ---- nested texts
    def nested_contracts(self, prog):
        """(subroutine, letter) such that the subroutine's first match on every such text is exactly the text (induction over the
        nesting: the hypothesis is used for the nested texts inside only)."""
        sig = tuple((prog.code[pc] if False else n) for n, pc in sorted(prog.group_start.items()))
        hyp = set()
        probe = rex.Matcher(prog, self.alphabet)
        for g in prog.group_start:
            for letter in NESTED:
                try:
                    if probe.starts(g, probe.first_letter[letter]) and not probe.starts(g, None):
                        hyp.add((g, letter))
                except rex.Unsupported:
                    pass
        k = (sig, tuple(sorted(map(str, prog.bodies.items()))))
        if k in self.nested:
            return self.nested[k]
        while True:
            bad = set()
            for g, letter in sorted(hyp):
                m = rex.Matcher(prog, self.alphabet, frozenset(hyp))
                try:
                    types, problems = self.product(m, m.begin(prog.group_start[g]), NESTED[letter], lambda w: [ANY])
                    ok = set(types) == {""} and not problems
                except rex.Unsupported:
                    ok = False
                if not ok:
                    bad.add((g, letter))
            if not bad:
                break
            hyp -= bad
        self.nested[k] = frozenset(hyp)
        return self.nested[k]

    # ---- what may come behind a token
    def tails(self, k):
        """Patterns of the texts directly behind a token (the empty text is the end of the file)."""
        k = kind(k)
        if k not in self._tails:
            c = k[0]
            if c == "LF":
                out = [r"\(" + ANY]
            elif c in ("FN", "FNU", "FNUQ", "BLOCK"):
                out = [ANY]
            elif c == "NL":
                out = ["[^\\r\\n]" + ANY, ""]
            elif c == "EOFC":
                out = [""]
            elif c == "SPACE":
                out = ["[^ \\t]" + ANY, ""]
            elif c == "HASH":
                out = ["\\n" + ANY, ""]
            else:
                a = token(k)
                out = [*BLANK, ""]
                for b in sorted(self.follow.get(k, ())):
                    if can_join(a, token(b)):
                        out.append(begin(b) + ANY)
            self._tails[k] = out
        return self._tails[k]

    def behind(self, k):
        tails = self.tails(k)
        if k[0] != "ID":
            return lambda w: tails
        namespace = [t for t in tails if not t.startswith("\\.")]  # sys.x and az.x are names in a namespace
        return lambda w: namespace if w in ("sys", "az") else tails

    # ---- contracts
    def result(self, i, k):
        """({terminal: text}, [(word, rest, what)]) or Unsupported."""
        r = self._results.get((i, k))
        if r is None:
            try:
                if i in self.unsupported:
                    raise rex.Unsupported(self.unsupported[i])
                r = self._result(i, k)
            except rex.Unsupported as e:
                r = e
            self._results[i, k] = r
        if isinstance(r, rex.Unsupported):
            raise r
        return r

    def words(self, i):
        """{terminal: {word: what the scanner's callback makes of it}}"""
        if i not in self._words:
            lx = self.lexers[i]
            out: dict = {}
            for t, cb in lx.callback.items():
                if not isinstance(cb, UnlessCallback):
                    raise rex.Unsupported("callback of the scanner")
                out[t] = {}
                for x in cb.scanner.terminals:
                    if x.pattern.type != "str" or x.pattern.flags:
                        raise rex.Unsupported("callback of the scanner")
                    out[t][x.pattern.value] = cb(Token(t, x.pattern.value)).type
            self._words[i] = out
        return self._words[i]

    def pattern(self, k):
        if k[0] in ("K", "FN", "DN"):
            text = k[1] + ("(" if k[0] == "FN" else "")
            return re.escape(text)
        if k[0] == "MLS" and k[1]:
            return CLASS["MLS"][:3] + re.escape(k[1]) + CLASS["MLS"][3:]
        return CLASS[k[0]]

    def _result(self, i, k):
        m = self.matcher(i)
        retype = self.words(i)
        special = set(NOT.get(k[0], ()))
        for ws in retype.values():
            special |= set(ws)
        if k[0] == "ID":
            special |= {"sys", "az"}
        types, problems = self.product(m, m.begin(), self.pattern(k), self.behind(k), special, NOT.get(k[0], ()), retype, WITHOUT.get(k))
        lines = self.lexers[i].newline_types
        for (t, name), (w, broken) in list(types.items()):
            if broken is not None and name not in lines:
                problems.append((broken, "", f"the line breaks in {name} are not counted"))
        return {t: w for (t, _), (w, _) in types.items()}, problems

    def product(self, m, start, pattern, behind, special=(), excluded=(), retype=None, without=None):
        """All words of the pattern through the matcher, with every text behind them.

        Returns ({(terminal, matched name): (word, word with a line break or None)} - or {name: word} without `retype` -,
        [(word, rest, what)])."""
        lang = self.language(pattern, without)
        words = list(special)
        prefixes = {w[:n] for w in words for n in range(len(w) + 1)}
        rep = self.alphabet.rep
        lf = self.alphabet.letter("\n")
        spell = SPELL
        letter_of = self.alphabet.letter
        nodes: dict = {}
        for p in prefixes:
            for w in words:
                if w.startswith(p) and len(w) > len(p):
                    nodes.setdefault(p, {})[letter_of(w[len(p)])] = w[: len(p) + 1]
        types: dict = {}
        problems: list = []
        s0 = (start, lang.start, "" if "" in prefixes else None, False)
        parent = {s0: None}
        todo = deque([s0])

        def text(s):
            out = []
            while parent[s]:
                s, c = parent[s]
                out.append(spell.get(c) or rep[c])
            return "".join(reversed(out))

        ends: dict = {}
        while todo:
            s = todo.popleft()
            lid, ls, node, nl = s
            if lang.final(ls) and not (node is not None and node in excluded):
                word = text(s) if node is None or node not in words else node
                known = node if node in special else None
                for name, rest, what in self.behind_word(m, m.relabel(lid, "good"), tuple(behind(known))):
                    if what:
                        problems.append((word, rest, what))
                        continue
                    if retype is None:
                        types.setdefault(name, word)
                    else:
                        t = retype.get(name, {}).get(known, name) if known else name
                        old = types.get((t, name))
                        types[t, name] = (old[0] if old else word, (old and old[1]) or (word if nl else None))
                if len(problems) > 20:
                    break
            lid2 = m.relabel(lid, "short")
            for c, ls2 in lang.moves(ls):
                n2 = nodes.get(node, {}).get(c) if node is not None and not isinstance(c, str) else None
                nxt = (m.step(lid2, c), ls2, n2, nl or c == lf)
                if nxt not in parent:
                    parent[nxt] = (s, c)
                    todo.append(nxt)
        self.products += 1
        self.states += len(parent)
        return types, problems

    def behind_word(self, m, lid, tails):
        """[(name, rest, problem)] for a list with its matches at the end of the word labelled "good"."""
        k = (lid, tails)
        cache = m.__dict__.setdefault("_behind", {})
        if k in cache:
            return cache[k]
        out: dict = {}
        rep = self.alphabet.rep
        spell = SPELL

        def decide(r, rest):
            if r == "junk":
                raise rex.Unsupported("what is matched is not known")
            if r == "none":
                out.setdefault(("none", None), ("", rest, "no token is recognised"))
            elif r[1] == "good":
                out.setdefault((r[0], None), (r[0], rest, None))
            else:
                out.setdefault((r[0], r[1]), (r[0], rest, f"{'less' if r[1] == 'short' else 'more'} than the token is read (as {r[0]})"))

        for tail in tails:
            lang = self.language(tail)
            s0 = (lid, lang.start)
            parent = {s0: None}
            todo = deque([s0])

            def text(s):
                t = []
                while parent[s]:
                    s, c = parent[s]
                    t.append(rep[c] if not isinstance(c, str) else spell[c])
                return "".join(reversed(t))

            while todo:
                s = todo.popleft()
                r = m.settled(s[0])
                if r is not None:
                    # whatever follows; the rest completed to one of the tail
                    decide(r, text(s) + self.shortest(lang, s[1]))
                    continue
                if lang.final(s[1]):
                    decide(m.at_end(s[0]), text(s))
                l2 = m.relabel(s[0], "long")
                for c, ls in lang.moves(s[1]):
                    nxt = (m.step(l2, c), ls)
                    if nxt not in parent:
                        parent[nxt] = (s, c)
                        todo.append(nxt)
            self.states += len(parent)
        cache[k] = list(out.values())
        return cache[k]

    def shortest(self, lang, state):
        seen = {state}
        todo = deque([(state, "")])
        while todo:
            s, t = todo.popleft()
            if lang.final(s):
                return t
            for c, n in lang.moves(s):
                if n not in seen:
                    seen.add(n)
                    todo.append((n, t + (SPELL.get(c) or self.alphabet.rep[c])))
        return ""


def flat(rhs):
    for el in rhs:
        if isinstance(el, S.R):
            yield from flat(el.body)
            yield from flat(el.sep)
        elif not isinstance(el, S.N):
            yield el
