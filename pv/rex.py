"""Regular expressions with the priorities of a backtracking matcher, as ordered lists of threads.

What `regex`/`re` match first (the leftmost alternative, greedy or lazy repetitions, lookaheads, named subroutines) is computed
for *sets* of texts: the configuration after a prefix is the ordered list of the ways to go on, best first; a way that has
matched cuts those behind it.  Anything outside the covered syntax raises Unsupported (nothing is claimed about it).
"""
from __future__ import annotations

import bisect
import re

import regex

FULL = 0x110000
MAX_STACK = 4
MAX_LIST = 400


class Unsupported(Exception):
    pass


# --------------------------------------------------------------------------- syntax

class Parser:
    """Patterns -> trees: ("cat", [..]) ("alt", [..]) ("char", pattern of one character) ("rep", lo, hi, mode, x)
    ("group", name, x) ("look", negative, x) ("call", name) ("atomic", x)."""

    ESC = set("wWdDsSnrtfv")

    def __init__(self, text, flags=0):
        self.s, self.i = text, 0
        self.flags = flags
        self.groups = 0

    def peek(self, n=1):
        return self.s[self.i: self.i + n]

    def take(self, t):
        if self.s.startswith(t, self.i):
            self.i += len(t)
            return True
        return False

    def parse(self):
        x = self.alt("")
        if self.i != len(self.s):
            raise Unsupported(f"syntax of {self.s!r} at {self.i}")
        return x

    def alt(self, mode):
        out = [self.cat(mode)]
        while self.take("|"):
            out.append(self.cat(mode))
        return out[0] if len(out) == 1 else ("alt", out)

    def cat(self, mode):
        out = []
        while self.i < len(self.s) and self.peek() not in "|)":
            x = self.item(mode)
            out.append(self.repeat(x))
        return out[0] if len(out) == 1 else ("cat", out)

    def repeat(self, x):
        while True:
            c = self.peek()
            if c == "*":
                lo, hi = 0, None
            elif c == "+":
                lo, hi = 1, None
            elif c == "?":
                lo, hi = 0, 1
            elif c == "{":
                m = re.compile(r"\{(\d*)(,?)(\d*)\}").match(self.s, self.i)
                if not m or not (m[1] or m[3]):
                    raise Unsupported("braces")
                lo = int(m[1] or 0)
                hi = lo if not m[2] else int(m[3]) if m[3] else None
                self.i = m.end() - 1
            else:
                return x
            self.i += 1
            mode = "lazy" if self.take("?") else "possessive" if self.take("+") else "greedy"
            if hi is not None and hi > 64:
                raise Unsupported("long repetition")
            if mode == "possessive":
                x = ("atomic", ("rep", lo, hi, "greedy", x))
            else:
                x = ("rep", lo, hi, mode, x)

    def item(self, mode):
        c = self.peek()
        if c == "(":
            return self.group(mode)
        if c == "[":
            return ("char", self.charset(), mode)
        if c == "\\":
            d = self.s[self.i + 1: self.i + 2]
            m = re.compile(r"\\(x[0-9a-fA-F]{2}|u[0-9a-fA-F]{4}|U[0-9a-fA-F]{8})").match(self.s, self.i)
            if m:
                self.i = m.end()
                return ("char", m[0], mode)
            if d.isalnum() and d not in self.ESC or not d:
                raise Unsupported(f"escape \\{d}")
            self.i += 2
            return ("char", "\\" + d, mode)
        if c in "^$":
            raise Unsupported("anchor")
        self.i += 1
        return ("char", "." if c == "." else re.escape(c), mode)

    def charset(self):
        i = self.i + 1
        if self.s[i: i + 1] == "^":
            i += 1
        first = True
        while True:
            c = self.s[i: i + 1]
            if not c:
                raise Unsupported("character set")
            if c == "\\":
                i += 2
            elif c == "]" and not first:
                break
            elif c == "[" and self.s[i + 1: i + 2] in (":", "[", "."):
                raise Unsupported("character set")
            else:
                i += 1
            first = False
        out = self.s[self.i: i + 1]
        self.i = i + 1
        return out

    def group(self, mode):
        self.i += 1
        if not self.take("?"):
            self.groups += 1
            x = ("group", str(self.groups), self.alt(mode))
        else:
            m = re.compile(r"P?<([A-Za-z_]\w*)>").match(self.s, self.i)
            n = re.compile(r"(?:&|P>)([A-Za-z_]\w*)\)").match(self.s, self.i)
            k = re.compile(r"(\d+)\)").match(self.s, self.i)
            f = re.compile(r"([aimsxu]*)(-[imsx]+)?([:)])").match(self.s, self.i)
            if m:
                self.i = m.end()
                self.groups += 1
                x = ("group", m[1], self.alt(mode), str(self.groups))
            elif n or k:
                m = n or k
                self.i = m.end()
                return ("call", m[1])
            elif self.take("="):
                x = ("look", False, self.alt(mode))
            elif self.take("!"):
                x = ("look", True, self.alt(mode))
            elif self.take(">"):
                x = ("atomic", self.alt(mode))
            elif f and f[3] == ":":
                if f[2] or set(f[1]) - set("is"):
                    raise Unsupported("inline flags")
                self.i = f.end()
                x = self.alt("".join(sorted(set(mode) | set(f[1]))))
            else:
                raise Unsupported(f"group {self.s[self.i - 2: self.i + 8]!r}")
        if not self.take(")"):
            raise Unsupported("parenthesis")
        return x


# --------------------------------------------------------------------------- alphabet

_ALL = None
_RANGES: dict = {}


def ranges(pred):
    """The code points of a one character pattern (pattern, inline flags) as sorted half open intervals."""
    global _ALL
    if pred not in _RANGES:
        if _ALL is None:
            _ALL = "".join(map(chr, range(FULL)))
        src, mode = pred
        rx = regex.compile(f"(?{mode}:{src})+" if mode else f"(?:{src})+")
        _RANGES[pred] = [m.span() for m in rx.finditer(_ALL)]
    return _RANGES[pred]


class Alphabet:
    """The classes of characters that a set of predicates tells apart."""

    def __init__(self, preds):
        self.preds = sorted(set(preds))
        points = {0, FULL}
        for p in self.preds:
            for a, b in ranges(p):
                points |= {a, b}
        self.points = sorted(points)
        sig = [0] * (len(self.points) - 1)
        for k, p in enumerate(self.preds):
            for a, b in ranges(p):
                for i in range(bisect.bisect_left(self.points, a), bisect.bisect_left(self.points, b)):
                    sig[i] |= 1 << k
        reps: dict = {}
        good = lambda c: (c != "x", not c.isascii() or not c.isalnum(), not c.isprintable(), ord(c))  # noqa: E731
        for i, s in enumerate(sig):
            a, b = self.points[i], self.points[i + 1]
            for c in {a, b - 1, *(o for o in (0x78, 0x61, 0x30, 0x41) if a <= o < b)}:
                if 0xD800 <= c < 0xE000:
                    continue
                ch = chr(c)
                if s not in reps or good(ch) < good(reps[s]):
                    reps[s] = ch
            reps.setdefault(s, chr(a))
        self.sig = sig
        ids = {s: i for i, s in enumerate(sorted(reps))}
        self.letters = list(range(len(ids)))
        self.rep = [reps[s] for s in sorted(reps)]
        self.of_interval = [ids[s] for s in sig]
        index = {p: k for k, p in enumerate(self.preds)}
        self.member = {p: frozenset(ids[s] for s in reps if s >> index[p] & 1) for p in self.preds}

    def letter(self, c):
        return self.of_interval[bisect.bisect_right(self.points, ord(c)) - 1]


def preds_of(x, out):
    if x[0] == "char":
        out.add((x[1], x[2]))
    elif x[0] in ("cat", "alt"):
        for y in x[1]:
            preds_of(y, out)
    elif x[0] == "rep":
        preds_of(x[4], out)
    elif x[0] in ("group", "look"):
        preds_of(x[2], out)
    elif x[0] == "atomic":
        preds_of(x[1], out)


# --------------------------------------------------------------------------- programs

class Prog:
    """Instructions: ("char", pred, next) ("split", targets) ("match", name) ("look", neg, start, next) ("call", group, next)
    ("ret",) ("in", region, next) ("out", region, next) ("yes",)."""

    def __init__(self, tree, names=()):
        """tree: the alternatives of a scanner ("alt" of named groups) or any pattern (then the match is called "")."""
        self.code: list = []
        self.bodies: dict = {}
        self.called: set = set()
        self.regions = 0
        find_calls(tree, self.called)
        self.collect(tree)
        for name in self.called:
            if name not in self.bodies and name not in ("Q", "G"):
                raise Unsupported(f"subroutine {name}")
        self.group_start = {}
        todo = [n for n in self.bodies if n in self.called]
        for n in todo:
            r = self.emit("ret")
            self.group_start[n] = self.comp(self.bodies[n], r)
        if names:
            outs = []
            for x in tree[1] if tree[0] == "alt" else [tree]:
                if x[0] != "group" or x[1] not in names:
                    raise Unsupported("scanner")
                outs.append(self.comp(x[2], self.emit("match", x[1])))
            self.start = self.emit("split", tuple(outs))
        else:
            self.start = self.comp(tree, self.emit("match", ""))

    def collect(self, x):
        if x[0] == "group":
            for n in {x[1], x[-1] if len(x) == 4 else x[1]} & self.called:
                if n in self.bodies:
                    raise Unsupported("group defined twice")
                self.bodies[n] = x[2]
            self.collect(x[2])
        elif x[0] in ("cat", "alt"):
            for y in x[1]:
                self.collect(y)
        elif x[0] == "rep":
            self.collect(x[4])
        elif x[0] == "look":
            self.collect(x[2])
        elif x[0] == "atomic":
            self.collect(x[1])

    def emit(self, *ins):
        self.code.append(ins)
        return len(self.code) - 1

    def comp(self, x, nxt):
        op = x[0]
        if op == "char":
            return self.emit("char", (x[1], x[2]), nxt)
        if op == "cat":
            for y in reversed(x[1]):
                nxt = self.comp(y, nxt)
            return nxt
        if op == "alt":
            return self.emit("split", tuple(self.comp(y, nxt) for y in x[1]))
        if op == "group":
            n = x[1] if x[1] in self.called else x[-1] if len(x) == 4 and x[-1] in self.called else None
            return self.emit("call", n, nxt) if n else self.comp(x[2], nxt)
        if op == "call":
            return self.emit("call", x[1], nxt)
        if op == "look":
            return self.emit("look", x[1], self.comp(x[2], self.emit("yes")), nxt)
        if op == "atomic":
            self.regions += 1
            r = self.regions
            return self.emit("in", r, self.comp(x[1], self.emit("out", r, nxt)))
        _, lo, hi, mode, y = x
        order = (lambda a, b: (a, b)) if mode == "greedy" else (lambda a, b: (b, a))
        if hi is None:
            s = self.emit("split", ())
            body = self.comp(y, s)
            self.code[s] = ("split", order(body, nxt), nxt)
            if lo == 0:
                return s
            if lo > 1 and nullable(y):
                raise Unsupported("a repetition of what may be empty")
            for _ in range(lo - 1):
                body = self.comp(y, body)
            return body
        end = nxt
        for _ in range(hi - lo):
            nxt = self.emit("split", order(self.comp(y, nxt), end))
        for _ in range(lo):
            nxt = self.comp(y, nxt)
        return nxt


def nullable(x):
    op = x[0]
    if op == "cat":
        return all(map(nullable, x[1]))
    if op == "alt":
        return any(map(nullable, x[1]))
    if op == "rep":
        return x[1] == 0 or nullable(x[4])
    if op == "group":
        return nullable(x[2])
    if op == "atomic":
        return nullable(x[1])
    return op == "look"


def find_calls(x, out):
    if x[0] == "call":
        out.add(x[1])
    elif x[0] in ("cat", "alt"):
        for y in x[1]:
            find_calls(y, out)
    elif x[0] == "rep":
        find_calls(x[4], out)
    elif x[0] in ("group", "look"):
        find_calls(x[2], out)
    elif x[0] == "atomic":
        find_calls(x[1], out)


JUNK = ("J",)
EMPTY: frozenset = frozenset()


class Matcher:
    """Ordered lists of ways.  Entries: ("T", pc, stack, looks, regions), ("M", name, label, looks), JUNK.

    stack: (return address, regions of the caller).  regions: the atomic groups the way is inside of, as (group, depth of the
    stack, number of the entry).  looks: conditions on what follows, (negative, ways, region): no (or some) of the ways gets to
    the end of its lookahead - or out of the atomic group.
    Labels of matches: "now" (ends here), or a mark given later."""

    def __init__(self, prog, alphabet, contracts=frozenset()):
        self.p, self.a = prog, alphabet
        self.contracts = contracts  # (group, letter): the group's first match is exactly what the letter stands for
        self.accepts = {pc: alphabet.member[ins[1]] for pc, ins in enumerate(prog.code) if ins[0] == "char"}
        self.ids: dict = {}
        self.lists: list = []
        self.trans: dict = {}
        self.first_letter = {"Q": alphabet.letter("'"), "G": alphabet.letter("{")}
        self._looks: dict = {}
        self._first: dict = {}
        self.serial = 1 << 20

    def intern(self, entries):
        entries = tuple(entries)
        if any(e[0] == "T" and (e[4] or e[2]) for e in entries):
            entries = self.renumber(entries)
        k = self.ids.get(entries)
        if k is None:
            k = self.ids[entries] = len(self.lists)
            self.lists.append(entries)
        return k

    def renumber(self, entries):
        names: dict = {}

        def regs(rs):
            return frozenset((r, d, names.setdefault(n, len(names))) for r, d, n in sorted(rs))

        return tuple(("T", e[1], tuple((pc, regs(rs)) for pc, rs in e[2]), e[3], regs(e[4])) if e[0] == "T" else e for e in entries)

    def begin(self, pc=None):
        return self.intern(self.closure([("T", self.p.start if pc is None else pc, (), EMPTY, EMPTY)], "now"))

    # ---- following the instructions that read nothing
    def closure(self, entries, label, expand=False):
        """`expand`: enter the subroutines, too (they are left standing until it is known what is read)."""
        out: list = []
        seen: set = set()
        code = self.p.code
        todo = list(reversed(entries))
        while todo:
            t = todo.pop()
            if t[0] == "J":
                out.append(t)
                break
            if t in seen:
                ins = code[t[1]] if t[0] == "T" else ()
                if len(ins) == 3 and ins[0] == "split":  # a pass through a loop that read nothing ends the loop
                    todo.append(("T", ins[2], *t[2:]))
                continue
            seen.add(t)
            if len(seen) > MAX_LIST * 8:
                raise Unsupported("too many ways")
            if t[0] == "M":
                out.append(t)
                if not t[3]:
                    break
                continue
            _, pc, stack, looks, regions = t
            ins = code[pc]
            op = ins[0]
            if op == "char":
                out.append(t)
            elif op == "split":
                todo += [("T", x, stack, looks, regions) for x in reversed(ins[1])]
            elif op == "match":
                todo.append(("M", ins[1], label, looks))
            elif op == "ret":
                if not stack:  # the end of a subroutine under contract
                    todo.append(("M", "", label, looks))
                else:
                    (ret, outer), rest = stack[-1], stack[:-1]
                    todo.append(("T", ret, rest, looks, outer))
            elif op == "call":
                if not expand:
                    out.append(t)
                elif len(stack) >= MAX_STACK:
                    out.append(JUNK)
                    break
                else:
                    todo.append(("T", self.p.group_start[ins[1]], (*stack, (ins[2], regions)), looks, EMPTY))
            elif op == "look":
                new = self.look_start(ins[2])
                if new is not True:
                    todo.append(("T", ins[3], stack, looks | {(ins[1], new, None)}, regions))
                elif not ins[1]:
                    todo.append(("T", ins[3], stack, looks, regions))
            elif op == "in":
                self.serial += 1
                todo.append(("T", ins[2], stack, looks, regions | {(ins[1], len(stack), self.serial)}))
            elif op == "out":
                r = next(x for x in regions if x[0] == ins[1] and x[1] == len(stack))
                if any(not neg or region is None for neg, _, region in looks):
                    raise Unsupported("a lookahead in an atomic group")
                # a better way that is still inside discards this one if it gets out later
                better = frozenset(w for o in out if o[0] == "T" and self.inside(o, r) for w in [self.way(o)])
                if better:
                    looks = looks | {(True, better, r[:2])}
                # this one discards the worse ways inside
                todo = [o for o in todo if not (o[0] == "T" and self.inside(o, r))]
                todo.append(("T", ins[2], stack, looks, regions - {r}))
            else:
                raise Unsupported(op)
        if len(out) > MAX_LIST:
            raise Unsupported("too many ways")
        return out

    def inside(self, o, r):
        return r in o[4] or any(r in regions for _, regions in o[2])

    def way(self, o):
        if o[3]:
            raise Unsupported("a lookahead in an atomic group")
        return o[1], tuple(pc for pc, _ in o[2])

    # ---- lookaheads: sets of ways, only whether one gets through counts
    def look_start(self, pc):
        if pc not in self._looks:
            self._looks[pc] = self.look_closure({(pc, ())}, None)
        return self._looks[pc]

    def look_closure(self, ways, region, expand=False):
        out: set = set()
        seen: set = set()
        todo = list(ways)
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            pc, stack = t
            ins = self.p.code[pc]
            op = ins[0]
            if op == "yes" or op == "out" and region == (ins[1], len(stack)):
                return True
            if op == "char" or op == "call" and not expand:
                out.add(t)
            elif op == "split":
                todo += [(x, stack) for x in ins[1]]
            elif op == "ret" and stack:
                todo.append((stack[-1], stack[:-1]))
            elif op == "call":
                if len(stack) >= MAX_STACK:
                    raise Unsupported("nesting in a lookahead")
                todo.append((self.p.group_start[ins[1]], (*stack, ins[2])))
            else:
                raise Unsupported(f"{op} in a lookahead")
        return frozenset(out)

    def look_step(self, looks, letter):
        """The conditions after a letter, or None if one of them fails."""
        out = set()
        for neg, ways, region in looks:
            nxt = set()
            if isinstance(letter, str):
                first = self.first_letter[letter]
                for pc, stack in ways:
                    ins = self.p.code[pc]
                    if ins[0] == "char":
                        if first in self.accepts[pc]:
                            raise Unsupported("a lookahead reads into a nested text")
                    elif self.starts(ins[1], first):
                        raise Unsupported("a lookahead over a nested text")
            else:
                if any(self.p.code[pc][0] == "call" for pc, _ in ways):
                    ways = self.look_closure(ways, region, expand=True)
                    if ways is True:
                        raise Unsupported("an empty subroutine")
                nxt = {(self.p.code[pc][2], stack) for pc, stack in ways if letter in self.accepts[pc]}
            new = self.look_closure(nxt, region) if nxt else None
            if new is True:
                if neg:
                    return None
            elif not new:
                if not neg:
                    return None
            else:
                out.add((neg, new, region))
        return frozenset(out) if out else EMPTY

    # ---- reading
    def relabel(self, lid, new):
        return self.intern(tuple(("M", e[1], new, e[3]) if e[0] == "M" and e[2] == "now" else e for e in self.lists[lid]))

    def step(self, lid, letter):
        """After a letter of the alphabet, or "Q"/"G" (a whole nested text).  Earlier matches must not be labelled "now"."""
        k = (lid, letter)
        r = self.trans.get(k)
        if r is None:
            r = self.trans[k] = self.intern(self._step(self.lists[lid], letter))
        return r

    def _step(self, entries, letter):
        nxt: list = []
        word = isinstance(letter, str)
        code = self.p.code
        if not word and any(e[0] == "T" and code[e[1]][0] == "call" for e in entries):
            entries = self.closure(entries, None, expand=True)
        for e in entries:
            if e[0] == "J":
                nxt.append(e)
                break
            looks = self.look_step(e[3], letter) if e[3] else e[3]
            if looks is None:
                continue
            if e[0] == "M":
                nxt.append(("M", e[1], e[2], looks))
                continue
            _, pc, stack, _, regions = e
            ins = code[pc]
            if ins[0] == "char":
                if not word:
                    if letter in self.accepts[pc]:
                        nxt.append(("T", ins[2], stack, looks, regions))
                elif self.first_letter[letter] in self.accepts[pc]:
                    nxt.append(JUNK)  # reads into the nested text
                    break
            elif (ins[1], letter) in self.contracts:
                # its first match; other ways of the subroutine to match come after everything that follows this one
                nxt += [("T", ins[2], stack, looks, regions), JUNK]
                break
            elif self.starts(ins[1], self.first_letter[letter]):
                nxt.append(JUNK)
                break
        return self.closure(nxt, "now")

    def starts(self, group, letter):
        """May a match of the group begin with the letter (or be empty)?"""
        k = (group, letter)
        if k not in self._first:
            es = self.closure([("T", self.p.group_start[group], (), EMPTY, EMPTY)], "now", expand=True)
            self._first[k] = any(e[0] != "T" or letter in self.accepts[e[1]] for e in es)
        return self._first[k]

    # ---- decisions
    def settled(self, lid):
        """(name, label) if that is matched whatever follows; None if the list is open; "none" if nothing matches; "junk"."""
        es = self.lists[lid]
        if not es:
            return "none"
        e = es[0]
        if e[0] == "J":
            return "junk"
        return (e[1], e[2]) if e[0] == "M" and not e[3] else None

    def at_end(self, lid):
        """The same if the text ends here."""
        for e in self.lists[lid]:
            if e[0] == "J":
                return "junk"
            if e[0] == "M" and all(neg for neg, _, _ in e[3]):
                return e[1], e[2]
            if e[0] == "T" and self.p.code[e[1]][0] == "call" and self.starts(self.p.code[e[1]][1], None):
                return "junk"
        return "none"

    def first_match(self, text):
        """What is matched at the beginning of a text: (name, length), "none" or "junk" (for tests of the translation)."""
        lid = self.begin()
        for i, c in enumerate(text):
            lid = self.relabel(lid, i)
            if self.settled(lid):
                break
            lid = self.step(lid, self.a.letter(c))
        return self.at_end(self.relabel(lid, len(text)))


class Language:
    """A set of texts (letters of the alphabet and "Q"/"G"), as a lazily determinised automaton."""

    def __init__(self, prog, alphabet):
        self.p, self.a = prog, alphabet
        self.accepts = {pc: alphabet.member[ins[1]] for pc, ins in enumerate(prog.code) if ins[0] == "char"}
        self._trans: dict = {}
        self.start = self.closure({prog.start})

    def closure(self, pcs):
        out, todo = set(), list(pcs)
        while todo:
            pc = todo.pop()
            if pc in out:
                continue
            out.add(pc)
            ins = self.p.code[pc]
            if ins[0] == "split":
                todo += ins[1]
            elif ins[0] not in ("char", "match", "call"):
                raise Unsupported(ins[0])
        return frozenset(pc for pc in out if self.p.code[pc][0] != "split")

    def final(self, state):
        return any(self.p.code[pc][0] == "match" for pc in state)

    def moves(self, state):
        """[(letter, state)]"""
        r = self._trans.get(state)
        if r is None:
            by: dict = {}
            for pc in state:
                ins = self.p.code[pc]
                if ins[0] == "char":
                    for x in self.accepts[pc]:
                        by.setdefault(x, set()).add(ins[2])
                elif ins[0] == "call":
                    by.setdefault(ins[1], set()).add(ins[2])
            r = self._trans[state] = [(x, self.closure(pcs)) for x, pcs in sorted(by.items(), key=lambda i: (isinstance(i[0], str), i[0]))]
        return r


class Difference:
    """The texts of one language that are not in the other."""

    def __init__(self, a, b):
        self.x, self.y = a, b
        self.start = (a.start, b.start)

    def final(self, state):
        return self.x.final(state[0]) and not (state[1] is not None and self.y.final(state[1]))

    def moves(self, state):
        other = dict(self.y.moves(state[1])) if state[1] is not None else {}
        return [(c, (s, other.get(c))) for c, s in self.x.moves(state[0])]
