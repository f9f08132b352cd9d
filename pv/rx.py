"""Regular expression matching on partly unknown texts (patterns without need for backtracking)."""
from __future__ import annotations

import re
import re._constants as c
import re._parser as sre

from pv.symval import CHARS, CHARSETS, Atom, charset, make_str, z3

LIMIT = [0x2FFFF]


class Match:
    def __init__(self, groups, names, whole):
        self._groups, self._names, self._whole = groups, names, whole

    def group(self, k=0):
        if k == 0:
            return self._whole
        if isinstance(k, str):
            k = self._names[k]
        v = self._groups.get(k)
        return make_str(v) if v is not None else None

    def groupdict(self):
        return {n: self.group(i) for n, i in self._names.items()}

    def groups(self):
        return [self.group(i + 1) for i in range(len(self._groups))]


def unsupported(what):
    from pv.sym import Unsupported

    raise Unsupported(f"regular expression: {what}")


def char_pred(op, arg):
    """A python regex for one character of the item."""
    if op is c.LITERAL:
        return re.escape(chr(arg))
    if op is c.ANY:
        return "[^\\n]"
    if op is c.IN:
        neg, out = "", ""
        for o, a in arg:
            if o is c.NEGATE:
                neg = "^"
            elif o is c.LITERAL:
                out += re.escape(chr(a))
            elif o is c.RANGE:
                out += f"{re.escape(chr(a[0]))}-{re.escape(chr(a[1]))}"
            elif o is c.CATEGORY:
                out += {c.CATEGORY_WORD: "\\w", c.CATEGORY_DIGIT: "\\d", c.CATEGORY_SPACE: "\\s"}.get(a) or unsupported("category")
            else:
                unsupported("set")
        return f"[{neg}{out}]"
    return None


SAMPLE = [chr(i) for i in range(0x20, 0x7F)] + ["é", "Ω", "語", "\n"]


def relation(kind, pred):
    """Are the characters of the atom class inside ('in'), outside ('out') or partly inside the character class?"""
    name = CHARSETS.get(kind)
    if kind in ("ID", "FNU"):
        name = "word"
    if name is None:
        return "partly"
    mine = re.compile(f"[{CHARS[name]}]")
    other = re.compile(pred)
    got = {bool(other.fullmatch(x)) for x in SAMPLE if mine.fullmatch(x)}
    return "in" if got == {True} else "out" if got == {False} else "partly"


def match(ctx, pattern, parts, full):
    """The match object, or None if no text of this form matches."""
    if pattern.flags & ~re.UNICODE:
        unsupported("flags")
    tree = sre.parse(pattern.pattern)
    # a stream of characters and atoms
    stream: list = []
    for p in parts:
        if isinstance(p, str):
            stream += list(p)
        elif isinstance(p, Atom):
            stream.append(p)
        else:
            unsupported("text")
    groups: dict = {}
    try:
        pos = run(list(tree), stream, 0, groups)
    except Stuck as e:
        return no_match(ctx, pattern, tree, parts, full, str(e))
    if full and pos != len(stream):
        return no_match(ctx, pattern, tree, parts, full, "rest")
    for i in range(1, tree.state.groups):
        groups.setdefault(i, None)
    return Match(groups, dict(tree.state.groupdict), make_str(stream[:pos]))


class Stuck(Exception):
    pass


def run(items, stream, pos, groups):
    for op, arg in items:
        if op is c.SUBPATTERN:
            g, add, rem, sub = arg
            if add or rem:
                unsupported("inline flags")
            start = pos
            pos = run(list(sub), stream, pos, groups)
            if g is not None:
                groups[g] = stream[start:pos]
        elif op in (c.MAX_REPEAT, c.POSSESSIVE_REPEAT):
            lo, hi, sub = arg
            if len(sub) != 1:
                unsupported("repetition of a sequence")
            pred = char_pred(*sub[0])
            if pred is None:
                unsupported("repetition")
            n = 0
            while pos < len(stream) and n < (hi if hi is not c.MAXREPEAT else 10**9):
                x = stream[pos]
                if isinstance(x, Atom):
                    if hi is not c.MAXREPEAT:
                        unsupported("bounded repetition")
                    r = relation(x.kind, pred)
                    if r == "partly":
                        raise Stuck(f"{x.kind} against {pred}")
                    if r == "out":
                        break
                elif not re.fullmatch(pred, x):
                    break
                pos += 1
                n += 1
            if n < lo:
                raise Stuck("repetition")
        elif op is c.AT and arg in (c.AT_BEGINNING, c.AT_BEGINNING_STRING):
            if pos:
                raise Stuck("begin")
        elif op is c.AT and arg is c.AT_END_STRING:
            if pos != len(stream):
                raise Stuck("end")
        elif op is c.AT and arg is c.AT_END:
            if stream[pos:] not in ([], ["\n"]):
                raise Stuck("end")
            if pos == len(stream) - 1:
                unsupported("$ before a line break")
        else:
            pred = char_pred(op, arg)
            if pred is None:
                unsupported(str(op))
            if pos >= len(stream):
                raise Stuck("end of text")
            x = stream[pos]
            if isinstance(x, Atom):
                if relation(x.kind, pred) == "out":
                    raise Stuck("character")
                raise Stuck(f"{x.kind} against one character")
            if not re.fullmatch(pred, x):
                raise Stuck("character")
            pos += 1
    return pos


def no_match(ctx, pattern, tree, parts, full, why):
    """Greedy matching got stuck: no match if no text of this form is in the pattern's language (backtracking included)."""
    from pv.symval import SStr

    lang = to_z3(list(tree))
    if not full:
        lang = z3.Concat(lang, z3.Full(z3.ReSort(z3.StringSort())))
    if ctx.implied(z3.InRe(ctx.enc.string(SStr(tuple(parts))), lang)) is False:
        return None
    unsupported(f"a match of {pattern.pattern!r} is not decided ({why})")


def to_z3(items):
    out = []
    for op, arg in items:
        if op is c.SUBPATTERN:
            out.append(to_z3(list(arg[3])))
        elif op in (c.MAX_REPEAT, c.MIN_REPEAT):
            lo, hi, sub = arg
            r = to_z3(list(sub))
            if hi is c.MAXREPEAT:
                out += [r] * lo + [z3.Star(r)]
            else:
                out.append(z3.Loop(r, lo, hi))
        elif op is c.LITERAL:
            out.append(z3.Re(chr(arg)))
        elif op is c.IN:
            rs = []
            for o, a in arg:
                if o is c.LITERAL:
                    rs.append(z3.Re(chr(a)))
                elif o is c.RANGE:
                    rs.append(z3.Range(chr(a[0]), chr(a[1])))
                elif o is c.CATEGORY and a is c.CATEGORY_WORD:
                    rs.append(charset("word"))
                elif o is c.CATEGORY and a is c.CATEGORY_DIGIT:
                    rs.append(charset("digit"))
                else:
                    unsupported("set")
            out.append(z3.Union(*rs) if len(rs) > 1 else rs[0])
        elif op is c.BRANCH:
            out.append(z3.Union(*(to_z3(list(x)) for x in arg[1])))
        elif op is c.AT:
            if arg not in (c.AT_BEGINNING, c.AT_BEGINNING_STRING):
                unsupported("anchor")
        else:
            unsupported(str(op))
    if not out:
        return z3.Re("")
    return z3.Concat(*out) if len(out) > 1 else out[0]
