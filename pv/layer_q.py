"""C20: the nesting of chains of two operators as a lemma over the contracts.

By the parse contracts (C) and the contracts of the operator callbacks (A) a chain is reported as what the specification
grammar derives for it.  Here the derivation of every chain of two operators is computed over opaque operands - the
functions of the grammar only place their arguments, so what is shown for opaque operands holds for all - and compared
with the nesting that precedence and associativity define."""
from __future__ import annotations

import re
import time

from pv import precedence
from pv import sgrammar as S
from pv.concrete import Concrete
from pv.known import KNOWN
from pv.layer_a import Result

TOKEN = re.compile(r"\{([abcd])\}|(listKeys)|(::|[<>=!]=|=~|!~|&&|\|\||\?\?|\S)")


class Operand:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"‹{self.name}›"


def tokens(template, by):
    out = []
    for m in TOKEN.finditer(template):
        out.append(by[m[1]] if m[1] else ("LF", m[2]) if m[2] else ("K", m[3]))
    return out


class Derive:
    """All derivations of a token sequence by the expression productions of the specification."""

    def __init__(self, toks):
        self.toks = toks
        self.memo: dict = {}
        self.b = Concrete()

    def phrase(self, nt, i, j):
        k = (nt, i, j)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = []  # no unit cycles
        out = []
        if nt == "Q" and j == i + 1 and isinstance(self.toks[i], Operand):
            out.append(self.toks[i])
        if nt in ("E", "P", "Q"):
            for p in S.BY_NT[nt]:
                if any(isinstance(el, S.R) and el.min or isinstance(el, S.N) and el.nt not in ("E", "P", "Q") for el in p.rhs):
                    continue
                for env in self.seq([el for el in p.rhs if not isinstance(el, S.NL)], i, j):
                    out.append(p.sem(self.b, {**env, "@": None}))
        self.memo[k] = out
        return out

    def seq(self, rhs, i, j):
        if not rhs:
            if i == j:
                yield {}
            return
        el, rest = rhs[0], rhs[1:]
        if isinstance(el, S.R):
            for env in self.seq(rest, i, j):
                yield {el.slot: [], **env}
            return
        if isinstance(el, (S.K, S.T)):
            if i < j and (self.toks[i] == ("K", el.text) if isinstance(el, S.K) else isinstance(self.toks[i], tuple) and self.toks[i][0] == el.cls):
                for env in self.seq(rest, i + 1, j):
                    yield {**env, **({el.slot: self.toks[i][1]} if isinstance(el, S.T) else {})}
            return
        for k in range(i + 1, j - len(rest) + 1) if rest else (j,):
            if k <= i:
                continue
            tails = list(self.seq(rest, k, j))
            if tails:
                for v in self.phrase(el.nt, i, k):
                    for env in tails:
                        yield {**env, el.slot: v}


def same(x, y):
    if isinstance(x, dict) and isinstance(y, dict):
        return x.keys() == y.keys() and all(same(x[k], y[k]) for k in x)
    if isinstance(x, Operand) or isinstance(y, Operand):
        return x is y
    return x == y


def chains():
    """One result per chain that is not recorded as wrong."""
    known = {k["key"]: k["reported"] for k in KNOWN["C20"]}
    by = {n: Operand(n) for n in "abcd"}
    out = []
    for name, template, want in precedence.chains():
        t0 = time.time()
        toks = tokens(template, by)
        got = Derive(toks).phrase("E", 0, len(toks))
        args = [by[n] for n in "abc"]
        exp = want(*args, by["d"]) if "w" in want.__code__.co_varnames else want(*args)
        res = Result(f"chain:{name}", "chain")
        res.paths = 1
        res.solver = 0.0
        if len(got) != 1:
            res.undecided(f"{len(got)} derivations")
        elif not same(got[0], exp):
            if name in known and same(got[0], precedence.substitute_ops(known[name], by)):
                continue
            res.fail(f"nested as {got[0]!r} instead of {exp!r}")
        res.seconds = time.time() - t0
        out.append(res)
    return out
