"""The bounded part: generated files through the real parser, compared with their meaning by the specification.

A difference is attributed to the property of the smallest phrase that shows one (see `Blame`), so
that a check only speaks about its own property.
"""
from __future__ import annotations

import copy
import json
import random
import signal

from pv import sgrammar as S
from pv.concrete import Elem, Lit, diff, leaf, plain
from pv.gen import DEFAULT_LAYOUT, Brk, File, Gen, Layout, Rep, Tok, distinct, sane


class Finding(Exception):
    """A violation with the input that shows it."""

    def __init__(self, prop, what, replay):
        super().__init__(what)
        self.prop, self.what, self.replay = prop, what, replay


# where a phrase of a nonterminal stands when it is tested alone
ISO = {
    "E": ("var", "v"), "P": ("e.prim", "p"), "Q": ("p.q", "a"), "ARR": ("q.array", "a"), "OBJ": ("q.object", "a"),
    "CALL": ("q.call", "a"), "ENN": ("deco.minValue", "a"), "LOOP": ("var.loop", "v"), "RB": ("resource", "b"),
    "RBO": ("rb.cond", "body"), "ROBJ": ("rb.child", "a"), "CHILD": ("robj", "child"), "PAIR": ("obj.lines", "x"),
    "D": ("param", "t"), "BT": ("d.type", "b"), "DECO": ("decos", "d"), "DECOS": ("param.deco", "decos"),
    "MB": ("module.local", "b"), "TM": ("type.union", "v"), "IA": ("import.one", "x"),
}


def _path(rhs, slot, pre=()):
    for i, el in enumerate(rhs):
        if isinstance(el, S.N) and el.slot == slot:
            return pre + (i,)
        if isinstance(el, S.R):
            p = _path(el.body, slot, pre + (i,))
            if p:
                return p
    return None


def isolated(node):
    """The phrase in the simplest surroundings."""
    g = Gen(random.Random(0), keywords=0)
    while node.prod.nt != "DECL":
        pid, slot = ISO[node.prod.nt]
        p = S.BY_PID[pid]
        node = g.make_with(p, _path(p.rhs, slot), node, 0)
    return node


class Hangs(BaseException):
    """A parse takes too much time."""


def _hangs(*_):
    raise Hangs


class Subject:
    """The code under test."""

    seconds = 20.0  # CPU time for one file

    def __init__(self):
        from lark.exceptions import LarkError, UnexpectedInput, VisitError
        from pycep import BicepParser

        self.UnexpectedInput, self.VisitError, self.LarkError = UnexpectedInput, VisitError, LarkError
        self.BicepParser = BicepParser
        self.plain = BicepParser(cache=False)
        self.lined = BicepParser(cache=False, add_line_numbers=True)

    def run(self, text, lines=False):
        """("ok", result) | ("syntax"|"convert"|"error", description)"""
        signal.signal(signal.SIGVTALRM, _hangs)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.seconds)
        try:
            return "ok", (self.lined if lines else self.plain).parse(text=text)
        except Hangs:
            self.seconds = 2.0
            return "hang", "no answer within 20 seconds"
        except self.VisitError as e:
            return "convert", f"{type(e.orig_exc).__name__}: {e.orig_exc} (while converting)"
        except self.UnexpectedInput as e:
            return "syntax", f"rejected: {str(e).splitlines()[0]}"
        except Exception as e:  # noqa: BLE001
            return "error", f"{type(e).__name__}: {e}"
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)

    def compare(self, f: File, lay, lines):
        """(None | description, kind, text)"""
        text = f.text(lay)
        kind, res = self.run(text, lines)
        if kind != "ok":
            return res, kind, text
        return diff(f.expected(lines), res), kind, text


def leaves(x):
    if isinstance(x, (dict, list)):
        for v in x.values() if isinstance(x, dict) else x:
            yield from leaves(v)
    elif isinstance(x, (Elem, Lit)) or type(x) is int:
        yield x


MARKERS = ("__child_resource__", "__name__", "__attrs__")


def jsonish(x, path="", text=None):
    if type(x) is dict:
        for k, v in x.items():
            if not isinstance(k, str) or type(k).__name__ == "Token":
                return f"{path}: key {k!r}"
            if k in MARKERS and text is not None and k not in text:
                return f"{path}: marker {k!r}"
            r = jsonish(v, f"{path}/{k}", text)
            if r:
                return r
        return None
    if type(x) is list:
        for i, v in enumerate(x):
            r = jsonish(v, f"{path}/{i}", text)
            if r:
                return r
        return None
    if isinstance(x, str):
        return None if type(x).__name__ in ("str", "BicepElement") else f"{path}: {type(x).__name__} {x!r}"
    if x is None or type(x) in (bool, int):
        return None
    return f"{path}: {type(x).__name__} {x!r}"


class Bounded:
    def __init__(self, seed, repo="/repo"):
        from pv.mine import Pool

        self.seed = seed
        self.pool = Pool(repo)
        self.sub = Subject()
        self.cases = 0
        self.other: dict[str, int] = {}  # differences that belong to other properties

    # ---- one file
    def check(self, prop, f: File, lay=DEFAULT_LAYOUT):
        text = f.text(lay)
        if not sane(text):
            return
        self.cases += 1
        for lines in (False, True):
            what, kind, text = self.sub.compare(f, lay, lines)
            if what is None:
                kind, res = self.sub.run(text, lines)
                r = jsonish(res)
                if r is None and json.loads(json.dumps(res)) != res:
                    r = "not equal to its JSON round trip"
                if r:
                    self.report(prop, {"C16"}, f"not plain JSON data: {r}", f, lay, lines, text)
                continue
            if what and lines:
                self.report(prop, {"C04"}, f"with line numbers: {what}", f, lay, lines, text)
                return
            if prop == "C01" and kind == "ok":
                # only the sections and their keys
                exp, (_, res) = f.expected(False), self.sub.run(text, False)
                e = {s: sorted(v) for s, v in exp.items()}
                a = {s: sorted(map(str, v)) for s, v in res.items()}
                if e != a:
                    self.report(prop, {"C01"}, f"sections and names: expected {e}, got {a}", f, lay, lines, text)
            blamed, sub, swhat, stext = self.blame(f, lay)
            if kind in ("convert", "hang"):
                blamed = set(blamed) | {"C17"}
            if prop == "C09" and kind == "ok" and self.unfaithful(f, lay):
                blamed = set(blamed) | {"C09"}
            if prop == "C16" and kind == "ok":
                r = jsonish(self.sub.run(text, False)[1], "", text)
                if r:
                    self.report(prop, {"C16"}, f"not plain JSON data: {r}", f, lay, False, text)
            self.report(prop, blamed, swhat or what, sub or f, lay if sub is None else DEFAULT_LAYOUT, False, stext or text)
            return

    def unfaithful(self, f, lay):
        """Is a literal or an identifier of the file reported as something that is not in the file?"""
        kind, res = self.sub.run(f.text(lay))
        pair = leaf(f.expected(False), res) if kind == "ok" else None
        if pair is None or not isinstance(pair[0], (Elem, Lit)) and type(pair[0]) is not int:
            return False
        return not any(diff(e, pair[1]) is None for e in leaves(f.expected(False)))

    def report(self, prop, blamed, what, f, lay, lines, text):
        if prop not in blamed and not (prop == "C20" and "C05" in blamed and f.decls):
            for b in blamed:
                self.other[b] = self.other.get(b, 0) + 1
            return
        try:
            exp = plain(f.expected(lines))
        except Exception:  # noqa: BLE001
            exp = None
        kind, res = self.sub.run(text, lines)
        raise Finding(prop, what, {"text": text, "add_line_numbers": lines, "what": what, "expected": exp,
                                   "outcome": kind, "reported": json.loads(json.dumps(res, default=repr))})

    def blame(self, f: File, lay):
        for d in f.decls:
            for node in d.walk():
                if not node.prod.props:
                    continue
                one = File([d if node is d else isolated(node)])
                what, kind, text = self.sub.compare(one, DEFAULT_LAYOUT, False)
                if what is not None:
                    return set(node.prod.props), one, what, text
        what, _, text = self.sub.compare(f, DEFAULT_LAYOUT, False)
        if what is None:
            return {"C19"} | self.separators(f, lay), None, None, None
        return {"C01"}, None, what, text

    def separators(self, f, lay):
        """{"C10"} if an array or object of the file is reported wrongly with comments and line breaks between its elements."""
        if lay.rng is None:
            return set()
        for d in f.decls:
            for node in d.walk():
                if {"C10", "C19"} <= set(node.prod.props):
                    one = File([isolated(node)])
                    for k in range(8):
                        two = []
                        for _ in range(2):
                            l2 = copy.copy(lay)
                            l2.rng = random.Random(k)
                            two.append(l2)
                        if sane(one.text(two[0])) and self.sub.compare(one, two[1], False)[0] is not None:
                            return {"C10"}
        return set()

    # ---- families of files
    def layouts(self, rng, i):
        if i % 2 == 0:
            return DEFAULT_LAYOUT
        return Layout(rng, tight=rng.choice([0, 0.5, 1]), wide=0.2, block=rng.choice([0, 0, 0.2]), comments=rng.choice([0, 0.3, 1]),
                      crlf=rng.choice([0, 0, 1, 0.3]), blank=0.2, extra_breaks=rng.choice([0, 0.3]), hashes=rng.choice([0, 0.2]))

    def productions(self, prop, per, depth, prods=None, extra=3):
        rng = random.Random(f"{self.seed}/{prop}/prods")
        g = Gen(rng)
        for p in prods if prods is not None else [p for p in S.PRODS if prop in p.props]:
            for k in range(per):
                d = g.embed(g.make(p, 1 + (k % depth)), extra=k % extra, depth=k % 2)
                self.check(prop, File(distinct([d])), self.layouts(rng, k))

    def mixed(self, prop, count, size, depth, lay=None):
        """Files of several declarations."""
        rng = random.Random(f"{self.seed}/{prop}/mixed")
        g = Gen(rng)
        for k in range(count):
            decls = distinct([g.node("DECL", rng.randint(1, depth)) for _ in range(rng.randint(0, size))])
            f = File(decls, Brk(0, None, rng.choice([0, 1])), Brk(0, None, rng.choice([0, 1])))
            self.check(prop, f, lay(rng, k) if lay else self.layouts(rng, k))

    def pairs(self, prop, budget, prods):
        """Every phrase as part of the productions, with one member per repetition."""
        for d in paired(random.Random(f"{self.seed}/{prop}/pairs"), prods, budget):
            self.check(prop, File(distinct([d])))

    def mined(self, prop, per, prods, mixed=0):
        """Files with the words and numbers of the source."""
        from pv.mine import Mined

        rng = random.Random(f"{self.seed}/{prop}/mined")
        for p in prods:
            for k in range(per):
                g = Mined(rng, self.pool, rng.choice([0.3, 0.6, 0.95]))
                d = g.embed(g.make(p, 1 + k % 2), extra=k % 2, depth=k % 2)
                self.check(prop, File(distinct([d])), DEFAULT_LAYOUT)
        for k in range(mixed):
            g = Mined(rng, self.pool, rng.choice([0.3, 0.6, 0.95]))
            decls = distinct([g.node("DECL", rng.randint(1, 3)) for _ in range(rng.choice([1, 2, 4, rng.choice(g.sizes)]))])
            self.check(prop, File(decls, Brk(0, None, k % 2)), self.layouts(rng, k))

    def many(self, prop, prods):
        """Files and phrases with more members than a size that the source has and did not have before."""
        from pv.mine import Mined

        rng = random.Random(f"{self.seed}/{prop}/many")
        plain = [S.BY_PID[p] for p in ("var", "output", "param", "resource.existing") if p in S.BY_PID]
        for n in [n for n in self.pool.new_numbers if 20 < n <= 300][:3]:
            g = Mined(rng, self.pool, 0.2)
            kinds = plain + rng.sample(S.BY_NT["DECL"], 5)
            for p in kinds:
                decls = [g.make(p, 0) for _ in range(n + 3)]
                for i, d in enumerate(decls):
                    t = next((x for x in d.parts if getattr(x, "cls", None) == "ID"), None)
                    if t is not None:
                        t.text = t.val = f"{rng.choice('ab_')}{i}{rng.choice(['', '_', 'A', '__b'])}"
                self.check(prop, File(distinct(decls)))
            reps = [p for p in prods if any(isinstance(el, S.R) for el in p.rhs)]
            for p in rng.sample(reps, min(8, len(reps))):
                node = g.make(p, 0)
                for rep in node.parts:
                    if isinstance(rep, Rep):
                        while len(rep.its) < n + 3:
                            if rep.its:
                                rep.seps.append(g.seq(rep.el.sep, 0))
                            rep.its.append(g.seq(rep.el.body, 0))
                        break
                self.check(prop, File(distinct([g.embed(node, depth=0)])))

    def falsy(self, prop, prods):
        """Every value position of the productions with every falsy and unusual value."""
        rng = random.Random(f"{self.seed}/{prop}/falsy")
        g = Gen(rng, keywords=0)
        pool = [Node_of(g, pid, v) for pid, v in POOL]
        for p in prods:
            for path in e_positions(p.rhs):
                for inner in pool:
                    d = g.embed(g.make_with(p, path, inner, 0), depth=0)
                    self.check(prop, File([d]))


class One(Gen):
    """One member per repetition."""

    def reps(self, el, depth):
        return max(el.min, 1)


def paired(rng, prods, budget, make=None):
    """Declarations with the productions around every phrase; lists and objects also around every phrase."""
    from pv.guided import chain
    from pv.sym import bases

    def kids(nt):
        out = [b for b in bases(nt) if not b.startswith("call.")]
        calls = [b for b in bases(nt) if b.startswith("call.")]
        return out + (rng.sample(calls, 3) if len(calls) > 3 else calls)

    def within(g, nt, node):
        """The phrase as one of nt, or None."""
        way = chain(nt, node.prod.nt)
        if nt == "ANYV" and way is None:
            way = chain("E", node.prod.nt)
        if way is None:
            return None
        for wpid, slot in reversed(way):
            w = S.BY_PID[wpid]
            node = g.make_with(w, _path(w.rhs, slot), node, 0)
        if nt == "ANYV" and node.prod.nt not in ("E", "LOOP"):
            return None
        return node

    todo = []
    deep = [S.BY_PID[x] for x in ("arr.lines", "obj.lines")]
    for p in prods:
        for nt, path in positions(p.rhs):
            ks = kids(nt)
            todo += [(p, path, nt, k, None) for k in ks]
            if make and "any.object" in ks:
                todo += [(p, path, nt, "any.object", "mined")] * 12
            for k in ks:
                if k in ("any.list", "any.object"):
                    q = deep[k == "any.object"]
                    todo += [(p, path, nt, q, k2) for k2 in kids("ANYV")]
                elif k in S.BY_PID:
                    q = S.BY_PID[k]
                    todo += [(p, path, nt, q, k2) for nt2, _ in list(positions(q.rhs))[:1] for k2 in kids(nt2)[:6]]
    if len(todo) > budget:
        todo = rng.sample(todo, budget)
    for p, path, nt, kid, kid2 in todo:
        g = make() if make and (kid2 == "mined" or rng.random() < 0.5) else One(rng, keywords=0.02)
        if kid2 == "mined":
            g.chance, kid2 = 1.9, None
        if kid2 is None:
            inner = {"any.list": S.BY_NT["ARR"], "any.object": S.BY_NT["OBJ"]}.get(kid) or [S.BY_PID[kid]]
            node = g.make(rng.choice([q for q in inner if not q.pid.endswith(".empty")]), rng.choice([1, 1, 2]))
        else:
            inner = {"any.list": S.BY_NT["ARR"], "any.object": S.BY_NT["OBJ"]}.get(kid2) or [S.BY_PID[kid2]]
            node = g.make(rng.choice([q for q in inner if not q.pid.endswith(".empty")]), 1)
            if kid in deep:
                n2, where = rng.choice(list(positions(kid.rhs)))
                if n2 == "PAIR":
                    pr = S.BY_PID["pair.id.loop" if node.prod.nt == "LOOP" else "pair.id"]
                    node = within(g, next(el.nt for el in pr.rhs if isinstance(el, S.N)), node)
                    if node is None:
                        continue
                    node = g.make_with(pr, next(x for _, x in positions(pr.rhs)), node, 0)
                else:
                    node = within(g, n2, node)
            else:
                n2, where = next(positions(kid.rhs))
                node = within(g, n2, node)
            if node is None:
                continue
            node = g.make_with(kid, where, node, 0)
        node = within(g, nt, node)
        if node is None:
            continue
        try:
            yield g.embed(g.make_with(p, path, node, 0), depth=0)
        except KeyError:
            continue


def positions(rhs, pre=()):
    for i, el in enumerate(rhs):
        if isinstance(el, S.N):
            yield el.nt, pre + (i,)
        elif isinstance(el, S.R):
            yield from positions(el.body, pre + (i,))


POOL = [("q.null", None), ("q.false", None), ("q.int", ("0", 0)), ("q.string", ("''", "")), ("q.mls", ("''''''", "")), ("arr.empty", None),
        ("obj.empty", None), ("q.ident", ("null_", "null_")), ("q.true", None), ("q.string", ("'null'", "null"))]


def Node_of(g, pid, v):
    p = S.BY_PID[pid]
    n = g.make(p, 0)
    if v is not None:
        for i, el in enumerate(p.rhs):
            if isinstance(el, S.T):
                n.parts[i] = Tok(v[0], el.cls, v[1])
    while n.prod.nt != "E":
        pp, slot = {"Q": ("p.q", "a"), "P": ("e.prim", "p"), "ARR": ("q.array", "a"), "OBJ": ("q.object", "a")}[n.prod.nt]
        n = g.make_with(S.BY_PID[pp], _path(S.BY_PID[pp].rhs, slot), n, 0)
    return n


def e_positions(rhs, pre=()):
    for i, el in enumerate(rhs):
        if isinstance(el, S.N) and el.nt == "E":
            yield pre + (i,)
        elif isinstance(el, S.R):
            yield from e_positions(el.body, pre + (i,))
