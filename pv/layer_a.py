"""The contracts of the tree callbacks: for every production of the specification, what pycep's transformer makes of the
tree of the production is its specified value, for all values of its parts.

The trees come from the parser's own machine (pv.lr); the callbacks are executed symbolically from their source text
(pv.interp).  A callback is checked against the contracts of the inner phrases, not against their trees, except for the
phrases that have no value of their own (RAW), which are executed in place.
"""
from __future__ import annotations

import inspect
import itertools
import re
import time

import lark
from lark import Token, Tree

from pv import lr
from pv import sgrammar as S
from pv.interp import FrameViolation, Interp, PyRaise, SObj
from pv.sym import (Builder, Compare, Ctx, Infeasible, Level, Mismatch, NeedFork, OuterFork, Unsupported, actual, advance, changed, env_of, full, items_of, settle,
                    line_marks, token_parts)
from pv.symval import Atom, Encoder, LV, Nested, Root, Seg, SInt, SStr, VDict, VSeq, is_str, serial

RAW = frozenset({"IA", "TM", "CHILD", "RB", "RBO", "ROBJ", "DECL"})
PUBLIC = ("E", "P", "Q", "ARR", "OBJ", "PAIR", "CALL", "LOOP", "D", "BT", "DECO", "DECOS", "ENN", "MB")
INTERNAL = {"PAIR", "BT", "DECOS"}  # contracts of inner phrases that a change may legitimately choose differently
PLUMBING = ("transform", "_transform_tree", "_transform_children", "_call_userfunc", "_call_userfunc_token", "__default__", "__default_token__",
            "__mul__", "__getattr__", "__getattribute__", "__class_getitem__", "__init_subclass__", "__new__")


class OTree:
    """A tree that no callback handles."""

    def __init__(self, data):
        self.data = data

    def __repr__(self):
        return f"Tree({self.data})"


def without(t, slots):
    """The tree without the families of (outermost) repetitions."""
    if not isinstance(t, Tree) or isinstance(t, lr.Leaf):
        return t
    out = object.__new__(type(t))
    out.__dict__.update(t.__dict__)
    out.children = [without(c, slots) for c in t.children if not (isinstance(c, lr.Fam) and (c.slot, *c.index) in slots)]
    return out


def merge(trees):
    """One tree for those that only differ in that a repetition has no members."""
    trees = list(trees)
    again = True
    while again:
        again = False
        for a, b in itertools.permutations(trees, 2):
            none = {k for k, n in a[1].items() if n == {0} and b[1].get(k, {0}) != {0}}
            rest = [k for k in a[1] if k not in none]
            if none and a[1].keys() == b[1].keys() and all(a[1][k] == b[1][k] for k in rest) and lr.show(without(b[0], none)) == lr.show(a[0]):
                trees = [t for t in trees if t is not a and t is not b] + [(b[0], {k: a[1][k] | b[1][k] for k in b[1]})]
                again = True
                break
    return trees


class Engine:
    def __init__(self, repo, cls, families, group_of, raw=RAW):
        self.repo, self.cls, self.group_of = repo, cls, group_of
        self.families = {g: (merge(trees), problem) for g, (trees, problem) in families.items()}
        self.enc = Encoder()
        self.raw_nts = raw
        self.answers: dict = {}
        self.helper, self.helper_known = None, False

    def capture(self, ctx):
        return describe(ctx), guide(ctx)

    # ------------------------------------------------------------ values of phrases (called back by Ctx and Interp)
    def current(self, ctx, v):
        while isinstance(v, LV):
            root = v.root
            o = ctx.override(root)
            if o is None and root.mode == "raw":
                pid = ctx.known(root)
                if pid is None:
                    return v
                o = ctx.cand_value(root, pid)
            if isinstance(o, LV):
                v = LV(o.root, (*o.sub, *v.sub))
                continue
            if o is None and root.mode == "sem":
                i = ctx.level_of(root.path)
                memo = ctx.levels[i].memo
                o = memo.get(("actual", root))
                if o is None:
                    if root in ctx.dirty:
                        raise Unsupported("a part of a phrase was changed in an earlier loop")
                    pid = ctx.known(root)
                    if pid is None:
                        return v
                    x = ctx.cand_value(root, pid)
                    if isinstance(x, LV):
                        v = LV(x.root, (*x.sub, *v.sub))
                        continue
                    o = actual(ctx, x, i)
                    memo[("actual", root)] = o
            for n, k in enumerate(v.sub):
                o = self.current(ctx, o)
                if isinstance(o, LV):
                    o = LV(o.root, (*o.sub, *v.sub[n:]))
                    break
                o = ctx.select(o, k)
            v = o
        return v

    def opened(self, ctx, root):
        """May the value have been changed?"""
        i = ctx.level_of(root.path)
        return ("actual", root) in ctx.levels[i].memo

    def raw_value(self, ctx, root, prod):
        fams, problem = self.families.get(self.group_of[prod.pid], ((), "no tree"))
        if problem or not fams:
            raise Unsupported(f"the trees of {prod.pid}: {problem}")
        i = ctx.decide(("shape", root.nt, root.path), len(fams), root.path) if len(fams) > 1 else 0
        tree, counts = fams[i]
        self.assume_counts(ctx, prod, root.path, counts)
        if prod.nt == "DECL":
            return self.tree(ctx, prod, root.path, tree)
        old, phrase = ctx.frozen, ctx.interp.in_phrase
        ctx.frozen, ctx.interp.in_phrase = serial(), True
        try:
            v = self.tree(ctx, prod, root.path, tree)
            settle(v)
            return v
        finally:
            ctx.frozen, ctx.interp.in_phrase = old, phrase

    def assume_counts(self, ctx, prod, base, counts):
        for name, ns in counts.items():
            rep = (*base, (prod.pid, name[0], *(f"{x}*" for x in name[1:])))
            n = self.enc.integer(SInt.of("count", rep))
            if ns == {0}:
                if ctx.fact(("nonempty", rep)):
                    raise Infeasible
                ctx.assume_fact(("empty", rep), True, rep)
                ctx.levels[ctx.level_of(rep)].forms.append(n == 0)
            elif min(ns) >= 1:
                if ctx.fact(("empty", rep)):
                    raise Infeasible
                ctx.assume_fact(("min", rep), 1, rep)
                ctx.levels[ctx.level_of(rep)].forms.append(n >= 1)

    # ------------------------------------------------------------ lark's Transformer, bottom-up
    def tree(self, ctx, prod, base, node):
        vs = self.node(ctx, prod, base, node)
        if len(vs) != 1:
            raise Unsupported(f"{len(vs)} values for a tree")
        return vs[0]

    def node(self, ctx, prod, base, node):
        I, obj = ctx.interp, ctx.obj
        if node is None:
            return [None]
        if isinstance(node, lr.Leaf):
            mode = "raw" if node.nt in self.raw_nts else "sem"
            root = Root(mode, node.nt, full(base, prod.pid, node.path))
            if mode == "sem":
                ctx.nts.add(node.nt)
            if node.nt == "DECL":
                ctx.cand_value(root, ctx.known(root))
            return [LV(root)]
        if isinstance(node, lr.Fam):
            rep = (*base, (prod.pid, node.slot, *node.index))
            if ctx.fact(("empty", rep)):
                return []
            r = ctx.each_case(rep, lambda: self.member(ctx, prod, base, node))
            seg = Seg(rep, [], ctx.fact(("min", rep)) or 0)
            I.apply_effects(seg, r)
            seg.cases = [(f, x) for f, x, _ in r]
            return [seg]
        if isinstance(node, Token):
            if not isinstance(node, lr.Sym):
                raise Unsupported(f"the token {node!r}")
            v = self.token(prod, base, node)
            if inspect.getattr_static(self.cls, node.type, None) is not None or node.type in obj.attrs:
                v = I.call(I.attr(obj, node.type), [v])
                return [] if v is lark.Discard else [v]
            return [v]
        if not isinstance(node, Tree):
            raise Unsupported(f"the value {node!r}")
        kids = [v for c in node.children for v in self.node(ctx, prod, base, c)]
        name = str(node.data)
        if name in obj.attrs:
            raise Unsupported(f"the callback {name} is an attribute")
        meta = {}
        if not node.meta.empty:
            for k in ("line", "end_line"):
                kind, path = getattr(node.meta, k)
                meta[k] = SInt.of(kind, full(base, prod.pid, path))
        r, found = I.callback(obj, name, kids, meta)
        if not found:
            return [OTree(name)]
        return [] if r is lark.Discard else [r]

    def member(self, ctx, prod, base, fam):
        pid = getattr(ctx, "member_pid", None)
        if pid is not None:
            for t in fam.template:
                if isinstance(t, lr.Leaf) and t.nt == "DECL":
                    path = full(base, prod.pid, t.path)
                    ctx.assume_fact(("set", "DECL", path), frozenset({pid}), path)
                    # outside of its property the specification has no value
                    ctx.cand_value(Root("sem", "DECL", path), pid)
        return [v for t in fam.template for v in self.node(ctx, prod, base, t)]

    def token(self, prod, base, sym):
        el = sym.el
        if isinstance(el, S.K):
            return SStr((el.text,), "Token", str(sym.type))
        if not isinstance(el, S.T):
            raise Unsupported(f"the token {el!r}")
        el = next(e for e in lr.flat(prod.rhs) if isinstance(e, S.T) and e.slot == sym.path[0])
        return SStr(token_parts(el, full(base, prod.pid, sym.path))[1], "Token", str(sym.type))


# --------------------------------------------------------------------------- obligations


class Result:
    """What was found out about one obligation."""

    def __init__(self, name, pid):
        self.name, self.pid = name, pid
        self.status = "proved"
        self.what = None
        self.paths = 0
        self.seconds = 0.0
        self.used: set = set()
        self.facts: list = []
        self.kind = None  # of a failure: value, entry, nested, token, lines, state, raise, frame
        self.guide = None  # what is known about the phrase in the failing case
        self.queries = 0
        self.solver = 0.0
        self.nts: set = set()  # the nonterminals whose contracts are used

    def fail(self, what, facts=(), kind="value", guide=None):
        if self.status != "failed":
            self.status, self.what, self.facts, self.kind, self.guide = "failed", what, list(facts), kind, guide

    def undecided(self, why):
        if self.status == "proved":
            self.status, self.what = "undecided", why

    def __repr__(self):
        return f"{self.name}: {self.status} ({self.paths} paths, {self.seconds:.1f} s){': ' + str(self.what) if self.what else ''}"


MAX_PATHS = 4000
MAX_SECONDS = 120


def explore(engine, name, pid, lines, body):
    """Runs body(ctx) on all paths."""
    res = Result(name, pid)
    t0 = time.time()
    script: list = []
    while script is not None:
        ctx = Ctx(engine, script, lines)
        ctx.interp = I = Interp(ctx, engine.repo)
        res.paths += 1
        try:
            body(ctx)
        except Infeasible:
            pass
        except (Mismatch, PyRaise, FrameViolation) as e:
            r, facts, hint = e.case or (ctx.feasible(), *engine.capture(ctx))
            what = f"raises {e}" if isinstance(e, PyRaise) else f"changes global state: {e}" if isinstance(e, FrameViolation) else str(e)
            if r == "sat" and not ctx.uncertain:
                res.fail(what, facts, "raise" if isinstance(e, PyRaise) else "frame" if isinstance(e, FrameViolation) else e.kind, hint)
            elif r != "unsat":
                res.undecided(f"the solver gives no answer: {what}")
        except (Unsupported, NeedFork, RecursionError, OuterFork) as e:
            res.undecided(f"{type(e).__name__}: {e}")
        res.used |= I.used
        res.nts |= ctx.nts
        if res.status == "failed":
            break
        if res.paths > MAX_PATHS or time.time() - t0 > MAX_SECONDS:
            res.undecided("too many paths")
            break
        script = advance(script)
    res.seconds = time.time() - t0
    return res


def guide(ctx):
    """The failing case, for the search for an input."""
    g = {"set": {}, "empty": set(), "nonempty": set(), "keys": {}, "texts": {}, "ints": {}}
    for lv in ctx.levels:
        for k, v in lv.facts.items():
            if k[0] == "set":
                g["set"][k[1], k[2]] = sorted(v)
            elif k[0] in ("empty", "nonempty"):
                g[k[0]].add(k[1])
            elif k[0] == "min":
                g["nonempty"].add(k[1])
            elif k[0] == "key":
                g["keys"][k[1], k[2]] = v == 0
    m = ctx.model()
    if m is not None:
        from pv.symval import unescape

        for a, x in ctx.enc.vars.items():
            if m[x] is None:
                continue
            if isinstance(a, Atom):
                g["texts"][a.kind, a.path] = unescape(m[x])
            elif str(m[x]).lstrip("-").isdigit():
                g["ints"][a] = int(str(m[x]))
    return g


def describe(ctx):
    out = []
    for lv in ctx.levels:
        for k, v in lv.facts.items():
            if k[0] == "set":
                out.append(f"{k[1]} at {show_path(k[2])} is one of {sorted(v)}" if len(v) > 1 else f"{k[1]} at {show_path(k[2])} is {next(iter(v))}")
            elif k[0] in ("empty", "key"):
                out.append(f"{k[0]} {show_path(k[1])}: {k[2:]} {v}")
    m = ctx.model()
    if m is not None:
        out += [f"{d.name()} = {m[d]}" for d in m.decls()]
    return out


def show_path(path):
    return "/".join(f"{c[0]}.{'.'.join(map(str, c[1:]))}" if isinstance(c, tuple) else str(c) for c in path) or "the phrase"


def transformer(ctx):
    """A fresh transformer."""
    obj = ctx.interp.construct(ctx.engine.cls, [ctx.lines], {})
    ctx.obj = ctx.interp.state = obj
    return obj


def snapshot(obj):
    return {k: (v, list(v.items) if isinstance(v, VSeq) else list(v.log) if isinstance(v, VDict) else None) for k, v in obj.attrs.items()}


def check_state(obj, before):
    now = snapshot(obj)
    if now.keys() != before.keys():
        raise Mismatch("the transformer gets new attributes", "state")
    for k, (v, items) in now.items():
        old, old_items = before[k]
        if (v is not old and v != old) or items != old_items:
            raise Mismatch(f"the transformer's {k} changes while a phrase is processed", "state")


def production(engine, pid, lines):
    """The value of a phrase of the production is the specified one."""
    p = S.BY_PID[pid]
    name = f"value:{pid}{':lines' if lines else ''}"
    fams, problem = engine.families.get(engine.group_of[pid], ((), "no tree"))
    if problem or not fams:
        res = Result(name, pid)
        res.undecided(f"no trees: {problem}")
        return res

    def body(ctx):
        i = ctx.levels[0].next(len(fams)) if len(fams) > 1 else 0
        tree, counts = fams[i]
        engine.assume_counts(ctx, p, (), counts)
        expected = p.sem(ctx.b, env_of(ctx.b, p, ()))
        obj = transformer(ctx)
        before = snapshot(obj)
        ctx.interp.in_phrase = True
        got = engine.tree(ctx, p, (), tree)
        Compare(ctx).same(got, expected)
        check_state(obj, before)

    return explore(engine, name, pid, lines, body)


def plumbing(cls):
    """lark's own transformation is what is executed."""
    from lark.visitors import Transformer

    for n in PLUMBING:
        if inspect.getattr_static(cls, n, None) is not inspect.getattr_static(Transformer, n, None):
            return f"{cls.__name__}.{n} is not lark's"
    return None


# --------------------------------------------------------------------------- nested resources

class Found(Exception):
    def __init__(self, f, roles, pair):
        self.f, self.roles, self.pair = f, roles, pair


def shape(v):
    return [e[1] for e in v.log] if isinstance(v, VDict) else (v.cls, list(v.attrs)) if isinstance(v, SObj) else (v.kind, v.cls)


def components(v):
    """The two components of a small structure, and how to build such a structure."""
    if isinstance(v, VDict) and len(v.log) == 2 and all(e[0] == "k" and isinstance(e[1], str) for e in v.log):
        keys = [e[1] for e in v.log]
        return [e[2] for e in v.log], lambda xs: VDict([("k", k, x) for k, x in zip(keys, xs)])
    if isinstance(v, VSeq) and v.kind == "tuple" and len(v.items) == 2 and not any(isinstance(x, Seg) for x in v.items):
        def seq(xs, cls=v.cls):
            r = VSeq(xs, "tuple")
            r.cls = cls
            return r
        return list(v.items), seq
    if isinstance(v, SObj) and len(v.attrs) == 2:
        def obj(xs, cls=v.cls, names=tuple(v.attrs)):
            r = SObj(cls)
            r.attrs.update(zip(names, xs))
            return r
        return list(v.attrs.values()), obj
    return None


class Helper:
    """The function under the contract for nested resources, and which parameter is what."""

    def __init__(self, f, roles, pair=None):
        self.f, self.roles = f, roles  # roles: {parameter: self, list, name, type, api_version, pair or config}
        self.pair = pair  # how the pair of type and version is built, and which component is which
        self.name = f.__name__

    def make_pair(self, typ, api):
        if self.pair is None:
            return None
        build, order = self.pair
        return build([{"type": typ, "api_version": api}[k] for k in order])

    def split_pair(self, v):
        c = components(v)
        order = self.pair[1]
        if c is None:
            raise Unsupported(f"arguments of {self.name}")
        d = dict(zip(order, c[0]))
        if not (is_str(d["type"]) and is_str(d["api_version"])) or repr(shape(v)) != repr(shape(self.make_pair(d["type"], d["api_version"]))):
            raise Unsupported(f"arguments of {self.name}")
        return d["type"], d["api_version"]

    def bind(self, args, kwargs):
        b = inspect.signature(self.f).bind(*args, **kwargs).arguments
        out = {self.roles[k]: v for k, v in b.items() if k in self.roles}
        if len(out) != len(b) or set(out) != set(self.roles.values()):
            raise Unsupported(f"arguments of {self.name}")
        return out

    def arguments(self, values):
        return {k: values[r] for k, r in self.roles.items()}


def find_helper(engine):
    """What the declaration of a resource calls with its name, type, version and body (found by executing the callback)."""
    if engine.helper_known:
        return engine.helper
    engine.helper_known = True
    pid = "resource"
    rep = ("file", next(e for e in lr.PROD["file"].rhs if isinstance(e, S.R)).slot)
    path = full((), rep[0], ("x", f"{rep[1]}*"))
    names = {str(n.data) for fs, _ in engine.families.values() for tree, _ in fs for n in nodes(tree)}

    def hook(ctx, f, args, kwargs):
        if f.__name__ in names or f.__name__ == "__init__":
            return
        try:
            bound = inspect.signature(f).bind(*args, **kwargs).arguments
        except TypeError:
            return
        if not any(isinstance(v, LV) and v.root.mode == "raw" and v.root.nt in BODIES and not v.sub for v in bound.values()):
            return
        _, name, attrs = items_of(ctx.force(ctx.cand_value(Root("sem", "DECL", path), pid)[0]))
        texts = {"name": name, "type": attrs["type"], "api_version": attrs["api_version"]}
        roles = {}
        pair = None

        def same(a, b):
            return is_str(a) and ctx.implied(ctx.enc.string(a) == ctx.enc.string(b)) is True

        for k, v in bound.items():
            if v is ctx.obj:
                roles[k] = "self"
            elif v is ctx.obj.attrs.get("child_resources"):
                roles[k] = "list"
            elif isinstance(v, LV) and v.root.mode == "raw" and v.root.nt in BODIES and not v.sub:
                roles[k] = "config"
            elif components(v):
                xs, build = components(v)
                order = [[n for n in ("type", "api_version") if same(x, texts[n])] for x in xs]
                if order in ([["type"], ["api_version"]], [["api_version"], ["type"]]):
                    roles[k] = "pair"
                    pair = (build, [n for n, in order])
            elif is_str(v):
                r = [n for n, x in texts.items() if same(v, x)]
                if len(r) == 1:
                    roles[k] = r[0]
        have = set(roles.values())
        if len(roles) == len(bound) == len(have) and {"name", "config"} <= have and ("pair" in have or {"type", "api_version"} <= have) and have & {
                "self", "list"}:
            raise Found(f, roles, pair)

    for p, tree, counts in file_trees(engine):
        if counts.get(("d",)) == {0}:
            continue

        def body(ctx, p=p, tree=tree, counts=counts):
            engine.assume_counts(ctx, p, (), counts)
            transformer(ctx)
            ctx.member_pid = pid
            ctx.interp.on_call = lambda f, a, k: hook(ctx, f, a, k)
            ctx.interp.cur(engine.tree(ctx, p, (), tree))

        try:
            explore(engine, "helper", pid, False, body)
        except Found as e:
            engine.helper = Helper(e.f, e.roles, e.pair)
            return engine.helper
    return None


def nodes(t):
    """All inner nodes of a tree."""
    if isinstance(t, lr.Fam):
        for x in t.template:
            yield from nodes(x)
    elif t is not None and not isinstance(t, (Token, lr.Leaf)):
        yield t
        for c in t.children:
            yield from nodes(c)


BODIES = ("RB", "RBO")


class NestedAttrs:
    """The attributes in an entry of a nested resource that is specified elsewhere."""

    def __init__(self, rec):
        self.rec = rec


def any_text(cls, *path):
    return SStr((Atom("ANY", (("?", *path),)),), cls)


def contract(ctx, args, kwargs):
    """The contract of the helper: the nested resource is taken out of the body, the resources nested in it are collected."""
    I, obj = ctx.interp, ctx.obj
    h = find_helper(ctx.engine)
    HELPER = h.name
    bound = h.bind(args, kwargs)
    if bound.get("self", obj) is not obj or "list" in bound and bound["list"] is not obj.attrs["child_resources"]:
        raise Unsupported(f"arguments of {HELPER}")
    config = bound["config"]
    if isinstance(config, LV) and config.root.mode == "sem" and config.root.nt == "ANYV" and I.typ(config) == "dict":
        return  # the value of a property: the obligation nested:property
    if not (isinstance(config, LV) and config.root.mode == "raw" and config.root.nt in ("RB", "RBO") and not config.sub):
        raise Unsupported(f"{HELPER} is not called with a resource body")
    root = config.root
    spec = LV(Root("sem", root.nt, root.path), (0,))
    level = ctx.level_of(root.path)
    if level != I.level:
        raise Unsupported(f"{HELPER} in a loop")
    memo = ctx.levels[level].memo
    if ("override", root) in memo:
        raise Unsupported(f"{HELPER} is called twice")
    o = ctx.engine.current(ctx, config)
    if isinstance(o, LV):
        memo[("override", root)] = spec
    else:
        new = ctx.engine.current(ctx, spec)
        if new is not o:
            if not (isinstance(o, VDict) and isinstance(new, VDict)):
                raise Unsupported("a resource body that is no object")
            keep = [e for e in o.log if e[0] == "k" and e[1] == "depends_on"]
            I.mutating(o)
            o.log[:] = [e for e in new.log if not (keep and e[0] == "k" and e[1] == "depends_on")] + keep
            memo[("override", root)] = o
    pair = bound.get("pair")
    typ, api = h.split_pair(I.cur(pair)) if pair is not None else (bound["type"], bound["api_version"])
    rep = (*root.path, ("nested", "n"))
    name = SStr((Atom("ANY", (*root.path, ("nested", "name", "n*"))),))
    rec = {"name": bound["name"], "typ": typ, "api": api, "root": root}
    attrs = NestedAttrs(rec)
    rec["entry"] = ("resources", name, attrs)
    inner = VDict([("k", "__name__", name), ("k", "__attrs__", attrs)], I.level)
    rec["item"] = VDict([("k", "resources", inner)], I.level)
    ctx.nested.setdefault(rep, []).append(rec)
    I.m_list_append(I.container(obj.attrs["child_resources"]), Seg(rep, [((), [rec["item"]])]))


def match_nested(ctx, seg, n, item):
    """Is the segment what the contract adds for the specified nested resources?"""
    if len(seg.cases) != 1 or len(seg.cases[0][1]) != 1:
        return False
    got = seg.cases[0][1][0]
    for rec in ctx.nested.get(seg.rep, ()):
        if got is rec["item"] if item else isinstance(got, (VSeq, tuple)) and tuple(items_of(got)) == rec["entry"]:
            break
    else:
        return False
    if (rec["root"].nt, rec["root"].path) != (n.child.root.nt, n.child.root.path):
        return False
    c = Compare(ctx)
    for k, want in (("name", n.parent), ("typ", n.typ), ("api", n.api)):
        c.same(rec[k], want, f"<nested {k}>")
    return True


def same_children(ctx, items, spec, context):
    """Does the code leave it to the contract to collect the same nested resources for the same declaration?"""
    if len(items) != 1 or not isinstance(items[0], Seg) or len(items[0].cases) != 1:
        return False
    for rec in ctx.nested.get(items[0].rep, ()):
        if items[0].cases[0][1] == [rec["item"]] and rec["root"].path != spec.path:
            if ctx.value(LV(spec, (1,))) != ctx.value(LV(Root("sem", rec["root"].nt, rec["root"].path), (1,))):
                return False
            for k, want in zip(("name", "typ", "api"), context):
                Compare(ctx).same(rec[k], want, f"<nested {k}>")
            return True
    return False


def nested_contract(engine, lines, overlay):
    """The helper satisfies its contract for every name, type and body."""
    h = find_helper(engine)
    name = f"nested{':depends_on' if overlay else ''}{':lines' if lines else ''}"
    if h is None:
        res = Result(name, "robj")
        res.undecided("there is no function that takes a resource's name, type, version and body")
        return res
    f = h.f

    def body(ctx):
        I = ctx.interp
        path = (("?", "body"),)
        raw, spec = Root("raw", "RB", path), Root("sem", "RB", path)
        nm, typ, api = any_text("str", "name"), any_text("str", "type"), any_text("str", "api")
        ctx.expand = 1
        entries = S.resource_entries(ctx.b, nm, typ, api, [], False, LV(spec), None)[1:]
        want = LV(spec, (0,))
        obj = transformer(ctx)
        I.contracts[f] = lambda args, kwargs: contract(ctx, args, kwargs)
        if overlay:
            o = I.open(LV(raw))
            deps = LV(Root("sem", "ARR", (("?", "depends_on"),)))
            I.dict_set(o, "depends_on", deps)
            want = dict(ctx.force(want))
            want["depends_on"] = deps
        before = snapshot(obj)
        pair = h.make_pair(typ, api)
        values = {"self": obj, "list": obj.attrs["child_resources"], "name": nm, "type": typ, "api_version": api, "pair": pair, "config": LV(raw)}
        values = {k: v for k, v in values.items() if k in h.roles.values()}
        I.tail = {"values": values, "call": lambda vs: contract(ctx, [], h.arguments(vs))}
        r = I.call_body(f, [], h.arguments(values))
        I.closed = False
        if r is not None:
            raise Unsupported(f"{h.name} has a result")
        c = Compare(ctx)
        c.same(LV(raw), want, "<body>")
        got = obj.attrs["child_resources"]
        if not isinstance(got, VSeq):
            raise Unsupported("child_resources is no list")
        if same_children(ctx, got.items, spec, (nm, typ, api)):
            entries = []
            got = VSeq([])
        if len(got.items) != len(entries):
            raise Mismatch(f"collected resources: expected {entries!r}, got {got.items!r}", "nested")
        for a, x in zip(got.items, entries):
            if isinstance(x, Nested):
                if not (isinstance(a, Seg) and match_nested(ctx, a, x, True)):
                    raise Mismatch(f"collected resources: expected {x!r}, got {a!r}", "nested")
            else:
                c.same(a, {x[0]: {"__name__": x[1], "__attrs__": x[2]}}, "<collected>")
        del before["child_resources"]
        now = obj.attrs.pop("child_resources")
        del now
        check_state(obj, before)

    return explore(engine, name, "robj", lines, body)


def nested_property(engine):
    """The helper does nothing to a dictionary that is the value of a property."""
    h = find_helper(engine)
    name = "nested:property"
    if h is None:
        res = Result(name, "robj")
        res.undecided("there is no function that takes a resource's name, type, version and body")
        return res

    def body(ctx):
        I = ctx.interp
        v = LV(Root("sem", "ANYV", (("?", "property"),)))
        if I.typ(v) != "dict":
            raise Infeasible
        nm, typ, api = any_text("str", "name"), any_text("str", "type"), any_text("str", "api")
        obj = transformer(ctx)
        before = snapshot(obj)
        pair = h.make_pair(typ, api)
        I.contracts[h.f] = lambda args, kwargs: contract(ctx, args, kwargs)
        values = {"self": obj, "list": obj.attrs["child_resources"], "name": nm, "type": typ, "api_version": api, "pair": pair, "config": v}
        r = I.call_body(h.f, [], h.arguments({k: x for k, x in values.items() if k in h.roles.values()}))
        if r is not None:
            raise Unsupported(f"{h.name} has a result")
        if any(k[0] == "override" or k[0] == "actual" and changed(x) for lv in ctx.levels for k, x in lv.memo.items()):
            raise Mismatch("a property is changed", "nested")
        check_state(obj, before)

    return explore(engine, name, "robj", False, body)


# --------------------------------------------------------------------------- declarations and files


def structure(t):
    """A tree without positions."""
    if t is None:
        return None
    if isinstance(t, lr.Leaf):
        return ("leaf", t.nt, t.path)
    if isinstance(t, lr.Fam):
        return ("fam", t.slot, t.index, *map(structure, t.template))
    if isinstance(t, Token):
        return ("token", t.type, getattr(t, "path", str(t)))
    return (str(t.data), *map(structure, t.children))


def file_trees(engine):
    """[(production, tree, counts)] of a file, one per structure."""
    seen, out = set(), []
    for p in lr.FILE_PRODS:
        fams, problem = engine.families.get(engine.group_of[p.pid], ((), "no tree"))
        if problem or not fams:
            raise Unsupported(f"the trees of a file: {problem}")
        for tree, counts in fams:
            raw = inspect.getattr_static(engine.cls, str(tree.data), None)
            k = (structure(tree), None if inspect.isfunction(raw) else id(tree))
            if k not in seen:
                seen.add(k)
                out.append((p, tree, counts))
    return out


def default_scope(lines):
    return {"value": "resourceGroup", **({"__start_line__": 0, "__end_line__": 0} if lines else {})}


def match_entries(ctx, got, want, at):
    """The (section, name, attributes) of the actual and the specified entries."""
    c = Compare(ctx)
    got = [g for g in got if not (isinstance(g, Seg) and ctx.fact(("empty", g.rep)))]
    for w in want:
        if isinstance(w, Seg) and ctx.fact(("empty", w.rep)):
            continue
        for n, g in enumerate(got):
            if isinstance(w, Nested):
                if isinstance(g, Seg) and match_nested(ctx, g, w, False):
                    del got[n]
                    break
            elif isinstance(w, Seg):
                if isinstance(g, Seg) and g.rep == w.rep:
                    ctx.each_case(w.rep, lambda g=g, w=w: match_entries(ctx, ctx.choose_case(g), ctx.choose_case(w), at + "*"))
                    del got[n]
                    break
            elif not isinstance(g, Seg):
                k, name, attrs = items_of(g)
                k = ctx.engine.current(ctx, k)
                w_ = ctx.force(w)
                if k == w_[0] and c.same_key(("k", ctx.engine.current(ctx, name)), ("k", w_[1])):
                    c.same(attrs, w_[2], f"{at}{w_[0]}/{w_[1]!r}/")
                    del got[n]
                    break
        else:
            raise Mismatch(f"{at}: expected the entry {w!r}, got {got!r}", "nested" if isinstance(w, Nested) else "entry")
    if got:
        raise Mismatch(f"{at}: unexpected entries {got!r}", "entry")


def declaration(engine, pid, lines):
    """A file in which a declaration of the production occurs among any others: what is reported for it."""
    name = f"file:{pid}{':lines' if lines else ''}"
    try:
        trees = [t for t in file_trees(engine) if t[2].get(("d",)) != {0}]
        if not trees:
            raise Unsupported("no trees of a file with declarations")
    except Unsupported as e:
        res = Result(name, pid)
        res.undecided(str(e))
        return res
    h = find_helper(engine) if any(isinstance(e, S.N) and e.nt == "RB" for e in S.BY_PID[pid].rhs) else None
    f = h and h.f

    def body(ctx):
        p, tree, counts = trees[ctx.levels[0].next(len(trees))] if len(trees) > 1 else trees[0]
        I = ctx.interp
        engine.assume_counts(ctx, p, (), counts)
        ctx.member_pid = pid
        obj = transformer(ctx)
        if S.BY_PID[pid].nt == "DECL" and any(isinstance(e, S.N) and e.nt == "RB" for e in S.BY_PID[pid].rhs):
            if f is None:
                raise Unsupported("there is no function that takes a resource's name, type, version and body")
            I.contracts[f] = lambda args, kwargs: contract(ctx, args, kwargs)
        got = I.cur(engine.tree(ctx, p, (), tree))
        compare_file(ctx, got, lines, pid)

    return explore(engine, name, pid, lines, body)


def compare_file(ctx, got, lines, pid):
    if not isinstance(got, VDict):
        raise Mismatch(f"the result of a file is {got!r}")
    fixed = VDict([e for e in got.log if e[0] == "k"])
    try:
        Compare(ctx).same(fixed, {"globals": {"scope": default_scope(lines)}})
    except Mismatch as e:
        raise Mismatch(str(e), e.kind if e.kind in ("lines", "token") else "scope") from None
    subs = [e[1] for e in got.log if e[0] == "sub"]
    if any(e[0] == "seg" for e in got.log):
        raise Unsupported("sections that are set directly")
    if pid is None:
        if subs:
            raise Mismatch("entries for an empty file", "entry")
        return
    el = next(e for e in lr.PROD["file"].rhs if isinstance(e, S.R))
    reps = {s.rep for s in subs}
    if len(reps) > 1 or len(next(iter(reps), ((),))) != 1:
        raise Unsupported("entries of more than one loop")
    rep = next(iter(reps), (("file", el.slot),))

    def case():
        items = []
        path = full((), rep[0][0], ("x", f"{el.slot}*"))
        ctx.assume_fact(("set", "DECL", path), frozenset({pid}), path)
        for s in subs:
            items += ctx.choose_case(s)
        want = ctx.cand_value(Root("sem", "DECL", path), pid)
        match_entries(ctx, items, want, "")

    ctx.each_case(rep, case)


def empty_file(engine, lines):
    """A file without declarations."""
    name = f"file:empty{':lines' if lines else ''}"

    def body(ctx):
        trees = [t for t in file_trees(engine) if t[2].get(("d",)) == {0}]
        if not trees:
            raise Unsupported("no trees of an empty file")
        p, tree, counts = trees[ctx.levels[0].next(len(trees))] if len(trees) > 1 else trees[0]
        engine.assume_counts(ctx, p, (), counts)
        transformer(ctx)
        compare_file(ctx, ctx.interp.cur(engine.tree(ctx, p, (), tree)), lines, None)

    return explore(engine, name, "file", lines, body)


def invalid_scope(engine):
    """A scope that is none of the documented ones is rejected."""
    pid = "targetScope"
    p = S.BY_PID[pid]
    q = S.Prod(p.nt, p.pid, tuple(S.T("NOSCOPE", e.slot) if isinstance(e, S.T) and e.cls == "QSCOPE" else e for e in p.rhs), p.sem)

    def body(ctx):
        fams, problem = engine.families.get(engine.group_of[pid], ((), "no tree"))
        if problem or not fams:
            raise Unsupported(f"no trees: {problem}")
        tree, counts = fams[ctx.levels[0].next(len(fams))] if len(fams) > 1 else fams[0]
        transformer(ctx)
        try:
            v = engine.tree(ctx, q, (), tree)
        except PyRaise as e:
            if not issubclass(e.typ, ValueError):
                raise
            return
        raise Mismatch(f"a scope that does not exist is accepted: {v!r}", "scope")

    return explore(engine, "scope:invalid", pid, False, body)
