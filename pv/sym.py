"""Path exploration, unknown phrases, the symbolic builder of specified values, comparison.

An execution is repeated with recorded decisions until all its paths are covered.  A decision about the
members of a repetition is taken for the generic member, in a nested exploration, so that one pass covers
any number of members.
"""
from __future__ import annotations

from dataclasses import dataclass
from functools import lru_cache
from typing import Any

from pv import sgrammar as S
from pv.symval import (Apply, Atom, Encoder, IntText, Join, LV, Nested, Root, Seg, SegKey, SInt, SStr, Unsupported, VDict, VSeq, check, int_add, int_mul,
                       is_str, make_str, nonempty, norm, parts_of, serial, z3)


class Infeasible(Exception):
    """The current path cannot happen."""


class NeedFork(Exception):
    """A decision is needed where none is allowed."""


class OuterFork(Exception):
    def __init__(self, level, redo):
        self.level, self.redo = level, redo


class Failure(Exception):
    """`case`: (feasible?, description, guide) of where it happened."""

    case = None


class Mismatch(Failure):
    """The code does something else than specified; `kind`: value, entry, nested, token, lines, state."""

    def __init__(self, what, kind="value"):
        super().__init__(what)
        self.kind = kind


class Level:
    def __init__(self, rep, script):
        self.rep, self.script, self.pos = rep, script, 0
        self.facts: dict = {}
        self.forms: list = []
        self.memo: dict = {}
        self.effects: list | None = None
        self.subs: list = []
        self.serial = serial()

    def next(self, n):
        if self.pos == len(self.script):
            self.script.append([0, n])
        c, m = self.script[self.pos]
        assert m == n, "the exploration is not deterministic"
        self.pos += 1
        return c


def advance(script):
    """The next script, or None."""
    while script and script[-1][0] + 1 == script[-1][1]:
        script.pop()
    if not script:
        return None
    script[-1][0] += 1
    return script


def member_of(path, rep):
    """Does the path lead into the generic member of the repetition?"""
    d = len(rep) - 1
    comp = rep[-1]  # (pid, slot, *index)
    if len(path) <= d or path[:d] != rep[:-1]:
        return False
    c = path[d]
    idx = (*comp[2:], f"{comp[1]}*")
    return isinstance(c, tuple) and c[0] == comp[0] and c[2: 2 + len(idx)] == idx


# --------------------------------------------------------------------------- the specified values, symbolically


class Rep:
    """What a repetition is bound to in the environment of a specification function."""

    def __init__(self, b, prod, base, el, index):
        self.b, self.prod, self.base, self.el, self.index = b, prod, base, el, index
        self.rep = (*base, (prod.pid, el.slot, *index))

    def env(self):
        return build_env(self.b, self.prod, self.base, self.el.body, (*self.index, f"{self.el.slot}*"))


def full(base, pid, path):
    return (*base, (pid, *path))


QM_KIND = {
    "local": {"path": "MP.local"}, "br.public": {"path": "MP.path", "tag": "MP.tag"}, "br": {"registry": "MP.registry", "path": "MP.path.", "tag": "MP.tag"},
    "br.alias": {"alias": "MP.aliasx", "path": "MP.path.", "tag": "MP.tag"}, "br.alias.public": {"path": "MP.path.", "tag": "MP.tag"},
    "ts": {"sub": "MP.sub", "rg": "MP.rg", "name": "MP.name", "version": "MP.version"},
    "ts.alias": {"alias": "MP.alias", "path": "MP.path", "tag": "MP.tag"}}


def token_parts(el, path):
    """(content bound to the slot, parts of the token's text)."""
    c = el.cls
    if c in ("ID", "LF", "DNU"):
        a = Atom(c, path)
        return SStr((a,), "text"), (a,)
    if c in ("FNU", "FNUQ"):
        a = Atom(c, path)
        return SStr((a,), "text"), (a, "(")
    if c == "INT":
        return SInt.of("int", path), (Atom("INT", path),)
    if c in ("QS", "QSCOPE", "NOSCOPE"):
        a = Atom({"QSCOPE": "SCOPE"}.get(c, c), path)
        return SStr((a,), "text"), ("'", a, "'")
    if c == "MLS":
        a = Atom("MLS+" if el.arg else "MLS", path)
        return SStr((a,), "text"), ("'''", el.arg or "", a, "'''")
    if c == "FN":
        return el.arg, (el.arg + "(",)
    if c == "DN":
        return el.arg, (el.arg,)
    if c == "STAR":
        return "*", ("*",)
    if c == "QT":
        a = Atom("QS", path)
        return SStr((a,), "text"), ("'", a, "'")
    if c == "QTA":
        t, v = Atom("QTA.type", path), Atom("QTA.api", path)
        return (SStr((t,), "text"), SStr((v,), "text")), ("'", t, "@", v, "'")
    if c == "QM":
        kinds = QM_KIND[el.arg]
        atoms = {k: Atom(kinds[k], (*path, k)) for k in kinds}
        text = [atoms[x[1:-1]] if x[0] == "{" else x for x in S.MODULE_PATHS[el.arg][0]]
        return {k: SStr((a,), "text") for k, a in atoms.items()}, ("'", *text, "'")
    raise AssertionError(c)


def build_env(b, prod, base, rhs, index):
    e: dict = {}
    for el in rhs:
        if isinstance(el, S.T):
            e[el.slot] = token_parts(el, full(base, prod.pid, (el.slot, *index)))[0]
        elif isinstance(el, S.N):
            e[el.slot] = LV(Root("sem", el.nt, full(base, prod.pid, (el.slot, *index))))
        elif isinstance(el, S.R):
            e[el.slot] = Rep(b, prod, base, el, index)
    return e


def mark(rhs, last, empty=()):
    """The path of the first or last token or phrase; `empty`: the repetitions without members."""
    for el in reversed(rhs) if last else rhs:
        if isinstance(el, S.NL):
            continue
        if isinstance(el, S.R):
            if (el.slot,) in empty:
                continue
            p = mark(el.body, last)
            return (p[0], f"{el.slot}{'$' if last else '^'}", *p[1:])
        return (f"'{el.text}'",) if isinstance(el, S.K) else (el.slot,)
    raise AssertionError(rhs)


def line_marks(prod, empty=()):
    return mark(prod.rhs, False, empty), mark(prod.rhs, True, empty)


def env_of(b, prod, base):
    e = build_env(b, prod, base, prod.rhs, ())
    if b.lines:
        first, last = line_marks(prod)
        e["@"] = (SInt.of("line", full(base, prod.pid, first)), SInt.of("end_line", full(base, prod.pid, last)))
    else:
        e["@"] = None
    return e


class Builder:
    """The builder for unknown parts (see concrete.Concrete)."""

    concrete = False

    def __init__(self, ctx, lines):
        self.ctx, self.lines = ctx, lines

    def text(self, x):
        return SStr(parts_of(x), "text")

    def elem(self, x):
        return SStr(parts_of(x), "elem")

    def lit(self, x):
        return SStr(parts_of(x), "lit")

    def cat(self, *xs):
        return SStr(norm([p for x in xs for p in parts_of(x)]), "text")

    def map(self, rep, fn):
        if self.ctx.fact(("empty", rep.rep)):
            return []
        return [Seg(rep.rep, [((), [fn(rep.env())])], max(rep.el.min, self.ctx.fact(("min", rep.rep)) or 0))]

    def concat(self, lists):
        out = []
        for x in lists:
            if isinstance(x, Seg):
                out.append(x.mapped(self.concat))
            else:
                out += x
        return out

    def dict(self, pairs):
        d: dict = {}
        for x in pairs:
            if isinstance(x, Seg):
                d[SegKey(x)] = None
            else:
                d[x[0]] = x[1]
        return d

    def numbered(self, d, prefix, start, items):
        n = start
        for x in items:
            if isinstance(x, Seg):
                only = x.only()
                if only is None or len(only) != 1:
                    raise Unsupported("numbered repetition")
                i = int_add(x.index, n)
                d[SegKey(Seg(x.rep, [((), [(SStr(norm((prefix, IntText(i))), "text"), only[0])])], x.min))] = None
                n = int_add(n, x.count)
            else:
                d[SStr(norm((prefix, IntText(n))), "text") if isinstance(n, SInt) else f"{prefix}{n}"] = x
                n = int_add(n, 1)

    def copy(self, x):
        return dict(x) if isinstance(x, dict) else x

    def with_parent(self, config, parent):
        return self.ctx.with_parent(config, SStr(parts_of(parent), "elem"))

    def nested(self, child, fn, *context):
        if not isinstance(child, LV):
            raise AssertionError("the body of a resource is a phrase")
        if not self.ctx.expand:
            return [Nested(*context, child)]
        self.ctx.expand -= 1
        child = self.ctx.settle_child(child)
        if isinstance(child, LV):
            raise Unsupported("a nested resource that is not known")
        return [] if child is None else fn(child)

    def lined(self, attrs, lines):
        if lines is None:
            return attrs
        return {**attrs, "__start_line__": lines[0], "__end_line__": lines[1]}

    def wrap_arrays(self, base, rep):
        if self.ctx.fact(("empty", rep.rep)):
            return base
        return Fold(rep.rep, base, Hole(rep.rep), {"type": "array", "item_type": Hole(rep.rep)})

    def join(self, sep, items):
        return SStr((Join(sep, tuple(items)),), "text")

    def neg(self, i):
        return int_mul(i, -1)

    def int_text(self, i):
        return SStr((IntText(i),), "text")


@dataclass(frozen=True)
class Hole:
    """The value of a variable before a member of the repetition is processed."""

    rep: tuple
    name: str = ""


class Fold:
    """init, then once per member: hole replaced by the value so far in body."""

    def __init__(self, rep, init, hole, body):
        self.rep, self.init, self.hole, self.body = rep, init, hole, body

    def __repr__(self):
        return f"Fold({self.init!r}; {self.body!r})"


def mentions(v, rep):
    """Does the value depend on the member of the repetition?"""
    if isinstance(v, LV):
        return member_of(v.root.path, rep)
    if isinstance(v, Hole) or v is None or isinstance(v, (bool, int, str)):
        return False
    if isinstance(v, VDict):
        return any(e[0] != "k" or not isinstance(e[1], str) or mentions(e[2], rep) for e in v.log)
    if isinstance(v, dict):
        return any(not isinstance(k, str) or mentions(x, rep) for k, x in v.items())
    if isinstance(v, (VSeq, list, tuple)):
        return any(mentions(x, rep) for x in (v.items if isinstance(v, VSeq) else v))
    return True


class Text:
    """Texts one after the other."""

    def __init__(self, items):
        self.items = items


class Prev:
    """The value before the last k members."""

    def __init__(self, fold, k=1):
        self.fold, self.k = fold, k

    @property
    def rep(self):
        return self.fold.rep

    def __repr__(self):
        return f"Prev({self.fold!r}, {self.k})"


def replace_hole(v, h, new):
    if isinstance(v, Hole):
        return new if v == h else v
    if isinstance(v, VDict):
        return VDict([("k", e[1], replace_hole(e[2], h, new)) if e[0] == "k" else e for e in v.log], v.level)
    if isinstance(v, VSeq):
        return VSeq([replace_hole(x, h, new) for x in v.items], v.kind, v.level)
    if isinstance(v, dict):
        return {k: replace_hole(x, h, new) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(replace_hole(x, h, new) for x in v)
    return v


# --------------------------------------------------------------------------- the base productions of a nonterminal


@lru_cache(None)
def passes(pid):
    """The slot whose value is the production's value, or None."""
    p = S.BY_PID[pid]
    ns = [el for el in p.rhs if isinstance(el, S.N)]
    if len(ns) != 1:
        return None
    try:
        b = Builder(None, False)
        v = p.sem(b, env_of(b, p, ()))
    except Exception:  # noqa: BLE001
        return None
    return ns[0].nt if isinstance(v, LV) and not v.sub else None


COMMON = {"ARR": "any.list", "OBJ": "any.object"}


@lru_cache(None)
def bases(nt):
    """The productions whose values are the values of nt."""
    if nt == "ANYV":
        return tuple(dict.fromkeys((*bases("E"), *bases("LOOP"))))
    out: list = []
    seen = set()

    def visit(n):
        if n in seen:
            return
        seen.add(n)
        if n in COMMON:
            out.append(COMMON[n])
            return
        for p in S.BY_NT[n]:
            t = passes(p.pid)
            if t is None:
                out.append(p.pid)
            else:
                visit(t)

    visit(nt)
    return tuple(out)


# --------------------------------------------------------------------------- one path


class Ctx:
    def __init__(self, engine, script, lines):
        self.engine = engine  # evaluates raw phrases
        self.levels = [Level(None, script)]
        self.lines = lines
        self.enc = engine.enc
        self.b = Builder(self, lines)
        self.pure = 0
        self.uncertain = False
        self.memo: dict = {}
        self.assumptions: set = set()
        self.fresh = 0
        self.reads: list = []
        self.frozen = 0
        self.expand = 0  # how many levels of nested resources the specification spells out
        self.nested: dict = {}  # repetition -> what the entries of the resources nested in a body are
        self.nts: set = set()  # nonterminals whose contracts are used
        self.dirty: set = set()  # phrases changed in a finished exploration of a member

    # ---- facts
    def fact(self, key):
        for lv in reversed(self.levels):
            if key in lv.facts:
                return lv.facts[key]
        return None

    def level_of(self, path):
        for i in range(len(self.levels) - 1, 0, -1):
            if member_of(path, self.levels[i].rep):
                return i
        return 0

    def decide(self, key, n, path, labels=None):
        f = self.fact(key)
        if f is not None:
            return f
        if self.pure:
            raise NeedFork
        i = self.level_of(path)
        if i != len(self.levels) - 1:
            raise OuterFork(i, lambda: self.decide(key, n, path, labels))
        lv = self.levels[i]
        c = lv.next(n)
        lv.facts[key] = c
        return c

    def assume_fact(self, key, value, path):
        i = self.level_of(path)
        if i != len(self.levels) - 1:
            if self.pure:
                raise NeedFork
            raise OuterFork(i, lambda: self.assume_fact(key, value, path))
        self.levels[i].facts[key] = value

    def forms(self):
        return [f for lv in self.levels for f in lv.forms]

    def paths_in(self, f):
        from pv.symval import variables

        names = variables(f)
        out = []
        for a, x in self.enc.vars.items():
            if str(x) in names:
                out.append(a.path if isinstance(a, Atom) else self.enc.int_paths.get(str(x), ()))
        return out

    def implied(self, f):
        """True / False if the formula is decided, else None."""
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        base = self.forms()
        cons = self.enc.constraints([f, *base])
        r1 = check([*base, *cons, f])[0]
        if r1 == "unsat":
            return False
        r2 = check([*base, *cons, z3.Not(f)])[0]
        if r2 == "unsat":
            return True
        if "unknown" in (r1, r2):
            self.uncertain = True
        return None

    def test(self, f, path=None):
        r = self.implied(f)
        if r is not None:
            return r
        if self.pure:
            raise NeedFork
        ps = self.paths_in(f)
        i = max([self.level_of(p) for p in ps], default=0)
        if i != len(self.levels) - 1:
            raise OuterFork(i, lambda: self.test(f))
        lv = self.levels[i]
        c = lv.next(2) == 0
        lv.forms.append(f if c else z3.Not(f))
        return c

    def feasible(self):
        """'sat', 'unsat' or 'unknown' for the path's conditions."""
        base = self.forms()
        if not base:
            return "sat"
        return check([*base, *self.enc.constraints(base)])[0]

    def model(self):
        base = self.forms()
        return check([*base, *self.enc.constraints(base)])[1] if base else None

    # ---- nested exploration of the generic member
    def each_case(self, rep, thunk):
        """[(facts, forms, result, effects)] for all cases of the generic member of the repetition."""
        if self.pure:
            raise NeedFork
        out: list = []
        dirty: set = set()
        script: list = []
        while True:
            lv = Level(rep, script)
            lv.effects = []
            self.levels.append(lv)
            depth = len(self.levels)
            try:
                r = thunk()
                keep = {k: v for k, v in lv.memo.items() if k[0] in ("actual", "override") or k[0].mode == "raw"}
                dirty |= {k[0] if isinstance(k[0], Root) else k[1] for k, v in keep.items() if k[0] == "override" or changed(v)}
                out.append(((tuple(lv.facts.items()), tuple(lv.forms), keep), r, lv.effects))
            except Infeasible:
                pass
            except Failure as e:
                if e.case is None:
                    r = self.feasible()
                    if r != "unsat":
                        e.case = (r, *self.engine.capture(self))
                        raise
                else:
                    raise
            except OuterFork as f:
                del self.levels[depth - 1:]
                if f.level == len(self.levels) - 1:
                    f.redo()
                    script, out = [], []
                    continue
                raise
            finally:
                del self.levels[depth - 1:]
            if len(out) > 400:
                raise Unsupported("too many cases")
            script = advance(script)
            if script is None:
                self.dirty |= dirty
                return out

    def assume_case(self, facts):
        """Enters a case of a member (in a nested exploration)."""
        if not facts:
            return
        fs, forms, memo = facts
        lv = self.levels[-1]
        for k, v in memo.items():
            lv.memo.setdefault(k, v)
        for k, v in fs:
            old = self.fact(k)
            if old is not None and old != v:
                if isinstance(old, frozenset) and isinstance(v, frozenset):
                    v = old & v
                    if not v:
                        raise Infeasible
                else:
                    raise Infeasible
            lv.facts[k] = v
        for f in forms:
            if self.implied(f) is False:
                raise Infeasible
            lv.forms.append(f)

    def choose_case(self, seg):
        """The items of the generic member in one of its cases (in a nested exploration for the repetition)."""
        if len(seg.cases) == 1:
            self.assume_case(seg.cases[0][0])
            return seg.cases[0][1]
        lv = self.levels[-1]
        c = lv.next(len(seg.cases))
        self.assume_case(seg.cases[c][0])
        return seg.cases[c][1]

    # ---- unknown phrases
    def cands(self, root):
        f = self.fact(("set", root.nt, root.path))
        if f is not None:
            return f
        return frozenset(bases(root.nt) if root.mode == "sem" or root.nt not in self.engine.raw_nts else [p.pid for p in S.BY_NT[root.nt]])

    def narrow(self, root, pids):
        self.assume_fact(("set", root.nt, root.path), frozenset(pids), root.path)

    def cand_value(self, root, pid):
        """The value of the phrase if it is of the production."""
        key = (root, pid)
        i = self.level_of(root.path)
        if self.pure:
            memo = self.levels[i].memo
            if key in memo:
                return memo[key]
            return self.evaluate(root, pid)
        if i != len(self.levels) - 1 and root.mode == "raw" and key not in self.levels[i].memo:
            raise OuterFork(i, lambda: self.cand_value(root, pid))
        memo = self.levels[i].memo
        if key not in memo:
            if root in self.dirty:
                raise Unsupported("a part of a phrase was changed in an earlier loop")
            memo[key] = self.evaluate(root, pid)
        return memo[key]

    def evaluate(self, root, pid):
        p = S.BY_PID[pid]
        if root.mode == "sem":
            return p.sem(self.b, env_of(self.b, p, root.path))
        return self.engine.raw_value(self, root, p)

    def known(self, root):
        """The one production the phrase is known to be of, or None."""
        c = self.cands(root)
        return next(iter(c)) if len(c) == 1 else None

    def override(self, root):
        return self.levels[self.level_of(root.path)].memo.get(("override", root))

    def value(self, v):
        """The value as far as it is known: an LV only if its phrase is not narrowed to one production."""
        while isinstance(v, (LV, Apply)):
            if isinstance(v, Apply):
                f = self.value(v.fn)
                if isinstance(f, LV):
                    return v
                v = f(*v.args)
                continue
            o = self.override(v.root)
            if o is not None:
                x = o
            else:
                pid = self.known(v.root)
                if pid is None:
                    return v
                x = self.cand_value(v.root, pid)
            for n, k in enumerate(v.sub):
                x = self.value(x) if not isinstance(x, LV) else x
                if isinstance(x, LV):
                    x = LV(x.root, (*x.sub, *v.sub[n:]))
                    break
                x = self.select(x, k)
            v = x
        return v

    def select(self, x, k):
        if isinstance(x, (tuple, list)):
            return x[k]
        if isinstance(x, VSeq):
            return x.items[k]
        if isinstance(x, dict):
            r = self.native_get(x, k)
        elif isinstance(x, VDict):
            r = self.dict_get(x, k)
        else:
            raise Unsupported(f"part {k!r} of {x!r}")
        if r is MISSING:
            raise Unsupported(f"{k!r} is missing")
        return r

    def force(self, v):
        """The value, with a decision for the production if needed."""
        v = self.value(v)
        while isinstance(v, (LV, Apply)):
            root = v.root if isinstance(v, LV) else v.fn.root
            c = sorted(self.cands(root))
            i = self.decide(("force", root.nt, root.path, tuple(c)), len(c), root.path)
            self.narrow(root, [c[i]])
            v = self.value(v)
        return v

    def ask(self, v, label, fn):
        """fn(value), deciding only as much about the phrase as the answer depends on."""
        v = self.value(v)
        while isinstance(v, (Fold, Prev)) and label != "truth":
            v = self.value(self.unfold(v))
        if not isinstance(v, LV):
            return fn(v)
        root = v.root
        cs = self.cands(root)
        cands = sorted(cs)
        cached = None
        if root.mode == "sem" and context_free(label) and len(cands) > 4:
            cached = (root.nt, v.sub, label, cs, self.lines)
        groups: dict = {}
        if cached and cached in self.engine.answers and self.untouched(root):
            groups = self.engine.answers[cached]
            cands_left = ()
        else:
            cands_left = cands
        for pid in cands_left:
            self.pure += 1
            try:
                x = self.cand_value(root, pid)
                if isinstance(x, LV):
                    x = LV(x.root, (*x.sub, *v.sub))
                    a = self.ask(x, label, fn)
                else:
                    for k in v.sub:
                        x = self.value(x)
                        if isinstance(x, LV):
                            raise NeedFork
                        x = self.select(x, k)
                    a = self.ask(x, label, fn)
            except NeedFork:
                a = ("?", pid)
            finally:
                self.pure -= 1
            groups.setdefault(a, []).append(pid)
        if cached and cands_left and self.untouched(root):
            self.engine.answers[cached] = groups
        keys = list(groups)
        if len(keys) > 1:
            i = self.decide(("ask", root.nt, root.path, v.sub, label, tuple(cands)), len(keys), root.path)
        else:
            i = 0
        k = keys[i]
        if len(groups[k]) != len(cands):
            self.narrow(root, groups[k])
        if isinstance(k, tuple) and k and k[0] == "?":
            if self.pure:
                raise NeedFork
            return self.ask(v, label, fn)
        return k

    def unfold(self, f):
        """The value after the last member of the repetition (or without members)."""
        if isinstance(f, Prev):
            if mentions(f.fold.body, f.rep) or f.k > 8:
                raise Unsupported("an accumulated value before the last member")
            n = self.enc.integer(SInt.of("count", f.rep))
            if not self.test(n >= f.k):
                raise Infeasible
            if not self.test(n > f.k):
                return f.fold.init
            return replace_hole(f.fold.body, f.fold.hole, Prev(f.fold, f.k + 1))
        if self.fact(("empty", f.rep)):
            return f.init
        if not (self.fact(("nonempty", f.rep)) or (self.fact(("min", f.rep)) or 0) >= 1):
            if self.decide(("empty?", f.rep), 2, f.rep) == 1:
                self.assume_fact(("empty", f.rep), True, f.rep)
                return f.init
            self.assume_fact(("nonempty", f.rep), True, f.rep)
        return replace_hole(f.body, f.hole, Prev(f))

    def untouched(self, root):
        """Is nothing known about the inner parts of the phrase?"""
        n = len(root.path)
        for lv in self.levels:
            for k in lv.facts:
                path = k[2] if k[0] in ("set", "ask", "force", "shape") else k[1]
                if path[:n] == root.path and not (len(path) == n and k[0] in ("set", "ask", "force") and k[1] == root.nt):
                    return False
            for k in lv.memo:
                if k[0] in ("actual", "override") and k[1].path[:n] == root.path:
                    return False
        return True

    # ---- questions about values of either domain
    def type_of(self, v):
        return self.ask(v, "type", tag)

    def truthy(self, v):
        return self.ask(v, "truth", self._truthy)

    def _truthy(self, v):
        if v is None or isinstance(v, (bool, int)):
            return bool(v)
        if isinstance(v, SInt):
            return self.test(self.enc.integer(v) != 0)
        if isinstance(v, (str, SStr)):
            if any((isinstance(p, str) and p) or isinstance(p, IntText) or (isinstance(p, Atom) and nonempty(p)) for p in parts_of(v)):
                return True
            if not parts_of(v):
                return False
            return self.test(z3.Length(self.enc.string(v)) > 0)
        if isinstance(v, dict):
            return self.sized([("seg", k.seg) if isinstance(k, SegKey) else ("k",) for k in v])
        if isinstance(v, VDict):
            return self.sized(v.log)
        if isinstance(v, VSeq):
            return self.sized([("seg", x) if isinstance(x, Seg) else ("k",) for x in v.items])
        if isinstance(v, (list, tuple)):
            return self.sized([("seg", x) if isinstance(x, Seg) else ("k",) for x in v])
        if isinstance(v, Fold):
            return True if isinstance(v.body, (VDict, dict)) and self._truthy(v.body) and self.truthy(v.init) else self.unsupported("truth of a fold")
        return True

    def unsupported(self, what):
        raise Unsupported(what)

    def sized(self, log):
        if any(e[0] == "k" for e in log):
            return True
        for e in log:
            if e[0] == "seg":
                s = e[1]
                if s.min and all(items for _, items in s.cases):
                    return True
                if self.fact(("empty", s.rep)):
                    continue
                if len(s.cases) != 1 or not s.cases[0][1]:
                    raise Unsupported("truth of a filtered repetition")
                if self.decide(("empty?", s.rep), 2, s.rep) == 0:
                    self.assume_fact(("nonempty", s.rep), True, s.rep)
                    return True
                self.assume_fact(("empty", s.rep), True, s.rep)
        return False

    def equal(self, a, b):
        """a == b as python decides it."""
        if isinstance(self.value(a), (LV, Apply)):
            if isinstance(self.value(b), (LV, Apply)):
                if self.value(a) == self.value(b):
                    return True
                raise Unsupported("comparison of two phrases")
            return self.ask(a, about("eq", b), lambda x: self._equal(x, b))
        if isinstance(self.value(b), (LV, Apply)):
            return self.equal(b, a)
        return self._equal(self.value(a), self.value(b))

    def _equal(self, a, b):
        if isinstance(a, (Fold, Prev)) or isinstance(b, (Fold, Prev)):
            while isinstance(a, (Fold, Prev)):
                a = self.value(self.unfold(a))
            while isinstance(b, (Fold, Prev)):
                b = self.value(self.unfold(b))
            return self.equal(a, b)
        ta, tb = tag(a), tag(b)
        if ta == "opaque" or tb == "opaque":
            if a is b:
                return True
            raise Unsupported(f"comparison of {a!r} and {b!r}")
        if {ta, tb} <= {"int", "bool"}:
            if isinstance(a, SInt) or isinstance(b, SInt):
                return self.test(self.enc.integer(int_(a)) == self.enc.integer(int_(b)))
            return a == b
        if ta != tb:
            return False
        if ta == "none":
            return True
        if ta == "str":
            pa, pb = parts_of(a), parts_of(b)
            if pa == pb:
                return True
            if all(isinstance(p, str) for p in (*pa, *pb)):
                return "".join(pa) == "".join(pb)
            return self.test(self.enc.string(a) == self.enc.string(b))
        if a is b:
            return True
        if ta in ("dict", "list", "tuple"):
            na, nb = length(a), length(b)
            if isinstance(na, int) and isinstance(nb, int):
                if na != nb:
                    return False
                if ta == "dict":
                    return all(self.dict_get(a, e[1]) is not MISSING and self.equal(e[2], self.dict_get(a, e[1])) for e in log_of(b))
                return all(self.equal(x, y) for x, y in zip(items_of(a), items_of(b)))
            if 0 in (na, nb):
                return not self._truthy(a if nb == 0 else b)
        raise Unsupported(f"comparison of {a!r} and {b!r}")

    # ---- dictionaries
    def dict_get(self, d, k):
        """The value under the key or MISSING."""
        if isinstance(d, dict):
            return self.native_get(d, k)
        return self.log_get(d.log, k)

    def native_get(self, d, k):
        return self.log_get(native_log(d), k)

    def log_get(self, log, k):
        k = self.value(k)
        if isinstance(k, LV):
            raise Unsupported("lookup of an unknown key")
        for e in reversed(log):
            if e[0] == "k":
                if tag(self.value(e[1])) == tag(k) == "str":
                    if self.equal(e[1], k):
                        return e[2]
                elif isinstance(self.value(e[1]), LV) or tag(e[1]) == tag(k):
                    if self.equal(e[1], k):
                        return e[2]
            else:
                seg = e[1]
                if not is_str(k):
                    continue
                if self.fact(("empty", seg.rep)):
                    continue
                r = self.member_with_key(seg, k)
                if r is not MISSING:
                    return r
        return MISSING

    def member_with_key(self, seg, k):
        if not isinstance(k, str):
            raise Unsupported(f"lookup of {k!r} among the members of a repetition")
        only = seg.only()
        if only is None or len(only) != 1:
            raise Unsupported("lookup in a filtered repetition")
        it = self.value(only[0])
        if isinstance(it, LV) and it.root.nt == "PAIR" and not it.sub:
            it = (LV(it.root, (0,)), LV(it.root, (1,)))
        if isinstance(it, LV):
            raise Unsupported(f"lookup of {k!r} among {it!r}")
        key, _ = items_of(it)
        if isinstance(key, LV) and key.root.nt == "PAIR" and key.sub == (0,):
            # keys are identifiers or quoted strings
            if not (k.isidentifier() or (len(k) > 1 and k[0] == k[-1] == "'")):
                return MISSING
            if self.decide(("key", seg.rep, k), 2, seg.rep) == 1:
                return MISSING
            self.assume_fact(("nonempty", seg.rep), True, seg.rep)
            return LV(Root("sem", "ANYV", (*seg.rep, ("=", k))))
        key = self.value(key)
        if is_str(key):
            if self.implied(self.enc.string(key) == z3.StringVal(k)) is False:
                return MISSING
        raise Unsupported(f"lookup of {k!r} among {key!r}")

    # ---- specified values that depend on parts of a phrase
    def with_parent(self, config, parent):
        config = self.force(config) if isinstance(config, LV) else config
        deps = self.native_get(config, "depends_on")
        out = dict(config)
        if deps is MISSING:
            out["depends_on"] = [parent]
            return out
        if not self.ask(deps, ("is a list",), lambda x: isinstance(x, (list, VSeq))):
            out[DEPENDS] = [deps, parent]
            return out
        deps = self.force(deps)
        out[DEPENDS] = [*deps, parent]
        return out

    def settle_child(self, child):
        return self.force(child)


def settle(v):
    """An object is complete."""
    if isinstance(v, VDict):
        v.changed = False
        for e in v.log:
            if e[0] == "k":
                settle(e[2])
    elif isinstance(v, VSeq):
        v.changed = False
        for x in v.items:
            settle(x)


def changed(v):
    """Was an object changed after it was built?"""
    if isinstance(v, VDict):
        return v.changed or any(changed(e[2]) for e in v.log if e[0] == "k")
    if isinstance(v, VSeq):
        return v.changed or any(changed(x) for x in v.items if not isinstance(x, Seg))
    return False


def about(kind, x):
    """The label of a question; of three parts if the answer depends on nothing but the phrase."""
    return (kind, x, type(x)) if x is None or type(x) in (str, int, bool) else (kind, repr(x))


def context_free(label):
    return label in ("type", "truth") or label[0] == "isinstance" or len(label) == 3


MISSING = object()
DEPENDS = "depends_on"


def int_(x):
    return int(x) if isinstance(x, bool) else x


def tag(v):
    """The kind of a value of either domain."""
    if v is None:
        return "none"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, (int, SInt)):
        return "int"
    if isinstance(v, (str, SStr)):
        return "str"
    if isinstance(v, (dict, VDict)):
        return "dict"
    if isinstance(v, list):
        return "list"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, VSeq):
        return v.kind
    if isinstance(v, Fold):
        raise Unsupported("kind of an accumulated value")
    return "opaque"


def native_log(d):
    return [("seg", k.seg) if isinstance(k, SegKey) else ("k", k, x) for k, x in d.items()]


def log_of(d):
    return native_log(d) if isinstance(d, dict) else d.log


def items_of(x):
    return x.items if isinstance(x, VSeq) else x


def length(v):
    n = 0
    for e in (log_of(v) if isinstance(v, (dict, VDict)) else [("seg", x) if isinstance(x, Seg) else ("k",) for x in items_of(v)]):
        if e[0] == "seg":
            only = e[1].only()
            # of a filtered repetition no more is known than that it is not negative
            n = int_add(n, int_mul(e[1].count, len(only)) if only is not None else SInt.of("filtered", (*e[1].rep, repr(e[1].cases))))
        else:
            n = int_add(n, 1)
    return n


# --------------------------------------------------------------------------- from specified to actual values

CLS = {"text": "str", "lit": "str", "elem": "BicepElement"}


def actual(ctx, x, level=0):
    """A value as the code would have it that satisfies the specification (for phrases the code looks into)."""
    if isinstance(x, SStr):
        return make_str(x.parts, CLS.get(x.cls, x.cls), x.ttype)
    if isinstance(x, dict):
        log = []
        for e in native_log(x):
            log.append(("k", actual(ctx, e[1], level), actual(ctx, e[2], level)) if e[0] == "k" else
                       ("seg", e[1].mapped(lambda items: [(actual(ctx, k, level), actual(ctx, v, level)) for k, v in items])))
        return VDict(log, level)
    if isinstance(x, (list, tuple)):
        return VSeq([i.mapped(lambda items: [actual(ctx, y, level) for y in items]) if isinstance(i, Seg) else actual(ctx, i, level) for i in x],
                    "list" if isinstance(x, list) else "tuple", level)
    if isinstance(x, Fold):
        return Fold(x.rep, actual(ctx, x.init, level), x.hole, actual(ctx, x.body, level))
    return x


# --------------------------------------------------------------------------- comparison


class Compare:
    """Is the actual value the specified one?  Raises Mismatch."""

    def __init__(self, ctx):
        self.ctx = ctx

    def same(self, a, x, at="/"):
        ctx = self.ctx
        if isinstance(a, LV) and isinstance(x, LV) and ctx.override(a.root) is None:
            if a == x and not ctx.engine.opened(ctx, a.root):
                return
        a, x = (SStr(norm(self.pieces(v)), "text") if isinstance(v, Text) else v for v in (a, x))
        a, x = ctx.engine.current(ctx, a), ctx.value(x)
        if isinstance(a, LV) and isinstance(x, LV) and a == x:
            return
        if isinstance(x, (LV, Apply)):
            x = ctx.force(x)
        if isinstance(a, LV):
            ctx.force(a)
            a = ctx.engine.current(ctx, a)
        if isinstance(a, Prev) or isinstance(x, Prev):
            if not (isinstance(a, Prev) and isinstance(x, Prev)):
                raise Unsupported("an accumulated value is compared to one that is not")
            return self.folds(a.fold, x.fold, at)
        if isinstance(a, Fold) != isinstance(x, Fold):
            a, x = self.known_fold(a), self.known_fold(x)
        if isinstance(a, Fold) or isinstance(x, Fold):
            return self.folds(a, x, at)
        if isinstance(a, Hole) or isinstance(x, Hole):
            if not (isinstance(a, Hole) and isinstance(x, Hole) and a.rep == x.rep):
                self.no(a, x, at)
            return
        ta, tx = tag(a), tag(x)
        if ta == "opaque":
            self.no(a, x, at, "token")
        if ta != tx:
            self.no(a, x, at)
        if ta == "none":
            return
        if ta == "bool":
            if a is not x:
                self.no(a, x, at)
            return
        if ta == "int":
            if a != x and ctx.implied(ctx.enc.integer(a) == ctx.enc.integer(x)) is not True:
                self.no(a, x, at)
            return
        if ta == "str":
            return self.strings(a, x, at)
        if ta == "dict":
            return self.dicts(a, x, at)
        return self.lists(items_of(a), items_of(x), at)

    def known_fold(self, v):
        ctx = self.ctx
        while isinstance(v, Fold) and (ctx.fact(("empty", v.rep)) or ctx.fact(("nonempty", v.rep)) or (ctx.fact(("min", v.rep)) or 0) >= 1):
            v = ctx.value(ctx.unfold(v))
        return v

    def no(self, a, x, at, kind="value"):
        if at.rstrip("/").endswith(("'__start_line__'", "'__end_line__'")):
            kind = "lines"
        raise Mismatch(f"{at}: expected {x!r}, got {a!r}", kind)

    def strings(self, a, x, at, cls=True):
        ctx = self.ctx
        ca = a.cls if isinstance(a, SStr) else "str"
        cx = x.cls if isinstance(x, SStr) else "text"
        if cls and ca == "Token":
            self.no(a, x, at, "token")
        if cls and ((cx == "elem" and ca != "BicepElement") or (cx == "lit" and ca != "str")):
            self.no(a, x, at)
        pa, px = parts_of(a), parts_of(x)
        if pa == px:
            return
        if any(isinstance(p, Join) for p in (*pa, *px)) and not (len(pa) == len(px) == 1 and pa[0].sep == px[0].sep if all(
                isinstance(p, Join) for p in (*pa[:1], *px[:1])) else False):
            pa, px = self.spread(pa), self.spread(px)
        if any(isinstance(p, Join) for p in (*pa, *px)):
            if len(pa) == len(px) and all(self.part(p, q, at) for p, q in zip(pa, px)):
                return
            self.no(a, x, at)
        if ctx.implied(ctx.enc.string(a) == ctx.enc.string(x)) is not True:
            self.no(a, x, at)

    def spread(self, parts):
        """Joined texts with what is known of them written out: x1 sep x2 ... and per member of a repetition sep + its text."""
        out: list = []
        for p in parts:
            items = [i for i in p.items if not (isinstance(i, Seg) and self.ctx.fact(("empty", i.rep)))] if isinstance(p, Join) else []
            if not items or (p.sep and isinstance(items[0], Seg)):
                out.append(p)
                continue
            for n, i in enumerate(items):
                lead = p.sep if n else ""
                if isinstance(i, Seg):
                    out.append(Join("", (i.mapped(lambda xs, lead=lead: [Text(tuple(y for x in xs for y in (lead, x)))]),)))
                else:
                    out += [lead, *self.pieces(i)]
        return norm(out)

    def pieces(self, x):
        """The parts of a text, which may be a phrase."""
        if isinstance(x, Text):
            return [y for i in x.items for y in self.pieces(i)]
        x = self.ctx.engine.current(self.ctx, x)
        if isinstance(x, (LV, Apply)):
            x = self.ctx.force(x)
        if not is_str(x):
            raise Unsupported("a text that is none")
        return parts_of(x)

    def part(self, p, q, at):
        if isinstance(p, Join) and isinstance(q, Join):
            if p.sep != q.sep:
                return False
            self.lists(list(p.items), list(q.items), at)
            return True
        return p == q

    def folds(self, a, x, at):
        if not (isinstance(a, Fold) and isinstance(x, Fold) and a.rep == x.rep):
            for f in (a, x):
                if isinstance(f, Fold):
                    raise Unsupported("an accumulated value is compared to one that is not") if self.counted(f.rep) else Mismatch(
                        f"{at}: expected {x!r}, got {a!r}")
            self.no(a, x, at)
        self.same(a.init, x.init, at + "<init>")
        self.ctx.each_case(a.rep, lambda: self.same(a.body, x.body, at + "<member>"))

    def counted(self, rep):
        """Is something known of the number of members?"""
        return any(rep in self.ctx.paths_in(f) for f in self.ctx.forms())

    def lists(self, a, x, at):
        a = [i for i in a if not (isinstance(i, Seg) and self.ctx.fact(("empty", i.rep)))]
        x = [i for i in x if not (isinstance(i, Seg) and self.ctx.fact(("empty", i.rep)))]
        for n, (i, j) in enumerate(zip(a, x)):
            p = f"{at}{n}/" if at.endswith("/") else f"{at}/{n}"
            if isinstance(i, Seg) or isinstance(j, Seg):
                if not (isinstance(i, Seg) and isinstance(j, Seg) and i.rep == j.rep):
                    self.no(a, x, at)
                self.segs(i, j, p, self.lists)
            else:
                self.same(i, j, p)
        if len(a) != len(x):
            self.no(a, x, at)

    def segs(self, i, j, at, fn):
        def case():
            fn(self.ctx.choose_case(i), self.ctx.choose_case(j), at + "*")

        self.ctx.each_case(i.rep, case)

    def dicts(self, a, x, at):
        la, lx = self.effective(log_of(a)), self.effective(log_of(x))
        used = set()
        for e in lx:
            for n, f in enumerate(la):
                if n not in used and f[0] == e[0] and self.same_key(f, e):
                    used.add(n)
                    if e[0] == "k":
                        self.same(f[2], e[2], f"{at}{e[1]!r}/")
                    else:
                        self.segs(f[1], e[1], at, self.pairs)
                    break
            else:
                raise Mismatch(f"{at}: expected {e[1]!r}, which is missing in {a!r}", line_key(e))
        for n, f in enumerate(la):
            if n not in used:
                if f[0] == "k" and self.by_name(f, x):
                    continue
                raise Mismatch(f"{at}: unexpected {f[1]!r} in {a!r} (expected {x!r})", line_key(f))
        segs_a = [e[1].rep for e in la if e[0] == "seg"]
        segs_x = [e[1].rep for e in lx if e[0] == "seg"]
        if segs_a != segs_x:
            raise Mismatch(f"{at}: the order of the properties differs")

    def by_name(self, f, x):
        """Is it a property of a repetition that was looked up by its name?"""
        v = f[2]
        if not (isinstance(v, LV) and v.root.nt == "ANYV" and isinstance(f[1], str)):
            return False
        w = self.ctx.dict_get(x, f[1])
        return w == v and not self.ctx.engine.opened(self.ctx, v.root)

    def same_key(self, f, e):
        if f[0] == "seg":
            return f[1].rep == e[1].rep
        try:
            k, kx = self.ctx.value(f[1]), self.ctx.value(e[1])
            if isinstance(k, LV) or isinstance(kx, LV):
                return k == kx
            if tag(k) != "str" or tag(kx) != "str":
                return False
            if isinstance(k, SStr) and k.cls == "Token":
                return False
            if parts_of(k) == parts_of(kx):
                return True
            return self.ctx.implied(self.ctx.enc.string(k) == self.ctx.enc.string(kx)) is True
        except NeedFork:
            return False

    def pairs(self, a, x, at):
        if len(a) != len(x):
            self.no(a, x, at)
        for p, q in zip(a, x):
            p, q = self.ctx.value(p), self.ctx.value(q)
            if isinstance(p, LV) and isinstance(q, LV) and p == q:
                continue
            p, q = items_of(p), items_of(q)
            self.same(p[0], q[0], at + "<key>")
            self.same(p[1], q[1], at)

    def effective(self, log):
        """Without insertions that a later one replaces."""
        out: list = []
        for e in log:
            if e[0] == "seg":
                if self.ctx.fact(("empty", e[1].rep)):
                    continue
                if any(o[0] == "k" and self.collides(o[1], e[1]) for o in out):
                    raise Unsupported(f"a fixed key may be among {e[1]!r}")
                out.append(e)
                continue
            for n, o in enumerate(out):
                if o[0] == "k" and self.same_key(o, e):
                    out[n] = e
                    break
                if o[0] == "k" and self.may_equal(o[1], e[1]):
                    raise Unsupported(f"the keys {o[1]!r} and {e[1]!r} may be equal")
            else:
                if not is_str(self.ctx.value(e[1])) or e[1] != DEPENDS:
                    if any(o[0] == "seg" and not looked_up(e, o[1]) and self.collides(e[1], o[1]) for o in out):
                        raise Unsupported(f"the key {e[1]!r} may be among a repetition")
                out.append(e)
        return out

    def may_equal(self, k, o):
        k, o = self.ctx.value(k), self.ctx.value(o)
        if isinstance(k, str) and isinstance(o, str):
            return k == o
        if is_str(k) and is_str(o):
            return self.ctx.implied(self.ctx.enc.string(k) == self.ctx.enc.string(o)) is not False
        return False

    def collides(self, k, seg):
        k = self.ctx.value(k)
        if not is_str(k):
            return False
        for _, items in seg.cases:
            for it in items:
                if isinstance(it, LV):
                    key = LV(it.root, (*it.sub, 0))
                else:
                    key = items_of(it)[0]
                key = self.ctx.value(key)
                if isinstance(key, LV):
                    if key.root.nt == "PAIR" and isinstance(k, str):
                        if not (k.isidentifier() or (len(k) > 1 and k[0] == k[-1] == "'")):
                            continue
                        f = self.ctx.fact(("key", seg.rep, k))
                        if f == 1:
                            continue
                    return True
                pk, ps = parts_of(k), parts_of(key)
                if disjoint(pk, ps):
                    continue
                if self.ctx.implied(self.ctx.enc.string(k) == self.ctx.enc.string(key)) is not False:
                    return True
        return False


def line_key(e):
    k = e[1]
    if e[0] == "k" and isinstance(k, str):
        if k in ("__start_line__", "__end_line__"):
            return "lines"
        if k.startswith("__") or "<" in k:
            return "token"
    return "value"


def looked_up(e, seg):
    return isinstance(e[2], LV) and e[2].root.nt == "ANYV" and e[2].root.path == (*seg.rep, ("=", e[1]))


def disjoint(k, s):
    """Is the fixed key never one of the numbered keys prefix + (index + n)?"""
    if len(s) == 2 and isinstance(s[0], str) and isinstance(s[1], IntText) and isinstance(s[1].value, SInt):
        v = s[1].value
        if len(k) == 1 and isinstance(k[0], str):
            t = k[0]
            if not t.startswith(s[0]):
                return True
            rest = t[len(s[0]):]
            if not rest.isdigit():
                return True
            return all(c > 0 for _, c in v.terms) and int(rest) < v.const
        if len(k) == 0:
            return True
    return False
