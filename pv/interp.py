"""Symbolic execution of pycep's own functions, from the source text of the running module."""
from __future__ import annotations

import ast
import builtins
import collections
import copy
import dataclasses
import enum
import functools
import inspect
import itertools
import logging
import re
import types
import typing
from pathlib import Path

import lark
from lark import Token, Tree, Transformer
from pycep.models import BicepElement
from lark.visitors import _VArgsWrapper

from pv import rx
from pv.sym import MISSING, Failure, Fold, Hole, Infeasible, NeedFork, Prev, Unsupported, about, int_, items_of, length, replace_hole, tag
from pv.symval import (Atom, Cut, IntText, Join, LV, Root, Seg, SInt, SStr, VDict, VSeq, int_add, int_mul, int_norm, is_str, make_str, norm, parts_of, serial, z3)

# --------------------------------------------------------------------------- runtime objects


class PyRaise(Failure):
    """The interpreted program raises."""

    def __init__(self, typ, args=()):
        super().__init__(f"{typ.__name__}({', '.join(map(str, args))})")
        self.typ, self.args_ = typ, args


class SObj:
    """An instance of a class of pycep."""

    def __init__(self, cls, level=0):
        self.cls, self.attrs, self.level, self.serial, self.changed = cls, {}, level, serial(), False

    def __repr__(self):
        return f"<{self.cls.__name__} object>"


class Meta:
    """Positions of a tree."""

    def __init__(self, values):
        self.values = values


class Bound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func


class Method:
    """A method of a built-in type, bound."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return f"<method {self.name}>"


class Closure:
    def __init__(self, node, env, module):
        self.node, self.env, self.module = node, env, module


class Partial:
    def __init__(self, func, args, kwargs):
        self.func, self.args, self.kwargs = func, args, kwargs


class Pieces:
    """What a text is split into, of which only the number is known: n separators."""

    def __init__(self, n):
        self.n = n


class Ext:
    """An object from outside of pycep: what its methods do is assumed."""

    def __init__(self, name, table, text=None):
        self.name, self.table, self.text = name, table, text

    def __repr__(self):
        return f"<{self.name}>"


class ExtMethod:
    def __init__(self, obj, name, fn):
        self.obj, self.name, self.fn = obj, name, fn


class Exc:
    def __init__(self, typ, args):
        self.typ, self.args = typ, args


# what is logged is no part of the result (an argument that can't be formatted is reported by logging, not raised)
LOG = ("debug", "info", "warning", "error", "critical", "exception", "log")


class VIter:
    """An iterator: remaining values and Segs."""

    interp = None

    def __init__(self, chunks):
        self.chunks = list(chunks)
        self.level = VIter.interp.level

    def consume(self):
        if self.level < VIter.interp.level:
            raise Unsupported("an iterator is consumed in a loop over a repetition")


class Count:
    """An unbounded counter (itertools.count)."""

    def __init__(self, start, step=1):
        self.start, self.step = start, step
        self.level = VIter.interp.level


class SubDict:
    """outer[key] of a dictionary from outside of the loop that is being summarised."""

    def __init__(self, obj, key):
        self.obj, self.key, self.written = obj, key, False


class Ret(Exception):
    def __init__(self, value):
        self.value = value


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Poison:
    """A variable whose value after a loop is not known."""

    def __init__(self, why):
        self.why = why


class Env:
    def __init__(self, parent, glob):
        self.vars: dict = {}
        self.parent, self.glob = parent, glob
        self.nonlocal_: set = set()

    def lookup(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            e = e.parent
        if name in self.glob:
            return self.glob[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise PyRaise(NameError, (name,))


# --------------------------------------------------------------------------- source


def plain(n):
    """An expression without effects that can be evaluated more than once, or earlier."""
    return isinstance(n, (ast.Name, ast.Constant)) or isinstance(n, ast.Attribute) and plain(n.value) or (
        isinstance(n, ast.Subscript) and plain(n.value) and plain(n.slice))


class Idioms(ast.NodeTransformer):
    """Statements with the same meaning in another form:  if k not in d: d[k] = {}  is  d.setdefault(k, {});
    while n > 0: ...; n -= 1  is  for _ in range(n): ..."""

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and plain(t.left) and plain(
                t.comparators[0]) and len(n.body) == len(n.orelse) == 1:
            new, old = (n.body[0], n.orelse[0]) if isinstance(t.ops[0], ast.NotIn) else (n.orelse[0], n.body[0])
            if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Subscript) for x in (new, old)):
                d = ast.Subscript(t.comparators[0], t.left, ast.Load())
                a, b = new.targets[0], old.targets[0]
                if same(a, d) and same(b.value, d) and isinstance(new.value, ast.Dict) and len(new.value.keys) == 1 and new.value.keys[0] is not None and (
                        same(new.value.keys[0], b.slice) and same(new.value.values[0], old.value) and plain(b.slice) and plain(old.value)):
                    call = ast.Call(ast.Attribute(copy.deepcopy(t.comparators[0]), "setdefault", ast.Load()), [t.left, ast.Dict([], [])], [])
                    put = ast.Assign([ast.Subscript(call, b.slice, ast.Store())], old.value)
                    return ast.fix_missing_locations(ast.copy_location(put, n))
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.Assign) and len(n.body[0].targets) == 1 and isinstance(t, ast.Compare) and len(
                t.ops) == 1 and isinstance(t.ops[0], ast.NotIn) and plain(t.left) and plain(t.comparators[0]):
            to, v = n.body[0].targets[0], n.body[0].value
            if isinstance(to, ast.Subscript) and ast.dump(to.slice) == ast.dump(t.left) and fresh(v):
                src, dst = copy.deepcopy(t.comparators[0]), to.value
                if same(src, dst):
                    call = ast.Call(ast.Attribute(src, "setdefault", ast.Load()), [t.left, v], [])
                    return ast.fix_missing_locations(ast.copy_location(ast.Expr(call), n))
        return n

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            stmts = getattr(n, f, None)
            if isinstance(stmts, list):
                setattr(n, f, lookups(stmts))
        return n

    def visit_FunctionDef(self, n):
        """A function that ends by calling itself is a loop."""
        self.generic_visit(n)
        a = n.args
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        if a.vararg or a.kwarg or a.kwonlyargs or a.defaults or has_yield(n):
            return n
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in n.decorator_list)
        if n.decorator_list and not static:
            return n

        def itself(c):
            if not isinstance(c, ast.Call):
                return None
            f, given = c.func, names
            if isinstance(f, ast.Name):
                if f.id != n.name or static or names[:1] == ["self"]:
                    return None
            elif isinstance(f, ast.Attribute) and f.attr == n.name and isinstance(f.value, ast.Name):
                if names[:1] == ["self"] and f.value.id == "self":
                    given = names[1:]
                elif not static:
                    return None
            else:
                return None
            values = dict(zip(given, c.args))
            values.update({k.arg: k.value for k in c.keywords})
            if len(c.args) + len(c.keywords) != len(given) or set(values) != set(given) or any(isinstance(x, ast.Starred) for x in c.args):
                return None
            return values

        found = []

        def rewrite(stmts):
            out = []
            for s in stmts:
                v = itself(s.value) if isinstance(s, ast.Return) else None
                if v is not None:
                    found.append(s)
                    todo = [(k, x) for k, x in v.items() if not (isinstance(x, ast.Name) and x.id == k)]
                    if todo:
                        out.append(ast.Assign([ast.Tuple([ast.Name(k, ast.Store()) for k, _ in todo], ast.Store())], ast.Tuple([x for _, x in todo], ast.Load()))
                                   if len(todo) > 1 else ast.Assign([ast.Name(todo[0][0], ast.Store())], todo[0][1]))
                    out.append(ast.Continue())
                    continue
                if isinstance(s, ast.If):
                    s = ast.copy_location(ast.If(s.test, rewrite(s.body), rewrite(s.orelse)), s)
                out.append(s)
            return out

        body = rewrite(n.body)
        calls = sum(isinstance(x, (ast.Name, ast.Attribute)) and getattr(x, "attr", getattr(x, "id", None)) == n.name for s in n.body for x in ast.walk(s))
        if not found or calls != len(found):
            return n
        loop = ast.While(ast.Constant(True), [*body, ast.Return(None)], [])
        new = ast.FunctionDef(n.name, n.args, [loop], n.decorator_list, n.returns, None, **({"type_params": []} if hasattr(n, "type_params") else {}))
        ast.copy_location(new, n)
        for x in ast.walk(new):
            if isinstance(x, (ast.stmt, ast.expr)) and not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        return new

    def visit_While(self, n):
        self.generic_visit(n)
        t = n.test
        drained = drain(n)
        if drained is not None:
            return drained
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Gt) and isinstance(t.comparators[0], ast.Constant) and (
                t.comparators[0].value == 0 and isinstance(t.left, ast.Name)) and n.body and not n.orelse:
            name, last = t.left.id, n.body[-1]
            jumps = any(isinstance(x, (ast.Break, ast.Continue, ast.Return)) for x in ast.walk(n))
            if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Sub) and isinstance(last.target, ast.Name) and last.target.id == name and (
                    isinstance(last.value, ast.Constant) and last.value.value == 1) and not jumps and not any(
                    isinstance(x, ast.Name) and x.id == name for s in n.body[:-1] for x in ast.walk(s)):
                loop = ast.For(ast.Name("_idiom", ast.Store()), ast.Call(ast.Name("range", ast.Load()), [ast.Name(name, ast.Load())], []),
                               n.body[:-1] or [ast.Pass()], [])
                after = ast.Assign([ast.Name(name, ast.Store())], ast.Call(ast.Name("min", ast.Load()), [ast.Name(name, ast.Load()), ast.Constant(0)], []))
                return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in (loop, after)]
        return n


class Drain(ast.While):
    """while xs: x = xs.pop(0); ...   where nothing else in the loop mentions xs: the same as  for x in list(xs): ..., with xs empty afterwards."""


def drain(n):
    t = n.test
    if not isinstance(t, ast.Name) or n.orelse:
        return None
    pops = [(i, x) for i, x in enumerate(n.body) if isinstance(x, (ast.Expr, ast.Assign)) and isinstance(x.value, ast.Call) and isinstance(
        x.value.func, ast.Attribute) and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == t.id]
    if len(pops) != 1 or sum(isinstance(x, ast.Name) and x.id == t.id for s in n.body for x in ast.walk(s)) != 1:
        return None
    i, p = pops[0]
    c = p.value
    last = c.func.attr == "pop" and not c.args
    first = c.func.attr == "pop" and len(c.args) == 1 and isinstance(c.args[0], ast.Constant) and c.args[0].value == 0 or c.func.attr == "popleft" and not c.args
    if c.keywords or not (first or last) or isinstance(p, ast.Assign) and (i or len(p.targets) != 1):
        return None
    if any(isinstance(x, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)) or isinstance(x, ast.Continue) and i for s in n.body for x in ast.walk(s)):
        return None
    d = Drain(n.test, n.body, [])
    d.source, d.last, d.bound = t.id, last, isinstance(p, ast.Assign)
    d.loop = ast.For(p.targets[0] if isinstance(p, ast.Assign) else ast.Name("_idiom", ast.Store()), ast.Name("_idiom_items", ast.Load()),
                     [*n.body[:i], *n.body[i + 1:]] or [ast.Pass()], [])
    for x in (d, d.loop):
        ast.fix_missing_locations(ast.copy_location(x, n))
    return d


def lookups(stmts):
    """x = d.get(k); if x is None: x = d[k] = {}  is  x = d.setdefault(k, {}), where the values of d are dictionaries or lists."""
    out = []
    for s in stmts:
        prev = out[-1] if out else None
        new = prev is not None and isinstance(s, ast.If) and get_or_new(prev, s)
        if new:
            out[-1] = new
        else:
            out.append(s)
    return out


def get_or_new(first, cond):
    if isinstance(first, ast.AnnAssign):
        to = first.target
    elif isinstance(first, ast.Assign) and len(first.targets) == 1:
        to = first.targets[0]
    else:
        return None
    c, t = first.value, cond.test
    if not (isinstance(to, ast.Name) and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "get" and len(c.args) == 1 and (
            not c.keywords) and plain(c.func.value) and plain(c.args[0])) or cond.orelse:
        return None
    none = isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Is) and same(t.left, to) and (
        isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None)
    if not none and not (isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and same(t.operand, to)):
        return None
    place = ast.Subscript(c.func.value, c.args[0], ast.Load())
    if any(isinstance(x, ast.Name) and x.id == to.id for x in ast.walk(place)):
        return None
    if not all(isinstance(s, ast.Assign) for s in cond.body):
        return None
    flat = [(s.targets, s.value) for s in cond.body]
    if len(flat) == 1 and len(flat[0][0]) == 2:
        (a, b), v = flat[0]
        ok = same(a, to) and same(b, place) or same(b, to) and same(a, place)
    elif len(flat) == 2 and all(len(x) == 1 for x, _ in flat):
        ((a,), v), ((b,), w) = flat
        ok = same(a, to) and same(b, place) and same(w, to) or same(a, place) and same(b, to) and same(w, place)
    else:
        return None
    if not ok or not fresh(v):
        return None
    call = ast.Call(ast.Attribute(c.func.value, "setdefault", ast.Load()), [c.args[0], v], [])
    call.made = True
    return ast.fix_missing_locations(ast.copy_location(ast.Assign([ast.Name(to.id, ast.Store())], call), first))


def plain_object(v):
    """An object of one of the module's own small classes, made when the module was loaded."""
    t = type(v)
    return (t.__module__ or "").split(".")[0] == "pycep" and not isinstance(v, (dict, list, tuple, str, int, enum.Enum, BicepElement)) and hasattr(v, "__dict__")


def same(a, b):
    return ast.dump(a).replace("Store()", "Load()") == ast.dump(b).replace("Store()", "Load()")


def fresh(v):
    return isinstance(v, (ast.Dict, ast.List, ast.Constant)) and not list(ast.iter_child_nodes(v))[1:] or (
        isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "list") and not v.args and not v.keywords)


@functools.lru_cache(None)
def module_functions(filename):
    """{(name, first line): definition} of a source file."""
    tree = Idioms().visit(ast.parse(Path(filename).read_text()))
    out = {}
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            name = getattr(n, "name", "<lambda>")
            line = min([n.lineno, *(d.lineno for d in getattr(n, "decorator_list", []))])
            out.setdefault((name, line), n)
    return out


def definition(f):
    code = f.__code__
    d = module_functions(code.co_filename).get((code.co_name, code.co_firstlineno))
    if d is None:
        raise Unsupported(f"no source for {f}")
    return d


@functools.lru_cache(None)
def assigned(node):
    """Names a statement list binds."""
    out = set()
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
    return frozenset(out)


@functools.lru_cache(None)
def has_yield(node):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda)):
            todo += ast.iter_child_nodes(n)
    return False


PURE = {int, str, bool, len, abs, min, max, repr, ord, chr, divmod, pow, round, hash, sum, any, all, sorted}


class Interp:
    def __init__(self, ctx, repo):
        self.ctx, self.repo = ctx, str(repo)
        self.used: set = set()
        self.depth = 0
        self.steps = 0
        self.contracts: dict = {}  # function -> replacement
        self.on_call = None
        self.tail = None  # the function under contract, its arguments by role and the way to call it
        self.closed = False
        self.layouts: dict = {}  # length -> number of items before the repetition
        self.in_phrase = False
        self.state: object = None  # the object whose containers may not be read now
        VIter.interp = self

    # ------------------------------------------------------------ levels and mutation
    @property
    def level(self):
        return len(self.ctx.levels) - 1

    def new_dict(self, log=()):
        return VDict(log, self.level)

    def new_list(self, items=(), kind="list"):
        return VSeq(items, kind, self.level)

    def mutating(self, obj):
        """An object is changed: while a part of a phrase is evaluated on demand, only its own objects may be."""
        if self.closed:
            raise Unsupported("something happens after the last iteration of a loop")
        if self.ctx.frozen and getattr(obj, "serial", 0) < self.ctx.frozen:
            raise Unsupported("evaluation of a phrase with an effect")
        if obj.level and obj.level < len(self.ctx.levels) and obj.serial < self.ctx.levels[obj.level].serial:
            raise Unsupported("an object of an earlier loop is changed")
        obj.changed = True

    def write(self, obj, op):
        """True if the effect is to be applied now."""
        self.mutating(obj)
        if obj.level < self.level:
            lv = self.ctx.levels[-1]
            lv.effects.append((obj, *op))
            return False
        return True

    def touch(self, obj):
        """An object is read."""
        if isinstance(obj, (VDict, VSeq)) and obj.level < self.level:
            for lv in self.ctx.levels[obj.level + 1:]:
                if any(e[0] is obj for e in lv.effects) or any(s.obj is obj for s in lv.subs):
                    raise Unsupported("a loop reads what it changes")
            self.ctx.reads.append(obj)

    # ------------------------------------------------------------ values
    def cur(self, v):
        """The value as far as it is known (actual domain)."""
        return self.ctx.engine.current(self.ctx, v)

    def open(self, v):
        """The value of a phrase as an object that can be read and changed."""
        v = self.unfolded(v)
        if isinstance(v, LV):
            self.ctx.force(v)
            v = self.unfolded(v)
        return v

    def unfolded(self, v):
        v = self.cur(v)
        while isinstance(v, Fold):
            v = self.cur(self.ctx.unfold(v))
        return v

    def truth(self, v):
        v = self.cur(v)
        if isinstance(v, (LV, SStr, SInt, VDict, VSeq, Fold, str, int, bool, type(None))):
            self.touch(v)
            return self.ctx.truthy(v)
        if isinstance(v, (SObj, Bound, Method, Closure, Meta, Ext, types.FunctionType, type, rx.Match)):
            return True
        if isinstance(v, (dict, list, tuple, set, frozenset)):
            return bool(v)
        raise Unsupported(f"truth of {v!r}")

    def typ(self, v):
        v = self.unfolded(v)
        return self.ctx.type_of(v) if isinstance(v, LV) else tag(v)

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.cur(f)
        if isinstance(f, Bound):
            return self.call_function(f.func, [f.obj, *args], kwargs)
        if isinstance(f, ExtMethod):
            return f.fn(args, kwargs)
        if isinstance(f, (types.FunctionType, type)) and f in self.contracts:
            return self.contracts[f](args, kwargs)
        if isinstance(f, functools.partial):
            return self.call(f.func, [*f.args, *args], {**f.keywords, **kwargs})
        if isinstance(f, Method):
            return self.method(f.obj, f.name, args, kwargs)
        if isinstance(f, Closure):
            return self.call_closure(f, args, kwargs)
        if isinstance(f, Partial):
            return self.call(f.func, [*f.args, *args], {**f.kwargs, **kwargs})
        if isinstance(f, types.FunctionType):
            if f.__module__ and f.__module__.split(".")[0] == "pycep":
                return self.call_function(f, args, kwargs)
            return self.external(f, args, kwargs)
        if isinstance(f, type):
            return self.construct(f, args, kwargs)
        if plain_object(f) and isinstance(inspect.getattr_static(type(f), "__call__", None), types.FunctionType):
            return self.call_function(type(f).__call__, [f, *args], kwargs)
        if isinstance(f, (types.BuiltinFunctionType, types.MethodType, types.BuiltinMethodType)) or callable(f):
            return self.external(f, args, kwargs)
        raise PyRaise(TypeError, (f"{f!r} is not callable",))

    def call_function(self, f, args, kwargs):
        if self.on_call:
            self.on_call(f, args, kwargs)
        if f in self.contracts:
            return self.contracts[f](args, kwargs)
        return self.call_body(f, args, kwargs)

    def call_body(self, f, args, kwargs):
        self.used.add(f"{f.__module__}.{f.__qualname__}")
        d = definition(f)
        env = Env(None, f.__globals__)
        closure = f.__closure__ or ()
        if closure:
            outer = Env(None, f.__globals__)
            for n, c in zip(f.__code__.co_freevars, closure):
                outer.vars[n] = c.cell_contents
            env.parent = outer
        defaults = {}
        sig = inspect.signature(f)
        for n, p in sig.parameters.items():
            if p.default is not inspect.Parameter.empty:
                defaults[n] = p.default
        return self.run(d, env, args, kwargs, defaults)

    def call_closure(self, c, args, kwargs):
        env = Env(c.env, c.env.glob)
        a = c.node.args
        names = [*a.posonlyargs, *a.args]
        defaults = {n.arg: self.expr(d, c.env) for n, d in zip(names[len(names) - len(a.defaults):], a.defaults)}
        defaults |= {n.arg: self.expr(d, c.env) for n, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return self.run(c.node, env, args, kwargs, defaults)

    def run(self, d, env, args, kwargs, defaults):
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion")
        try:
            self.bind(d.args, env, args, kwargs, defaults)
            if isinstance(d, ast.Lambda):
                return self.expr(d.body, env)
            if has_yield(d):
                old, self.ctx.frozen = self.ctx.frozen, serial()
                env.yields = out = self.new_list([])
                try:
                    self.body(d.body, env)
                except Ret:
                    pass
                finally:
                    self.ctx.frozen = old
                return VIter(self.chunks(out))
            try:
                self.body(d.body, env)
            except Ret as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind(self, a, env, args, kwargs, defaults):
        names = [x.arg for x in (*a.posonlyargs, *a.args)]
        args = list(args)
        kwargs = dict(kwargs)
        given = dict(zip(names, args))
        rest = args[len(names):]
        if rest and a.vararg is None:
            raise PyRaise(TypeError, ("too many arguments",))
        if a.vararg is not None:
            env.vars[a.vararg.arg] = self.new_list(rest, "tuple")
        for n in [*names, *(x.arg for x in a.kwonlyargs)]:
            if n in kwargs:
                if n in given:
                    raise PyRaise(TypeError, (f"multiple values for {n}",))
                given[n] = kwargs.pop(n)
            elif n not in given:
                if n not in defaults:
                    raise PyRaise(TypeError, (f"missing argument {n}",))
                given[n] = defaults[n]
        env.vars.update(given)
        if kwargs:
            if a.kwarg is None:
                raise PyRaise(TypeError, (f"unexpected argument {next(iter(kwargs))}",))
        if a.kwarg is not None:
            env.vars[a.kwarg.arg] = self.new_dict([("k", k, v) for k, v in kwargs.items()])

    def construct(self, cls, args, kwargs):
        if issubclass(cls, BaseException):
            return Exc(cls, args)
        if cls in (dict, list, tuple, str, int, bool, set, frozenset, enumerate, zip, map, filter, range, reversed, type, object,
                   itertools.chain, itertools.count) or cls.__module__ == "itertools":
            return self.builtin(cls, args, kwargs)
        if issubclass(cls, enum.Enum):
            if "_missing_" in cls.__dict__ or len(args) != 1 or kwargs or any(not isinstance(m.value, str) for m in cls):
                raise Unsupported(f"construction of {cls.__name__}")
            for m in cls:
                if self.truth(self.equals(args[0], m.value)):
                    return m
            raise PyRaise(ValueError, ("not a member",))
        if issubclass(cls, tuple) and hasattr(cls, "_fields"):
            return self.named_tuple(cls, args, kwargs)
        if issubclass(cls, str) and cls.__module__.startswith("pycep"):
            if any("__new__" in c.__dict__ or "__init__" in c.__dict__ for c in cls.__mro__[: cls.__mro__.index(str)]):
                raise Unsupported(f"construction of {cls.__name__}")
            v = self.to_str(args[0]) if args else ""
            return SStr(parts_of(v), cls.__name__)
        if cls is functools.partial:
            return Partial(args[0], list(args[1:]), kwargs)
        if cls.__module__.split(".")[0] == "pycep" and not issubclass(cls, (dict, list, tuple, int)):
            init = inspect.getattr_static(cls, "__init__")
            obj = SObj(cls, self.level)
            if isinstance(init, types.FunctionType) and init.__module__ == cls.__module__ and "__dataclass_fields__" not in cls.__dict__:
                self.call_function(init, [obj, *args], kwargs)
                return obj
            if "__dataclass_fields__" in cls.__dict__:
                names = list(cls.__dataclass_fields__)
                if "__post_init__" in dir(cls) or isinstance(init, types.FunctionType) and init.__code__.co_filename != "<string>" or not all(
                        x.init for x in cls.__dataclass_fields__.values()):
                    raise Unsupported(f"construction of {cls.__name__}")
                if len(args) > len(names) or set(kwargs) - set(names[len(args):]):
                    raise PyRaise(TypeError, (f"arguments of {cls.__name__}",))
                for n, v in [*zip(names, args), *kwargs.items()]:
                    obj.attrs[n] = v
                for n, fld in cls.__dataclass_fields__.items():
                    if n not in obj.attrs:
                        if fld.default is not dataclasses.MISSING:
                            obj.attrs[n] = fld.default
                        elif fld.default_factory is not dataclasses.MISSING:
                            obj.attrs[n] = self.call(fld.default_factory, [])
                        else:
                            raise PyRaise(TypeError, (f"missing argument {n}",))
                return obj
        if cls is collections.defaultdict:
            d = self.builtin(dict, args[1:], kwargs)
            d.factory = args[0] if args else None
            return d
        if cls is collections.OrderedDict or typing.is_typeddict(cls):
            return self.builtin(dict, args, kwargs)
        raise Unsupported(f"construction of {cls.__name__}")

    def named_tuple(self, cls, args, kwargs):
        fields = cls._fields
        if any(getattr(getattr(cls, n), "__code__", None) and getattr(cls, n).__code__.co_filename.endswith(".py") for n in ("__new__", "__init__")):
            raise Unsupported(f"construction of {cls.__name__}")
        if any(isinstance(a, Seg) for a in args) or len(args) > len(fields) or set(kwargs) - set(fields[len(args):]):
            raise PyRaise(TypeError, (f"arguments of {cls.__name__}",))
        given = {**dict(zip(fields, args)), **kwargs}
        values = []
        for n in fields:
            if n not in given and n not in cls._field_defaults:
                raise PyRaise(TypeError, (f"missing argument {n}",))
            values.append(given[n] if n in given else cls._field_defaults[n])
        r = self.new_list(values, "tuple")
        r.cls = cls
        return r

    def named_attr(self, v, name):
        """An attribute of a named tuple."""
        fields = v.cls._fields
        values = dict(zip(fields, v.items))
        if name in values:
            return values[name]
        if name == "_replace":
            return ExtMethod(v, name, lambda args, kw: self.named_tuple(v.cls, [], {**values, **kw}) if not args and set(kw) <= set(fields)
                             else self.unsupported("_replace"))
        if name == "_asdict":
            return ExtMethod(v, name, lambda args, kw: self.new_dict([("k", k, x) for k, x in values.items()]))
        if name == "_fields":
            return fields
        if isinstance(inspect.getattr_static(v.cls, name, None), (types.FunctionType, property, staticmethod, classmethod)) and name in vars(v.cls):
            return self.class_attr(v, v.cls, name)
        return Method(v, name) if hasattr(tuple, name) else self.unsupported(f"attribute {name} of a named tuple")

    # ------------------------------------------------------------ statements
    def body(self, stmts, env):
        for s in stmts:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 200000:
            raise Unsupported("too long")
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__}")
        m(s, env)

    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Yield):
            self.m_list_append(env.yields, self.expr(s.value.value, env) if s.value.value else None)
        elif isinstance(s.value, ast.YieldFrom):
            self.m_list_extend(env.yields, self.expr(s.value.value, env))
        else:
            self.expr(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Import(self, s, env):
        for a in s.names:
            env.vars[a.asname or a.name.split(".")[0]] = __import__(a.name)

    def s_ImportFrom(self, s, env):
        import importlib

        m = importlib.import_module(("." * s.level) + (s.module or ""), env.glob.get("__package__") or None)
        for a in s.names:
            env.vars[a.asname or a.name] = getattr(m, a.name)

    def s_Nonlocal(self, s, env):
        env.nonlocal_ |= set(s.names)

    def s_Global(self, s, env):
        raise Unsupported("global statement")

    def s_Return(self, s, env):
        raise Ret(self.expr(s.value, env) if s.value else None)

    def s_Break(self, s, env):
        raise Brk

    def s_Continue(self, s, env):
        raise Cont

    def s_Raise(self, s, env):
        if s.exc is None:
            raise Unsupported("re-raise")
        e = self.expr(s.exc, env)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = Exc(e, ())
        if not isinstance(e, Exc):
            raise Unsupported("raise")
        raise PyRaise(e.typ, e.args)

    def s_Assert(self, s, env):
        if not self.truth(self.expr(s.test, env)):
            raise PyRaise(AssertionError)

    def s_If(self, s, env):
        self.body(s.body if self.truth(self.expr(s.test, env)) else s.orelse, env)

    def s_Match(self, s, env):
        v = self.expr(s.subject, env)
        for c in s.cases:
            if self.matches(c.pattern, v, env) and (c.guard is None or self.truth(self.expr(c.guard, env))):
                self.body(c.body, env)
                return

    def matches(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.equals(v, self.expr(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return self.identical(v, p.value)
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name:
                env.vars[p.name] = v
            return True
        if isinstance(p, ast.MatchSequence):
            if self.typ(v) not in ("list", "tuple"):
                return False
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            chunks = [c for c in self.chunks(v) if not (isinstance(c, Seg) and self.ctx.fact(("empty", c.rep)))]
            if not stars and not any(isinstance(c, Seg) for c in chunks):
                return len(chunks) == len(p.patterns) and all(self.matches(q, c, env) for q, c in zip(p.patterns, chunks))
            n = self.length_of(v)
            k = len(p.patterns) - len(stars)
            if not self.compare(ast.GtE() if stars else ast.Eq(), n, k):
                return False
            if not stars:
                chunks = self.exactly(chunks, k)
                return all(self.matches(q, c, env) for q, c in zip(p.patterns, chunks))
            i = stars[0]
            front, chunks = self.take(chunks, i)
            back, chunks = self.take(chunks, k - i, end=True)
            if not all(self.matches(q, c, env) for q, c in zip([*p.patterns[:i], *p.patterns[i + 1:]], [*front, *back])):
                return False
            if p.patterns[i].name:
                env.vars[p.patterns[i].name] = self.new_list(chunks)
            return True
        if isinstance(p, ast.MatchMapping):
            if self.typ(v) != "dict" or p.rest:
                if p.rest:
                    raise Unsupported("the rest of a mapping pattern")
                return False
            for k, q in zip(p.keys, p.patterns):
                k = self.expr(k, env)
                if not self.contains(v, k) or not self.matches(q, self.item(v, k), env):
                    return False
            return True
        if isinstance(p, ast.MatchClass):
            t = self.expr(p.cls, env)
            if not self.is_instance(v, t):
                return False
            if p.patterns:
                if len(p.patterns) != 1 or t not in (str, int, bool, dict, list, tuple, set):
                    raise Unsupported("class pattern")
                if not self.matches(p.patterns[0], v, env):
                    return False
            return all(self.matches(q, self.attr(v, a), env) for a, q in zip(p.kwd_attrs, p.kwd_patterns))
        raise Unsupported(f"pattern {type(p).__name__}")

    def s_FunctionDef(self, s, env):
        f = Closure(s, env, None)
        for d in reversed(s.decorator_list):
            f = self.call(self.expr(d, env), [f])
        env.vars[s.name] = f

    def s_Try(self, s, env):
        try:
            try:
                self.body(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    t = self.expr(h.type, env) if h.type else BaseException
                    ts = items_of(t) if isinstance(t, VSeq) else t
                    if issubclass(e.typ, tuple(ts) if isinstance(ts, (list, tuple)) else ts):
                        if h.name:
                            env.vars[h.name] = Exc(e.typ, e.args_)
                        self.body(h.body, env)
                        break
                else:
                    raise
            else:
                self.body(s.orelse, env)
        finally:
            if s.finalbody:
                self.body(s.finalbody, env)

    def s_Assign(self, s, env):
        v = self.expr(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = copy.copy(s.target)
        t.ctx = ast.Load()
        a, b = self.expr(t, env), self.expr(s.value, env)
        ca = self.cur(a)
        if isinstance(s.op, ast.Add) and isinstance(ca, VSeq) and ca.kind == "list":
            self.method(ca, "extend", [b], {})
            return
        if isinstance(s.op, ast.BitOr) and isinstance(ca, VDict):
            self.method(ca, "update", [b], {})
            return
        self.assign(s.target, self.binop(s.op, a, b), env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.method(self.open(self.expr(t.value, env)), "__delitem__", [self.expr(t.slice, env)], {})
            else:
                raise Unsupported("del")

    def s_While(self, s, env):
        names = assigned(s)
        cut: dict = {}
        tail = self.tail_loop(s, env, names)
        for n in range(200):
            if n:
                self.loop_cut(env, names, cut)
                if tail and self.tail_call(env, names, tail):
                    return
            if not self.truth(self.expr(s.test, env)):
                self.body(s.orelse, env)
                return
            try:
                self.body(s.body, env)
            except Brk:
                return
            except Cont:
                continue
        raise Unsupported("while loop")

    def s_Drain(self, s, env):
        xs = self.cur(env.lookup(s.source))
        if not (isinstance(xs, VSeq) and xs.kind == "list" and any(isinstance(x, Seg) for x in xs.items)):
            return self.s_While(s, env)
        if xs.level < self.level:
            raise Unsupported("a list is emptied in a loop over a repetition")
        if any(v is xs for n, v in env.vars.items() if n != s.source) or any(
                v is xs for v in getattr(getattr(self.ctx, "obj", None), "attrs", {}).values()):
            raise Unsupported("a list with two names is emptied")
        items = list(xs.items)
        env.vars["_idiom_items"] = self.new_list(self.chunks(self.builtin(reversed, [xs], {})) if s.last and s.bound else items)
        self.s_For(s.loop, env)
        if len(xs.items) != len(items) or any(a is not b for a, b in zip(xs.items, items)):
            raise Unsupported("a list changes while it is emptied")
        self.mutating(xs)
        xs.items[:] = []

    def tail_loop(self, s, env, names):
        """{role: variable} if the loop starts with the arguments of the function under contract, and only they are carried over."""
        if not self.tail or env.parent is not None:
            return None
        here = {n: env.vars[n] for n in names if n in env.vars}
        roles = {}
        for n, v in here.items():
            r = [k for k, x in self.tail["values"].items() if x is v or isinstance(v, (LV, SStr)) and v == x]
            if len(r) != 1 or r[0] in roles:
                return None
            roles[r[0]] = n
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in env.vars and x.id not in names:
                if not isinstance(env.vars[x.id], SObj) and env.vars[x.id] is not self.tail["values"].get("list"):
                    return None
        return roles if "config" in roles and "name" in roles else None

    def tail_call(self, env, names, roles):
        """The further iterations are what the function under contract does for the variables' values."""
        v = env.vars[roles["config"]]
        if not (isinstance(v, LV) and v.root.mode == "raw" and not v.sub) or v == self.tail["values"]["config"]:
            return False
        self.tail["call"]({k: env.vars[roles[k]] if k in roles else x for k, x in self.tail["values"].items()})
        for n in names:
            env.vars[n] = Poison("a variable after a loop")
        self.closed = True
        return True

    def loop_cut(self, env, names, done):
        """Induction over the iterations of a loop that walks down a phrase: all variables it changes hold phrases of which nothing is known
        but their type; the next arrival in such a state is covered by this one."""
        vs = {k: self.cur(env.vars[k]) for k in sorted(names) if k in env.vars}
        if not vs or not all(isinstance(v, LV) and v.root.mode == "sem" and v.root.nt == "ANYV" and not v.sub for v in vs.values()):
            return
        state = {k: self.typ(v) for k, v in vs.items()}
        if done:
            if state != done["state"]:
                raise Unsupported("loop invariant")
            raise Infeasible  # covered by the earlier, arbitrary state
        # an arbitrary state that satisfies the invariant
        done["state"] = state
        for k, t in state.items():
            self.ctx.fresh += 1
            last = self.ctx.levels[-1].rep
            here = (*last[:-1], (*last[-1], f"{last[-1][1]}*")) if last else ()
            env.vars[k] = LV(Root("sem", "ANYV", (*here, ("loop", str(self.ctx.fresh)))))
            if self.typ(env.vars[k]) != t:
                raise Infeasible

    def s_For(self, s, env):
        chunks = self.chunks(self.expr(s.iter, env))
        broke = False
        for c in chunks:
            if isinstance(c, Seg):
                self.for_seg(s, c, env)
                continue
            self.assign(s.target, c, env)
            try:
                self.body(s.body, env)
            except Brk:
                broke = True
                break
            except Cont:
                continue
        if not broke:
            self.body(s.orelse, env)

    def for_seg(self, s, seg, env):
        """The loop over the members of a repetition, by induction: the body for the generic member, started in a state where every
        variable the loop changes has an arbitrary value (or a counter its value for the generic index)."""
        ctx = self.ctx
        if ctx.fact(("empty", seg.rep)):
            return
        names = assigned(ast.Module(body=s.body, type_ignores=[])) | assigned(s.target)
        scopes = [env]
        start = {n: e.vars[n] for e in scopes for n in names if n in e.vars}
        counters = {}
        texts = set()
        for n, v in start.items():
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                counters[n] = 1

        def attempt(counters):
            ends = []

            def case():
                saved = dict(env.vars)
                try:
                    for n in start:
                        if n in counters:
                            env.vars[n] = int_add(start[n], int_mul(seg.index, counters[n]))
                        else:
                            env.vars[n] = SStr((Hole(seg.rep, n),)) if n in texts else Hole(seg.rep, n)
                    for item in ctx.choose_case(seg):
                        if isinstance(item, Seg):
                            self.for_seg(s, item, env)
                            continue
                        self.assign(s.target, item, env)
                        try:
                            self.body(s.body, env)
                        except Cont:
                            pass
                        except (Brk, Ret):
                            raise Unsupported("leaving a loop over a repetition early") from None
                    if not all(s.written for s in ctx.levels[-1].subs):
                        raise Unsupported("a dictionary stays empty in a loop over a repetition")
                    ends.append({n: env.vars.get(n) for n in start})
                finally:
                    env.vars.clear()
                    env.vars.update(saved)

            return ctx.each_case(seg.rep, case), ends

        try:
            r, ends = attempt(counters)
        except Unsupported:  # texts that grow?
            texts |= {n for n, v in start.items() if is_str(v) and not (isinstance(v, SStr) and v.cls == "Token")}
            if not texts:
                raise
            r, ends = attempt(counters)
        bad = {n for e in ends for n in counters if e[n] != int_add(int_add(start[n], int_mul(seg.index, counters[n])), counters[n])}
        if bad:
            kept = {n: c for n, c in counters.items() if n not in bad}
            for n in bad:  # unchanged by the loop?
                if all(e[n] == int_add(start[n], int_mul(seg.index, counters[n])) for e in ends):
                    kept[n] = 0
            r, ends = attempt(kept)
            counters = kept
            if any(e[n] != int_add(int_add(start[n], int_mul(seg.index, c)), c) for e in ends for n, c in counters.items()):
                raise Unsupported("loop counter")
        self.apply_effects(seg, r)
        for n in names:
            if n in counters:
                env.vars[n] = int_add(start[n], int_mul(seg.count, counters[n]))
            elif n in start:
                hole = Hole(seg.rep, n)
                vals = [e[n] for e in ends]
                if n in texts:
                    env.vars[n] = self.grown(seg, start[n], hole, vals, r)
                elif all(v == hole for v in vals):
                    env.vars[n] = start[n]
                elif len(vals) == 1 and contains_hole(vals[0], hole):
                    env.vars[n] = Fold(seg.rep, start[n], Hole(seg.rep), replace_hole(vals[0], hole, Hole(seg.rep)))
                else:
                    env.vars[n] = Poison("a variable after a loop")
            else:
                env.vars[n] = Poison("a variable of a loop after it")

    def grown(self, seg, start, hole, vals, cases):
        """A text to which each member appends."""
        for v in vals:
            if not isinstance(v, SStr) or not v.parts or v.parts[0] != hole or hole in v.parts[1:]:
                raise Unsupported("a text that is changed in a loop over a repetition")
        if len(vals) != len(cases):
            raise Unsupported("a text that grows in a loop over a repetition")
        if all(len(v.parts) == 1 for v in vals):
            return start
        return make_str((*parts_of(start), Join("", (Seg(seg.rep, [(c[0], [make_str(v.parts[1:])]) for c, v in zip(cases, vals)], seg.min),))))

    def apply_effects(self, seg, cases):
        """cases: [(facts, result, effects)]"""
        objs = []
        for _, _, effects in cases:
            for e in effects:
                if not any(e[0] is o for o in objs):
                    objs.append(e[0])
        for o in objs:
            if any(o is x for x in self.ctx.reads):
                raise Unsupported("a loop reads what it changes")
            per = []
            kinds = set()
            for facts, _, effects in cases:
                items = []
                for e in effects:
                    if e[0] is not o:
                        continue
                    kinds.add(e[1])
                    items += list(e[2])
                per.append((facts, items))
            if len(kinds) != 1 or not kinds <= {"append", "setitem", "subset"}:
                raise Unsupported(f"effects {kinds} in a loop over a repetition")
            kind = kinds.pop()
            new = Seg(seg.rep, per, seg.min)
            if o.level < self.level:
                self.ctx.levels[-1].effects.append((o, kind, [new]))
            elif kind == "append":
                o.items.append(new)
            elif kind == "setitem":
                o.log.append(("seg", new))
            else:
                o.log.append(("sub", new))

    # ------------------------------------------------------------ assignment
    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.nonlocal_:
                if self.level:
                    raise Unsupported("a variable of an outer function in a loop over a repetition")
                e = env.parent
                while t.id not in e.vars:
                    e = e.parent
            e.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.set_attr(self.expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.expr(t.value, env), self.expr(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, self.listed(self.chunks(v)), env)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def listed(self, chunks):
        return self.new_list(chunks)

    def unpack(self, targets, v, env):
        v = self.cur(v)
        if isinstance(v, LV) and v.root.nt == "PAIR" and not v.sub and len(targets) == 2 and not any(isinstance(t, ast.Starred) for t in targets):
            for n, t in enumerate(targets):
                self.assign(t, LV(v.root, (n,)), env)
            return
        chunks = self.chunks(v)
        star = [i for i, t in enumerate(targets) if isinstance(t, ast.Starred)]
        if not star:
            chunks = self.exactly(chunks, len(targets))
            for t, c in zip(targets, chunks):
                self.assign(t, c, env)
            return
        i = star[0]
        after = len(targets) - i - 1
        front, chunks = self.take(chunks, i)
        back, chunks = self.take(chunks, after, end=True)
        for t, c in zip(targets[:i], front):
            self.assign(t, c, env)
        self.assign(targets[i].value, self.new_list(chunks), env)
        for t, c in zip(targets[i + 1:], back):
            self.assign(t, c, env)

    def exactly(self, chunks, n):
        out = []
        for c in chunks:
            if isinstance(c, Seg):
                only = c.only()
                if only is None:
                    raise Unsupported("unpacking of a filtered repetition")
                if self.ctx.fact(("empty", c.rep)):
                    continue
                fixed = sum(1 for x in chunks if not isinstance(x, Seg))
                if fixed + c.min * len(only) > n:
                    raise PyRaise(ValueError, ("too many values to unpack",))
                raise PyRaise(ValueError, (f"too many values to unpack (expected {n}): any number is possible",))
            out.append(c)
        if len(out) != n:
            raise PyRaise(ValueError, (f"{'not enough' if len(out) < n else 'too many'} values to unpack",))
        return out

    def take(self, chunks, n, end=False):
        chunks = list(chunks)
        out = []
        while len(out) < n:
            if not chunks:
                raise PyRaise(ValueError, ("not enough values to unpack",))
            c = chunks[-1 if end else 0]
            if isinstance(c, Seg):
                if self.ctx.fact(("empty", c.rep)):
                    chunks.pop(-1 if end else 0)
                    continue
                raise Unsupported("unpacking of a repetition")
            chunks.pop(-1 if end else 0)
            out.append(c)
        return (out[::-1] if end else out), chunks

    def set_attr(self, obj, name, v):
        if not isinstance(obj, SObj):
            raise Unsupported(f"attribute assignment to {obj!r}") if not isinstance(obj, (type, types.ModuleType)) else FrameViolation(
                f"assignment to {obj}.{name}")
        if getattr(obj.cls, "__dataclass_params__", None) and obj.cls.__dataclass_params__.frozen:
            raise PyRaise(AttributeError, (f"cannot assign to field {name}",))
        if obj.level < self.level:
            raise Unsupported("attribute assignment in a loop over a repetition")
        self.mutating(obj)
        obj.attrs[name] = v

    def set_item(self, obj, k, v):
        obj = self.container(obj)
        if isinstance(obj, SubDict):
            obj.written = True
            self.ctx.levels[-1].effects.append((obj.obj, "subset", [(obj.key, k, v)]))
            return
        if isinstance(obj, VDict):
            if self.write(obj, ("setitem", [(k, v)])):
                self.dict_set(obj, k, v)
            return
        if isinstance(obj, VSeq) and obj.kind == "list":
            if obj.level < self.level:
                raise Unsupported("item assignment in a loop over a repetition")
            self.mutating(obj)
            i = self.index(obj, k)
            obj.items[i] = v
            return
        if isinstance(obj, (dict, list, set)):
            raise FrameViolation("a global object is changed")
        raise PyRaise(TypeError, ("object does not support item assignment",))

    def dict_set(self, d, k, v):
        k = self.key(k)
        for n, e in enumerate(d.log):
            if e[0] == "k" and self.same_key(e[1], k):
                d.log[n] = ("k", e[1], v)
                return
        d.log.append(("k", k, v))

    def same_key(self, a, b):
        if isinstance(a, LV) or isinstance(b, LV):
            return a == b
        if is_str(a) and is_str(b):
            return parts_of(a) == parts_of(b)
        return type(a) is type(b) and a == b

    def key(self, k):
        k = self.cur(k)
        if isinstance(k, (VDict,)) or (isinstance(k, VSeq) and k.kind == "list"):
            raise PyRaise(TypeError, ("unhashable type",))
        if isinstance(k, LV):
            t = self.typ(k)
            if t in ("dict", "list"):
                raise PyRaise(TypeError, ("unhashable type",))
        return k

    def container(self, obj):
        obj = self.cur(obj)
        if isinstance(obj, LV):
            t = self.typ(obj)
            if t in ("dict", "list", "tuple"):
                obj = self.open(obj)
            elif t == "opaque":
                raise Unsupported("an opaque value")
        return obj

    def index(self, seq, k):
        k = self.cur(k)
        if not isinstance(k, int):
            raise Unsupported(f"index {k!r}")
        items = [i for i in seq.items if not (isinstance(i, Seg) and self.ctx.fact(("empty", i.rep)))]
        if len(items) != len(seq.items):
            seq.items[:] = items
        before = items[:k] if k >= 0 else items[k:]
        if any(isinstance(i, Seg) for i in (items[: k + 1] if k >= 0 else items[k:])):
            raise Unsupported("index into a repetition")
        if not -len(items) <= k < len(items):
            if any(isinstance(i, Seg) for i in items):
                raise Unsupported("index beyond a repetition")
            raise PyRaise(IndexError, ("list index out of range",))
        del before
        return k % len(items)

    def seg_item(self, seq, k):
        """The item of a list at the position of the generic member of a repetition."""
        before = 0
        for i in seq.items:
            if isinstance(i, Seg):
                if self.ctx.fact(("empty", i.rep)):
                    continue
                only = i.only()
                last = self.ctx.levels[-1].rep
                if only is None or last != i.rep:
                    break
                off = int_add(int_add(k, int_mul(i.index, len(only)), -1), before, -1)
                if not isinstance(off, int) or not 0 <= off < len(only):
                    break
                return self.ctx.choose_case(i)[off]
            before += 1
        raise Unsupported(f"index {k!r}")

    def length_of(self, v):
        n = length(v)
        if isinstance(n, SInt) and isinstance(v, VSeq):
            before = 0
            for i in v.items:
                if isinstance(i, Seg):
                    break
                before += 1
            self.layouts[n] = before
        return n

    # ------------------------------------------------------------ iteration
    def chunks(self, v):
        v = self.cur(v)
        if isinstance(v, LV):
            t = self.typ(v)
            if t in ("none", "bool", "int"):
                raise PyRaise(TypeError, (f"{t} is not iterable",))
            if t == "str":
                raise Unsupported("iteration over a text")
            v = self.open(v)
        self.touch(v)
        if isinstance(v, VSeq):
            return list(v.items)
        if isinstance(v, VDict):
            self.no_sub(v)
            return [e[1] if e[0] == "k" else e[1].mapped(lambda items: [self.pair_of(i)[0] for i in items]) for e in v.log]
        if isinstance(v, VIter):
            v.consume()
            c, v.chunks = v.chunks, []
            return c
        if isinstance(v, enum.EnumMeta):
            return list(v)
        if isinstance(v, (list, tuple, dict, set, frozenset, range)) or type(v).__name__ in ("dict_keys", "dict_values", "dict_items"):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if v is None or isinstance(v, (bool, int, SInt)):
            raise PyRaise(TypeError, ("not iterable",))
        raise Unsupported(f"iteration over {v!r}")

    def no_sub(self, d):
        if any(e[0] == "sub" for e in d.log):
            raise Unsupported("a dictionary built in a loop over a repetition")

    def pair_of(self, it):
        it = self.cur(it)
        if isinstance(it, LV):
            if it.root.nt == "PAIR" and not it.sub:
                return LV(it.root, (0,)), LV(it.root, (1,))
            it = self.open(it)
        it = items_of(it)
        if not isinstance(it, (list, tuple)) or len(it) != 2 or any(isinstance(x, Seg) for x in it):
            raise PyRaise(ValueError, ("dictionary update sequence element has not length 2",))
        return it[0], it[1]

    def map_chunks(self, chunks, fn):
        """The concatenated results of fn(item) -> list."""
        out = []
        for c in chunks:
            if isinstance(c, Seg):
                if self.ctx.fact(("empty", c.rep)):
                    continue
                r = self.ctx.each_case(c.rep, lambda c=c: self.map_chunks(self.ctx.choose_case(c), fn))
                self.apply_effects(c, r)
                cases = [(f, ys) for f, ys, _ in r]
                if len(cases) == 1 and not any(cases[0][0]):
                    cases = [((), cases[0][1])]
                out.append(Seg(c.rep, cases, c.min if all(ys for _, ys in cases) else 0))
            else:
                out += fn(c)
        return out

    # ------------------------------------------------------------ expressions
    def expr(self, n, env):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n, env)

    def e_Constant(self, n, env):
        if isinstance(n.value, (bytes, float, complex)):
            raise Unsupported("constant")
        return n.value

    def e_Name(self, n, env):
        return env.lookup(n.id)

    def e_NamedExpr(self, n, env):
        v = self.expr(n.value, env)
        self.assign(n.target, v, env)
        return v

    def e_Attribute(self, n, env):
        return self.attr(self.expr(n.value, env), n.attr)

    def e_Lambda(self, n, env):
        return Closure(n, env, None)

    def e_IfExp(self, n, env):
        return self.expr(n.body if self.truth(self.expr(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        for x in n.values[:-1]:
            v = self.expr(x, env)
            if self.truth(v) != isinstance(n.op, ast.And):
                return v
        return self.expr(n.values[-1], env)

    def e_UnaryOp(self, n, env):
        v = self.expr(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        v = self.number(v)
        if isinstance(n.op, ast.USub):
            return int_mul(v, -1)
        if isinstance(n.op, ast.UAdd):
            return int_(v)
        raise Unsupported("unary operator")

    def number(self, v):
        v = self.cur(v)
        if isinstance(v, LV):
            t = self.typ(v)
            if t not in ("int", "bool"):
                raise PyRaise(TypeError, (f"a number is needed, not {t}",))
            v = self.open(v)
        if isinstance(v, (int, SInt)):
            return v
        if isinstance(v, Hole):
            raise Unsupported("arithmetic on a loop variable")
        raise PyRaise(TypeError, ("a number is needed",))

    def e_BinOp(self, n, env):
        return self.binop(n.op, self.expr(n.left, env), self.expr(n.right, env))

    def binop(self, op, a, b):
        a, b = self.cur(a), self.cur(b)
        if isinstance(op, ast.BitOr) and (isinstance(a, type) or isinstance(b, type)):
            return (*(a if isinstance(a, tuple) else (a,)), *(b if isinstance(b, tuple) else (b,)))
        ta, tb = self.typ(a), self.typ(b)
        if isinstance(a, LV):
            a = self.open(a)
        if isinstance(b, LV):
            b = self.open(b)
        if ta == tb == "str":
            if isinstance(op, ast.Add):
                return make_str((*parts_of(a), *parts_of(b)))
            raise Unsupported("operator on texts")
        if isinstance(op, ast.Mod) and ta == "str":
            return self.percent(a, b, tb)
        if ta in ("list", "tuple") and ta == tb and isinstance(op, ast.Add):
            return self.new_list([*self.chunks(a), *self.chunks(b)], ta)
        if isinstance(op, ast.Mult) and {ta, tb} & {"list", "tuple"} and {ta, tb} & {"int", "bool"}:
            s, k = (a, b) if ta in ("list", "tuple") else (b, a)
            if not isinstance(k, int):
                raise Unsupported("repetition of a list")
            return self.new_list(self.chunks(s) * k, self.typ(s))
        if ta == tb == "dict" and isinstance(op, ast.BitOr):
            d = self.new_dict()
            self.update(d, a)
            self.update(d, b)
            return d
        if {ta, tb} <= {"int", "bool"}:
            if isinstance(op, ast.Add):
                return int_add(int_(a), int_(b))
            if isinstance(op, ast.Sub):
                return int_add(int_(a), int_(b), -1)
            if isinstance(op, ast.Mult) and (isinstance(a, int) or isinstance(b, int)):
                return int_mul(b, int_(a)) if isinstance(a, int) else int_mul(a, int_(b))
            if isinstance(a, SInt) and isinstance(b, int) and 0 < b < 10 and isinstance(op, ast.Mod):
                x = self.ctx.enc.integer(a) % b
                return next((r for r in range(b - 1) if self.ctx.test(x == r)), b - 1)
            if isinstance(a, SInt) and b == 1 and isinstance(op, ast.BitAnd):
                return 0 if self.ctx.test(self.ctx.enc.integer(a) % 2 == 0) else 1
            if isinstance(a, int) and isinstance(b, int):
                fn = {ast.FloorDiv: lambda x, y: x // y, ast.Mod: lambda x, y: x % y, ast.BitAnd: lambda x, y: x & y,
                      ast.BitOr: lambda x, y: x | y}.get(type(op))
                if fn and not (isinstance(op, (ast.FloorDiv, ast.Mod)) and b == 0):
                    return fn(a, b)
        if "opaque" in (ta, tb) or not isinstance(op, ast.Add):
            raise Unsupported(f"operator {type(op).__name__} on {ta} and {tb}")
        raise PyRaise(TypeError, (f"unsupported operand types {ta} and {tb}",))

    def percent(self, a, b, tb):
        if not isinstance(a, str) or tb in ("opaque", "dict") or (tb == "tuple" and not isinstance(b, VSeq)):
            raise Unsupported("% formatting")
        args = list(b.items) if tb == "tuple" else [b]
        out, pos = [], 0
        for m in re.finditer(r"%(.?)", a, re.S):
            out.append(a[pos: m.start()])
            pos = m.end()
            if m[1] == "%":
                out.append("%")
                continue
            if m[1] not in ("s", "d") or not args or isinstance(args[0], Seg):
                raise Unsupported("% formatting")
            out += parts_of(self.to_str(args.pop(0) if m[1] == "s" else int_(self.number(args.pop(0)))))
        if args:
            raise Unsupported("% formatting")
        return make_str((*out, a[pos:]))

    def e_Compare(self, n, env):
        left = self.expr(n.left, env)
        for i, (op, c) in enumerate(zip(n.ops, n.comparators)):
            right = self.expr(c, env)
            if not self.compare(op, left, right):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot)):
            return not self.compare({ast.NotEq: ast.Eq, ast.NotIn: ast.In, ast.IsNot: ast.Is}[type(op)](), a, b)
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.Eq):
            return self.equals(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        a, b = self.number(a), self.number(b)
        if isinstance(a, int) and isinstance(b, int):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
        x, y = self.ctx.enc.integer(int_(a)), self.ctx.enc.integer(int_(b))
        return self.ctx.test({ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)])

    def equals(self, a, b):
        a, b = self.cur(a), self.cur(b)
        for x in (a, b):
            self.touch(x)
            if isinstance(x, (Hole, Prev)):
                raise Unsupported("comparison of a loop variable")
        if isinstance(a, (set, frozenset, type, dict, types.FunctionType, SObj, Meta)) or isinstance(b, (set, frozenset, type, dict, types.FunctionType,
                                                                                                          SObj, Meta)):
            if isinstance(a, (type, types.FunctionType)) and isinstance(b, (type, types.FunctionType)):
                return self.identical(a, b)
            if a is b:
                return True
            raise Unsupported("comparison")
        return self.ctx.equal(a, b)

    def identical(self, a, b):
        a, b = self.unfolded(a), self.unfolded(b)
        for x, y in ((a, b), (b, a)):
            if y is None or isinstance(y, bool):
                if isinstance(x, Hole):
                    raise Unsupported("comparison of a loop variable")
                if isinstance(x, LV):
                    return self.ctx.ask(x, ("is", y, type(y)) if y is None or isinstance(y, bool) else ("is", y), lambda v: v is y)
                return x is y
        if a is b:
            return True
        if TextClass in (a, b) and all(isinstance(x, type) and issubclass(x, str) for x in (a, b)):
            raise Unsupported("class of a text")
        if isinstance(a, (type, VDict, VSeq, SObj, types.FunctionType)) and isinstance(b, (type, VDict, VSeq, SObj, types.FunctionType)):
            return False
        raise Unsupported("identity")

    def contains(self, c, x):
        c, x = self.unfolded(c), self.unfolded(x)
        if isinstance(x, (Hole, Prev)) or isinstance(c, (Hole, Prev)):
            raise Unsupported("comparison of a loop variable")
        if isinstance(c, LV):
            t = self.typ(c)
            if t in ("none", "int", "bool"):
                raise PyRaise(TypeError, (f"argument of type {t} is not iterable",))
            if t == "dict":
                return self.ctx.ask(c, about("has", x), lambda v: self.ctx.dict_get(v, x) is not MISSING)
            c = self.open(c)
        self.touch(c)
        if isinstance(c, VDict):
            self.no_sub(c)
            return self.ctx.dict_get(c, self.key(x)) is not MISSING
        if isinstance(c, (dict, set, frozenset, list, tuple)):
            return self.member(list(c), x)
        if isinstance(c, VSeq):
            for i in c.items:
                if isinstance(i, Seg):
                    raise Unsupported("membership in a repetition")
            return any(self.equals(i, x) for i in c.items)
        if is_str(c):
            if isinstance(x, LV):
                if self.typ(x) != "str":
                    raise PyRaise(TypeError, ("'in <string>' requires string",))
                x = self.open(x)
            if not is_str(x):
                raise PyRaise(TypeError, ("'in <string>' requires string",))
            if isinstance(c, str) and isinstance(x, str):
                return x in c
            if isinstance(x, str) and any(isinstance(p, str) and x in p for p in parts_of(c)):
                return True
            return self.ctx.test(z3.Contains(self.ctx.enc.string(c), self.ctx.enc.string(x)))
        if isinstance(c, VIter):
            raise Unsupported("membership in an iterator")
        raise PyRaise(TypeError, ("argument is not iterable",))

    def member(self, values, x):
        """Is x one of the fixed values?"""
        if isinstance(x, LV):
            return self.ctx.ask(x, ("in", repr(values)), lambda v: self.member(values, v))
        x = self.key(x)
        if is_str(x):
            texts = [v for v in values if isinstance(v, str)]
            if isinstance(x, str):
                return x in texts
            s = self.ctx.enc.string(x)
            return self.ctx.test(z3.Or(*(s == z3.StringVal(t) for t in texts)) if texts else z3.BoolVal(False))
        return any(tag(v) == tag(x) and self.ctx.equal(v, x) for v in values)

    def e_Tuple(self, n, env):
        return self.display(n, env, "tuple")

    def e_List(self, n, env):
        return self.display(n, env, "list")

    def display(self, n, env, kind):
        out = []
        for e in n.elts:
            if isinstance(e, ast.Starred):
                out += self.chunks(self.expr(e.value, env))
            else:
                out.append(self.expr(e, env))
        return self.new_list(out, kind)

    def e_Set(self, n, env):
        vs = [self.expr(e, env) for e in n.elts]
        if all(isinstance(v, (str, int, type(None))) for v in vs):
            return frozenset(vs)
        raise Unsupported("set")

    def e_Dict(self, n, env):
        d = self.new_dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.update(d, self.expr(v, env))
            else:
                key = self.expr(k, env)
                self.dict_set(d, key, self.expr(v, env))
        return d

    def update(self, d, other):
        other = self.cur(other)
        if isinstance(other, LV):
            if self.typ(other) != "dict":
                raise PyRaise(TypeError, ("not a mapping",))
            other = self.open(other)
        self.touch(other)
        if isinstance(other, VDict):
            for e in list(other.log):
                if e[0] == "k":
                    self.dict_set(d, e[1], e[2])
                else:
                    d.log.append(e)
        elif isinstance(other, dict):
            for k, v in other.items():
                self.dict_set(d, k, v)
        elif isinstance(other, (VSeq, VIter)):
            self.insert_pairs(d, self.chunks(other))
        else:
            raise PyRaise(TypeError, ("not a mapping",))

    def insert_pairs(self, d, chunks):
        for c in chunks:
            if isinstance(c, Seg):
                if not self.ctx.fact(("empty", c.rep)):
                    d.log.append(("seg", c.mapped(lambda items: [self.pair_of_seg(i) for i in items])))
            else:
                k, v = self.pair_of(c)
                self.dict_set(d, k, v)

    def pair_of_seg(self, it):
        if isinstance(it, LV) and it.root.nt == "PAIR" and not it.sub:
            return (LV(it.root, (0,)), LV(it.root, (1,)))
        if isinstance(it, VSeq) and it.kind == "tuple" and len(it.items) == 2:
            return tuple(it.items)
        if isinstance(it, tuple) and len(it) == 2:
            return it
        raise Unsupported(f"a dictionary of {it!r}")

    def comp(self, gens, env, fn):
        """All results of a comprehension: values and Segs."""
        g, *rest = gens
        if g.is_async:
            raise Unsupported("async")
        chunks = self.chunks(self.expr(g.iter, env))
        inner = Env(env, env.glob)

        def one(item):
            self.assign(g.target, item, inner)
            for c in g.ifs:
                if not self.truth(self.expr(c, inner)):
                    return []
            return self.comp(rest, inner, fn) if rest else [fn(inner)]

        return self.map_chunks(chunks, one)

    def e_ListComp(self, n, env):
        return self.new_list(self.comp(n.generators, env, lambda e: self.expr(n.elt, e)))

    def e_GeneratorExp(self, n, env):
        return VIter(self.comp(n.generators, env, lambda e: self.expr(n.elt, e)))

    def e_DictComp(self, n, env):
        d = self.new_dict()
        self.insert_pairs(d, self.comp(n.generators, env, lambda e: self.new_list([self.expr(n.key, e), self.expr(n.value, e)], "tuple")))
        return d

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.expr(v.value, env)
                if v.format_spec is not None:
                    raise Unsupported("format specification")
                if v.conversion == 114:
                    raise Unsupported("repr")
                parts += parts_of(self.to_str(x))
        return make_str(parts)

    def e_Subscript(self, n, env):
        obj = self.expr(n.value, env)
        if isinstance(n.slice, ast.Slice):
            f = lambda x: self.cur(self.expr(x, env)) if x is not None else None  # noqa: E731
            return self.slice(obj, f(n.slice.lower), f(n.slice.upper), f(n.slice.step))
        return self.item(obj, self.expr(n.slice, env))

    def item(self, obj, k):
        obj = self.cur(obj)
        if isinstance(obj, SubDict):
            raise Unsupported("a loop reads what it changes")
        if isinstance(obj, LV):
            if obj.root.nt == "PAIR" and not obj.sub and k in (0, 1) and isinstance(k, int):
                return LV(obj.root, (int(k),))
            t = self.typ(obj)
            if t in ("none", "int", "bool"):
                raise PyRaise(TypeError, (f"{t} is not subscriptable",))
            if t == "dict" and isinstance(k, str):
                if not self.ctx.ask(obj, about("has", k), lambda v: self.ctx.dict_get(v, k) is not MISSING):
                    raise PyRaise(KeyError, (k,))
                o = self.cur(obj)
                if isinstance(o, LV):
                    return LV(o.root, (*o.sub, k))
            obj = self.open(obj)
        for sub in self.ctx.levels[-1].subs:
            if sub.obj is obj and self.same_key(sub.key, self.key(k)):
                return sub
        if isinstance(obj, VDict) and obj.factory is not None and obj.level < self.level:
            return self.m_dict_setdefault(obj, k, self.call(obj.factory, []))
        self.touch(obj)
        if isinstance(obj, VDict):
            self.no_sub(obj)
            v = self.lookup(obj, self.key(k))
            if v is MISSING and obj.factory is not None:
                return self.m_dict_setdefault(obj, k, self.call(obj.factory, []))
            if v is MISSING:
                raise PyRaise(KeyError, (k,))
            return v
        if isinstance(obj, VSeq):
            kt = self.typ(k)
            if kt not in ("int", "bool"):
                raise PyRaise(TypeError, ("list indices must be integers",))
            k = self.cur(k)
            if isinstance(k, SInt):
                return self.seg_item(obj, k)
            return obj.items[self.index(obj, int_(k))]
        if isinstance(obj, dict):
            v = self.fixed_get(obj, k, MISSING)
            if v is MISSING:
                raise PyRaise(KeyError, (k,))
            return v
        if isinstance(obj, (list, tuple)):
            if not isinstance(k, int):
                raise Unsupported("index")
            try:
                return obj[k]
            except IndexError as e:
                raise PyRaise(IndexError) from e
        if is_str(obj):
            if not isinstance(k, int):
                raise PyRaise(TypeError, ("string indices must be integers",)) if isinstance(k, str) else Unsupported("index into a text")
            return self.char(obj, k)
        if isinstance(obj, rx.Match):
            return obj.group(k)
        if isinstance(obj, (types.GenericAlias, type)) or getattr(obj, "__module__", "") in ("typing", "collections.abc"):
            return obj
        if obj is None or isinstance(obj, (int, SInt)):
            raise PyRaise(TypeError, ("not subscriptable",))
        raise Unsupported(f"item of {obj!r}")

    def char(self, s, k):
        ps = parts_of(s)
        if k == 0 and ps and isinstance(ps[0], str):
            return ps[0][0]
        if k == -1 and ps and isinstance(ps[-1], str):
            return ps[-1][-1]
        if isinstance(s, str):
            if not -len(s) <= k < len(s):
                raise PyRaise(IndexError, ("string index out of range",))
            return s[k]
        raise Unsupported("a character of an unknown text")

    def lookup(self, d, k):
        """The value under a key of a dictionary that can be changed."""
        v = self.ctx.dict_get(d, k)
        if isinstance(v, LV) and v.root.nt == "ANYV" and not any(e[0] == "k" and self.same_key(e[1], k) for e in d.log):
            if d.level < self.level:
                raise Unsupported("lookup in a loop over a repetition")
            d.log.append(("k", k, v))  # the same property, by name
        return v

    def fixed_get(self, d, k, default):
        """Lookup in a fixed table."""
        k = self.key(k)
        if isinstance(k, LV):
            k = self.open(k)
        if isinstance(k, SStr):
            ps = k.parts
            if all(isinstance(p, str) for p in ps):
                k = "".join(ps)
            else:
                s = self.ctx.enc.string(k)
                texts = [t for t in d if isinstance(t, str)]
                if not self.ctx.test(z3.Or(*(s == z3.StringVal(t) for t in texts)) if texts else z3.BoolVal(False)):
                    return default
                for t in texts:
                    if self.ctx.test(s == z3.StringVal(t)):
                        return d[t]
                raise Infeasible
        if isinstance(k, (VSeq, SInt, VDict)):
            raise Unsupported("lookup in a table")
        return d.get(k, default)

    def slice(self, obj, lo, hi, step):
        obj = self.cur(obj)
        if isinstance(obj, LV):
            t = self.typ(obj)
            if t in ("none", "int", "bool", "dict"):
                raise PyRaise(TypeError, (f"{t} is not sliceable",))
            obj = self.open(obj)
        if isinstance(obj, SStr):  # counted from the end
            n = ("len", SStr(obj.parts))
            if isinstance(lo, SInt) and lo.terms == ((n, 1),) and lo.const < 0:
                lo = lo.const
            if isinstance(hi, SInt) and hi.terms == ((n, 1),) and hi.const <= 0:
                hi = hi.const or None
        if not all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            raise Unsupported("slice")
        self.touch(obj)
        if isinstance(obj, VSeq):
            items = [i for i in obj.items if not (isinstance(i, Seg) and self.ctx.fact(("empty", i.rep)))]
            if not any(isinstance(i, Seg) for i in items):
                return self.new_list(items[lo:hi:step], obj.kind)
            if step is None or step == 1:
                a, b = lo or 0, hi
                if a >= 0 and (b is None or b < 0):
                    front, rest = self.take(items, a) if a else ([], items)
                    del front
                    if b is not None:
                        _, rest = self.take(rest, -b, end=True)
                    return self.new_list(rest, obj.kind)
                if a >= 0 and b is not None and b >= 0 and not any(isinstance(i, Seg) for i in items[:b]):
                    return self.new_list(items[a:b], obj.kind)
            if step is not None and step > 1 and hi is None and (lo or 0) >= 0:
                out = []
                pos = -(lo or 0)
                for i in items:
                    if isinstance(i, Seg):
                        only = i.only()
                        if only is None or len(only) % step:
                            raise Unsupported("slice of a repetition")
                        if pos < 0:
                            if pos + len(only) <= 0:
                                raise Unsupported("slice of a repetition")
                        off = pos % step
                        if pos < 0 and (-pos) >= step:
                            raise Unsupported("slice of a repetition")
                        out.append(Seg(i.rep, [((), [x for n, x in enumerate(only) if (n + off) % step == 0])], i.min))
                    else:
                        if pos >= 0 and pos % step == 0:
                            out.append(i)
                        pos += 1
                return self.new_list(out, obj.kind)
            raise Unsupported("slice of a repetition")
        if isinstance(obj, (list, tuple)):
            return obj[lo:hi:step]
        if is_str(obj):
            if isinstance(obj, str):
                return obj[lo:hi:step]
            if step not in (None, 1):
                raise Unsupported("slice of a text")
            return self.substring(obj, lo, hi)
        raise PyRaise(TypeError, ("not sliceable",))

    def substring(self, s, lo, hi):
        ps = list(parts_of(s))
        lo = lo or 0
        if lo < 0:
            # the last -lo characters
            if hi is None and ps and isinstance(ps[-1], str) and len(ps[-1]) >= -lo:
                return ps[-1][lo:]
            raise Unsupported("slice of an unknown text")
        if hi is not None and hi >= 0:
            if ps and isinstance(ps[0], str) and len(ps[0]) >= hi:
                return ps[0][lo:hi]
            if any(isinstance(p, Join) for p in ps):
                raise Unsupported("slice of an unknown text")
            return SStr((Cut(SStr(tuple(ps)), lo, hi),))
        if lo:
            if not (ps and isinstance(ps[0], str) and len(ps[0]) >= lo):
                raise Unsupported("slice of an unknown text")
            ps[0] = ps[0][lo:]
        if hi:
            if not (ps and isinstance(ps[-1], str) and len(ps[-1]) >= -hi):
                raise Unsupported("slice of an unknown text")
            ps[-1] = ps[-1][:hi]
        return make_str(ps)

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return SUPER
        f = self.expr(n.func, env)
        args, segs = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                c = self.chunks(self.expr(a.value, env))
                segs |= any(isinstance(x, Seg) for x in c)
                args += c
            else:
                args.append(self.expr(a, env))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.open(self.expr(k.value, env))
                for e in v.log if isinstance(v, VDict) else [("k", *x) for x in v.items()]:
                    if e[0] != "k" or not isinstance(e[1], str):
                        raise Unsupported("keyword arguments")
                    kwargs[e[1]] = e[2]
            else:
                kwargs[k.arg] = self.expr(k.value, env)
        if segs:
            target = f.func if isinstance(f, Bound) else f
            args = [a for a in args if not (isinstance(a, Seg) and self.ctx.fact(("empty", a.rep)))]
            if any(isinstance(a, Seg) for a in args):
                if isinstance(target, (types.FunctionType, Closure)):
                    return self.call_variadic(f, args, kwargs)
                if target is not itertools.chain:
                    raise Unsupported("a repetition as arguments")
        v = self.call(f, args, kwargs)
        if getattr(n, "made", False) and not isinstance(v, (VDict, VSeq, SubDict)):
            raise Unsupported("a dictionary of something else than dictionaries")
        return v

    def call_variadic(self, f, args, kwargs):
        node = f.node if isinstance(f, Closure) else definition(f.func if isinstance(f, Bound) else f)
        extra = 1 if isinstance(f, Bound) else 0
        n = len(node.args.posonlyargs) + len(node.args.args) - extra
        if any(isinstance(a, Seg) for a in args[:n]):
            raise Unsupported("a repetition as arguments")
        return self.call(f, args, kwargs)

    # ------------------------------------------------------------ attributes
    def attr(self, obj, name):
        obj = self.cur(obj)
        if obj is SUPER:
            return Method(SUPER, name)
        if isinstance(obj, enum.Enum) and name in ("value", "name"):
            return getattr(obj, name)
        if plain_object(obj):
            if name in vars(obj):
                return vars(obj)[name]
            return self.class_attr(obj, type(obj), name)
        if isinstance(obj, Ext):
            if name in obj.table:
                return ExtMethod(obj, name, obj.table[name])
            raise Unsupported(f"{obj.name}.{name}")
        if isinstance(obj, SObj):
            if name in obj.attrs:
                v = obj.attrs[name]
                if obj is self.state and (self.ctx.frozen or self.in_phrase) and not (v is None or isinstance(v, (bool, int, str))):
                    raise Unsupported("a phrase is evaluated with state")
                return v
            return self.class_attr(obj, obj.cls, name)
        if isinstance(obj, Meta):
            if name in obj.values:
                return obj.values[name]
            raise Unsupported(f"meta.{name}")
        if isinstance(obj, types.ModuleType) or (isinstance(obj, type)):
            try:
                return getattr(obj, name)
            except AttributeError as e:
                raise PyRaise(AttributeError, (name,)) from e
        if isinstance(obj, SStr) and obj.cls == "Token":
            if name == "type":
                return obj.ttype
            if name == "value":
                return make_str(obj.parts)
            if name in ("line", "end_line"):
                raise Unsupported("position of a token")
        if isinstance(obj, LV):
            t = self.typ(obj)
            real = {"str": str, "dict": dict, "list": list, "tuple": tuple, "none": type(None), "int": int, "bool": bool}.get(t)
            if real is None:
                raise Unsupported("attribute of an opaque value")
            if not hasattr(real, name):
                raise PyRaise(AttributeError, (f"'{real.__name__}' object has no attribute '{name}'",))
            return Method(obj, name)
        if isinstance(obj, (VDict, VSeq, str, SStr, int, SInt, type(None), VIter, rx.Match, SubDict, Exc, re.Pattern)):
            real = {VDict: dict, VIter: object, SubDict: dict, rx.Match: re.Match, SStr: str, SInt: int, Exc: Exception}.get(type(obj), type(obj))
            if isinstance(obj, VSeq):
                if obj.cls is not None:
                    return self.named_attr(obj, name)
                real = list if obj.kind == "list" else tuple
            if not hasattr(real, name):
                raise PyRaise(AttributeError, (f"'{real.__name__}' object has no attribute '{name}'",))
            if isinstance(obj, re.Pattern) and name in ("pattern", "flags"):
                return getattr(obj, name)
            return Method(obj, name)
        if isinstance(obj, (dict, list, tuple, set, frozenset)):
            return Method(obj, name)
        if isinstance(obj, logging.Logger) and name in LOG:
            return ExtMethod(obj, name, lambda args, kwargs: None)
        raise Unsupported(f"attribute {name} of {obj!r}")

    def class_attr(self, obj, cls, name):
        try:
            raw = inspect.getattr_static(cls, name)
        except AttributeError as e:
            raise PyRaise(AttributeError, (name,)) from e
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, classmethod):
            return Bound(cls, raw.__func__)
        if isinstance(raw, property):
            return self.call_function(raw.fget, [obj], {})
        if isinstance(raw, types.FunctionType):
            return Bound(obj, raw)
        if isinstance(raw, _VArgsWrapper):
            return Bound(obj, raw.base_func)
        if isinstance(raw, (str, int, bool, type(None), dict, list, set, frozenset, tuple, re.Pattern, type)):
            return raw
        raise Unsupported(f"class attribute {name}")

    # ------------------------------------------------------------ texts
    def to_str(self, v):
        v = self.cur(v)
        if isinstance(v, LV):
            if self.typ(v) in ("dict", "list", "tuple"):
                return SStr((Join("repr", (v,)),))
            v = self.open(v)
        if isinstance(v, SStr):
            return make_str(v.parts)
        if isinstance(v, SInt):
            return SStr((IntText(v),))
        if v is None or isinstance(v, (bool, int, str)):
            return str(v)
        if isinstance(v, Exc):
            return self.to_str(v.args[0]) if v.args else ""
        if isinstance(v, Ext) and v.text is not None:
            return v.text
        if isinstance(v, VSeq) and v.cls is not None:
            raise Unsupported("text of a named tuple")
        if isinstance(v, (VDict, VSeq, Fold)):
            return SStr((Join("repr", (v,)),))
        if isinstance(v, types.ModuleType):
            return str(v)
        raise Unsupported(f"text of {v!r}")

    def builtin(self, f, args, kwargs):
        if f is str:
            return self.to_str(args[0]) if args else ""
        if f is bool:
            return self.truth(args[0]) if args else False
        if f is int:
            return self.to_int(args, kwargs)
        if f is dict:
            d = self.new_dict()
            if args:
                self.update(d, args[0])
            for k, v in kwargs.items():
                self.dict_set(d, k, v)
            return d
        if f in (list, tuple):
            return self.new_list(self.chunks(args[0]) if args else [], f.__name__)
        if f in (set, frozenset):
            c = self.chunks(args[0]) if args else []
            if all(isinstance(x, (str, int)) for x in c):
                return frozenset(c)
            raise Unsupported("set")
        if f is enumerate:
            return VIter(self.enumerated(self.chunks(args[0]), kwargs.get("start", args[1] if len(args) > 1 else 0)))
        if f is zip:
            return VIter(self.zipped(args, kwargs))
        if f is map:
            if len(args) != 2:
                raise Unsupported("map")
            return VIter(self.map_chunks(self.chunks(args[1]), lambda x: [self.call(args[0], [x])]))
        if f is filter:
            return VIter(self.map_chunks(self.chunks(args[1]), lambda x: [x] if self.truth(self.call(args[0], [x]) if args[0] is not None else x) else []))
        if f is reversed:
            c = self.chunks(args[0])
            if any(isinstance(x, Seg) for x in c):
                raise Unsupported("reversal of a repetition")
            return VIter(c[::-1])
        if f is range:
            a = [self.number(x) for x in args]
            if not all(isinstance(x, int) for x in a):
                return self.sym_range(a)
            return VIter(list(range(*a)))
        if f is itertools.chain:
            return VIter([c for a in args for c in self.chunks(a)])
        if f is itertools.zip_longest:
            fill = kwargs.get("fillvalue")
            cols = [[c for c in self.chunks(a) if not (isinstance(c, Seg) and self.ctx.fact(("empty", c.rep)))] for a in args]
            if any(isinstance(c, Seg) for col in cols for c in col):
                lens = {len(c) for c in cols}
                if len(lens) > 1 or len({id(a) for a in args}) < len(args):
                    raise Unsupported("zip_longest of repetitions")
                return VIter(self.zipped([VIter(c) for c in cols], {}))
            if len(args) > 1 and len({id(a) for a in args}) < len(args) and any(isinstance(a, VIter) for a in args):
                if len({id(a) for a in args}) > 1:
                    raise Unsupported("zip_longest of one iterator")
                col = list(cols[0])
                col += [fill] * (-len(col) % len(args))
                return VIter([self.new_list(col[i: i + len(args)], "tuple") for i in range(0, len(col), len(args))])
            return VIter([self.new_list(row, "tuple") for row in itertools.zip_longest(*cols, fillvalue=fill)])
        if f is getattr(itertools, "batched", None) and isinstance(args[1], int):
            it = VIter(self.chunks(args[0]))
            rest = len(it.chunks) % args[1] if not any(isinstance(c, Seg) for c in it.chunks) else 0
            tail = [self.new_list(it.chunks[len(it.chunks) - rest:], "tuple")] if rest else []
            return VIter([*self.zipped([it] * args[1], {"strict": not rest and len(it.chunks) > 0}), *tail])
        if f is itertools.count:
            return Count(args[0] if args else 0, args[1] if len(args) > 1 else 1)
        if f is itertools.starmap:
            return VIter(self.map_chunks(self.chunks(args[1]), lambda x: [self.call(args[0], self.chunks(x))]))
        if f is itertools.islice:
            v = self.new_list(self.chunks(args[0]))
            lo, hi = (args[1], args[2]) if len(args) > 2 else (0, args[1])
            return self.slice(v, lo, hi, None)
        if f is type:
            if len(args) == 1:
                t = self.typ(args[0])
                v = self.cur(args[0])
                if t == "str":
                    if isinstance(v, LV):
                        v = self.open(v)
                    c = v.cls if isinstance(v, SStr) else "str"
                    if c == "str":
                        return str
                    if c == "Token":
                        return Token
                    return {"lit": str, "elem": BicepElement}.get(c, TextClass)
                return {"none": type(None), "bool": bool, "int": int, "dict": dict, "list": list, "tuple": tuple}.get(t) or self.unsupported("type()")
        raise Unsupported(f"{f.__name__}()")

    def unsupported(self, what):
        raise Unsupported(what)

    def sym_range(self, a):
        """range over the positions of a list with a repetition: fixed positions, those of the repetition, fixed positions."""
        lo, n, step = (0, *a, 1) if len(a) == 1 else (*a, 1) if len(a) == 2 else a
        if not isinstance(lo, int) or lo < 0 or not isinstance(step, int) or step < 1 or not isinstance(n, SInt) or len(n.terms) != 1:
            raise Unsupported("range of an unknown length")
        ((kind, rep), m), = n.terms
        if kind != "count" or m < 1 or n.const < 0:
            raise Unsupported("range of an unknown length")
        before = self.layouts.get(n, n.const)
        if lo > before or m % step or (before - lo) % step:
            raise Unsupported("range from within a repetition")
        index, count = SInt.of("index", rep), SInt.of("count", rep)
        seg = Seg(rep, [((), [int_add(int_add(int_mul(index, m), before), j) for j in range(0, m, step)])])
        after = [int_add(int_mul(count, m), i) for i in range(before, n.const, step)]
        return VIter([*range(lo, before, step), *([] if self.ctx.fact(("empty", rep)) else [seg]), *after])

    def to_int(self, args, kwargs):
        if not args:
            return 0
        v = self.cur(args[0])
        if isinstance(v, LV):
            t = self.typ(v)
            if t in ("dict", "list", "none", "tuple"):
                raise PyRaise(TypeError, (f"int() of {t}",))
            v = self.open(v)
        if isinstance(v, (int, SInt)):
            return int_(v)
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError as e:
                raise PyRaise(ValueError, (v,)) from e
        if isinstance(v, SStr):
            ps = v.parts
            if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == "INT" and len(args) == 1:
                return SInt.of("int", ps[0].path)
            if len(ps) == 2 and ps[0] == "-" and isinstance(ps[1], Atom) and ps[1].kind == "INT":
                return int_mul(SInt.of("int", ps[1].path), -1)
            if len(ps) == 1 and isinstance(ps[0], IntText):
                return ps[0].value
            if len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind in ("ID", "QS", "MLS", "FNU"):
                raise PyRaise(ValueError, (f"invalid literal for int(): {v}",))
            raise Unsupported("int() of an unknown text")
        raise PyRaise(TypeError, ("int()",))

    def enumerated(self, chunks, n):
        out = []
        n = self.number(n)
        for c in chunks:
            if isinstance(c, Seg):
                if self.ctx.fact(("empty", c.rep)):
                    continue
                only = c.only()
                if only is None:
                    raise Unsupported("enumeration of a filtered repetition")
                base = int_add(n, int_mul(c.index, len(only)))
                out.append(Seg(c.rep, [(c.cases[0][0], [self.new_list([int_add(base, j), x], "tuple") for j, x in enumerate(only)])], c.min))
                n = int_add(n, int_mul(c.count, len(only)))
            else:
                out.append(self.new_list([n, c], "tuple"))
                n = int_add(n, 1)
        return out

    def zipped(self, args, kwargs):
        strict = bool(kwargs.get("strict", False))
        if not args:
            return []
        if len(args) > 1 and all(a is args[0] for a in args) and isinstance(args[0], VIter):
            n = len(args)
            c = self.chunks(args[0])
            out, group = [], []
            for x in c:
                if isinstance(x, Seg):
                    if self.ctx.fact(("empty", x.rep)):
                        continue
                    only = x.only()
                    if group or only is None or len(only) % n:
                        raise Unsupported("grouping of a repetition")
                    out.append(Seg(x.rep, [(x.cases[0][0], [self.new_list(only[i: i + n], "tuple") for i in range(0, len(only), n)])], x.min))
                else:
                    group.append(x)
                    if len(group) == n:
                        out.append(self.new_list(group, "tuple"))
                        group = []
            if group and strict:
                raise PyRaise(ValueError, ("zip() argument is shorter",))
            return out
        cols = []
        counts = []
        for a in args:
            a = self.cur(a)
            if isinstance(a, Count):
                counts.append(a)
                cols.append(None)
            else:
                cols.append([x for x in self.chunks(a) if not (isinstance(x, Seg) and self.ctx.fact(("empty", x.rep)))])
        real = [c for c in cols if c is not None]
        if not real:
            raise Unsupported("zip")
        out = []
        n = min(len(c) for c in real)
        pos = 0
        for i in range(n):
            row = [c[i] if c is not None else None for c in cols]
            segs = [x for x in row if isinstance(x, Seg)]
            if segs:
                t = [x.only() for x in row if isinstance(x, Seg)]
                if any(not isinstance(x, Seg) for x in row if x is not None) or len({x.rep for x in segs}) != 1 or None in t or len({len(x) for x in t}) != 1:
                    raise Unsupported("zip of repetitions")
                k = len(t[0])
                items = []
                for j in range(k):
                    items.append(self.new_list([
                        x.only()[j] if x is not None else int_add(a.start, int_mul(int_add(pos, int_add(int_mul(segs[0].index, k), j)), a.step))
                        for x, a in zip(row, args)], "tuple"))
                out.append(Seg(segs[0].rep, [((), items)], segs[0].min))
                pos = int_add(pos, int_mul(segs[0].count, k))
            else:
                out.append(self.new_list([x if cols[m] is not None else int_add(args[m].start, int_mul(pos, args[m].step)) if isinstance(pos, SInt)
                                          else args[m].start + pos * args[m].step for m, x in enumerate(row)], "tuple"))
                pos = int_add(pos, 1)
        if any(len(c) != n for c in real):
            if any(isinstance(x, Seg) for c in real for x in c[n:]):
                raise Unsupported("zip of repetitions")
            if strict:
                raise PyRaise(ValueError, ("zip() arguments have different lengths",))
        return out

    # ------------------------------------------------------------ functions from elsewhere
    def external(self, f, args, kwargs):
        if f is isinstance:
            return self.is_instance(args[0], args[1])
        if f is len:
            v = self.cur(args[0])
            if isinstance(v, LV):
                t = self.typ(v)
                if t in ("none", "int", "bool"):
                    raise PyRaise(TypeError, (f"object of type {t} has no len()",))
                v = self.open(v)
            self.touch(v)
            if isinstance(v, (VDict, VSeq)):
                if isinstance(v, VDict):
                    self.no_sub(v)
                    if any(e[0] == "seg" for e in v.log):
                        raise Unsupported("length of a dictionary")
                return self.length_of(v)
            if isinstance(v, SStr):
                return int_norm(0, {("len", SStr(v.parts)): 1})
            if isinstance(v, Pieces):
                return int_add(v.n, 1)
            if isinstance(v, (str, dict, list, tuple, set, frozenset)):
                return len(v)
            raise PyRaise(TypeError, ("no len()",))
        if f in (typing.cast,):
            return args[1]
        if f is iter:
            v = self.cur(args[0])
            return v if isinstance(v, VIter) else VIter(self.chunks(v))
        if f is next:
            it = args[0]
            if isinstance(it, Count):
                if it.level < self.level:
                    raise Unsupported("a counter is advanced in a loop over a repetition")
                v = it.start
                it.start = int_add(it.start, it.step)
                return v
            if not isinstance(it, VIter):
                raise Unsupported("next")
            it.consume()
            while it.chunks and isinstance(it.chunks[0], Seg) and self.ctx.fact(("empty", it.chunks[0].rep)):
                it.chunks.pop(0)
            if not it.chunks:
                if len(args) > 1:
                    return args[1]
                raise PyRaise(StopIteration)
            if isinstance(it.chunks[0], Seg):
                raise Unsupported("the first of a repetition")
            return it.chunks.pop(0)
        if f in (any, all):
            c = self.chunks(args[0])
            for x in c:
                if isinstance(x, Seg):
                    raise Unsupported("any/all over a repetition")
                if self.truth(x) == (f is any):
                    return f is any
            return f is all
        if f is getattr:
            try:
                return self.attr(args[0], self.fixed(args[1]))
            except PyRaise as e:
                if e.typ is AttributeError and len(args) > 2:
                    return args[2]
                raise
        if f is hasattr:
            try:
                self.attr(args[0], self.fixed(args[1]))
            except PyRaise as e:
                if e.typ is AttributeError:
                    return False
                raise
            return True
        if f is callable:
            return isinstance(args[0], (Bound, Method, Closure, types.FunctionType, type))
        if f is setattr:
            return self.set_attr(args[0], self.fixed(args[1]), args[2])
        if f in (re.match, re.fullmatch, re.search, re.compile, re.sub, re.split):
            if f is re.compile and all(isinstance(a, (str, int)) for a in args):
                return re.compile(*args)
            p = args[0]
            if isinstance(p, str):
                p = re.compile(p)
            return self.regex(p, f.__name__, args[1:], kwargs)
        if f == dict.fromkeys:
            d = self.new_dict()
            for c in self.chunks(args[0]):
                if isinstance(c, Seg):
                    raise Unsupported("keys of a repetition")
                self.dict_set(d, self.key(c), args[1] if len(args) > 1 else None)
            return d
        if f == itertools.chain.from_iterable:
            return VIter([c for a in self.chunks(args[0]) for c in (self.chunks(a) if not isinstance(a, Seg) else self.unsupported("chain"))])
        if f in (dataclasses.replace, dataclasses.asdict, dataclasses.astuple) and args and isinstance(args[0], SObj) and len(args) == 1 and (
                f is dataclasses.replace or not kwargs):
            o = args[0]
            names = list(getattr(o.cls, "__dataclass_fields__", ()))
            if not names or list(o.attrs) != names or any(not (is_str(v) or v is None or isinstance(v, (int, SInt))) for v in o.attrs.values()):
                raise Unsupported(f.__name__)
            if f is dataclasses.replace:
                return self.construct(o.cls, [], {**o.attrs, **kwargs})
            if f is dataclasses.astuple:
                return self.new_list(list(o.attrs.values()), "tuple")
            return self.new_dict([("k", k, v) for k, v in o.attrs.items()])
        if f is copy.copy or f is copy.deepcopy:
            v = self.open(args[0])
            if isinstance(v, VSeq) and v.cls is not None:
                raise Unsupported("copy of a named tuple")
            if isinstance(v, VDict):
                d = self.new_dict()
                self.update(d, v)
                return d if f is copy.copy else self.unsupported("deepcopy")
            if isinstance(v, VSeq):
                return self.new_list(self.chunks(v), v.kind)
            if is_str(v) or v is None or isinstance(v, (int, SInt)):
                return v
        if f in tuple(getattr(logging, n) for n in LOG):
            return None
        if f is print:
            raise Unsupported("print")
        if f is functools.reduce:
            return self.reduce(args)
        if f in (min, max) and len(args) == 2 and not kwargs and not all(isinstance(a, int) for a in args):
            a, b = (self.number(x) for x in args)
            x, y = self.ctx.enc.integer(int_(a)), self.ctx.enc.integer(int_(b))
            return b if self.ctx.test(x > y) == (f is min) else a
        if isinstance(f, (types.BuiltinFunctionType, types.FunctionType)) and all(isinstance(a, (str, int, bool, type(None))) for a in args) and not kwargs \
                and f in PURE:
            try:
                return f(*args)
            except Exception as e:  # noqa: BLE001
                raise PyRaise(type(e)) from e
        raise Unsupported(f"call of {f!r}")

    def reduce(self, args):
        f, it, *init = args
        chunks = self.chunks(it)
        if not init:
            first, chunks = self.take(chunks, 1)
            acc = first[0]
        else:
            acc = init[0]
        for c in chunks:
            if isinstance(c, Seg):
                if self.ctx.fact(("empty", c.rep)):
                    continue
                hole = Hole(c.rep, "reduce")
                r = self.ctx.each_case(c.rep, lambda c=c: [self.fold_items(f, hole, self.ctx.choose_case(c))])
                self.apply_effects(c, r)
                if len(r) != 1 or not contains_hole(r[0][1][0], hole):
                    raise Unsupported("reduce")
                acc = Fold(c.rep, acc, Hole(c.rep), replace_hole(r[0][1][0], hole, Hole(c.rep)))
            else:
                acc = self.call(f, [acc, c])
        return acc

    def fold_items(self, f, acc, items):
        for x in items:
            acc = self.call(f, [acc, x])
        return acc

    def fixed(self, v):
        v = self.cur(v)
        if isinstance(v, str):
            return v
        raise Unsupported("an unknown name")

    def is_instance(self, v, t):
        v = self.unfolded(v)
        ts = t.items if isinstance(t, VSeq) else t if isinstance(t, (tuple, list)) else getattr(t, "__args__", None) if isinstance(t, types.UnionType) else [t]
        ts = list(ts)
        if isinstance(v, LV):
            return self.ctx.ask(v, ("isinstance", tuple(str(x) for x in ts)), lambda x: self.is_instance(x, tuple(ts)))
        if isinstance(v, (Hole, Prev)):
            raise Unsupported("type of a loop variable")
        return any(self.instance(v, x) for x in ts)

    def instance(self, v, t):
        if not isinstance(t, type):
            t = typing.get_origin(t) or t
        if t is object:
            return True
        k = tag(v)
        if k == "str":
            c = v.cls if isinstance(v, SStr) else "str"
            c = {"elem": "BicepElement", "lit": "str"}.get(c, c)
            if t is str:
                return True
            name = getattr(t, "__name__", "")
            if c == "text":
                if name in ("BicepElement", "Token"):
                    if name == "Token":
                        return False
                    raise Unsupported("class of a text")
                return False
            if t is Token:
                return c == "Token"
            if isinstance(t, type) and issubclass(t, str):
                return c == name
            return t.__name__ in ("Sequence", "Iterable", "Hashable", "Collection", "Container", "Sized")
        real = {"none": type(None), "bool": bool, "int": int, "dict": dict, "list": list, "tuple": tuple}.get(k)
        if real is not None:
            return issubclass(getattr(v, "cls", None) or real if isinstance(v, VSeq) else real, t)
        if isinstance(v, SObj):
            return issubclass(v.cls, t)
        if isinstance(v, Exc):
            return issubclass(v.typ, t)
        raise Unsupported(f"type of {v!r}")

    # ------------------------------------------------------------ methods of built-in types
    def method(self, obj, name, args, kwargs):
        if obj is SUPER:
            if name == "__init__":
                return None
            raise Unsupported(f"super().{name}")
        obj = self.cur(obj)
        if isinstance(obj, LV):
            t = self.typ(obj)
            if t == "dict" and name == "get" and isinstance(self.cur(args[0]), str):
                if self.contains(obj, args[0]):
                    return self.item(obj, args[0])
                return args[1] if len(args) > 1 else None
            if t == "dict" and name == "pop" and len(args) == 2 and isinstance(self.cur(args[0]), str) and not self.contains(obj, args[0]):
                return args[1]
            obj = self.open(obj)
        if isinstance(obj, Exc):
            raise Unsupported("exception object")
        if isinstance(obj, re.Pattern):
            return self.regex(obj, name, args, kwargs)
        if isinstance(obj, rx.Match):
            if name == "group":
                r = [obj.group(a) for a in (args or [0])]
                return r[0] if len(r) == 1 else self.new_list(r, "tuple")
            if name == "groupdict":
                return self.new_dict([("k", k, v) for k, v in obj.groupdict().items()])
            if name == "groups":
                return self.new_list(obj.groups(), "tuple")
            raise Unsupported(f"match.{name}")
        if isinstance(obj, SubDict):
            if name == "__setitem__":
                return self.set_item(obj, *args)
            if name == "update" and len(args) == 1 and not kwargs:
                other = self.open(args[0])
                if isinstance(other, VDict) and all(e[0] == "k" for e in other.log):
                    for e in other.log:
                        self.set_item(obj, e[1], e[2])
                    return None
            raise Unsupported("a loop reads what it changes")
        k = tag(obj)
        m = getattr(self, f"m_{k}_{name}", None)
        if m is not None:
            return m(obj, *args, **kwargs)
        if isinstance(obj, dict):
            return self.fixed_dict(obj, name, args)
        if isinstance(obj, (list, set)) and name in ("append", "extend", "add", "insert", "pop", "clear", "remove", "update"):
            raise FrameViolation("a global object is changed")
        if k == "str" and isinstance(obj, str) and all(isinstance(a, (str, int, type(None))) for a in args) and not kwargs:
            r = getattr(str(obj), name)(*args)
            return self.new_list(r, "tuple" if isinstance(r, tuple) else "list") if isinstance(r, (list, tuple)) else r
        raise Unsupported(f"{k}.{name}()")

    def fixed_dict(self, d, name, args):
        if name == "get":
            return self.fixed_get(d, args[0], args[1] if len(args) > 1 else None)
        if name in ("items", "keys", "values"):
            return [self.new_list(x, "tuple") for x in d.items()] if name == "items" else list(getattr(d, name)())
        raise FrameViolation(f"a global dictionary: {name}") if name in ("update", "setdefault", "pop", "clear", "popitem") else Unsupported(f"dict.{name}")

    # dictionaries
    def m_dict_get(self, d, k, default=None):
        if isinstance(d, dict):
            return self.fixed_get(d, k, default)
        self.touch(d)
        self.no_sub(d)
        v = self.lookup(d, self.key(k))
        return default if v is MISSING else v

    def m_dict_setdefault(self, d, k, default=None):
        if isinstance(d, dict):
            raise FrameViolation("a global dictionary is changed")
        if d.level < self.level:
            if isinstance(default, VDict) and not default.log:
                sub = SubDict(d, self.key(k))
                self.ctx.levels[-1].subs.append(sub)
                return sub
            raise Unsupported("setdefault in a loop over a repetition")
        v = self.lookup(d, self.key(k))
        if v is MISSING:
            self.mutating(d)
            self.dict_set(d, k, default)
            return default
        return v

    def m_dict_pop(self, d, k, *default):
        if isinstance(d, dict):
            raise FrameViolation("a global dictionary is changed")
        if d.level < self.level:
            raise Unsupported("pop in a loop over a repetition")
        v = self.ctx.dict_get(d, self.key(k))
        if v is MISSING:
            if default:
                return default[0]
            raise PyRaise(KeyError, (k,))
        self.mutating(d)
        for n, e in enumerate(d.log):
            if e[0] == "k" and self.same_key(e[1], k):
                if any(o[0] == "seg" and o[1] for o in d.log) and isinstance(k, str) and k.isidentifier():
                    if self.ctx.log_get([o for o in d.log if o[0] == "seg"], k) is not MISSING:
                        raise Unsupported("removal of a property")
                del d.log[n]
                return v
        raise Unsupported("removal of a member of a repetition")

    def m_dict___delitem__(self, d, k):
        self.m_dict_pop(d, k)

    def m_dict_items(self, d):
        if isinstance(d, dict):
            return self.new_list([self.new_list(x, "tuple") for x in d.items()])
        self.touch(d)
        self.no_sub(d)
        return self.new_list([self.new_list([e[1], e[2]], "tuple") if e[0] == "k" else e[1].mapped(
            lambda items: [self.new_list(list(self.pair_of(i)), "tuple") for i in items]) for e in d.log])

    def m_dict_keys(self, d):
        return self.new_list(self.chunks(d))

    def m_dict_values(self, d):
        if isinstance(d, dict):
            return self.new_list(list(d.values()))
        self.touch(d)
        self.no_sub(d)
        return self.new_list([e[2] if e[0] == "k" else e[1].mapped(lambda items: [self.pair_of(i)[1] for i in items]) for e in d.log])

    def m_dict_update(self, d, other=None, **kw):
        if isinstance(d, dict):
            raise FrameViolation("a global dictionary is changed")
        if d.level < self.level:
            o = self.open(other) if other is not None else self.new_dict()
            if not isinstance(o, VDict) or any(e[0] != "k" for e in o.log):
                raise Unsupported("update in a loop over a repetition")
            for e in o.log:
                self.set_item(d, e[1], e[2])
        elif other is not None:
            self.update(d, other)
        for k, v in kw.items():
            self.set_item(d, k, v)

    def m_dict_copy(self, d):
        out = self.new_dict()
        self.update(out, d)
        return out

    # lists
    def m_list_append(self, x, v):
        if not isinstance(x, VSeq):
            raise FrameViolation("a global list is changed")
        if self.write(x, ("append", [v])):
            x.items.append(v)

    def m_list_extend(self, x, v):
        if not isinstance(x, VSeq):
            raise FrameViolation("a global list is changed")
        c = self.chunks(v)
        if self.write(x, ("append", c)):
            x.items += c

    def m_list_insert(self, x, i, v):
        self.mutating(x)
        if x.level < self.level:
            raise Unsupported("insert in a loop over a repetition")
        if i == 0:
            x.items.insert(0, v)
        else:
            raise Unsupported("insert")

    def m_list_pop(self, x, i=-1):
        self.mutating(x)
        if x.level < self.level:
            raise Unsupported("pop in a loop over a repetition")
        if not x.items:
            raise PyRaise(IndexError, ("pop from empty list",))
        return x.items.pop(self.index(x, i))

    def m_list_copy(self, x):
        return self.new_list(self.chunks(x))

    def m_list_clear(self, x):
        self.mutating(x)
        if x.level < self.level:
            raise Unsupported("clear in a loop over a repetition")
        x.items.clear()

    # texts
    def text(self, v):
        v = self.cur(v)
        if isinstance(v, LV):
            if self.typ(v) != "str":
                raise PyRaise(TypeError, ("a text is needed",))
            v = self.open(v)
        if not is_str(v):
            raise PyRaise(TypeError, ("a text is needed",))
        return v

    def m_str_startswith(self, s, p, *rest):
        if rest:
            raise Unsupported("startswith")
        if isinstance(p, VSeq) or isinstance(p, tuple):
            return any(self.m_str_startswith(s, x) for x in items_of(p))
        p = self.text(p)
        ps = parts_of(s)
        if isinstance(p, str):
            lead = ps[0] if ps and isinstance(ps[0], str) else ""
            if lead.startswith(p):
                return True
            if not p.startswith(lead) or len(ps) == (1 if lead else 0):
                return False
        return self.ctx.test(z3.PrefixOf(self.ctx.enc.string(p), self.ctx.enc.string(s)))

    def m_str_endswith(self, s, p, *rest):
        if rest:
            raise Unsupported("endswith")
        if isinstance(p, VSeq) or isinstance(p, tuple):
            return any(self.m_str_endswith(s, x) for x in items_of(p))
        p = self.text(p)
        ps = parts_of(s)
        if isinstance(p, str):
            tail = ps[-1] if ps and isinstance(ps[-1], str) else ""
            if tail.endswith(p):
                return True
            if not p.endswith(tail) or len(ps) == (1 if tail else 0):
                return False
        return self.ctx.test(z3.SuffixOf(self.ctx.enc.string(p), self.ctx.enc.string(s)))

    def m_str_removeprefix(self, s, p):
        if not self.m_str_startswith(s, p):
            return make_str(parts_of(s))
        p, ps = self.text(p), list(parts_of(s))
        if isinstance(p, str):
            if not p:
                return make_str(ps)
            if isinstance(ps[0], str) and ps[0].startswith(p):
                ps[0] = ps[0][len(p):]
                return make_str(ps)
        raise Unsupported("prefix of an unknown text")

    def m_str_removesuffix(self, s, p):
        if not self.m_str_endswith(s, p):
            return make_str(parts_of(s))
        p, ps = self.text(p), list(parts_of(s))
        if isinstance(p, str):
            if not p:
                return make_str(ps)
            if isinstance(ps[-1], str) and ps[-1].endswith(p):
                ps[-1] = ps[-1][: -len(p)]
                return make_str(ps)
        raise Unsupported("suffix of an unknown text")

    def m_str_join(self, s, it):
        c = self.chunks(it)
        out, segs = [], False
        for x in c:
            if isinstance(x, Seg):
                if self.ctx.fact(("empty", x.rep)):
                    continue
                segs = True
        c = self.map_chunks(c, lambda x: [self.text(x)])
        if segs:
            if not isinstance(s, str):
                raise Unsupported("join")
            return SStr((Join(s, tuple(c)),))
        for n, x in enumerate(c):
            if n:
                out += parts_of(s)
            out += parts_of(x)
        return make_str(out)

    def m_str_split(self, s, sep=None, maxsplit=-1):
        return self.splitted(s, sep, maxsplit, False)

    def m_str_rsplit(self, s, sep=None, maxsplit=-1):
        return self.splitted(s, sep, maxsplit, True)

    def splitted(self, s, sep, maxsplit, right):
        if isinstance(s, str) and isinstance(sep, (str, type(None))):
            return self.new_list((s.rsplit if right else s.split)(sep, maxsplit))
        if sep == "'''" and maxsplit == -1 and not right:
            return Pieces(self.m_str_count(s, sep))
        if not isinstance(sep, str) or not isinstance(maxsplit, int) or len(sep) != 1:
            raise Unsupported("split")
        pieces = self.pieces(s, sep)
        if maxsplit >= 0 and len(pieces) > maxsplit + 1:
            raise Unsupported("split")
        return self.new_list([make_str(p) for p in pieces])

    def pieces(self, s, sep):
        out: list = [[]]
        for p in parts_of(s):
            if isinstance(p, str):
                first, *more = p.split(sep)
                out[-1].append(first)
                for m in more:
                    out.append([m])
            else:
                if self.ctx.implied(z3.Contains(self.ctx.enc.string(SStr((p,))), z3.StringVal(sep))) is not False:
                    raise Unsupported(f"an unknown text may contain {sep!r}")
                out[-1].append(p)
        return out

    def m_str_partition(self, s, sep):
        if isinstance(s, str):
            return self.new_list(s.partition(sep), "tuple")
        if not isinstance(sep, str) or len(sep) != 1:
            raise Unsupported("partition")
        p = self.pieces(s, sep)
        if len(p) == 1:
            return self.new_list([make_str(p[0]), "", ""], "tuple")
        rest: list = []
        for i, x in enumerate(p[1:]):
            rest += ([sep] if i else []) + x
        return self.new_list([make_str(p[0]), sep, make_str(rest)], "tuple")

    def m_str_strip(self, s, chars=None):
        return self.strips(s, chars, True, True)

    def m_str_lstrip(self, s, chars=None):
        return self.strips(s, chars, True, False)

    def m_str_rstrip(self, s, chars=None):
        return self.strips(s, chars, False, True)

    def strips(self, s, chars, left, right):
        if isinstance(s, str):
            return s.strip(chars) if left and right else s.lstrip(chars) if left else s.rstrip(chars)
        if chars is not None and not isinstance(chars, str):
            raise Unsupported("strip")
        ps = list(parts_of(s))
        for end in ([0] if left else []) + ([-1] if right else []):
            while ps and isinstance(ps[end], str):
                t = ps[end].lstrip(chars) if end == 0 else ps[end].rstrip(chars)
                if t:
                    ps[end] = t
                    break
                ps.pop(end)
            if ps and not isinstance(ps[end], str):
                x = self.ctx.enc.string(SStr((ps[end],)))
                cs = chars if chars is not None else " \t\n\r\x0b\x0c"
                fix = z3.PrefixOf if end == 0 else z3.SuffixOf
                if not isinstance(ps[end], Atom) or self.ctx.implied(z3.Or(*(fix(z3.StringVal(c), x) for c in cs))) is not False:
                    raise Unsupported("strip of an unknown text")
        return make_str(ps)

    def m_str_format(self, s, *args, **kwargs):
        if not isinstance(s, str) or kwargs:
            raise Unsupported("format")
        out, n = [], 0
        for lit, field, spec, conv in __import__("string").Formatter().parse(s):
            out.append(lit)
            if field is None:
                continue
            if spec or conv or (field and not field.isdigit()):
                raise Unsupported("format")
            i = int(field) if field else n
            n += 1
            out += parts_of(self.to_str(args[i]))
        return make_str(out)

    def m_str___str__(self, s):
        return make_str(parts_of(s))

    def m_str_count(self, s, x):
        if isinstance(s, str) and isinstance(x, str):
            return s.count(x)
        ps = parts_of(s)
        if x == "'''" and len(ps) == 1 and isinstance(ps[0], Atom) and ps[0].kind == "ANY":
            return SInt.of("delimiters", ps[0].path)
        raise Unsupported("count")

    def m_str_replace(self, s, a, b, n=-1):
        if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
            return s.replace(a, b, n)
        if isinstance(a, str) and a and n == -1:
            # nothing to replace?
            if self.ctx.implied(z3.Contains(self.ctx.enc.string(s), z3.StringVal(a))) is False:
                return make_str(parts_of(s))
        raise Unsupported("replace")

    def regex(self, pattern, name, args, kwargs):
        if kwargs or len(args) != 1 or name not in ("match", "fullmatch"):
            if name in ("match", "fullmatch", "search", "sub", "split") and all(isinstance(a, str) for a in args):
                raise Unsupported("regular expression")
            raise Unsupported(f"regular expression {name}")
        s = self.text(args[0])
        r = rx.match(self.ctx, pattern, parts_of(s), name == "fullmatch")
        return r

    # ------------------------------------------------------------ lark
    def callback(self, obj, name, children, meta):
        """Transformer._call_userfunc."""
        cls = obj.cls
        try:
            raw = inspect.getattr_static(cls, name)
        except AttributeError:
            return None, False
        kids = self.new_list(children)
        if isinstance(raw, _VArgsWrapper):
            w = raw.visit_wrapper.__name__
            f = raw.base_func
            if w == "_vargs_meta":
                return self.call_function(f, [obj, Meta(meta), kids], {}), True
            if w == "_vargs_inline":
                return self.call_variadic(Bound(obj, f), children, {}), True
            if w == "_vargs_meta_inline":
                return self.call_variadic(Bound(obj, f), [Meta(meta), *children], {}), True
            raise Unsupported(f"v_args {w}")
        f = self.class_attr(obj, cls, name)
        return self.call(f, [kids]), True


class FrameViolation(Failure):
    pass


class TextClass(str):
    """The class of a text of which only its being a text is known."""


class _Super:
    pass


SUPER = _Super()


def contains_hole(v, h):
    if isinstance(v, Hole):
        return v == h
    if isinstance(v, VDict):
        return any(contains_hole(e[2], h) for e in v.log if e[0] == "k")
    if isinstance(v, (VSeq,)):
        return any(contains_hole(x, h) for x in v.items)
    return False
