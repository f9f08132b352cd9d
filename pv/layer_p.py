"""The contract of BicepParser: what is parsed, what is rejected, and that nothing is kept.

`BicepParser(...)` and `parse(...)` are executed symbolically from their source.  What is outside of pycep is assumed:

* `Lark(grammar=g, **options)` is a parser that depends on g and the options (`cache` only decides whether it is rebuilt);
  its `parse(text)` gives a tree that depends on the text alone, or raises;
* `path.read_text()` is the content of the file;
* `Transformer.transform(tree)` calls the callbacks bottom-up (that is what pv.layer_a executes).
"""
from __future__ import annotations

import inspect
import itertools

import lark
from lark.visitors import Transformer

from pv.interp import Ext, Interp, PyRaise, SObj
from pv.layer_a import explore
from pv.sym import Mismatch, Unsupported
from pv.symval import Atom, SInt, SStr, VDict, VSeq, parts_of, z3

TEXT = Atom("ANY", (("?", "text"),))
PATH = Atom("ANY", (("?", "path"),))


def text():
    return SStr((TEXT,))


def constant(v):
    v = getattr(v, "value", v)
    return isinstance(v, (str, int, bool, float, type(None)))


class World:
    """The assumed objects."""

    def __init__(self, ctx, parser_cls, transformer_cls):
        self.ctx = ctx
        self.I = I = ctx.interp
        self.transformer_cls = transformer_cls
        self.created: list = []
        self.reads = 0
        self.path = Ext("file path", {"read_text": self.read_text}, SStr((PATH,)))
        self.tree = Ext("syntax tree", {})
        self.result = None
        I.contracts[lark.Lark] = self.lark
        for n in ("transform",):
            I.contracts[inspect.getattr_static(Transformer, n)] = self.transform

    def lark(self, args, kwargs):
        if len(args) == 1 and "grammar" not in kwargs:
            kwargs = {"grammar": args[0], **kwargs}
        elif args or "grammar" not in kwargs:
            raise Unsupported("arguments of Lark")
        if not all(constant(v) for v in kwargs.values()):
            raise Unsupported("options of Lark")
        self.created.append(dict(kwargs))
        return Ext("lark parser", {"parse": self.parse})

    def parse(self, args, kwargs):
        if len(args) != 1 or kwargs:
            raise Unsupported("arguments of Lark.parse")
        if not isinstance(args[0], (str, SStr)):
            raise Mismatch(f"{args[0]!r} is parsed", "text")
        if parts_of(args[0]) != (TEXT,) and self.ctx.implied(self.ctx.enc.string(args[0]) == self.ctx.enc.string(text())) is not True:
            raise Mismatch(f"not the given text is parsed but {args[0]!r}", "text")
        return self.tree

    def read_text(self, args, kwargs):
        known = {"encoding": ("utf-8", "utf8", "UTF-8", None), "errors": (None, "strict")}
        kwargs = {**dict(zip(("encoding", "errors"), args)), **kwargs}
        if any(k not in known or v not in known[k] for k, v in kwargs.items()):
            raise Unsupported("arguments of read_text")
        self.reads += 1
        return text()

    def transform(self, args, kwargs):
        if len(args) != 2 or kwargs or args[1] is not self.tree:
            raise Unsupported("arguments of transform")
        obj = args[0]
        if not isinstance(obj, SObj) or obj.cls is not self.transformer_cls:
            raise Unsupported("another transformer")
        if obj.serial < self.start:
            raise Unsupported("a transformer that is kept between parses")
        fresh = self.I.construct(self.transformer_cls, [self.lines], {})
        if obj.attrs.keys() != fresh.attrs.keys():
            raise Unsupported("a transformer in another state")
        for k, v in fresh.attrs.items():
            w = obj.attrs[k]
            if isinstance(v, bool) and isinstance(w, bool) and v is not w:
                raise Mismatch(f"{k} of the transformer is {w} for add_line_numbers={self.lines}", "lines")
            if isinstance(v, (VSeq, VDict)):
                if type(v) is not type(w) or getattr(v, "items", None) != getattr(w, "items", None) or getattr(v, "log", None) != getattr(w, "log", None) \
                        or v is w or w.serial < self.start:
                    raise Unsupported("a transformer in another state")
            elif v != w or not constant(v):
                raise Unsupported("a transformer in another state")
        self.result = Ext("result", {})
        return self.result


def snapshot(obj, seen=None):
    return {k: (v, tuple(v.items) if isinstance(v, VSeq) else tuple(map(repr, v.log)) if isinstance(v, VDict) else None) for k, v in obj.attrs.items()}


def parse_contract(engine, parser_cls, given_text, given_path, lines):
    name = f"parse:{'text' if given_text else ''}{'+' if given_text and given_path else ''}{'file' if given_path else ''}" \
           f"{'' if given_text or given_path else 'nothing'}{':lines' if lines else ''}"

    def body(ctx):
        I = ctx.interp
        w = World(ctx, parser_cls, engine.cls)
        w.lines = lines
        parser = I.construct(parser_cls, [], {"add_line_numbers": lines})
        before = snapshot(parser)
        f = inspect.getattr_static(parser_cls, "parse")
        kwargs = {}
        if given_text:
            kwargs["text"] = text()
        if given_path:
            kwargs["file_path"] = w.path
        raised = None
        from pv.symval import serial

        w.start = serial()
        try:
            r = I.call(I.attr(parser, "parse"), [], kwargs)
        except PyRaise as e:
            raised, r = e, None
        del f
        if snapshot(parser) != before:
            raise Unsupported("the parser object is changed by a parse")
        if given_text == given_path:
            if raised is None:
                raise Mismatch("accepted without a TypeError")
            if not issubclass(raised.typ, TypeError):
                raise Mismatch(f"{raised} instead of a TypeError")
            return
        odd = ctx.enc.integer(SInt.of("delimiters", TEXT.path)) % 2 == 1
        if raised is not None:
            if not issubclass(raised.typ, ValueError):
                raise Mismatch(f"raises {raised}", "raise")
            if ctx.implied(odd) is not True:
                raise Mismatch(f"a balanced text is rejected: {raised}", "raise")
            if given_path:
                msg = raised.args_[0] if raised.args_ else ""
                if not isinstance(msg, (str, SStr)) or PATH not in parts_of(msg):
                    raise Mismatch(f"the error does not name the file: {msg!r}")
            return
        if ctx.implied(z3.Not(odd)) is not True:
            raise Mismatch("a text with unbalanced multi-line string delimiters is accepted")
        if r is not w.result or r is None:
            raise Unsupported("the result of a parse is not the transformed tree")

    return explore(engine, name, "file", lines, body)


def constructor_contract(engine, parser_cls):
    """All parsers are the one that the grammar and the options define."""

    def body(ctx):
        seen = []
        for lines, cache in itertools.product((False, True), (False, True)):
            w = World(ctx, parser_cls, engine.cls)
            w.lines = lines
            ctx.interp.construct(parser_cls, [], {"add_line_numbers": lines, "cache": cache})
            if len(w.created) != 1:
                raise Unsupported("the parser is not created once")
            o = w.created[0]
            o.pop("cache", None)
            seen.append(o)
        if any(o != seen[0] for o in seen):
            raise Mismatch("the parser depends on the line number option or the cache", "state")

    return explore(engine, "parse:constructor", "file", False, body)
