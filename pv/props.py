"""The bounded checks of each property."""
from __future__ import annotations

import os
import pickle
import random
import tempfile
from pathlib import Path

from pv import precedence
from pv import sgrammar as S
from pv.bounded import Bounded, Finding
from pv.concrete import diff
from pv.gen import DEFAULT_LAYOUT, Brk, File, Gen, Layout, Tok, distinct, sane


def by_prop(prop):
    return [p for p in S.PRODS if prop in p.props]


def generic(budget, falsy=True):
    def run(b: Bounded, prop, scale):
        ps = by_prop(prop)
        b.productions(prop, max(4, budget * scale // len(ps)), 2 + scale)
        if falsy:
            b.falsy(prop, ps)
        b.mixed(prop, 60 * scale, 6, 3 + scale)
    return run


def special(b, prop, scale):
    """What the source treats specially: more where it has constants that it did not have before."""
    ps = by_prop(prop) if prop not in ("C01", "C04", "C12", "C13", "C16", "C17", "C20") else S.PRODS
    b.pairs(prop, 600 * scale, ps)
    if prop == "C09":  # at every place where a value can be written
        b.pairs(prop, 600 * scale, S.PRODS)
    n = (900 if b.pool.news else 120) * scale
    if len(ps) > n:
        ps = random.Random(f"{b.seed}/{prop}/special").sample(ps, n)
    b.mined(prop, max(1, n // len(ps)), ps, n // 4)
    b.many(prop, ps)


def c01(b, prop, scale):
    b.mixed(prop, 300 * scale, 12, 3)
    # every pair of declaration kinds, in both orders
    rng = random.Random(f"{b.seed}/c01")
    g = Gen(rng)
    kinds = {}
    for p in S.BY_NT["DECL"]:
        kinds.setdefault(p.pid.split(".")[0] + (".many" if p.pid == "import.many" else ""), p)
    for p in kinds.values():
        for q in kinds.values():
            decls = distinct([g.make(p, 1), g.make(q, 1), g.make(p, 2)])
            b.check(prop, File(decls))


def c03(b, prop, scale):
    generic(600)(b, prop, scale)
    rng = random.Random(f"{b.seed}/c03")
    g = Gen(rng)
    rbs = S.BY_NT["RB"]
    depth_max = 6 if scale == 1 else 12
    for k in range(120 * scale):
        # a chain of nested resources
        depth = rng.randint(1, depth_max)
        node = None
        for _ in range(depth):
            ch = rng.choice(S.BY_NT["CHILD"])
            rb = wrap_rb(g, node, rng, rbs)
            child = set_slot(g.make(ch, 0), "b", rb)
            robj = g.make(S.BY_PID["robj"], 1)
            node = set_slot(robj, "child", child)
        top = set_slot(g.make(rng.choice([p for p in S.BY_NT["DECL"] if p.pid.startswith("resource")]), 1), "b", wrap_rb(g, node, rng, rbs))
        if k % 4 == 0:
            rename(top, rng)
        decls = distinct([top, *[g.node("DECL", 2) for _ in range(rng.randint(0, 2))]])
        b.check(prop, File(decls), b.layouts(rng, k))


def rename(top, rng):
    """Gives a nested resource a name that is like the name it will have."""
    prefix = None
    for node in reversed(list(top.walk())):  # outer ones first
        if node.prod.nt in ("DECL", "CHILD"):
            t = next(x for x in node.parts if getattr(x, "cls", None) == "ID")
            if prefix is not None and rng.random() < 0.6:
                t.text = t.val = rng.choice([f"{prefix}__{t.text}", prefix, f"__{t.text}", f"{t.text}__{prefix}", f"{prefix}{t.text}"])
            prefix = t.text if prefix is None else f"{prefix}__{t.text}"


def wrap_rb(g, robj, rng, rbs):
    if robj is None:
        return g.make(rng.choice([p for p in rbs if p.pid != "rb.child"]), 1)
    rb = rng.choice([p for p in rbs if p.pid != "rb.object"])
    if rb.pid == "rb.child":
        return set_slot(g.make(rb, 0), "a", robj)
    rbo = set_slot(g.make(S.BY_PID["rbo.child"], 0), "a", robj)
    return set_slot(g.make(rb, 1), "body", rbo)


def set_slot(node, slot, inner):
    for i, el in enumerate(node.prod.rhs):
        if getattr(el, "slot", None) == slot:
            node.parts[i] = inner
            return node
    raise KeyError(slot)


def c04(b, prop, scale):
    rng = random.Random(f"{b.seed}/c04")
    g = Gen(rng)
    for p in S.BY_NT["DECL"] + S.BY_NT["CHILD"] + S.BY_NT["IA"]:
        for k in range((5 if p.nt == "DECL" else 40) * scale):
            d = g.embed(g.make(p, 1 + k % 3), depth=1)
            decls = distinct([g.node("DECL", 1), d, g.node("DECL", 1)])
            f = File(decls, Brk(0, None, rng.choice([0, 1, 2])), Brk(0, None, rng.choice([0, 1])))
            b.check(prop, f, b.layouts(rng, k))
    b.mixed(prop, 100 * scale, 8, 3)


def c12(b, prop, scale):
    rng = random.Random(f"{b.seed}/c12")
    g = Gen(rng)
    p = S.BY_PID["targetScope"]
    for k in range(150 * scale):
        decls = [d for d in distinct([g.node("DECL", 2) for _ in range(rng.randint(0, 5))]) if d.prod is not p]
        if k % 3:
            decls.insert(rng.randint(0, len(decls)), g.make(p, 0))
        f = File(decls)
        text = f.text()
        if not sane(text):
            continue
        b.cases += 1
        kind, res = b.sub.run(text)
        exp = f.expected()["globals"]
        if kind != "ok" or diff(exp, res.get("globals")):
            if kind != "ok" and k % 3:
                one = File([d for d in decls if d.prod is p])
                if b.sub.run(one.text())[0] == "ok":
                    continue  # another declaration fails
            elif kind != "ok":
                continue
            raise Finding(prop, f"target scope: {res if kind != 'ok' else diff(exp, res.get('globals'))}",
                          {"text": text, "expected": {"globals": {"scope": {"value": str(exp["scope"]["value"])}}}, "outcome": kind, "reported": repr(res)})
    bad = ["", "x", "resourcegroup", "ResourceGroup", "resource", "tenants", "resourceGroup ", " tenant", "local", "${x}", "management", "Tenant",
           "subscriptions", "'"[1:], "resourceGroup,tenant", "null", "tenant\\n", "group", "a", "subscription\n"]
    bad += ["".join(rng.choice("abcdefgGrRsSuUpPtTnNeEoO ") for _ in range(rng.randint(0, 14))) for _ in range(50 * scale)]
    for s in bad:
        if s in S.B_SCOPES:
            continue
        for text in (f"targetScope = '{s}'\n", f"param a string\ntargetScope = '{s}'\nvar b = 1"):
            b.cases += 1
            kind, res = b.sub.run(text)
            if kind == "ok":
                raise Finding(prop, f"invalid target scope {s!r} accepted", {"text": text, "outcome": kind, "reported": repr(res)})


def c13(b, prop, scale):
    P = b.sub.BicepParser

    def fail(what, **replay):
        raise Finding(prop, what, {"what": what, **replay})

    def outcome(parser, text):
        try:
            return "ok", parser.parse(text=text)
        except Exception as e:  # noqa: BLE001
            return "error", type(e).__name__

    with tempfile.TemporaryDirectory() as tmp:
        path = Path(tmp) / "main.bicep"
        rng = random.Random(f"{b.seed}/c13")
        g = Gen(rng)
        path.write_text("param a string\n")
        for parser in (b.sub.plain, b.sub.lined):
            for name in ("parse", "create_tree"):
                for text in ("param a string\n", "", "'''", "\n"):
                    b.cases += 1
                    for args in ({"text": text, "file_path": path}, {}, {"text": None, "file_path": None}):
                        try:
                            getattr(parser, name)(**args)
                        except TypeError:
                            continue
                        except Exception as e:  # noqa: BLE001
                            fail(f"{name}({args}) raises {type(e).__name__} instead of a TypeError", call=f"{name}({args!r})")
                        fail(f"{name}({args}) accepted", call=f"{name}({args!r})")
        # unbalanced multi-line strings
        for text in ("'''", "var a = '''x", "var a = '''x'''\nvar b = '''", "param a string\n// '''\n", "var a = '''x''' '''", "'''''''''"):
            b.cases += 1
            for kw in ("text", "file_path"):
                path.write_text(text)
                arg = text if kw == "text" else path
                try:
                    P(cache=False).parse(**{kw: arg})
                except ValueError as e:
                    if kw == "file_path" and str(path) not in str(e):
                        fail(f"the error does not name the file: {e}", text=text)
                except Exception as e:  # noqa: BLE001
                    fail(f"unbalanced multi-line string: {type(e).__name__} instead of a ValueError", text=text, call=kw)
                else:
                    fail("unbalanced multi-line string accepted", text=text, call=kw)
        # histories
        texts = []
        for _ in range(40 * scale):
            f = File(distinct([g.node("DECL", rng.randint(1, 4)) for _ in range(rng.randint(0, 5))]))
            if sane(f.text()):
                texts.append(f.text())
        texts += ["", "\n", "import 'az'", "import {a as b, c} from 'x'", "import * as m from 'y'",
                  "resource a 'A/b@1' = {\n  resource c 'd' = {\n    x: 1\n  }\n}", "resource a 'A/b@1' = {\n  x: 1\n}",
                  "resource a 'A/b@1' = [for i in x: {\n  resource c 'd' = {\n    x: 1\n  }\n}]",
                  "import 'az'\nvar x = concat()", "resource a 'A/b@1' = {\n  resource c 'd' = {\n    x: 1\n  }\n}\nvar x = concat()",
                  "import {a} from 'x'\ntargetScope = 'foo'", "var = 1", "param p string = (", "var a = '''", "@minValue(1)\nparam p int",
                  "@description('x')\nparam p int", "param p int = 0", "targetScope = 'tenant'"]
        pristine = {l: P(cache=False, add_line_numbers=l) for l in (False, True)}
        base = {(l, t): in_child(outcome, pristine[l], t) for l in (False, True) for t in texts}
        shared = {l: [P(cache=False, add_line_numbers=l) for _ in range(2)] for l in (False, True)}
        kept = []
        for k in range(600 * scale):
            t, l, i = rng.choice(texts), rng.random() < 0.5, rng.randrange(2)
            b.cases += 1
            out = outcome(shared[l][i], t)
            if out != base[l, t]:
                fail("a parse depends on earlier ones", text=t, add_line_numbers=l, expected=repr(base[l, t]), reported=repr(out),
                     history=[x[1] for x in kept[-5:]])
            kept.append((out, t, l))
            if rng.random() < 0.3 and out[0] == "ok":
                scramble(out[1], rng)  # results belong to the caller
                kept.pop()
        for out, t, l in kept:
            if out != base[l, t]:
                fail("a later parse changed a result", text=t, add_line_numbers=l, expected=repr(base[l, t]), reported=repr(out))
        # files
        odd = [chr(x) for x in (0, *range(9, 13), *range(14, 127), 0x85, 0xA0, 0xE9, 0x2028, 0xFEFF)]
        odd += ["\\\\", "''", "'" * 3, "\n\n\n", "\t\n"]
        for t in [*texts, *("var a = 1\n" + x for x in odd), *(x + "\nvar a = 1" for x in odd), *(f"var a = '{x}'" for x in odd)]:
            b.cases += 1
            path.write_text(t, newline="")
            content = path.read_text()
            a = outcome(b.sub.plain, content)
            try:
                c = ("ok", b.sub.plain.parse(file_path=path))
            except Exception as e:  # noqa: BLE001
                c = ("error", type(e).__name__)
            if a != c:
                fail("a file and its content as text differ", text=content, expected=repr(a), reported=repr(c))


def in_child(fn, *args):
    """The result of the call in a forked process: the parser stays as it is here."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(fn(*args)))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def scramble(x, rng):
    if isinstance(x, dict):
        for k in list(x):
            scramble(x[k], rng)
            if rng.random() < 0.3:
                x[k] = "scrambled"
        x["extra"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v, rng)
        x.append("extra")


def c16(b, prop, scale):
    b.productions(prop, 2 * scale, 3, prods=S.PRODS)
    b.mixed(prop, 200 * scale, 8, 4)


def c17(b, prop, scale):
    b.productions(prop, 2 * scale, 3, prods=S.PRODS)
    b.falsy(prop, [p for p in S.PRODS if p.nt in ("DECO", "LOOP", "RB", "MB", "PAIR", "ARR", "E", "Q")])
    b.mixed(prop, 200 * scale, 8, 5)
    # unbounded sizes: long and deep files
    big = 300 * scale
    texts = ["var a = " + "[" * 60 + "]" * 60, "var a = " + "(" * 60 + "1" + ")" * 60, "var a = " + " + ".join(["x"] * 300),
             "var a = [" + ", ".join(["0"] * big) + "]", "var a = {\n" + "\n".join(f"k{i}: {i}" for i in range(big)) + "\n}",
             "\n".join(f"var a{i} = {i}" for i in range(big)), "var a = concat(" + ", ".join(["''"] * big) + ")",
             "\n" * big, "@secure()\n" * 8 + "param p string"]
    for t in texts:
        b.cases += 1
        kind, res = b.sub.run(t)
        if kind != "ok":
            raise Finding(prop, f"valid file fails: {res}", {"text": t, "outcome": kind, "reported": res})
    # broken texts end in a syntax error with a position
    rng = random.Random(f"{b.seed}/c17")
    g = Gen(rng)
    for _ in range(300 * scale):
        f = File(distinct([g.node("DECL", 2) for _ in range(2)]))
        toks = [p for p in f.pieces() if isinstance(p, Tok)]
        i = rng.randrange(len(toks)) if toks else 0
        if not toks:
            continue
        words = [t.text for t in toks]
        words[i] = rng.choice(["%%", "]", ")", "}", "=", "'", ";", "\\", "(", "{", "\0"])
        text = " ".join(words)
        if not sane(text):
            continue
        b.cases += 1
        try:
            b.sub.plain.parse(text=text)
        except b.sub.UnexpectedInput as e:
            if not isinstance(getattr(e, "line", None), int) or not isinstance(getattr(e, "column", None), int):
                if type(e).__name__ != "UnexpectedEOF":
                    raise Finding(prop, f"a syntax error without a position: {e!r}", {"text": text}) from None
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ not in ("VisitError", "ValueError"):
                raise Finding(prop, f"undocumented error {type(e).__name__}: {e}", {"text": text}) from None


def c19(b, prop, scale):
    rng = random.Random(f"{b.seed}/c19")

    def lay(r, k):
        return Layout(r, tight=r.choice([0, 0.5]), wide=0.3, block=r.choice([0, 0.3]), comments=r.choice([0.5, 1]), crlf=r.choice([0, 0, 0.5]),
                      blank=0.4, extra_breaks=r.choice([0, 0.5]), hashes=r.choice([0, 0.3, 0.8]))

    b.mixed(prop, 300 * scale, 6, 4, lay)
    g = Gen(rng)
    for p in S.PRODS:
        if p.nt in ("ARR", "OBJ", "DECO", "LOOP", "RB", "MB", "ROBJ") or p.pid.startswith("call.unknown") or p.pid.endswith("concat.0"):
            for k in range(12 * scale):
                b.check(prop, File([g.embed(g.make(p, 2), depth=1)]), lay(rng, k))
    # text that looks like a comment inside a string
    for c in ("// a", "/* a */", "# a", "a // b", "http://x", "/*", "*/", "//", "#", "a#b", "a/*b*/c"):
        for text, exp in ((f"var a = '{c}'\n", c), (f"var a = '''{c}'''", c), (f"var a = '''\n{c}\n'''", c + "\n"), (f"var a = 'x' // {c}\n", "x"),
                          (f"var a = '''x''' // {c}", "x"), (f"// {c}\nvar a = 'x'", "x"), (f"var a = 'x' /* {c.replace('*/', '')} */\n", "x")):
            b.cases += 1
            kind, res = b.sub.run(text)
            if kind != "ok" or res.get("variables", {}).get("a", {}).get("value") != exp:
                raise Finding(prop, f"expected the value {exp!r}, got {res}", {"text": text, "expected": exp, "outcome": kind, "reported": repr(res)})


def c20(b, prop, scale):
    precedence.check(b, prop, scale)


BOUNDED = {
    "C01": c01, "C02": generic(900), "C03": c03, "C04": c04, "C05": generic(900), "C06": generic(500), "C07": generic(500), "C08": generic(700),
    "C09": generic(900), "C10": generic(800), "C11": generic(1200, False), "C12": c12, "C13": c13, "C14": generic(900), "C15": generic(900, False),
    "C16": c16, "C17": c17, "C18": generic(900), "C19": c19, "C20": c20,
}
