"""The specification: what a Bicep file means, written from the language documentation.

A grammar of *token* sequences (constructs) with, for each production, a pure function
(`sem`) that maps the meaning of the parts to the documented JSON.  Nothing here looks at
pycep's grammar or code.  The same productions are used

* by `lrcontracts` (all token sequences, symbolically: the deductive part), and
* by `gen` (concrete texts, run through the real parser: the bounded part and the replays).

`sem(B, e)` gets a builder `B` (concrete or symbolic) and the parts `e` by slot name.
"""
from __future__ import annotations

from dataclasses import dataclass, field
from typing import Any, Callable

# --------------------------------------------------------------------------- elements


@dataclass(frozen=True)
class K:
    """A literal token: keyword or punctuation."""

    text: str


@dataclass(frozen=True)
class T:
    """A token of a class; its content (see CLASSES) is bound to `slot`."""

    cls: str
    slot: str
    arg: Any = None


@dataclass(frozen=True)
class N:
    """A phrase of a nonterminal."""

    nt: str
    slot: str


@dataclass(frozen=True)
class R:
    """Repetition (at least `min` times) of `body`, separated by `sep`."""

    slot: str
    body: tuple
    sep: tuple = ()
    min: int = 0


@dataclass(frozen=True)
class NL:
    """Between `min` and `max` line-break tokens (a line break token is an optional comment and line breaks)."""

    min: int = 0
    max: int | None = None


@dataclass
class Prod:
    nt: str
    pid: str
    rhs: tuple
    sem: Callable[[Any, dict], Any]
    props: tuple = ()
    bounded_only: bool = False  # not part of the proved token grammar
    weight: int = 1


NL0, NL1, NLQ = NL(0), NL(1), NL(0, 1)

PRODS: list[Prod] = []


def prod(nt, pid, rhs, sem, props=(), **kw):
    PRODS.append(Prod(nt, pid, tuple(rhs), sem, tuple(props.split()) if isinstance(props, str) else props, **kw))


def opt_variants(*alts):
    """Cartesian product of alternatives, each alternative a tuple (suffix, elements)."""
    out = [("", ())]
    for alt in alts:
        out = [(s + t, e + tuple(x)) for s, e in out for t, x in alt]
    return out


# --------------------------------------------------------------------------- expressions

OPS = {
    ">=": "greater_than_or_equals",
    ">": "greater_than",
    "<=": "less_than_or_equals",
    "<": "less_than",
    "==": "equals",
    "!=": "not_equals",
    "=~": "equals_case_insensitive",
    "!~": "not_equals_case_insensitive",
    "&&": "and",
    "||": "or",
    "??": "coalesce",
    "+": "add",
    "-": "substract",
    "*": "multiply",
    "/": "divide",
    "%": "modulo",
}
ACCESS = {".": "property_accessor", "::": "nested_resource_accessor"}


def op2(kind):
    return lambda B, e: {"operator": {"type": kind, "operands": {"operand_1": e["a"], "operand_2": e["b"]}}}


prod("E", "e.prim", [N("P", "p")], lambda B, e: e["p"])
for _t, _k in OPS.items():
    prod("E", f"e.op.{_k}", [N("P", "a"), K(_t), N("E", "b")], op2(_k), "C05")
for _t, _k in ACCESS.items():
    prod("E", f"e.acc.{_k}", [N("P", "a"), K(_t), N("E", "b")], op2(_k), "C05")
prod("E", "e.acc.safe_property", [N("P", "a"), K("."), K("?"), N("E", "b")], op2("property_accessor"), "C05")
prod("E", "e.ternary", [N("P", "a"), K("?"), N("E", "b"), K(":"), N("E", "c")],
     lambda B, e: {"operator": {"type": "conditional", "operands": {
         "condition": e["a"], "true_value": e["b"], "false_value": e["c"]}}}, "C05")
prod("E", "e.not", [K("!"), N("E", "a")],
     lambda B, e: {"operator": {"type": "not", "operands": {"bool_value": e["a"]}}}, "C05")
prod("E", "e.minus", [K("-"), N("E", "a")],
     lambda B, e: {"operator": {"type": "minus", "operands": {"integer_value": e["a"]}}}, "C05")


def lambda_sem(B, e):
    detail = {"var_1": B.text(e["v"])}
    B.numbered(detail, "var_", 2, B.map(e["rest"], lambda x: B.text(x["v"])))
    detail["expression"] = e["b"]
    return {"type": "lambda_expression", "detail": detail}


def lambda1_sem(B, e):
    return {"type": "lambda_expression", "detail": {"var_1": B.text(e["v"]), "expression": e["b"]}}


prod("E", "e.lambda.bare", [T("ID", "v"), K("=>"), N("E", "b")], lambda1_sem, "C18")
prod("E", "e.lambda.one", [K("("), T("ID", "v"), K(")"), K("=>"), N("E", "b")], lambda1_sem, "C18")
prod("E", "e.lambda.many", [K("("), T("ID", "v"), R("rest", (K(","), T("ID", "v")), min=1), K(")"), K("=>"), N("E", "b")],
     lambda_sem, "C18")

# primaries
prod("Q", "q.null", [K("null")], lambda B, e: None, "C09")
prod("Q", "q.true", [K("true")], lambda B, e: True, "C09")
prod("Q", "q.false", [K("false")], lambda B, e: False, "C09")
prod("Q", "q.int", [T("INT", "n")], lambda B, e: e["n"], "C09")
prod("Q", "q.ident", [T("ID", "n")], lambda B, e: B.elem(e["n"]), "C09")
prod("Q", "q.string", [T("QS", "s")], lambda B, e: B.lit(e["s"]), "C09")
prod("Q", "q.mls", [T("MLS", "s")], lambda B, e: B.lit(e["s"]), "C09")
prod("Q", "q.mls.lf", [T("MLS", "s", "\n")], lambda B, e: B.lit(e["s"]), "C09")
prod("Q", "q.mls.crlf", [T("MLS", "s", "\r\n")], lambda B, e: B.lit(e["s"]), "C09")
prod("Q", "q.paren", [K("("), N("E", "a"), K(")")], lambda B, e: e["a"], "C05")
prod("P", "p.q", [N("Q", "a")], lambda B, e: e["a"])
prod("P", "p.bang", [N("Q", "a"), K("!")], lambda B, e: e["a"], "C05")
prod("P", "p.bang.paren", [K("("), N("E", "a"), K(")"), K("!")], lambda B, e: e["a"], "C05")  # a case of p.bang
prod("Q", "q.index", [N("P", "a"), K("["), N("E", "b"), K("]")], op2("index_accessor"), "C05")
prod("Q", "q.index.safe", [N("P", "a"), K("["), K("?"), N("E", "b"), K("]")], op2("index_accessor"), "C05")


def listfunc_sem(B, e, n):
    operands = {"operand_1": e["a"], "func_name": B.text(e["f"])}
    if n:
        operands["operand_2"] = e["x"]
        B.numbered(operands, "operand_", 3, B.map(e["rest"], lambda x: x["x"]))
    return {"operator": {"type": "function_accessor", "operands": operands}}


prod("Q", "q.listfunc.0", [N("P", "a"), K("."), T("LF", "f"), K("("), K(")")], lambda B, e: listfunc_sem(B, e, 0), "C05")
prod("Q", "q.listfunc.n",
     [N("P", "a"), K("."), T("LF", "f"), K("("), N("E", "x"), R("rest", (K(","), N("E", "x"))), K(")")],
     lambda B, e: listfunc_sem(B, e, 1), "C05")
prod("Q", "q.array", [N("ARR", "a")], lambda B, e: e["a"])
prod("Q", "q.object", [N("OBJ", "a")], lambda B, e: e["a"])
prod("Q", "q.call", [N("CALL", "a")], lambda B, e: e["a"])

# arrays and objects
ITEM_SEP = (NL1,)
prod("ARR", "arr.empty", [K("["), NL0, K("]")], lambda B, e: [], "C10 C19")
prod("ARR", "arr.lines", [K("["), NL0, R("i", (N("E", "x"),), sep=(NL1,), min=1), NL0, K("]")],
     lambda B, e: B.map(e["i"], lambda x: x["x"]), "C10 C19")
prod("ARR", "arr.commas", [K("["), NL0, R("i", (N("E", "x"),), sep=(K(","),), min=1), NL0, K("]")],
     lambda B, e: B.map(e["i"], lambda x: x["x"]), "C10 C19")
prod("ARR", "arr.mixed", [K("["), NL0, R("r", (R("i", (N("E", "x"),), sep=(K(","),), min=1),), sep=(NL1,), min=1), NL0, K("]")],
     lambda B, e: B.concat(B.map(e["r"], lambda r: B.map(r["i"], lambda x: x["x"]))), "C10 C19")

prod("OBJ", "obj.empty", [K("{"), NL0, K("}")], lambda B, e: {}, "C10 C19")
prod("OBJ", "obj.lines", [K("{"), NL0, R("i", (N("PAIR", "x"),), sep=(NL1,), min=1), NL0, K("}")],
     lambda B, e: B.dict(B.map(e["i"], lambda x: x["x"])), "C10 C19")
prod("OBJ", "obj.commas", [K("{"), NL0, R("i", (N("PAIR", "x"),), sep=(K(","),), min=1), NL0, K("}")],
     lambda B, e: B.dict(B.map(e["i"], lambda x: x["x"])), "C10 C19")

KEYS = [("id", T("ID", "k"), lambda B, e: B.text(e["k"])),
        ("quoted", T("QS", "k"), lambda B, e: B.cat("'", e["k"], "'")),
        ("resource", K("resource"), lambda B, e: "resource")]
for _n, _el, _kf in KEYS:
    prod("PAIR", f"pair.{_n}", [_el, K(":"), N("E", "v")], lambda B, e, kf=_kf: (kf(B, e), e["v"]), "C10")
    prod("PAIR", f"pair.{_n}.loop", [_el, K(":"), N("LOOP", "v")], lambda B, e, kf=_kf: (kf(B, e), e["v"]), "C10 C14")
prod("PAIR", "pair.nullable", [T("ID", "k"), K(":"), T("ID", "v"), K("?")],
     lambda B, e: (B.text(e["k"]), B.elem(e["v"])), "C10")


# --------------------------------------------------------------------------- functions


@dataclass(frozen=True)
class Fn:
    name: str
    ns: str
    type: str
    # each variant: (positional parameter names, (prefix, first number) for further ones or None, constants)
    variants: tuple
    params: bool = True


def _fn(name, ns, typ, *variants, params=True):
    return Fn(name, ns, typ, tuple(variants), params)


def v(*names, more=None, **const):
    return (tuple(names), more, tuple(const.items()))


def opt(required, optional):
    """One variant per number of given optional parameters; the missing ones are null."""
    out = []
    for i in range(len(optional) + 1):
        out.append(v(*required, *optional[:i], **{o: None for o in optional[i:]}))
    return out


_names = {"resource_name_2": None}

FUNCTIONS = [
    _fn("any", "sys", "any", v("value")),
    _fn("array", "sys", "array", v("convert_to_array")),
    _fn("concat", "sys", "concat", v("arg_1", more=("arg_", 2))),
    _fn("contains", "sys", "contains", v("container", "item_to_find")),
    _fn("empty", "sys", "empty", v("item_to_test")),
    _fn("first", "sys", "first", v("arg_1")),
    _fn("flatten", "sys", "flatten", v("array_to_flattern")),
    _fn("intersection", "sys", "intersection", v("arg_1", "arg_2", more=("arg_", 3))),
    _fn("last", "sys", "last", v("arg_1")),
    _fn("length", "sys", "length", v("arg_1")),
    _fn("max", "sys", "max", v("arg_1", more=("arg_", 2))),
    _fn("min", "sys", "min", v("arg_1", more=("arg_", 2))),
    _fn("range", "sys", "range", v("start_index", "count")),
    _fn("skip", "sys", "skip", v("original_value", "number_to_skip")),
    _fn("take", "sys", "take", v("original_value", "number_to_take")),
    _fn("union", "sys", "union", v("arg_1", "arg_2", more=("arg_", 3))),
    _fn("dateTimeAdd", "sys", "date_time_add", *opt(["base", "duration"], ["format"])),
    _fn("dateTimeFromEpoch", "sys", "date_time_from_epoch", v("epoch_time")),
    _fn("dateTimeToEpoch", "sys", "date_time_to_epoch", v("date_time")),
    _fn("utcNow", "sys", "utc_now", *opt([], ["format"])),
    _fn("deployment", "az", "deployment", v(), params=False),
    _fn("environment", "az", "environment", v(), params=False),
    _fn("loadFileAsBase64", "sys", "load_file_as_base64", v("file_path")),
    _fn("loadJsonContent", "sys", "load_json_content", *opt(["file_path"], ["json_path", "encoding"])),
    _fn("loadTextContent", "sys", "load_text_content", *opt(["file_path"], ["encoding"])),
    _fn("loadYamlContent", "sys", "load_yaml_content", *opt(["file_path"], ["path_filter", "encoding"])),
    _fn("filter", "sys", "filter", v("input_array", "expression")),
    _fn("bool", "sys", "bool", v("arg_1")),
    _fn("int", "sys", "int", v("value_to_convert")),
    _fn("json", "sys", "json", v("arg_1")),
    _fn("extensionResourceId", "az", "extension_resource_id",
        v("resource_id", "resource_type", "resource_name_1", **_names),
        v("resource_id", "resource_type", "resource_name_1", "resource_name_2", more=("resource_name_", 3))),
    _fn("listKeys", "az", "list_func",
        v("resource_identifier", "api_version", func_name="listKeys"),
        v("resource_identifier", "api_version", "function_values", func_name="listKeys")),
    _fn("managementGroupResourceId", "az", "management_group_resource_id",
        v("resource_type", "resource_name_1", **_names),
        v("resource_type", "resource_name_1", "resource_name_2", more=("resource_name_", 3))),
    _fn("pickZones", "az", "pick_zones",
        *opt(["provider_namespace", "resource_type", "location"], ["number_of_zones", "offset"])),
    _fn("reference", "az", "reference", *opt(["resource_identifier"], ["api_version", "full"])),
    _fn("resourceId", "az", "resource_id",
        v("resource_type", "resource_name_1", **_names, resource_group_name=None, subscription_id=None),
        v("resource_type", "resource_name_1", "resource_name_2", resource_group_name=None, subscription_id=None),
        v("resource_group_name", "resource_type", "resource_name_1", "resource_name_2", subscription_id=None),
        v("subscription_id", "resource_group_name", "resource_type", "resource_name_1", "resource_name_2",
          more=("resource_name_", 3))),
    _fn("subscriptionResourceId", "az", "subscription_resource_id",
        v("resource_type", "resource_name_1", **_names, subscription_id=None),
        v("resource_type", "resource_name_1", "resource_name_2", subscription_id=None),
        v("subscription_id", "resource_type", "resource_name_1", "resource_name_2", more=("resource_name_", 3))),
    _fn("tenantResourceId", "az", "tenant_resource_id",
        v("resource_type", "resource_name_1", **_names),
        v("resource_type", "resource_name_1", "resource_name_2", more=("resource_name_", 3))),
    _fn("managementGroup", "az", "management_group", *opt([], ["identifier"])),
    _fn("resourceGroup", "az", "resource_group",
        v(resource_group_name=None, subscription_id=None),
        v("resource_group_name", subscription_id=None),
        v("subscription_id", "resource_group_name")),
    _fn("subscription", "az", "subscription", *opt([], ["subscription_id"])),
    _fn("tenant", "az", "tenant", v(), params=False),
    _fn("base64", "sys", "base64", v("input_string")),
    _fn("base64ToJson", "sys", "base64_to_json", v("base64_value")),
    _fn("base64ToString", "sys", "base64_to_string", v("base64_value")),
    _fn("dataUri", "sys", "data_uri", v("string_to_convert")),
    _fn("dataUriToString", "sys", "data_uri_to_string", v("data_uri_to_convert")),
    _fn("endsWith", "sys", "ends_with", v("string_to_search", "string_to_find")),
    _fn("format", "sys", "format", v("format_string", more=("arg_", 1))),
    _fn("guid", "sys", "guid", v("base_string", more=("extra_string_", 1))),
    _fn("indexOf", "sys", "index_of", v("string_to_search", "string_to_find")),
    _fn("join", "sys", "join", v("input_array", "delimiter")),
    _fn("lastIndexOf", "sys", "last_index_of", v("string_to_search", "string_to_find")),
    _fn("newGuid", "sys", "new_guid", v(), params=False),
    _fn("padLeft", "sys", "pad_left", *opt(["value_to_pad", "total_length"], ["padding_character"])),
    _fn("replace", "sys", "replace", v("original_string", "old_string", "new_string")),
    _fn("split", "sys", "split", v("input_string", "delimiter")),
    _fn("startsWith", "sys", "starts_with", v("string_to_search", "string_to_find")),
    _fn("string", "sys", "string", v("value_to_convert")),
    _fn("substring", "sys", "substring", *opt(["string_to_parse", "start_index"], ["length"])),
    _fn("toLower", "sys", "to_lower", v("string_to_change")),
    _fn("toUpper", "sys", "to_upper", v("string_to_change")),
    _fn("trim", "sys", "trim", v("string_to_trim")),
    _fn("uniqueString", "sys", "unique_string", v("base_string", more=("extra_string_", 1))),
    _fn("uri", "sys", "uri", v("base_uri", "relative_uri")),
    _fn("uriComponent", "sys", "uri_component", v("string_to_encode")),
    _fn("uriComponentToString", "sys", "uri_component_to_string", v("uri_encoded_string")),
]

NLARG = NLQ


def call_rhs(name_el, nargs, more):
    """name( a0, a1, ... [, more...] )"""
    rhs = [name_el, NLARG]
    for i in range(nargs):
        if i:
            rhs += [K(","), NLARG]
        rhs.append(N("E", f"a{i}"))
    if more:
        assert nargs
        rhs.append(R("more", (K(","), NLARG, N("E", "x"))))
    if nargs:
        rhs.append(NLARG)
    rhs.append(K(")"))
    return rhs


def builtin_sem(fn, variant):
    names, more, const = variant

    def sem(B, e):
        if not fn.params:
            return {"function": {"type": fn.type}}
        params = {name: e[f"a{i}"] for i, name in enumerate(names)}
        if more:
            B.numbered(params, more[0], more[1], B.map(e["more"], lambda x: x["x"]))
        params.update(const)
        return {"function": {"type": fn.type, "parameters": params}}

    return sem


for _f in FUNCTIONS:
    for _i, _v in enumerate(_f.variants):
        for _pre in ("", _f.ns + "."):
            prod("CALL", f"call.{_pre}{_f.name}.{_i}", call_rhs(T("FN", "f", _pre + _f.name), len(_v[0]), _v[1]),
                 builtin_sem(_f, _v), "C07" if _pre else "C06")

BUILTIN_NAMES = {p + f.name for f in FUNCTIONS for p in ("", "sys.", "az.")} | {"if"}


def unknown_sem(n):
    def sem(B, e):
        params = {}
        if n:
            params["arg_1"] = e["a0"]
            B.numbered(params, "arg_", 2, B.map(e["more"], lambda x: x["x"]))
        return {"function": {"type": B.text(e["f"]), "parameters": params}}

    return sem


for _cls in ("FNU", "FNUQ"):
    prod("CALL", f"call.unknown.{_cls}.0", call_rhs(T(_cls, "f"), 0, None), unknown_sem(0), "C07")
    prod("CALL", f"call.unknown.{_cls}.n", call_rhs(T(_cls, "f"), 1, True), unknown_sem(1), "C07")

# --------------------------------------------------------------------------- loops and conditions

LOOP_SRC = [
    ("array", (T("ID", "v"), K("in"), N("E", "src")),
     lambda B, e: {"type": "array", "detail": {"item_name": B.text(e["v"]), "array_name": e["src"]}}),
    ("index", (K("("), T("ID", "v"), K(","), T("ID", "i"), K(")"), K("in"), N("E", "src")),
     lambda B, e: {"type": "array_index", "detail": {
         "item_name": B.text(e["v"]), "index_name": B.text(e["i"]), "array_name": e["src"]}}),
    ("items", (T("ID", "v"), K("in"), K("items"), K("("), N("E", "src"), K(")")),
     lambda B, e: {"type": "object", "detail": {"item_name": B.text(e["v"]), "object_name": e["src"]}}),
]
LOOP_COND = [("", ()), (".if", (T("FN", "_if", "if"), N("E", "c"), K(")"))), (".if_sp", (K("if"), K("("), N("E", "c"), K(")")))]


def loop_prods(nt, body_nt, bodies):
    for sname, src, sf in LOOP_SRC:
        for cname, cond in LOOP_COND:
            def sem(B, e, sf=sf):
                cfg = e["body"]
                return {"loop_type": sf(B, e), "condition": e.get("c"), "config": cfg}
            body = body_nt if (cname or bodies == "obj") else "E"
            prod(nt, f"{nt.lower()}.{sname}{cname}",
                 (K("["), NLQ, K("for")) + src + (K(":"),) + cond + (N(body, "body"), NLQ, K("]")), sem, "C14")


loop_prods("LOOP", "OBJ", "any")

# --------------------------------------------------------------------------- resource bodies (objects with nested resources)
#
# The meaning of a body is a pair (reported config, nested): nested is None or the description of the nested resource.


def body_of(B, e):
    return e["body"]


def rloop_sem(sf):
    def sem(B, e):
        cfg, child = e["body"]
        return ({"loop_type": sf(B, e), "condition": e.get("c"), "config": cfg}, child)
    return sem


prod("RB", "rb.object", [N("OBJ", "a")], lambda B, e: (e["a"], None), "C02")
prod("RB", "rb.child", [N("ROBJ", "a")], lambda B, e: e["a"], "C03")
prod("RB", "rb.cond", [NLQ, K("if"), K("("), N("E", "c"), K(")"), N("RBO", "body")],
     lambda B, e: ({"condition": e["c"], "config": e["body"][0]}, e["body"][1]), "C14")
prod("RBO", "rbo.object", [N("OBJ", "a")], lambda B, e: (e["a"], None))
prod("RBO", "rbo.child", [N("ROBJ", "a")], lambda B, e: e["a"])
for _sname, _src, _sf in LOOP_SRC:
    for _cname, _cond in LOOP_COND:
        prod("RB", f"rb.loop.{_sname}{_cname}",
             (K("["), NLQ, K("for")) + _src + (K(":"),) + _cond + (N("RBO", "body"), NLQ, K("]")),
             rloop_sem(_sf), "C14")


def robj_sem(B, e):
    pairs = B.concat([B.map(e["i"], lambda x: x["x"]), B.map(e["j"], lambda x: x["x"])])
    return (B.dict(pairs), e["child"])


prod("ROBJ", "robj", [K("{"), NL0, R("i", (N("PAIR", "x"), NL1)), N("CHILD", "child"), NL1, R("j", (N("PAIR", "x"), NL1)), K("}")],
     robj_sem, "C03")

for _ex, _exel in (("", ()), (".existing", (K("existing"),))):
    prod("CHILD", f"child{_ex}", (K("resource"), T("ID", "n"), T("QT", "t")) + _exel + (K("="), N("RB", "b")),
         lambda B, e, ex=bool(_ex): {"name": e["n"], "type": e["t"], "existing": ex, "body": e["b"], "lines": e["@"]}, "C03 C04")


def resource_entries(B, name, typ, api, decorators, existing, body, lines, parent=None):
    """The reported resources of one declaration: itself and everything nested in it."""
    config, child = body
    config = B.copy(config) if parent is None else B.with_parent(config, parent)
    attrs = {"decorators": decorators, "type": typ, "api_version": api, "existing": existing, "config": config}

    def nested_entries(c):
        return resource_entries(B, B.cat(name, "__", c["name"]), B.cat(typ, "/", c["type"]), api, [], c["existing"], c["body"], c["lines"],
                                parent=name)

    return [("resources", name, B.lined(attrs, lines)), *B.nested(child, nested_entries, name, typ, api)]


# --------------------------------------------------------------------------- types

prod("D", "d.type", [N("BT", "b"), R("s", (K("["), K("]")))],
     lambda B, e: B.wrap_arrays(e["b"], e["s"]), "C15")
prod("BT", "bt.simple", [T("ID", "n")], lambda B, e: B.text(e["n"]), "C15")
prod("BT", "bt.union", [K("("), N("D", "d"), R("r", (K("|"), N("D", "d")), min=1), K(")")],
     lambda B, e: {"type": "union", "members": B.concat([[e["d"]], B.map(e["r"], lambda x: x["d"])])}, "C15")

# --------------------------------------------------------------------------- decorators

DECO_SPEC = [  # name, reported type, takes an argument, folds negative integers
    ("allowed", "allowed", True, False),
    ("batchSize", "batchSize", True, False),
    ("description", "description", True, False),
    ("export", "export", False, False),
    ("minLength", "min_length", True, False),
    ("maxLength", "max_length", True, False),
    ("minValue", "min_value", True, True),
    ("maxValue", "max_value", True, True),
    ("metadata", "metadata", True, False),
    ("sealed", "sealed", False, False),
    ("secure", "secure", False, False),
]
DECO_NAMES = {p + d[0] for d in DECO_SPEC for p in ("", "sys.")}

for _n, _t, _arg, _fold in DECO_SPEC:
    for _pre in ("", "sys."):
        _nm = T("DN", "n", _pre + _n)
        _props = "C07" if _pre else "C08"
        if not _arg:
            prod("DECO", f"deco.{_pre}{_n}", [K("@"), _nm, K("("), NLQ, K(")"), NL1], lambda B, e, t=_t: {"type": t}, _props)
            continue
        if _fold:
            prod("DECO", f"deco.{_pre}{_n}.neg", [K("@"), _nm, K("("), NLQ, K("-"), T("INT", "i"), NLQ, K(")"), NL1],
                 lambda B, e, t=_t: {"type": t, "argument": B.neg(e["i"])}, _props)
        prod("DECO", f"deco.{_pre}{_n}", [K("@"), _nm, K("("), NLQ, N("ENN" if _fold else "E", "a"), NLQ, K(")"), NL1],
             lambda B, e, t=_t: {"type": t, "argument": e["a"]}, _props)
prod("DECO", "deco.unknown", [K("@"), T("DNU", "n"), K("("), NLQ, K(")"), NL1], lambda B, e: {"type": B.text(e["n"])}, "C07")
prod("DECO", "deco.unknown.arg", [K("@"), T("DNU", "n"), K("("), NLQ, N("E", "a"), NLQ, K(")"), NL1],
     lambda B, e: {"type": B.text(e["n"]), "argument": e["a"]}, "C07")

# the bound of minValue/maxValue: an integer or an expression that is neither a negative literal nor an object literal
prod("ENN", "enn.int", [T("INT", "n")], lambda B, e: e["n"], "C08")
prod("ENN", "enn.ident", [T("ID", "n")], lambda B, e: B.elem(e["n"]), "C08")
prod("ENN", "enn.call", [N("CALL", "a")], lambda B, e: e["a"], "C08")
prod("ENN", "enn.neg_ident", [K("-"), T("ID", "n")],
     lambda B, e: {"operator": {"type": "minus", "operands": {"integer_value": B.elem(e["n"])}}}, "C08")
prod("ENN", "enn.neg_call", [K("-"), N("CALL", "a")],
     lambda B, e: {"operator": {"type": "minus", "operands": {"integer_value": e["a"]}}}, "C08")
for _m, _minus in (("", ()), ("neg_", (K("-"),))):
    for _k, _el, _sem in (("null", K("null"), lambda B, e: None), ("true", K("true"), lambda B, e: True), ("false", K("false"), lambda B, e: False),
                          ("string", T("QS", "s"), lambda B, e: B.lit(e["s"])), ("array", N("ARR", "a"), lambda B, e: e["a"])):
        prod("ENN", f"enn.{_m}{_k}", [*_minus, _el], _sem if not _m else
             lambda B, e, sem=_sem: {"operator": {"type": "minus", "operands": {"integer_value": sem(B, e)}}}, "C08")
prod("ENN", "enn.neg_object", [K("-"), N("OBJ", "a")], lambda B, e: {"operator": {"type": "minus", "operands": {"integer_value": e["a"]}}}, "C08")
prod("ENN", "enn.not", [K("!"), N("E", "a")], lambda B, e: {"operator": {"type": "not", "operands": {"bool_value": e["a"]}}}, "C08")
prod("ENN", "enn.ternary", [N("P", "a"), K("?"), N("E", "b"), K(":"), N("E", "c")],
     lambda B, e: {"operator": {"type": "conditional", "operands": {"condition": e["a"], "true_value": e["b"], "false_value": e["c"]}}}, "C08")
for _t, _k in ACCESS.items():
    prod("ENN", f"enn.acc.{_k}", [N("P", "a"), K(_t), N("E", "b")], op2(_k), "C08")
for _t, _k in OPS.items():
    prod("ENN", f"enn.op.{_k}", [N("P", "a"), K(_t), N("E", "b")], op2(_k), "C08")

prod("DECOS", "decos", [R("d", (N("DECO", "d"),), min=1)], lambda B, e: B.map(e["d"], lambda x: x["d"]), "C08 C02")

# --------------------------------------------------------------------------- declarations
#
# The meaning of a declaration is the list of reported entries (section, name, attributes).

DECOS = [("", ()), (".deco", (N("DECOS", "decos"),))]


def decos(B, e):
    return e["decos"] if "decos" in e else []


def one(section, name, attrs_of, props=()):
    def sem(B, e):
        return [(section, name(B, e), B.lined(attrs_of(B, e), e["@"]))]
    return sem


def name_text(B, e):
    return B.text(e["n"])


for _s, _el in opt_variants(DECOS, [("", ()), (".nullable", (K("?"),))], [("", ()), (".default", (K("="), N("E", "v")))]):
    _d, _rest = (_el[:1], _el[1:]) if _s.startswith(".deco") else ((), _el)
    prod("DECL", f"param{_s}", _d + (K("param"), T("ID", "n"), N("D", "t")) + _rest,
         one("parameters", name_text, lambda B, e: {"decorators": decos(B, e), "type": e["t"], "default": e.get("v")}),
         "C02 C15" if "deco" not in _s else "C02 C08")

VALUE = [("", (N("E", "v"),)), (".loop", (N("LOOP", "v"),))]
for _s, _el in opt_variants(DECOS, [("", ()), (".typed", (N("D", "t"),)), (".typed.nullable", (N("D", "t"), K("?")))], VALUE):
    _d, _rest = (_el[:1], _el[1:]) if _s.startswith(".deco") else ((), _el)

    def _var(B, e):
        attrs = {"decorators": decos(B, e), "value": e["v"]}
        if "t" in e:
            attrs["type"] = e["t"]
        return attrs

    prod("DECL", f"var{_s}", _d + (K("var"), T("ID", "n")) + _rest[:-1] + (K("="),) + _rest[-1:],
         one("variables", name_text, _var), "C02" if "loop" not in _s else "C02 C14")

for _s, _el in opt_variants(DECOS, [("", ()), (".nullable", (K("?"),))], VALUE):
    _d, _rest = (_el[:1], _el[1:]) if _s.startswith(".deco") else ((), _el)
    prod("DECL", f"output{_s}", _d + (K("output"), T("ID", "n"), N("D", "t")) + _rest[:-1] + (K("="),) + _rest[-1:],
         one("outputs", name_text, lambda B, e: {"decorators": decos(B, e), "type": e["t"], "value": e["v"]}),
         "C02" if "loop" not in _s else "C02 C14")

for _s, _el in opt_variants(DECOS, [("", ()), (".existing", (K("existing"),))]):
    _d, _rest = (_el[:1], _el[1:]) if _s.startswith(".deco") else ((), _el)
    prod("DECL", f"resource{_s}", _d + (K("resource"), T("ID", "n"), T("QTA", "t")) + _rest + (K("="), N("RB", "b")),
         lambda B, e, ex="existing" in _s: resource_entries(
             B, B.text(e["n"]), e["t"][0], e["t"][1], decos(B, e), ex, e["b"], e["@"]), "C02 C03")

# modules: the body has no nested resources
prod("MB", "mb.object", [N("OBJ", "a")], lambda B, e: e["a"])
prod("MB", "mb.cond", [NLQ, K("if"), K("("), N("E", "c"), K(")"), N("OBJ", "a")],
     lambda B, e: {"condition": e["c"], "config": e["a"]}, "C14")
for _sname, _src, _sf in LOOP_SRC:
    for _cname, _cond in LOOP_COND:
        prod("MB", f"mb.loop.{_sname}{_cname}",
             (K("["), NLQ, K("for")) + _src + (K(":"),) + _cond + (N("OBJ", "body"), NLQ, K("]")),
             lambda B, e, sf=_sf: {"loop_type": sf(B, e), "condition": e.get("c"), "config": e["body"]}, "C14")

MODULE_PATHS = {  # class argument: (parts of the reference text, reported type, detail)
    "local": (["{path}"], "local", lambda p: {"full": p["path"], "path": p["path"]}),
    "br.public": (["br:mcr.microsoft.com/", "{path}", ":", "{tag}"], "bicep_registry",
                  lambda p: {"registry_name": "mcr.microsoft.com", "path": p["path"], "tag": p["tag"], "public": True}),
    "br": (["br:", "{registry}", ".azurecr.io/", "{path}", ":", "{tag}"], "bicep_registry",
           lambda p: {"registry_name": p["registry"], "path": p["path"], "tag": p["tag"], "public": False}),
    "br.alias": (["br/", "{alias}", ":", "{path}", ":", "{tag}"], "bicep_registry_alias",
                 lambda p: {"alias": p["alias"], "path": p["path"], "tag": p["tag"], "public": False}),
    "br.alias.public": (["br/public:", "{path}", ":", "{tag}"], "bicep_registry_alias",
                        lambda p: {"alias": "public", "path": p["path"], "tag": p["tag"], "public": True}),
    "ts": (["ts:", "{sub}", "/", "{rg}", "/", "{name}", ":", "{version}"], "template_spec",
           lambda p: {"subscription_id": p["sub"], "resource_group_id": p["rg"], "name": p["name"], "version": p["version"]}),
    "ts.alias": (["ts/", "{alias}", ":", "{path}", ":", "{tag}"], "template_spec_alias",
                 lambda p: {"alias": p["alias"], "path": p["path"], "tag": p["tag"]}),
}


def module_detail(B, cls, p):
    parts, typ, detail = MODULE_PATHS[cls]
    d = {k: (x if isinstance(x, bool) else B.text(x)) for k, x in detail(p).items()}
    if cls != "local":
        full = [p[x[1:-1]] if x[0] == "{" else x for x in parts]
        full[0] = full[0][3:]
        d["full"] = B.cat(*full)
    return {"type": typ, "detail": d}


for _s, _el in opt_variants(DECOS):
    for _m in MODULE_PATHS:
        prod("DECL", f"module.{_m}{_s}", _el + (K("module"), T("ID", "n"), T("QM", "p", _m), K("="), N("MB", "b")),
             one("modules", name_text, lambda B, e, m=_m: {
                 "decorators": decos(B, e), **module_detail(B, m, e["p"]), "config": e["b"]}), "C11" if not _s else "C02")

for _s, _el in opt_variants(DECOS):
    prod("DECL", f"type{_s}", _el + (K("type"), T("ID", "n"), K("="), N("E", "v")),
         one("types", name_text, lambda B, e: {"decorators": decos(B, e), "value": e["v"]}), "C02 C15")
    prod("DECL", f"type.union{_s}", _el + (K("type"), T("ID", "n"), K("="), N("TM", "v"), R("r", (K("|"), N("TM", "v")), min=1)),
         one("types", name_text, lambda B, e: {
             "decorators": decos(B, e), "value": B.join(" | ", B.concat([[e["v"]], B.map(e["r"], lambda x: x["v"])]))}), "C15")
    prod("DECL", f"func{_s}.0", _el + (K("func"), T("ID", "n"), K("("), K(")"), N("D", "t"), K("=>"), N("E", "v")),
         one("functions", name_text, lambda B, e: {
             "decorators": decos(B, e), "args": {}, "type": e["t"], "expression": e["v"]}), "C18 C02")
    prod("DECL", f"func{_s}.n",
         _el + (K("func"), T("ID", "n"), K("("), R("ps", (T("ID", "p"), N("D", "d")), sep=(K(","),), min=1), K(")"), N("D", "t"),
                K("=>"), N("E", "v")),
         one("functions", name_text, lambda B, e: {
             "decorators": decos(B, e), "args": B.dict(B.map(e["ps"], lambda x: (B.text(x["p"]), x["d"]))),
             "type": e["t"], "expression": e["v"]}), "C18 C02")

# members of a union of values
prod("TM", "tm.string", [T("QS", "s")], lambda B, e: B.text(e["s"]), "C15")
prod("TM", "tm.ident", [T("ID", "s")], lambda B, e: B.text(e["s"]), "C15")
prod("TM", "tm.int", [T("INT", "n")], lambda B, e: B.int_text(e["n"]), "C15")

prod("DECL", "metadata", [K("metadata"), T("ID", "n"), K("="), T("QS", "s")],
     one("metadata", name_text, lambda B, e: {"value": B.lit(e["s"])}), "C02")
for _s, _el in opt_variants([("", ()), (".with", (K("with"), N("OBJ", "c")))], [("", ()), (".as", (K("as"), T("ID", "a")))]):

    def _ext(B, e):
        attrs = {}
        if "c" in e:
            attrs["config"] = e["c"]
        if "a" in e:
            attrs["alias"] = B.text(e["a"])
        return attrs

    prod("DECL", f"extension{_s}", (K("extension"), T("ID", "n")) + _el, one("extensions", name_text, _ext), "C02")

# imports
prod("DECL", "import.namespace", [K("import"), T("QS", "n")], one("imports", lambda B, e: B.text(e["n"]), lambda B, e: {}), "C02")


def import_entries(B, items, e):
    return B.map(items, lambda x: x["x"](e))


def ia_sem(alias):
    def sem(B, e):
        def entry(decl):
            attrs = {"file_path": B.text(decl["f"])}
            if alias:
                attrs["alias"] = B.text(e["a"])
            return ("imports", B.text(e["n"]), B.lined(attrs, decl["@"]))
        return entry
    return sem


for _n, _el in (("id", T("ID", "n")), ("star", T("STAR", "n"))):
    prod("IA", f"ia.{_n}", [_el], ia_sem(False), "C02")
    prod("IA", f"ia.{_n}.as", [_el, K("as"), T("ID", "a")], ia_sem(True), "C02")
prod("DECL", "import.one", [K("import"), N("IA", "x"), K("from"), T("QS", "f")], lambda B, e: [e["x"](e)], "C02")
prod("DECL", "import.many", [K("import"), K("{"), R("i", (N("IA", "x"),), sep=(K(","),), min=1), K("}"), K("from"), T("QS", "f")],
     lambda B, e: import_entries(B, e["i"], e), "C02")

prod("DECL", "targetScope", [K("targetScope"), K("="), T("QSCOPE", "s")],
     lambda B, e: [("globals", "scope", B.lined({"value": B.text(e["s"])}, e["@"]))], "C12")

# --------------------------------------------------------------------------- files


def file_result(B, entries, lines):
    """The result for a list of entries (concrete files)."""
    scope = {"value": "resourceGroup"}
    if lines:
        scope.update(__start_line__=0, __end_line__=0)
    result: dict[str, Any] = {"globals": {"scope": scope}}
    for section, name, attrs in entries:
        result.setdefault(section, {})[name] = attrs
    return result


def covering(p):
    """All properties whose statement speaks about phrases of the production."""
    out = set(p.props)
    has = {el.nt for el in p.rhs if isinstance(el, N)} | {x.nt for el in p.rhs if isinstance(el, R) for x in el.body if isinstance(x, N)}
    kind = p.pid.split(".")[0]
    if p.nt == "DECL":
        if kind == "module":
            out |= {"C02", "C11"}
        if kind == "type":
            out |= {"C02", "C15"}
        if "DECOS" in has:
            out |= {"C02", "C08"}
        if "D" in has:
            out |= {"C02", "C15"}
    elif p.nt in ("D", "BT", "TM"):
        out |= {"C02", "C15"}
    elif p.nt == "RB":
        out |= {"C02", "C03"}
    elif p.nt == "MB" and p.props:
        out |= {"C02"}
    elif p.nt == "DECO":
        out |= {"C08"}
    elif p.nt == "CALL" and p.pid.startswith(("call.sys.", "call.az.")):
        out |= {"C06"}
    elif p.nt == "CALL" and any(isinstance(el, T) and el.cls == "FNUQ" for el in p.rhs):
        out |= {"C07"}
    elif p.nt == "Q" and any(isinstance(el, T) and el.cls in ("QS", "MLS") for el in p.rhs):
        out |= {"C19"}
    return tuple(sorted(out))


for _p in PRODS:
    _p.props = covering(_p)
BY_NT: dict[str, list[Prod]] = {}
for _p in PRODS:
    BY_NT.setdefault(_p.nt, []).append(_p)
BY_PID = {p.pid: p for p in PRODS}
assert len(BY_PID) == len(PRODS)

# what the values of arrays and objects have in common, however they are written (not syntax: see sym.bases)
BY_PID["any.list"] = Prod("ARR", "any.list", (K("["), R("i", (N("E", "x"),)), K("]")), lambda B, e: B.map(e["i"], lambda x: x["x"]))
BY_PID["any.object"] = Prod("OBJ", "any.object", (K("{"), R("i", (N("PAIR", "x"),)), K("}")),
                            lambda B, e: B.dict(B.map(e["i"], lambda x: x["x"])))
B_SCOPES = ("resourceGroup", "subscription", "managementGroup", "tenant")
