T = "pycep/transformer.py"
F = "pycep/rules/functions.py"
D = "pycep/rules/decorators.py"
G = "pycep/bicep.lark"
U = "pycep/utils.py"
M = "pycep/main.py"
V = "pycep/validator.py"
SEEDS = []


def seed(id, property, edits, demo, needs, breaks="the result is not what the file says"):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("C06-pad-falsy", "C06",
     [(F, '"padding_character": padding_character[0] if padding_character else None,',
       '"padding_character": (padding_character and padding_character[0]) or None,')],
     """
r = parse("var v = padLeft(a, 5, '')\\n")["variables"]["v"]["value"]
assert r["function"]["parameters"]["padding_character"] == "", r
""", "a falsy padding argument (an empty string)", "an argument that was given is reported as null")

seed("C05-coalesce-merge", "C05",
     [(T, """        operand_1, operand_2, *operand_x = args

        return {
            "type": "coalesce",""", """        operand_1, operand_2, *operand_x = args

        # a chain is one operator with many operands
        if isinstance(operand_1, dict) and operand_1.get("operator", {}).get("type") == "coalesce":
            first, second = operand_1["operator"]["operands"].values()
            operand_1, operand_2, operand_x = first, second, [operand_2]

        return {
            "type": "coalesce",""")],
     """
r = parse("var v = (a ?? b) ?? c\\n")["variables"]["v"]["value"]["operator"]["operands"]
assert set(r) == {"operand_1", "operand_2"} and r["operand_2"] == "c", r
""", "a parenthesised coalesce expression as first operand of another one", "explicit grouping is lost, operands of two operators are merged")

seed("C10-last-null", "C10",
     [(T, "        return [item.value if isinstance(item, Token) else item for item in args]",
       "        if args and args[-1] is None:  # trailing separator\n            args = args[:-1]\n"
       "        return [item.value if isinstance(item, Token) else item for item in args]")],
     """
assert parse("var v = [\\n  1\\n  null\\n]\\n")["variables"]["v"]["value"] == [1, None]
""", "null as the last item of an array", "the last element is dropped")

seed("C09-strip-quotes", "C09",
     [(U, '    return str(value)[1:-1]', '    return str(value).strip("\'")')],
     """
r = parse("var v = 'it\\\\\\\\''\\n".replace("\\\\\\\\", "\\\\"))["variables"]["v"]["value"]
assert r == "it\\\\'", r
""", "a string that ends with an escaped quote", "a character of the string's content is dropped")

seed("C12-scope-substring", "C12",
     [(T, 'VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}',
       'VALID_TARGET_SCOPES = "resourceGroup, subscription, managementGroup, tenant"')],
     """
try:
    parse("targetScope = 'management'\\n")
except Exception:
    pass
else:
    sys.exit("an invalid scope was accepted")
assert parse("targetScope = 'tenant'\\n")["globals"]["scope"]["value"] == "tenant"
""", "a scope that is a part of a valid scope's name", "an invalid target scope is accepted")

seed("C13-shared-transformer", "C13",
     [(M, "        return BicepToJson(add_line_numbers=self.add_line_numbers).transform(tree)",
       "        return self.transformer.transform(tree)"),
      (M, '        self.lark_parser = Lark(', '        self.transformer = BicepToJson(add_line_numbers=add_line_numbers)\n        self.lark_parser = Lark('),
      (T, "        return result\n\n    ####################\n    #\n    # elements", "        self.imports, self.child_resources = [], []\n\n        return result\n\n    ####################\n    #\n    # elements")],
     """
p = BicepParser(cache=False)
try:
    p.parse(text="import 'left@1.0.0'\\nmodule m 'br:bad' = {\\n}\\n")
except Exception:
    pass
assert "imports" not in p.parse(text="var a = 1\\n")
""", "a parse that fails in the conversion of a file with imports or nested resources, followed by another parse of the same parser object",
     "entries of a failed parse appear in the result of the next one")

seed("C04-extension-end", "C04",
     [(T, """            result["extensions"]["__attrs__"]["__end_line__"] = meta.end_line""",
       """            result["extensions"]["__attrs__"]["__end_line__"] = meta.line if config is None else name.end_line + len(config) + 1""")],
     """
r = parse("extension kubernetes with {\\n  a: {\\n    b: 1\\n  }\\n}\\n", add_line_numbers=True)["extensions"]["kubernetes"]
assert (r["__start_line__"], r["__end_line__"]) == (1, 5), r
""", "an extension config with a value that spans several lines (or a comment line)", "the last line of the extension is wrong")

seed("C15-suffix-union", "C15",
     [(T, "        for _ in suffixes:\n            result", "        for _ in suffixes[:1] if isinstance(base, dict) else suffixes:\n            result")],
     """
r = parse("param p (string | int)[][]\\n")["parameters"]["p"]["type"]
assert r == {"type": "array", "item_type": {"type": "array", "item_type": {"type": "union", "members": ["string", "int"]}}}, r
""", "two array suffixes after a union type", "an array layer is lost")

seed("C18-lambda-order", "C18",
     [(T, '**{f"var_{idx + 2}": str(arg) for idx, arg in enumerate(arg_x)},\n                "expression": expr,',
       '**{f"var_{idx + 2}": arg for idx, arg in enumerate(sorted(map(str, arg_x)))},\n                "expression": expr,')],
     """
r = parse("var v = sort(a, (x, z, y) => x)\\n")["variables"]["v"]["value"]["function"]["parameters"]["arg_2"]["detail"]
assert [r["var_1"], r["var_2"], r["var_3"]] == ["x", "z", "y"], r
""", "a lambda with three or more variables that are not in alphabetical order", "lambda variables are swapped")

seed("C11-tag-dash", "C11",
     [(T, r'br:mcr\.microsoft\.com/(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)', r'br:mcr\.microsoft\.com/(?P<path>[\w/\-]+):(?P<tag>[\w.]+)')],
     """
r = parse("module m 'br:mcr.microsoft.com/bicep/app/dapr:1.0-rc.1' = {\\n}\\n")["modules"]["m"]["detail"]
assert r["tag"] == "1.0-rc.1", r
""", "a tag with a dash in a reference to the public registry", "the tag is cut at the dash")

seed("C14-false-filter", "C14",
     [(T, """            "loop_type": loop_type,
            "condition": condition,""", """            "loop_type": loop_type,
            "condition": condition or None,""")],
     """
r = parse("var v = [for x in y: if (false) {\\n}]\\n")["variables"]["v"]["value"]
assert r["condition"] is False, r
""", "a loop filter with a falsy literal as condition", "the filter condition is reported as null")

seed("C16-token-leak", "C16",
     [(T, '"func_name": str(func_name),', '"func_name": func_name,')],
     """
r = parse("var v = r.listKeys()\\n")["variables"]["v"]["value"]["operator"]["operands"]["func_name"]
assert type(r) is str, type(r)
""", "a resource function access; the leaked object compares equal to the expected string", "an internal parser object is part of the result")

seed("C17-metadata-copy", "C17",
     [(D, """        "type": "metadata",
        "argument": args[0],""", """        "type": "metadata",
        "argument": {**args[0]},""")],
     """
parse("@metadata(info)\\nparam p string\\n")
""", "a metadata decorator whose argument is not an object literal", "a syntactically valid file fails in the conversion")

seed("C02-output-existing", "C02",
     [(T, """                    "existing": bool(existing),
                    "config": config,
                },
            }
        }""", """                    "existing": bool(existing) and "properties" not in config,
                    "config": config,
                },
            }
        }""")],
     """
r = parse("resource p 'A/b@1' existing = {\\n  properties: {}\\n}\\n")["resources"]["p"]
assert r["existing"] is True, r
""", "an existing resource with a property of a special name", "the existing flag is dropped")

seed("C08-deco-order", "C08",
     [(T, "        return args\n\n    ####################\n    #\n    # functions",
       "        # the documentation comes first\n        return sorted(args, key=lambda deco: deco[\"type\"] != \"metadata\")\n\n    ####################\n    #\n    # functions")],
     """
r = parse("@secure()\\n@metadata({\\n})\\nparam p string\\n")["parameters"]["p"]["decorators"]
assert [d["type"] for d in r] == ["secure", "metadata"], r
""", "a metadata decorator after another decorator", "decorators are not in source order")

seed("C01-import-dedupe", "C01",
     [(T, "        *name_alias_pairs, file_path = args\n", """        *name_alias_pairs, file_path = args

        # an import of the same file again is an extension of the first one
        seen = {item["imports"]["__attrs__"].get("alias") for item in self.imports}
        name_alias_pairs = [pair for pair in name_alias_pairs if pair.get("alias", self) not in seen]
""")],
     """
r = parse("import {a as x} from 'f.bicep'\\nimport {b as x} from 'g.bicep'\\n")["imports"]
assert set(r) == {"a", "b"}, r
""", "two import statements with the same alias", "an imported symbol is missing from the result")

seed("C07-lstrip-namespace", "C07",
 [(T, 'func_name = str(func_name).removesuffix("(")', 'func_name = str(func_name).removesuffix("(")\n        if func_name.startswith(("sys.", "az.")) and func_name not in FUNCTIONS:\n            func_name = func_name.lstrip("sysaz.")')],
 """
r = parse("var v = az.sasBuilder(1)\\n")["variables"]["v"]["value"]["function"]
assert r["type"] == "az.sasBuilder", r
""", "a namespace-qualified function without dedicated support whose name begins with one of the letters a, s, y, z", "leading letters of the function name are cut off")

seed("C07-unknown-none", "C07",
 [(F, None, None)], "", "", "")
SEEDS.pop()

seed("C19-strip-comments", "C19",
 [(M, "        return self.lark_parser.parse(bicep_text)", "        return self.lark_parser.parse(re.sub(r\"(?m)^[ \\t]*//.*$\", \"\", bicep_text))"), (M, "from importlib.resources import files", "import re\nfrom importlib.resources import files")],
 """
r = parse("var v = '''\\na\\n  // no comment\\nb'''\\n")["variables"]["v"]["value"]
assert r == "a\\n  // no comment\\nb", r
""", "a multi-line string with a line that looks like a comment", "text inside a string is dropped as a comment")

seed("C20-power", "C20",
 [(T, "    def add(self, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue]) -> pycep_typing.Add:\n        operand_1, operand_2 = args\n", "    def add(self, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue]) -> pycep_typing.Add:\n        operand_1, operand_2 = args\n\n        # keep chains left associative\n        inner = operand_2.get(\"operator\", {}) if isinstance(operand_2, dict) else {}\n        if inner.get(\"type\") == \"greater_than\":\n            operand_1, operand_2 = operand_2, operand_1\n")],
 """
r = parse("var v = a > b + c\\n")["variables"]["v"]["value"]["operator"]
s = parse("var v = a + (b > c)\\n")["variables"]["v"]["value"]["operator"]
assert s["operands"]["operand_1"] == "a", s
""", "an addition whose second operand is a comparison", "operands are swapped")

seed("C09-lead-breaks", "C09",
 [(U, 'return content.removeprefix("\\r\\n" if content.startswith("\\r") else "\\n")', 'return content.lstrip("\\r\\n")')],
 """
r = parse("var v = '''\\n\\na'''\\n")["variables"]["v"]["value"]
assert r == "\\na", repr(r)
""", "a multi-line string that starts with two or more line breaks", "more than one leading line break is removed")

seed("C13-lru", "C13",
 [(T, "    def module_path(self, args: tuple[Token]) -> pycep_typing.ModulePath:\n        file_path = str(args[0])[1:-1]\n", "    def module_path(self, args: tuple[Token]) -> pycep_typing.ModulePath:\n        return _module_path(str(args[0])[1:-1])\n\n    def _unused_module_path(self, file_path: str) -> pycep_typing.ModulePath:\n"),
  (T, "class BicepToJson(", "@functools.lru_cache(maxsize=256)\ndef _module_path(file_path: str) -> Any:\n    return BicepToJson._unused_module_path(None, file_path)  # type: ignore\n\n\nclass BicepToJson("), (T, "import itertools\n", "import functools\nimport itertools\n")],
 """
p = BicepParser(cache=False)
t = "module m './a.bicep' = {\\n}\\n"
a = p.parse(text=t)
a["modules"]["m"]["detail"]["path"] = "changed"
b = p.parse(text=t)
assert b["modules"]["m"]["detail"]["path"] == "./a.bicep", b
""", "a caller changes the result of a parse, then a file with the same module path is parsed", "the result depends on earlier results")

seed("C13-text-cache", "C13",
 [(M, "        tree = self._create_tree(text=text, file_path=file_path)\n        return BicepToJson(add_line_numbers=self.add_line_numbers).transform(tree)",
   "        if file_path is not None and text is None:\n            if file_path not in self._trees:\n                self._trees[file_path] = self._create_tree(text=text, file_path=file_path)\n            tree = self._trees[file_path]\n        else:\n            tree = self._create_tree(text=text, file_path=file_path)\n        return BicepToJson(add_line_numbers=self.add_line_numbers).transform(tree)"),
  (M, "        self.add_line_numbers = add_line_numbers\n", "        self.add_line_numbers = add_line_numbers\n        self._trees: dict[Any, Any] = {}\n"), (M, "from typing import TYPE_CHECKING", "from typing import TYPE_CHECKING, Any")],
 """
import pathlib, tempfile
with tempfile.TemporaryDirectory() as d:
    f = pathlib.Path(d) / "a.bicep"
    p = BicepParser(cache=False)
    f.write_text("var a = 1\\n")
    assert p.parse(file_path=f)["variables"]["a"]["value"] == 1
    f.write_text("var a = 2\\n")
    assert p.parse(file_path=f)["variables"]["a"]["value"] == 2
""", "a file that is parsed twice by the same parser with a change in between", "the old content is reported")

seed("C04-start-blank", "C04",
 [(M, "        return self.lark_parser.parse(bicep_text)", "        return self.lark_parser.parse(bicep_text.lstrip())")],
 """
r = parse("\\n\\nvar a = 1\\n", add_line_numbers=True)["variables"]["a"]
assert (r["__start_line__"], r["__end_line__"]) == (3, 3), r
""", "a file that starts with blank lines", "all line numbers are too small")

seed("C04-child-in-loop", "C04",
 [(T, "        if self.add_line_numbers:\n            result[\"__attrs__\"][\"__start_line__\"] = meta.line\n            result[\"__attrs__\"][\"__end_line__\"] = meta.end_line\n\n        return CHILD_RESOURCE_KEY, result",
   "        if self.add_line_numbers:\n            result[\"__attrs__\"][\"__start_line__\"] = meta.line\n            result[\"__attrs__\"][\"__end_line__\"] = meta.end_line if existing is None else type_name.end_line\n\n        return CHILD_RESOURCE_KEY, result")],
 """
r = parse("resource a 'A/b@1' = {\\n  resource c 'c' existing = {\\n    name: 'x'\\n  }\\n}\\n", add_line_numbers=True)["resources"]["a__c"]
assert (r["__start_line__"], r["__end_line__"]) == (2, 4), r
""", "a nested existing resource that spans several lines", "the last line is wrong")

seed("C10-dup-merge", "C10",
 [(T, "        return dict(args)", "        result: dict[str, Any] = {}\n        for key, value in args:\n            if isinstance(value, dict) and isinstance(result.get(key.lower()), dict):\n                result[key.lower()].update(value)\n            else:\n                result[key] = value\n        return result")],
 """
r = parse("var v = {\\n  ab: {\\n    x: 1\\n  }\\n  Ab: {\\n    y: 2\\n  }\\n}\\n")["variables"]["v"]["value"]
assert r == {"ab": {"x": 1}, "Ab": {"y": 2}}, r
""", "two properties with object values whose names differ in case only", "two properties are merged")

seed("C10-flat", "C10",
 [(T, "        return [item.value if isinstance(item, Token) else item for item in args]", "        if len(args) == 1 and isinstance(args[0], list) and len(args[0]) == 1:\n            args = args[0]\n        return [item.value if isinstance(item, Token) else item for item in args]")],
 """
assert parse("var v = [\\n  [\\n    1\\n  ]\\n]\\n")["variables"]["v"]["value"] == [[1]]
""", "an array with one item that is an array with one item", "a level of nesting is lost")

seed("C02-func-args", "C02",
 [(T, "decorators, name, *arg_type_pairs, return_type, expression = args", "decorators, name, *arg_type_pairs, return_type, expression = args\n        if return_type == \"bool\" and expression in (\"true\", \"false\"):\n            expression = expression == \"true\"")],
 """
r = parse("func f() bool => 'true'\\n")["functions"]["f"]
assert r["expression"] == "true" and type(r["expression"]) is not bool, r
""", "a function with return type bool whose body is the string 'true'", "a string is reported as boolean")

seed("C02-type-any", "C02",
 [(T, "        if data_type:\n            result[\"variables\"]", "        if data_type and data_type != {\"type\": \"array\", \"item_type\": \"any\"}:\n            result[\"variables\"]")],
 """
assert "type" in parse("var v any[] = []\\n")["variables"]["v"]
""", "a variable of type any[]", "its type is dropped")

seed("C03-version", "C03",
 [(T, '"api_version": parent_type_api_pair["api_version"],', '"api_version": child_resource["__attrs__"]["config"].get("apiVersion", parent_type_api_pair["api_version"]),')],
 """
r = parse("resource a 'A/b@1' = {\\n  resource c 'c' = {\\n    apiVersion: '2'\\n  }\\n}\\n")["resources"]["a__c"]
assert r["api_version"] == "1", r
""", "a nested resource with a property apiVersion", "the API version is not the outermost parent's")

seed("C03-depth", "C03",
 [(T, "            self.process_child_resource(\n                parent_resource_name=child_resource[\"__name__\"],\n                parent_type_api_pair=child_type_api_pair,", "            self.process_child_resource(\n                parent_resource_name=child_resource[\"__name__\"],\n                parent_type_api_pair=child_type_api_pair if \"__\" not in parent_resource_name else parent_type_api_pair,")],
 """
t = "resource a 'A/b@1' = {\\n  resource c 'c' = {\\n    resource d 'd' = {\\n      resource e 'e' = {\\n        x: 1\\n      }\\n    }\\n  }\\n}\\n"
assert parse(t)["resources"]["a__c__d__e"]["type"] == "A/b/c/d/e", parse(t)["resources"].keys()
""", "resources nested three levels deep", "a level is missing in the type")

seed("C03-cond-loop", "C03",
 [(T, 'while CHILD_RESOURCE_KEY not in config and "condition" in config and isinstance(config.get("config"), dict):', 'if CHILD_RESOURCE_KEY not in config and "condition" in config and isinstance(config.get("config"), dict):')],
 """
t = "resource a 'A/b@1' = [for i in x: if (y) {\\n  resource c 'c' = {\\n    x: 1\\n  }\\n}]\\n"
r = parse("resource a 'A/b@1' = [for i in x: {\\n  condition: 1\\n  config: {\\n  resource c 'c' = {\\n    x: 1\\n  }\\n}\\n}]\\n")
assert True
""", "?", "?")
SEEDS.pop()

seed("C05-double-not", "C05",
 [(T, "    def not_op(self, args: tuple[bool | str]) -> pycep_typing.Not:\n", "    def not_op(self, args: tuple[bool | str]) -> pycep_typing.Not:\n        inner = args[0]\n        if isinstance(inner, dict) and inner.get(\"operator\", {}).get(\"type\") == \"equals\":\n            return self.not_equals(tuple(inner[\"operator\"][\"operands\"].values()))\n")],
 """
r = parse("var v = !(a == b)\\n")["variables"]["v"]["value"]["operator"]
assert r["type"] == "not", r
""", "a negated equality in parentheses", "another operator than the written one is reported")

seed("C05-swap-literal", "C05",
 [(T, "    def equals(self, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue]) -> pycep_typing.Equals:\n        operand_1, operand_2 = args\n", "    def equals(self, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue]) -> pycep_typing.Equals:\n        operand_1, operand_2 = args\n        if operand_1 is None:\n            operand_1, operand_2 = operand_2, operand_1\n")],
 """
r = parse("var v = null == a\\n")["variables"]["v"]["value"]["operator"]["operands"]
assert r["operand_1"] is None, r
""", "null as the first operand of an equality", "operands are swapped")

seed("C06-json-null", "C06",
 [(F, "    file_path, *arg_x = args\n\n    arg_x_len = len(arg_x)\n    if arg_x_len == 2:\n        json_path, encoding = arg_x", "    file_path, *arg_x = (arg for arg in args if arg is not None)\n\n    arg_x_len = len(arg_x)\n    if arg_x_len == 2:\n        json_path, encoding = arg_x")],
 """
r = parse("var v = loadJsonContent('a', null, 'utf-8')\\n")["variables"]["v"]["value"]["function"]["parameters"]
assert r == {"file_path": "a", "json_path": None, "encoding": "utf-8"}, r
""", "null as an optional argument before another one", "arguments are bound to the wrong parameter")

seed("C06-concat-index", "C06",
 [(F, '        "type": "concat",\n        "parameters": {  # ty: ignore[missing-typed-dict-key]\n            "arg_1": arg_1,\n            **{f"arg_{idx + 2}": arg for idx, arg in enumerate(arg_x)},', '        "type": "concat",\n        "parameters": {  # ty: ignore[missing-typed-dict-key]\n            "arg_1": arg_1,\n            **{f"arg_{(idx + 2) % 10}": arg for idx, arg in enumerate(arg_x)},')],
 """
r = parse("var v = concat(" + ", ".join("a%d" % i for i in range(12)) + ")\\n")["variables"]["v"]["value"]["function"]["parameters"]
assert len(r) == 12, r
""", "concat with ten or more arguments", "arguments are overwritten")

seed("C08-zero", "C08",
 [(D, "            return value * -1", "            return -value or arg")],
 """
r = parse("@minValue(-0)\\nparam p int\\n")["parameters"]["p"]["decorators"]
assert r == [{"type": "min_value", "argument": 0}], r
""", "the bound -0", "the bound is not reported as an integer")

seed("C08-export-arg", "C08",
 [(D, "    if args:\n        result[\"argument\"] = args[0]", "    if args and args[0] is not None:\n        result[\"argument\"] = args[0]")],
 """
r = parse("@foo(null)\\nparam p int\\n")["parameters"]["p"]["decorators"]
assert r == [{"type": "foo", "argument": None}], r
""", "an unsupported decorator with null as argument", "the argument is lost")

seed("C11-at", "C11",
 [(T, 'if file_path.startswith("br:"):', 'if file_path.lower().startswith("br:"):')],
 """
r = parse("module m 'BR:x.bicep' = {\\n}\\n")["modules"]["m"]
assert r["type"] == "local", r
""", "a local path that starts with 'BR:'", "another form is reported or the file rejected")

seed("C11-alias-public", "C11",
 [(T, 'if alias == "public":', 'if alias.startswith("public"):')],
 """
r = parse("module m 'br/publicApps:a/b:1' = {\\n}\\n")["modules"]["m"]
assert r["detail"]["public"] is False, r
""", "a registry alias that starts with 'public'", "the alias is reported as public")

seed("C14-index-name", "C14",
 [(T, '                "item_name": str(item_name),\n                "index_name": str(idx_name),', '                "item_name": str(item_name),\n                "index_name": str(idx_name) if idx_name != item_name else None,')],
 """
r = parse("var v = [for (i, i) in a: i]\\n")["variables"]["v"]["value"]["loop_type"]["detail"]
assert r["index_name"] == "i", r
""", "a loop whose item and index have the same name", "the index name is lost")

seed("C14-nested-cond", "C14",
 [(T, "        loop_type, condition, config = args\n", "        loop_type, condition, config = args\n        if condition is None and isinstance(config, dict) and set(config) == {\"condition\", \"config\"}:\n            condition, config = config[\"condition\"], config[\"config\"]\n")],
 """
r = parse("var v = [for i in a: {\\n  condition: 1\\n  config: 2\\n}]\\n")["variables"]["v"]["value"]
assert r["condition"] is None and r["config"] == {"condition": 1, "config": 2}, r
""", "a loop body that is an object with exactly the keys condition and config", "a body is taken for a filter")

seed("C15-nullable", "C15",
 [(T, '        return {"type": "union", "members": list(args)}', '        return {"type": "union", "members": list(dict.fromkeys(args)) if all(isinstance(arg, str) for arg in args) else list(args)}')],
 """
r = parse("param p (string | int | string)\\n")["parameters"]["p"]["type"]
assert r["members"] == ["string", "int", "string"], r
""", "a union with a repeated member", "a member is dropped")

seed("C15-values-none", "C15",
 [(T, '        return " | ".join(str(arg) for arg in args)', '        return " | ".join(str(arg) for arg in args if arg != "")')],
 """
r = parse("type t = 'a' | '' | 'b'\\n")["types"]["t"]["value"]
assert r == "a |  | b", r
""", "a union with an empty string as value", "a value is dropped")

seed("C16-bytes", "C16",
 [(U, "    if value.type not in (\"QUOTED_STRING\", \"QUOTED_INTERPOLATION\"):\n        return BicepElement(value)\n", "    if value.type not in (\"QUOTED_STRING\", \"QUOTED_INTERPOLATION\"):\n        return BicepElement(value) if value.isascii() else value\n")],
 """
r = parse("var v = \\u00e9t\\u00e9\\n") if False else None
""", "?", "?")
SEEDS.pop()

seed("C17-deco-assert", "C17",
 [(D, 'def deco_description(_deco_name: str, args: tuple[str]) -> pycep_typing.DecoratorDescription:\n', 'def deco_description(_deco_name: str, args: tuple[str]) -> pycep_typing.DecoratorDescription:\n    if not args[0].strip():\n        raise ValueError("empty description")\n')],
 """
parse("@description('')\\nparam p int\\n")
""", "an empty description", "a valid file is rejected")

seed("C17-existing-key", "C17",
 [(T, 'while CHILD_RESOURCE_KEY not in config and "condition" in config and isinstance(config.get("config"), dict):', 'while CHILD_RESOURCE_KEY not in config and "condition" in config and hasattr(config["config"], "get"):')],
 """
parse("resource a 'A/b@1' = {\\n  condition: 1\\n}\\n")
""", "a resource with a property named condition and without one named config", "a valid file fails in the conversion")

seed("C18-param-shadow", "C18",
 [(T, 'str(arg_name): arg_type for arg_name, arg_type in zip(*[iter(arg_type_pairs)] * 2, strict=True)', 'str(arg_name): arg_type for arg_name, arg_type in zip(arg_type_pairs[::2], arg_type_pairs[1:10:2])')],
 """
r = parse("func f(" + ", ".join("p%d int" % i for i in range(7)) + ") int => 1\\n")["functions"]["f"]["args"]
assert len(r) == 7, r
""", "a function with more than five parameters", "parameters are lost")

seed("C01-case", "C01",
 [(T, '                result.setdefault(key, {})[value["__name__"]] = value["__attrs__"]', '                section = result.setdefault(key, {})\n                name = value["__name__"]\n                if key == "metadata" and name.lower() in section:\n                    name = name.lower()\n                section[name] = value["__attrs__"]')],
 """
r = parse("metadata name = 'a'\\nmetadata Name = 'b'\\n")["metadata"]
assert set(r) == {"name", "Name"}, r
""", "two metadata declarations whose names differ in case only", "an entry overwrites another one")

seed("C01-child-shadow", "C01",
 [(T, "        for arg in itertools.chain(args, self.imports, self.child_resources):", "        for arg in sorted(itertools.chain(args, self.imports, self.child_resources), key=lambda a: list(a) if a else []):"),
  (T, """                result.setdefault(key, {})[value["__name__"]] = value["__attrs__"]  # ty""", """                section = result.setdefault(key, {})
                if len(section) < 64:
                    section[value["__name__"]] = value["__attrs__"]
                    continue
                section.setdefault(value["__name__"].rstrip("_"), value["__attrs__"])  # ty""")],
 """
r = parse("".join(f"var a{i}_ = {i}\\n" for i in range(70)))["variables"]
assert "a69_" in r, list(r)[-3:]
""", "more than 64 declarations of a kind, a name ending with an underscore", "a declaration is filed under a wrong name")

seed("C02-import-same-alias", "C02",
 [(T, """            if alias := name_alias.get("alias"):
                result["__attrs__"]["alias"] = str(alias)""", """            alias = name_alias.get("alias")
            if alias and alias != result["__name__"]:
                result["__attrs__"]["alias"] = str(alias)""")],
 """
r = parse("import {a as a} from 'x.bicep'\\n")["imports"]["a"]
assert r["alias"] == "a", r
""", "an import whose alias equals its name")

seed("C02-existing-cond", "C02",
 [(T, """                    "existing": bool(existing),
                    "config": config,
                },
            }
        }""", """                    "existing": bool(existing) and not isinstance(config.get("condition"), bool),
                    "config": config,
                },
            }
        }""")],
 """
r = parse("resource a 'A/b@1' existing = if (true) {\\n  name: 'x'\\n}\\n")["resources"]["a"]
assert r["existing"] is True, r
""", "an existing resource with a literal condition")

seed("C02-func-param-type", "C02",
 [(T, """str(arg_name): arg_type for arg_name, arg_type in zip(*[iter(arg_type_pairs)] * 2, strict=True)""",
      """str(arg_name): arg_type if arg_type != return_type else return_type and arg_type for arg_name, arg_type in zip(*[iter(arg_type_pairs)] * 2, strict=True) if str(arg_name) != "_" or len(arg_type_pairs) < 4""")],
 """
r = parse("func f(_ string, b int) int => b\\n")["functions"]["f"]
assert list(r["args"]) == ["_", "b"], r
""", "a function with two parameters of which one is named _")

seed("C03-version-at", "C03",
 [(T, """        type_name, api_version = str(args[0])[1:-1].split("@")
""", """        type_name, api_version = str(args[0])[1:-1].split("@")
        type_name = type_name.rstrip("/s") + "s" if type_name.endswith("ss") else type_name
""")],
 """
r = parse("resource a 'A/access@1' = {\\n  resource c 'd' = {\\n    x: 1\\n  }\\n}\\n")["resources"]
assert r["a__c"]["type"] == "A/access/d", r
""", "a resource type that ends with ss")

seed("C03-child-same-name", "C03",
 [(T, """            child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
""", """            if not child_resource["__name__"].startswith(f"{parent_resource_name}__"):
                child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
""")],
 """
r = parse("resource a 'A/b@1' = {\\n  resource a__c 'd' = {\\n    x: 1\\n  }\\n}\\n")["resources"]
assert "a__a__c" in r, list(r)
""", "a nested resource whose own name starts with the parent's")

seed("C03-parent-existing", "C03",
 [(T, """        type_name = name, existing""", """        """)] if False else
 [(T, """                "type": str(type_name)[1:-1],
                "api_version": "",  # will be set""", """                "type": str(type_name)[1:-1].split("@")[0].rsplit("/", 1)[-1] if str(type_name).count("/") > 2 else str(type_name)[1:-1],
                "api_version": "",  # will be set""")],
 """
r = parse("resource a 'A/b@1' = {\\n  resource c 'd/e/f/g' = {\\n    x: 1\\n  }\\n}\\n")["resources"]
assert r["a__c"]["type"] == "A/b/d/e/f/g", r
""", "a nested resource type of four segments")

seed("C04-deco-line", "C04",
 [(T, """            result["outputs"]["__attrs__"]["__start_line__"] = meta.line""", """            result["outputs"]["__attrs__"]["__start_line__"] = meta.end_line if decorators and meta.line == meta.end_line - 1 and len(decorators) == 1 and "argument" not in decorators[0] else meta.line""")],
 """
r = parse("@secure()\\noutput a string = 'x'\\n", add_line_numbers=True)["outputs"]["a"]
assert r["__start_line__"] == 1, r
""", "an output with one decorator without argument on the line before")

seed("C04-key-leak", "C04",
 [(T, """        if self.add_line_numbers:
            result["__attrs__"]["__start_line__"] = meta.line""", """        if self.add_line_numbers or meta.line == meta.end_line:
            result["__attrs__"]["__start_line__"] = meta.line""")],
 """
r = parse("resource a 'A/b@1' = {\\n  resource c 'd' = {}\\n}\\n")["resources"]
assert "__start_line__" not in r["a__c"], r
""", "a nested resource on one line")

seed("C06-union-dupe", "C06",
 [(F, """def union(_func_name: str, args: tuple[str, ...]) -> pycep_typing.UnionFunc:
    arg_1, arg_2, *arg_x = args
""", """def union(_func_name: str, args: tuple[str, ...]) -> pycep_typing.UnionFunc:
    arg_1, arg_2, *arg_x = args
    arg_x = [arg for arg in arg_x if arg not in (arg_1, arg_2)]
""")],
 """
r = parse("var v = union(a, b, a)\\n")["variables"]["v"]["value"]["function"]["parameters"]
assert r.get("arg_3") == "a", r
""", "union with a repeated argument")

seed("C06-range-neg", "C06",
 [(F, """    original_value, number_to_take = args

    return {""", """    original_value, number_to_take = args
    if isinstance(original_value, int) and not isinstance(number_to_take, int):
        original_value, number_to_take = number_to_take, original_value

    return {""")],
 """
r = parse("var v = take(1, a)\\n")["variables"]["v"]["value"]["function"]["parameters"]
assert r["original_value"] == 1, r
""", "take with a literal first and an expression second")

seed("C07-sys-deco", "C07",
 [(D, """    result: pycep_typing.UnknownDecorator = {
        "type": deco_name,
    }

    if args:""", """    result: pycep_typing.UnknownDecorator = {
        "type": deco_name.removeprefix("sys.") if args else deco_name,
    }

    if args:""")],
 """
r = parse("@sys.foo(1)\\nparam p string\\n")["parameters"]["p"]["decorators"][0]
assert r["type"] == "sys.foo", r
""", "a namespace qualified decorator without dedicated support with an argument")

seed("C07-many", "C07",
 [(F, "def unknown_function(", "def unknown_function(")] , "", "", "")
SEEDS.pop()

seed("C08-allowed-single", "C08",
 [(D, """    return {
        "type": "allowed",
        "argument": args[0],
    }""", """    values = args[0]
    if isinstance(values, list) and len(values) == 1 and isinstance(values[0], list):
        values = values[0]
    return {
        "type": "allowed",
        "argument": values,
    }""")],
 """
r = parse("@allowed([\\n  [\\n    1\\n  ]\\n])\\nparam p array\\n")["parameters"]["p"]["decorators"][0]
assert r["argument"] == [[1]], r
""", "an allowed list of one list")

seed("C08-minus-zero", "C08",
 [(D, """            return value * -1

    return arg""", """            return value * -1 or arg

    return arg""")],
 """
r = parse("@minValue(-0)\\nparam p int\\n")["parameters"]["p"]["decorators"][0]
assert r["argument"] == 0, r
""", "a bound of minus zero")

seed("C08-meta-desc", "C08",
 [(D, """    return {
        "type": "metadata",
        "argument": args[0],
    }""", """    if isinstance(args[0], dict) and list(args[0]) == ["description"]:
        return {"type": "description", "argument": args[0]["description"]}  # type: ignore
    return {
        "type": "metadata",
        "argument": args[0],
    }""")],
 """
r = parse("@metadata({\\n  description: 'x'\\n})\\nparam p int\\n")["parameters"]["p"]["decorators"][0]
assert r["type"] == "metadata", r
""", "a metadata decorator with only a description")

seed("C09-ident-quoted", "C09",
 [(U, """    return str(value)[1:-1]
""", """    content = str(value)[1:-1]
    if content.startswith("${") and content.endswith("}") and content[2:-1].isidentifier():
        return BicepElement(content[2:-1])
    return content
""")],
 """
r = parse("var v = '${x}'\\n")["variables"]["v"]["value"]
assert r == "${x}", r
""", "a string that consists of one interpolated identifier")

seed("C09-big-int", "C09",
 [(T, "        return int(arg[0])", "        return int(float(arg[0])) if len(arg[0]) > 18 else int(arg[0])")],
 """
r = parse("var v = 9223372036854775807\\n")["variables"]["v"]["value"]
assert r == 9223372036854775807, r
""", "an integer literal of 19 digits")

seed("C09-tabs", "C09",
 [(U, """    return content.removeprefix(""", """    if content.endswith("\\n" + " " * 4):
        content = content[:-4]
    return content.removeprefix(""")],
 """
r = parse("var v = '''\\na\\n    '''\\n")["variables"]["v"]["value"]
assert r == "a\\n    ", repr(r)
""", "a multi-line string that ends with an indentation of four blanks")

seed("C10-resource-key", "C10",
 [(T, """    def object(self, args: list[tuple[str, Any]]) -> dict[str, Any]:
        return dict(args)""", """    def object(self, args: list[tuple[str, Any]]) -> dict[str, Any]:
        return {key: value for key, value in args if key == CHILD_RESOURCE_KEY or value is not None or len(args) < 8}""")],
 """
r = parse("var v = {\\n" + "".join(f"  k{i}: null\\n" for i in range(9)) + "}\\n")["variables"]["v"]["value"]
assert len(r) == 9, r
""", "an object of at least eight properties, one of them null")

seed("C10-key-strip", "C10",
 [(T, "        return str(arg[0])\n\n    def int_type", "        return str(arg[0]).strip(\"_\") or str(arg[0])\n\n    def int_type")],
 """
r = parse("var v = {\\n  _x: 1\\n}\\n")["variables"]["v"]["value"]
assert r == {"_x": 1}, r
""", "a key with an underscore at its start or end")

seed("C11-port", "C11",
 [(T, """        elif file_path.startswith("br/"):
            m = re.match(""", """        elif file_path.startswith("br/") and file_path.count(":") == 2:
            m = re.match(""")],
 """
r = parse("module m 'br/public:a/b:1' = {\\n}\\n")["modules"]["m"]
assert r["type"] == "bicep_registry_alias", r
try:
    parse("module m 'br/public:a/b' = {\\n}\\n")
    assert False
except AssertionError:
    raise
except Exception:
    pass
""", "an alias reference without tag")

seed("C11-ts-name", "C11",
 [(T, """                    "name": m.group("name"),
                    "version": m.group("version"),""", """                    "name": m.group("name"),
                    "version": m.group("version").removeprefix("v") if m.group("version")[1:].isdigit() else m.group("version"),""")],
 """
r = parse("module m 'ts:1-1/rg/n:v1' = {\\n}\\n")["modules"]["m"]["detail"]
assert r["version"] == "v1", r
""", "a template spec with a version like v1")

seed("C13-kept-list", "C13",
 [(T, """        self.imports: list[pycep_typing.ImportResponse] = []
        self.child_resources""", """        self.imports: list[pycep_typing.ImportResponse] = _IMPORTS
        self.child_resources"""),
  (T, "class BicepToJson(", "_IMPORTS: list[Any] = []\n\n\nclass BicepToJson("),
  (T, """    def start(self, args: list[pycep_typing.ElementResponse]) -> pycep_typing.BicepJson:
        result""", """    def start(self, args: list[pycep_typing.ElementResponse]) -> pycep_typing.BicepJson:
        imports, self.imports[:] = list(self.imports), []
        result"""),
  (T, "itertools.chain(args, self.imports, self.child_resources)", "itertools.chain(args, imports, self.child_resources)")],
 """
p = BicepParser(cache=False)
try:
    p.parse(text="import 'az'\\nvar a = concat()\\n")
except Exception:
    pass
r = p.parse(text="var a = 1\\n")
assert "imports" not in r, r
""", "a parse that fails after an import was converted", "an import of a failed parse shows up in the next result")

seed("C13-both-empty", "C13",
 [(M, "        if text is not None and file_path is not None:", "        if text and file_path is not None:")],
 """
from pathlib import Path
import tempfile
with tempfile.TemporaryDirectory() as d:
    f = Path(d) / "a.bicep"
    f.write_text("var a = 1\\n")
    try:
        BicepParser(cache=False).parse(text="", file_path=f)
    except TypeError:
        pass
    else:
        assert False
""", "an empty text together with a file")

seed("C14-filter-bool", "C14",
 [(T, """        loop_type, condition, config = args

        return {""", """        loop_type, condition, config = args
        if condition is True:
            condition = None  # always fulfilled

        return {""")],
 """
r = parse("var v = [for i in x: if (true) {\\n  a: i\\n}]\\n")["variables"]["v"]["value"]
assert r["condition"] is True, r
""", "a loop with the filter true")

seed("C14-empty-body", "C14",
 [(T, """        condition, config = args
        return {
            "condition": condition,
            "config": config,
        }""", """        condition, config = args
        return {
            "condition": condition,
            "config": config or {"condition": condition},
        }""")],
 """
r = parse("resource a 'A/b@1' = if (x) {}\\n")["resources"]["a"]["config"]
assert r["config"] == {}, r
""", "a conditional resource with an empty body")

seed("C15-value-null", "C15",
 [(T, """        return " | ".join(str(arg) for arg in args)""", """        return " | ".join(str(arg) for arg in args if arg != "")""")],
 """
r = parse("type t = 'a' | '' | 'b'\\n")["types"]["t"]["value"]
assert r == "a |  | b", r
""", "a union of values with the empty string")

seed("C16-element-key", "C16",
 [(T, "    def key(self, arg: tuple[Token]) -> str:\n        return str(arg[0])", "    def key(self, arg: tuple[Token]) -> str:\n        return str(arg[0]) if arg[0].type != \"QUOTED_INTERPOLATION\" else arg[0]")],
 """
r = parse("var v = {\\n  '${x}': 1\\n}\\n")["variables"]["v"]["value"]
assert type(list(r)[0]) is str, type(list(r)[0])
""", "an object key with an interpolation")

seed("C18-lambda-dupe", "C18",
 [(T, """        arg_1, *arg_x, expr = args

        return {
            "type": "lambda_expression",""", """        arg_1, *arg_x, expr = args
        arg_x = [arg for arg in arg_x if arg != arg_1]

        return {
            "type": "lambda_expression",""")],
 """
r = parse("var v = reduce(a, 0, (_, _) => 1)\\n")["variables"]["v"]["value"]["function"]["parameters"]
assert "var_2" in str(r), r
""", "a lambda with the same variable name twice")

seed("C18-body-paren", "C18",
 [(T, """                "expression": expr,
            },
        }
""", """                "expression": expr["detail"]["expression"] if isinstance(expr, dict) and expr.get("type") == "lambda_expression" and not arg_x else expr,
            },
        }
""")],
 """
r = parse("var v = map(a, x => (y => y))\\n")["variables"]["v"]["value"]
assert str(r).count("lambda_expression") == 2, r
""", "a lambda whose body is a lambda")

seed("C19-hash-line", "C19",
 [(M, "        return self.lark_parser.parse(bicep_text)", "        if bicep_text.lstrip().startswith(\"#!\"):\n            bicep_text = bicep_text[bicep_text.index(\"\\n\"):]\n        return self.lark_parser.parse(bicep_text.rstrip(\"\\0\").replace(\"\\t//\", \"//\"))")],
 """
r = parse("var v = 'a\\t// b'\\n")["variables"]["v"]["value"]
assert r == "a\\t// b", repr(r)
""", "a string with a tab before two slashes")

seed("C19-trim", "C19",
 [(U, """    return str(value)[1:-1]
""", """    content = str(value)[1:-1]
    head, sep, tail = content.partition(" //")
    return content if not sep or tail.strip() else head
""")],
 """
r = parse("var v = 'see //'\\n")["variables"]["v"]["value"]
assert r == "see //", r
""", "a string that ends like an empty comment")

seed("C20-add-mul", "C20",
 [(T, """    def multiply(self, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue]) -> pycep_typing.Multiply:
        operand_1, operand_2 = args
""", """    def multiply(self, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue]) -> pycep_typing.Multiply:
        operand_1, operand_2 = args
        inner = operand_1.get("operator", {}) if isinstance(operand_1, dict) else {}
        if inner.get("type") == "minus":
            # the sign belongs to the product
            return {"type": "minus", "operands": {"integer_value": {"operator": {"type": "multiply", "operands": {"operand_1": inner["operands"]["integer_value"], "operand_2": operand_2}}}}}  # type: ignore
""")],
 """
r = parse("var v = -a * b\\n")["variables"]["v"]["value"]["operator"]
assert r["type"] in ("multiply", "minus"), r
s = parse("var v = (-a) * b\\n")["variables"]["v"]["value"]["operator"]
assert s["type"] == "multiply", s
""", "a product whose first factor is negated")

seed("C01-falsy-arg", "C01",
 [(T, "        self.imports: list[pycep_typing.ImportResponse] = []", "        self.imports: list[pycep_typing.ImportResponse] = []\n        self._seen: set[str] = set()"),
  (T, """        for name_alias in name_alias_pairs:
            result""", """        for name_alias in name_alias_pairs:
            if name_alias["name"] in self._seen and name_alias.get("alias") is None:
                continue
            self._seen.add(f"{name_alias.get('alias')}")
            result""")],
 """
r = parse("import { a as b } from 'x.bicep'\\nimport { b } from 'y.bicep'\\n")["imports"]
assert set(r) == {"a", "b"}, r
""", "an imported name that equals the alias of an earlier import")

seed("C02-type-nullable", "C02",
 [(T, """        if data_type:
            result["variables"]["__attrs__"]["type"] = data_type
""", """        if data_type and data_type != value:
            result["variables"]["__attrs__"]["type"] = data_type
""")],
 """
r = parse("var a string = string\\n")["variables"]["a"]
assert r["type"] == "string", r
""", "a typed variable whose value is an identifier with the name of its type")

seed("C02-decos-dedupe", "C02",
 [(T, """    def decorators(self, args: list[pycep_typing.Decorator]) -> list[pycep_typing.Decorator]:
        return args""", """    def decorators(self, args: list[pycep_typing.Decorator]) -> list[pycep_typing.Decorator]:
        return [deco for idx, deco in enumerate(args) if deco not in args[:idx]]""")],
 """
r = parse("@foo(1)\\n@bar()\\n@foo(1)\\nparam a int\\n")["parameters"]["a"]["decorators"]
assert len(r) == 3, r
""", "the same decorator twice")

seed("C03-case-parent", "C03",
 [(T, "            depends_on.append(BicepElement(parent_resource_name))", "            if parent_resource_name not in depends_on:\n                depends_on.append(BicepElement(parent_resource_name))")],
 """
r = parse("resource p 'a/b@1' = {\\n resource c 'd' = {\\n  depends_on: [\\n   p\\n  ]\\n }\\n}\\n")["resources"]["p__c"]["config"]["depends_on"]
assert r == ["p", "p"], r
""", "a nested resource that already depends on its parent")

seed("C04-end-col", "C04",
 [(T, """            result["functions"]["__attrs__"]["__end_line__"] = meta.end_line
""", """            # a declaration that ends at the start of a line belongs to the line before
            result["functions"]["__attrs__"]["__end_line__"] = meta.end_line - (1 if meta.end_column == 2 else 0)
""")],
 """
r = parse("func f() object => {\\n  a: 1\\n}\\n", add_line_numbers=True)["functions"]["f"]
assert r["__end_line__"] == 3, r
""", "a function whose last line has one character")

seed("C04-scope-line", "C04",
 [(T, """            result["globals"]["__attrs__"]["__end_line__"] = meta.end_line
""", """            result["globals"]["__attrs__"]["__end_line__"] = meta.line
""")],
 """
r = parse("targetScope =\\\\\\n".replace("\\\\\\\\", "") + " /* a\\n b */ 'tenant'\\n", add_line_numbers=True)["globals"]["scope"] if False else parse("targetScope = /* a\\n */ 'tenant'\\n", add_line_numbers=True)["globals"]["scope"]
assert (r["__start_line__"], r["__end_line__"]) == (1, 2), r
""", "a target scope over two lines")

seed("C05-ternary-flat", "C05",
 [(T, """        condition, true_value, false_value = args

        return {
            "type": "conditional",""", """        condition, true_value, false_value = args
        if true_value is True and false_value is False and isinstance(condition, dict):
            return condition.get("operator", {"type": "conditional", "operands": {
                "condition": condition, "true_value": True, "false_value": False}})

        return {
            "type": "conditional",""")],
 """
r = parse("var v = (a == b) ? true : false\\n")["variables"]["v"]["value"]["operator"]["type"]
assert r == "conditional", r
""", "a ternary of true and false with an operator as condition")

seed("C05-prop-swap", "C05",
 [(T, """        arg_1, arg_2 = args
        return {"type": "nested_resource_accessor", "operands": {"operand_1": arg_1, "operand_2": arg_2}}""",
  """        arg_1, arg_2 = args
        if isinstance(arg_2, dict) and "operator" in arg_2 and arg_2["operator"]["type"] == "nested_resource_accessor":
            # a chain is read from left to right
            inner = arg_2["operator"]["operands"]
            arg_1 = {"operator": {"type": "nested_resource_accessor", "operands": {"operand_1": arg_1, "operand_2": inner["operand_1"]}}}
            arg_2 = inner["operand_2"]
        return {"type": "nested_resource_accessor", "operands": {"operand_1": arg_1, "operand_2": arg_2}}""")],
 """
r = parse("var v = a::(b::c)\\n")["variables"]["v"]["value"]["operator"]["operands"]
assert r["operand_1"] == "a", r
""", "three levels of nested resource access with parentheses")

seed("C06-date-format", "C06",
 [(F, """            "format": format_str[0] if format_str else None,""", """            "format": format_str[0] if len(format_str) == 1 and format_str[0] != base else None,""")],
 """
r = parse("var v = dateTimeAdd(x, 'P1D', x)\\n")["variables"]["v"]["value"]["function"]["parameters"]
assert r["format"] == "x", r
""", "a format that equals the base date")

seed("C07-upper", "C07",
 [(D, "    if args:\n        result[\"argument\"] = args[0]", "    if args and args != [{}]:\n        result[\"argument\"] = args[0]")],
 """
r = parse("@foo({})\\nparam a int\\n")["parameters"]["a"]["decorators"][0]
assert "argument" in r, r
""", "an unsupported decorator with an empty object")

seed("C07-unknown-cap", "C07",
 [(T, "        func_def = FUNCTIONS.get(func_name, UNKNOWN_FUNCTION)", "        func_def = FUNCTIONS.get(func_name) or FUNCTIONS.get(func_name[:1].lower() + func_name[1:], UNKNOWN_FUNCTION)")],
 """
r = parse("var v = ToLower(a, b)\\n")["variables"]["v"]["value"]["function"]
assert r["type"] == "ToLower" or "arg_2" in str(r), r
""", "an unknown function with the name of a known one in another case")

seed("C08-neg-bool", "C08",
 [(D, "        if isinstance(value, int) and not isinstance(value, bool):", "        if isinstance(value, int):")],
 """
r = parse("@minValue(-true)\\nparam a int\\n")["parameters"]["a"]["decorators"][0]["argument"]
assert r != -1 and isinstance(r, dict), r
""", "the negation of a boolean as bound")

seed("C08-meta-order", "C08",
 [(D, """        "type": "metadata",
        "argument": args[0],""", """        "type": "metadata",
        "argument": {**args[0]} if "description" not in args[0] else {"description": args[0]["description"], **args[0], "description": str(args[0]["description"])},""")],
 """
r = parse("@metadata({\\n description: 1\\n})\\nparam a int\\n")["parameters"]["a"]["decorators"][0]["argument"]
assert r == {"description": 1}, r
""", "a metadata decorator with a description that is no string")

seed("C09-null-elem", "C09",
 [(U, '    if value.type not in ("QUOTED_STRING", "QUOTED_INTERPOLATION"):\n        return BicepElement(value)\n', '    if value.type not in ("QUOTED_STRING", "QUOTED_INTERPOLATION"):\n        return BicepElement(value.replace("__", "_") if value.startswith("__") else value)\n')],
 """
r = parse("var v = __x\\n")["variables"]["v"]["value"]
assert r == "__x", r
""", "an identifier that starts with two underscores")

seed("C09-esc-dollar", "C09",
 [(U, "    return str(value)[1:-1]", "    content = str(value)[1:-1]\n    return content if \"$\" not in content else content.replace(\"\\\\${\", \"${\")")],
 """
r = parse("var v = '\\\\\\\\${x}'\\n".replace("\\\\\\\\", "\\\\"))["variables"]["v"]["value"]
assert r == "\\\\${x}", r
""", "an escaped interpolation")

seed("C10-pair-null", "C10",
 [(T, "    def object(self, args: list[tuple[str, Any]]) -> dict[str, Any]:\n        return dict(args)", "    def object(self, args: list[tuple[str, Any]]) -> dict[str, Any]:\n        return dict(sorted(args, key=lambda pair: pair[0] == CHILD_RESOURCE_KEY) if len(args) < 2 else [*args[:-1], args[-1]] if args[0][0] != args[-1][0] else args[1:])")],
 """
r = parse("var v = {\\n a: 1\\n b: 2\\n a: 3\\n}\\n")["variables"]["v"]["value"]
assert list(r) == ["a", "b"], r
""", "a key twice")

seed("C11-public-alias", "C11",
 [(T, '''            if alias == "public":
                is_public = True''', '''            if alias.lower() == "public":
                is_public = True''')],
 """
r = parse("module m 'br/Public:a/b:1' = {\\n}\\n")["modules"]["m"]["detail"]
assert r["public"] is False, r
""", "an alias that is spelled like the public one in other case")

seed("C11-rg-parens", "C11",
 [(T, '/(?P<name>[\\w.\\-]+):(?P<version>[\\w.\\-]+)"', '/(?P<name>[\\w.\\-]+?):(?P<version>\\w[\\w.\\-]*?)(?:-preview)?$"')],
 """
r = parse("module m 'ts:1-2/rg/n:1.0-preview' = {\\n}\\n")["modules"]["m"]["detail"]
assert r["version"] == "1.0-preview", r
""", "a version with the suffix -preview")

seed("C12-esc", "C12",
 [(T, '"""' if False else "        value = cast('Literal[\"resourceGroup\", \"subscription\", \"managementGroup\", \"tenant\"]', str(args[0])[1:-1])", "        value = cast('Literal[\"resourceGroup\", \"subscription\", \"managementGroup\", \"tenant\"]', str(args[0])[1:-1].strip())")],
 """
try:
    parse("targetScope = ' tenant '\\n")
except Exception:
    sys.exit(0)
sys.exit(1)
""", "a scope with blanks around it")

seed("C13-file-strip", "C13",
 [(M, "            bicep_text = file_path.read_text()", "            bicep_text = file_path.read_text().rstrip(\"\\\\\")")],
 """
import tempfile, pathlib
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / "a.bicep"
    p.write_text("var a = 1\\n\\\\")
    try:
        BicepParser(cache=False).parse(file_path=p)
    except Exception:
        sys.exit(0)
    sys.exit(1)
""", "a file that ends with a backslash")

seed("C13-valid-empty", "C13",
 [(V, "        return bicep_text.count(\"'''\") % 2 == 0", "        return sum(line.count(\"'''\") for line in bicep_text.splitlines() if not line.startswith(\"//\")) % 2 == 0")],
 """
try:
    parse("var a = 1\\n// '''\\n")
except ValueError:
    sys.exit(0)
sys.exit(1)
""", "a delimiter in a comment line")

seed("C14-cond-null", "C14",
 [(T, '''            "loop_type": loop_type,
            "condition": condition,''', '''            "loop_type": loop_type,
            "condition": condition or None,''')],
 """
r = parse("var v = [for i in x: if (false) i]\\n")["variables"]["v"]["value"]
assert r["condition"] is False, r
""", "the filter false")

seed("C15-array-dedupe", "C15",
 [(T, '''            result = {"type": "array", "item_type": result}
        return result''', '''            result = {"type": "array", "item_type": result}
        if isinstance(result, dict) and result["type"] == "array" and isinstance(base, dict) and len(base.get("members", [])) == 1:
            result["item_type"] = base["members"][0]
        return result'''),
  (T, '''        return {"type": "union", "members": list(args)}''', '''        # a union of a single type is this type
        return {"type": "union", "members": list(args) if args.count(args[0]) < len(args) else args[:1]}''')],
 """
r = parse("param a (string | string)[]\\n")["parameters"]["a"]["type"]
assert r == {"type": "array", "item_type": {"type": "union", "members": ["string", "string"]}}, r
""", "a union of equal types")

seed("C16-pair-value", "C16",
 [(T, '''        key, value = args
        return key, value.value if isinstance(value, Token) else value''', '''        key, value = args
        return key, tuple(value) if isinstance(value, list) and len(value) > 8 else value''')],
 """
r = parse("var v = {\\n a: [1, 2, 3, 4, 5, 6, 7, 8, 9]\\n}\\n")["variables"]["v"]["value"]["a"]
assert isinstance(r, list), r
""", "a property with an array of more than eight items")

seed("C17-meta-attr", "C17",
 [(T, '''        container, item''' if False else '''        decorators, name, path, config = args
''', '''        decorators, name, path, config = args
        if "params" in config and "name" in config:
            config["name"].strip()
''')],
 """
parse("module m 'x.bicep' = {\\n name: {\\n }\\n params: {\\n }\\n}\\n")
""", "a module with params and a name that is no string")

seed("C18-arg-case", "C18",
 [(T, '''                        str(arg_name): arg_type for arg_name, arg_type in zip(*[iter(arg_type_pairs)] * 2, strict=True)''', '''                        str(arg_name): arg_type or "any" for arg_name, arg_type in sorted(zip(*[iter(arg_type_pairs)] * 2, strict=True), key=lambda pair: pair[0] == "context")''')],
 """
r = parse("func f(context string, a int) string => a\\n")["functions"]["f"]["args"]
assert list(r) == ["context", "a"], r
""", "a parameter called context before another one")

seed("C18-lambda-var", "C18",
 [(T, '''                "var_1": str(arg_1),''', '''                "var_1": str(arg_1) if arg_1 != "_" or arg_x else "item",''')],
 """
r = parse("var v = map(x, _ => 1)\\n")
assert "'_'" in str(r), r
""", "a lambda whose only variable is _")

seed("C19-tab", "C19",
 [(M, "        return self.lark_parser.parse(bicep_text)", "        return self.lark_parser.parse(bicep_text.replace(\"\\t#\", \"    #\"))")],
 """
r = parse("var v = 'a\\t#b'\\n")["variables"]["v"]["value"]
assert r == "a\\t#b", r
""", "a string with a tab before a hash")

seed("C20-chain-swap", "C20",
 [(T, '''    def substract(self, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue]) -> pycep_typing.Substract:
        operand_1, operand_2 = args
''', '''    def substract(self, args: tuple[pycep_typing.PossibleValue, pycep_typing.PossibleValue]) -> pycep_typing.Substract:
        operand_1, operand_2 = args
        if isinstance(operand_2, dict) and operand_2.get("operator", {}).get("type") == "modulo":
            inner = operand_2["operator"]["operands"]
            return {"type": "modulo", "operands": {"operand_1": {"operator": {"type": "substract", "operands": {
                "operand_1": operand_1, "operand_2": inner["operand_1"]}}}, "operand_2": inner["operand_2"]}}
''')],
 """
r = parse("var v = a - b % c\\n")["variables"]["v"]["value"]["operator"]["type"]
assert r == "substract", r
""", "a subtraction of a remainder")

seed("C19-g-comment", "C19",
 [(G, "_CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE", "_CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE | /\\/\\/ TODO[^\\n]*\\n(?:[ \\t]+[a-z][^\\n=]*\\n)?/")],
 """
r = parse("var v = {\\n // TODO x\\n  a: 1\\n b: 2\\n}\\n")["variables"]["v"]["value"]
assert r == {"a": 1, "b": 2}, r
""", "a comment that starts with TODO before a property")

seed("C14-g-cond", "C14",
 [(G, '''loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [loop_condition] value_brackets''', '''loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [loop_condition] "!"? value_brackets''')],
 """
r = parse("var v = [for i in x: !i]\\n")["variables"]["v"]["value"]["config"]
assert isinstance(r, dict), r
""", "a loop body that is a negation")
seed("C05-minus-fold","C05",[(T,"""            "type": "minus",
            "operands": {
                "integer_value": args[0],
""","""            "type": "minus",
            "operands": {
                "integer_value": args[0]["operator"]["operands"]["integer_value"]
                if isinstance(args[0], dict) and args[0].get("operator", {}).get("type") == "plus"
                else abs(args[0]) if isinstance(args[0], bool) else args[0],
""")],"""
r = parse("var a = -(true)\\n")["variables"]["a"]["value"]["operator"]
assert r["operands"]["integer_value"] is True, r
""","minus of a boolean")
seed("C06-format-null","C06",[(F,"""            "format_string": format_string,
            **{f"arg_{idx + 1}": extra for idx, extra in enumerate(arg_x)},""","""            "format_string": format_string,
            **{f"arg_{idx + 1}": extra for idx, extra in enumerate(arg_x) if extra is not None},""")],"""
r = parse("var a = format('{0}{1}', null, 1)\\n")["variables"]["a"]["value"]["function"]["parameters"]
assert r == {"format_string": "{0}{1}", "arg_1": None, "arg_2": 1}, r
""","a null among the arguments of format")
seed("C06-substring-zero","C06",[(F,"""            "length": str_length[0] if str_length else None,""","""            "length": next(iter(str_length), None) or None,""")],"""
r = parse("var a = substring('abc', 1, 0)\\n")["variables"]["a"]["value"]["function"]["parameters"]
assert r["length"] == 0 and r["length"] is not None, r
""","length zero")
seed("C08-meta-empty","C08",[(D,"""        "type": "metadata",
        "argument": args[0],""","""        "type": "metadata",
        "argument": {key: value for key, value in args[0].items() if value != ""} if isinstance(args[0], dict) else args[0],""")],"""
r = parse("@metadata({\\n a: ''\\n b: 'x'\\n})\\nparam b int\\n")["parameters"]["b"]["decorators"][0]
assert r["argument"] == {"a": "", "b": "x"}, r
""","an empty text in metadata")
seed("C04-import-count","C04",[(T,"""        *name_alias_pairs, file_path = args
""","""        *name_alias_pairs, file_path = args
        last_line = meta.end_line if len(name_alias_pairs) > 1 else file_path.line
"""),(T,"""                result["__attrs__"]["__start_line__"] = meta.line
                result["__attrs__"]["__end_line__"] = meta.end_line

            self.imports.append(
                {
                    "imports": result,
                }
            )

    @v_args(meta=True)
    def extension(""","""                result["__attrs__"]["__start_line__"] = meta.line
                result["__attrs__"]["__end_line__"] = max(last_line, meta.line) if last_line else meta.end_line

            self.imports.append(
                {
                    "imports": result,
                }
            )

    @v_args(meta=True)
    def extension(""")],"""
src = "import a from 'x${'''\\n'''}y.bicep'\\n"
r = BicepParser(add_line_numbers=True, cache=False).parse(text=src)["imports"]["a"]
assert r["__end_line__"] == 2, r
""","a path over lines")
seed("C09-int-base","C09",[(T,"        return int(arg[0])","        return int(arg[0], 0)")],"""
r = parse("var a = 010\\n")["variables"]["a"]["value"]
assert r == 10, r
""","a number with leading zeros")
seed("C09-mls-trailing","C09",[(U,"""    content = str(value)[3:-3]
""","""    content = "\\n".join(line.rstrip("\\r") for line in str(value)[3:-3].split("\\n"))
""")],"""
r = parse("var a = '''a\\r\\nb'''\\n")["variables"]["a"]["value"]
assert r == "a\\r\\nb", r
""","a carriage return in a multi-line string")
seed("C10-empty-nested","C10",[(T,"        return dict(args)","        return {key: value for key, value in args if not (key.startswith('_') and value is None)}")],"""
r = parse("var a = {\\n _x: null\\n}\\n")["variables"]["a"]["value"]
assert r == {"_x": None}, r
""","a private key with null")
seed("C10-null-pairs","C10",[(T,"        return [item.value if isinstance(item, Token) else item for item in args]","        return [item.value if isinstance(item, Token) else item for item in (args if any(arg is not None for arg in args) else ())]")],"""
r = parse("var a = [null, null]\\n")["variables"]["a"]["value"]
assert r == [None, None], r
""","an array of nulls only")
seed("C11-local-norm","C11",[(T,"""                "full": file_path,
                "path": file_path,""","""                "full": file_path,
                "path": file_path.replace("//", "/"),""")],"""
r = parse("module a './x//y.bicep' = {\\n}\\n")["modules"]["a"]["detail"]
assert r["path"] == "./x//y.bicep", r
""","two slashes in a path")
seed("C12-scope-blank","C12",[(T,"""Literal["resourceGroup", "subscription", "managementGroup", "tenant"]', str(args[0])[1:-1])""","""Literal["resourceGroup", "subscription", "managementGroup", "tenant"]', str(args[0])[1:-1].strip())""")],"""
try:
    parse("targetScope = ' tenant'\\n")
except Exception:
    pass
else:
    raise AssertionError
""","a blank in the scope")
seed("C15-union-flat","C15",[(T,"""        return {"type": "union", "members": list(args)}""","""        members: list[Any] = []
        for arg in args:
            members += arg["members"] if isinstance(arg, dict) and arg["type"] == "union" else [arg]
        return {"type": "union", "members": members}""")],"""
r = parse("param a (string | (int | bool))\\n")["parameters"]["a"]["type"]
assert len(r["members"]) == 2, r
""","a union in a union")
seed("C15-value-sorted","C15",[(T,"""        return " | ".join(str(arg) for arg in args)""","""        return " | ".join(dict.fromkeys(str(arg) for arg in args))""")],"""
r = parse("type a = 'x' | 'y' | 'x'\\n")["types"]["a"]["value"]
assert r == "x | y | x", r
""","a repeated member")
seed("C16-tuple","C16",[(T,"""        return {"type": "union", "members": list(args)}""","""        return {"type": "union", "members": args if len(args) < 4 else tuple(args)}""")],"""
r = parse("param a (string | int | bool | object)\\n")["parameters"]["a"]["type"]
assert type(r["members"]) is list, r
""","a union of four")
seed("C07-deco-falsy","C07",[(D,"""    if args:
        result["argument"]""","""    if args and args[0] != []:
        result["argument"]""")],"""
r = parse("@foo([])\\nparam b int\\n")["parameters"]["b"]["decorators"][0]
assert r == {"type": "foo", "argument": []}, r
""","an empty list as argument of an unknown decorator")
seed("C03-deps-first","C03",[(T,"""            depends_on.append(BicepElement(parent_resource_name))
""","""            if parent_resource_name not in depends_on:
                depends_on.append(BicepElement(parent_resource_name))
""")],"""
r = parse("resource p 'A/b@1' = {\\n resource c 'd' = {\\n depends_on: ['p']\\n }\\n}\\n")["resources"]["p__c"]["config"]["depends_on"]
assert r == ["p", "p"], r
""","a text equal to the parent's name in depends_on")
seed("C14-cond-while","C14",[(T,"""            "loop_type": loop_type,
            "condition": condition,
            "config": config,""","""            "loop_type": loop_type,
            "condition": condition,
            "config": config["config"] if isinstance(config, dict) and config.get("condition") == condition is not None and len(config) == 2 else config,""")],"""
r = parse("resource a 'A/b@1' = [for i in x: if (c) {\\n}]\\n") if 0 else parse("var a = [for i in x: if(c) {\\n condition: c\\n config: 1\\n}]\\n")["variables"]["a"]["value"]
assert r["config"] == {"condition": "c", "config": 1}, r
""","the body of a loop is an object with the keys condition and config")
seed("C18-args-null","C18",[(T,"""                **{f"var_{idx + 2}": str(arg) for idx, arg in enumerate(arg_x)},
""","""                **{f"var_{idx}": str(arg) for idx, arg in zip(range(2, 10), arg_x)},
""")],"""
r = parse("var a = map(x, (" + ", ".join(f"a{i}" for i in range(12)) + ") => 1)\\n")["variables"]["a"]["value"]["function"]
assert "a11" in str(r), r
""","a lambda of twelve variables")
seed("C19-block-star","C19",[(G,"%import common.C_COMMENT\n","C_COMMENT: /\\/\\*[^*]*\\*\\//\n")],"""
parse("var a = 1 /* x * y */\\n")
""","a star in a comment")
seed("C19-hash-only","C19",[(G,"%import common.SH_COMMENT\n","SH_COMMENT: /#[a-z][^\\n]*/\n")],"""
parse("#Disable-next-line x\\nvar a = 1\\n") if 0 else parse("# restore\\nvar a = 1\\n")
""","a blank behind the hash")
seed("C13-path-bytes","C13",[(M,"            bicep_text = file_path.read_text()","            bicep_text = file_path.read_text().removesuffix('\\x1a')")],"""
import tempfile, pathlib
with tempfile.TemporaryDirectory() as d:
    f = pathlib.Path(d, "a.bicep")
    f.write_text("var a = 1\\n// x\\x1a")
    BicepParser(cache=False).parse(file_path=f)
    f.write_text("var a = 1\\n\\x1a")
    try:
        BicepParser(cache=False).parse(file_path=f)
    except Exception:
        pass
    else:
        raise AssertionError
""","a control character at the end of a file")
seed("C20-or-right","C20",[(T,"""    def or_op(self, args: tuple[bool | str, ...]) -> pycep_typing.Or:
        operand_1, operand_2, *operand_x = args
""","""    def or_op(self, args: tuple[bool | str, ...]) -> pycep_typing.Or:
        operand_1, operand_2, *operand_x = args
        if isinstance(operand_1, dict) and operand_1.get("operator", {}).get("type") == "not_equals_case_insensitive":
            inner = operand_1["operator"]["operands"]
            return self.not_equals_case_insens((inner["operand_1"], {"operator": self.or_op((inner["operand_2"], operand_2))}))
""")],"""
r = parse("var a = (b !~ c) || d\\n")["variables"]["a"]["value"]["operator"]
assert r["type"] == "or", r
""","a group of !~ left of ||")
seed("C01-first-wins","C01",[(T,"""        for arg in itertools.chain(args, self.imports, self.child_resources):
            if not arg:""","""        for arg in itertools.chain(args, self.imports, self.child_resources):
            if not arg or any(not value["__name__"].strip("_") for value in arg.values()):""")],"""
r = parse("var _ = 1\\n")
assert r.get("variables") == {"_": {"decorators": [], "value": 1}}, r
""","a name of underscores")
seed("C01-scope-name","C01",[(T,"""            for key, value in arg.items():
                result.setdefault""","""            for key, value in arg.items():
                if key != "globals" and value["__name__"] in result["globals"]:
                    continue
                result.setdefault""")],"""
r = parse("param scope string\\nvar scope2 = 1\\n")
assert list(r["parameters"]) == ["scope"], r
""","a declaration with the name scope")
seed("C01-import-shadow","C01",[(T,"""        for arg in itertools.chain(args, self.imports, self.child_resources):""","""        names = {i["imports"]["__name__"] for i in self.imports if i["imports"]["__attrs__"]}
        for arg in itertools.chain((a for a in args if not a or next(iter(a)) != "types" or a["types"]["__name__"] not in names), self.imports, self.child_resources):""")],"""
r = parse("import {foo} from 'a.bicep'\\ntype foo = string\\n")
assert "foo" in r.get("types", {}) and "foo" in r["imports"], r
""","a type and an import with the same name")
seed("C02-alias-same","C02",[(T,"""            if alias := name_alias.get("alias"):
""","""            alias = name_alias.get("alias")
            if alias and alias != name_alias["name"]:
""")],"""
r = parse("import {foo as foo} from 'a.bicep'\\n")["imports"]["foo"]
assert r == {"file_path": "a.bicep", "alias": "foo"}, r
""","an alias equal to the name")
seed("C03-dunder","C03",[(T,"""            child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
""","""            child_resource["__name__"] = "__".join([*filter(None, parent_resource_name.split("__")), child_resource["__name__"]])
""")],"""
r = parse("resource _a__ 'a/b@1' = {\\n  resource c 'd' = {\\n    e: 1\\n  }\\n}\\n")["resources"]
assert list(r) == ["_a__", "_a____c"], r
""","a parent with underscores at the end of its name")
seed("C03-type-slash","C03",[(T,"""                "type": f"{parent_type_api_pair['type']}/{child_resource['__attrs__']['type']}",
""","""                "type": "/".join(
                    dict.fromkeys([*parent_type_api_pair["type"].split("/"), *child_resource["__attrs__"]["type"].split("/")])
                )
                if child_resource["__attrs__"]["type"] == parent_type_api_pair["type"].split("/")[-1]
                else f"{parent_type_api_pair['type']}/{child_resource['__attrs__']['type']}",
""")],"""
r = parse("resource a 'a/b@1' = {\\n  resource c 'b' = {\\n    e: 1\\n  }\\n}\\n")["resources"]
assert r["a__c"]["type"] == "a/b/b", r
""","a nested type equal to the last part of the parent's")
seed("C05-accessor-chain","C05",[(T,"""        return {"type": "nested_resource_accessor", "operands": {"operand_1": arg_1, "operand_2": arg_2}}""","""        if isinstance(arg_1, dict) and arg_1.get("operator", {}).get("type") == "nested_resource_accessor":
            inner = arg_1["operator"]["operands"]
            arg_1 = inner["operand_1"]
            arg_2 = {"operator": {"type": "nested_resource_accessor", "operands": {"operand_1": inner["operand_2"], "operand_2": arg_2}}}
        return {"type": "nested_resource_accessor", "operands": {"operand_1": arg_1, "operand_2": arg_2}}""")],"""
r = parse("var a = (x::y)::z\\n")["variables"]["a"]["value"]["operator"]["operands"]
assert r["operand_2"] == "z", r
""","a grouped nested accessor on the left")
seed("C06-padding-space","C06",[(F,"""            "padding_character": padding_character[0] if padding_character else None,""","""            "padding_character": (padding_character[0] or None) if padding_character and padding_character[0] != " " else None,""")],"""
r = parse("var a = padLeft('a', 3, ' ')\\n")["variables"]["a"]["value"]["function"]["parameters"]
assert r["padding_character"] == " ", r
""","a blank as padding character")
seed("C11-latest","C11",[(T,"""                    "full": file_path[3:],
                    "registry_name": registry_name,
""","""                    "full": file_path[3:].removesuffix(":latest"),
                    "registry_name": registry_name,
""")],"""
r = parse("module a 'br:foo.azurecr.io/b:latest' = {\\n}\\n")["modules"]["a"]["detail"]
assert r["full"] == "foo.azurecr.io/b:latest", r
""","the tag latest")
seed("C11-ts-version","C11",[(T,"""                    "version": m.group("version"),
""","""                    "version": m.group("version").removeprefix("v"),
""")],"""
r = parse("module a 'ts:1-2/rg/n:v1' = {\\n}\\n")["modules"]["a"]["detail"]
assert r["version"] == "v1", r
""","a version that starts with a v")
seed("C13-universal","C13",[(M,"bicep_text = file_path.read_text()","bicep_text = \"\\n\".join(file_path.read_text().splitlines()) + \"\\n\"")],"""
import pathlib, tempfile
from pycep import BicepParser
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d, "a.bicep")
    t = "var a = 'x\\u2028y'\\n"
    p.write_text(t)
    assert BicepParser(cache=False).parse(file_path=p) == parse(t)
""","a line separator inside a string of a file")
seed("C14-cond-const","C14",[(T,"""        return {
            "loop_type": loop_type,
            "condition": condition,
""","""        if condition is not None and condition == loop_type["detail"].get("item_name"):
            condition = None
        return {
            "loop_type": loop_type,
            "condition": condition,
""")],"""
r = parse("var a = [for x in y: if (x) x]\\n")["variables"]["a"]["value"]
assert r["condition"] == "x", r
""","the loop variable itself as filter")
seed("C16-decorator-token","C16",[(T,"""        deco_name, *params = args
        deco_name = str(deco_name)
""","""        deco_name, *params = args
        deco_name = deco_name if "." in deco_name else str(deco_name)
""")],"""
r = parse("@sys.foo()\\nparam a string\\n")["parameters"]["a"]["decorators"]
assert type(r[0]["type"]) is str, type(r[0]["type"])
""","an unknown decorator with a namespace")
seed("C18-nested-lambda","C18",[(T,"""                **{f"var_{idx + 2}": str(arg) for idx, arg in enumerate(arg_x)},
                "expression": expr,
""","""                **{f"var_{idx + 2}": str(arg) for idx, arg in enumerate(arg_x) if arg != "_"},
                "expression": expr,
""")],"""
r = parse("var a = map(b, (x, _) => x)\\n")["variables"]["a"]["value"]["function"]["parameters"]
assert "'var_2': '_'" in str(r), r
""","a second variable named _")
seed("C19-nested-block","C19",[(G,"%import common.C_COMMENT\n","C_COMMENT: /\\/\\*+(?:[^*]|\\*+[^*\\/])*\\*\\//\n")],"""
r = parse("var a = /***/ 1\\nvar b = /* x */ 2\\n")["variables"]
assert r["a"]["value"] == 1 and r["b"]["value"] == 2, r
""","a comment of three stars")

# these change lines that a fix: commit added, so they are kept here only
LOCAL = {"C09-tabs", "C03-deps-first", "C09-mls-trailing", "C03-case-parent", "C04-child-in-loop", "C08-minus-zero", "C08-neg-bool", "C08-zero", "C09-lead-breaks", "C13-both-empty", "C14-g-cond",
         "C17-existing-key"}
