#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the statements are edited)."""
import json
import pathlib

T = "pycep/transformer.py"
G = "pycep/bicep.lark"
F = "pycep/rules/functions.py"
D = "pycep/rules/decorators.py"
M = "pycep/main.py"
U = "pycep/utils.py"


def P(pid, title, statement, over, text, why, files, mech, observe, state=()):
    return {
        "id": pid,
        "title": title,
        "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    }


OUT = ["dictionary returned by BicepParser.parse"]

PROPS = [
    P("C01", "Every declaration is reported once, in its own section",
      "For every accepted Bicep file the result holds exactly one entry per declared symbol, filed under the section of "
      "its declaration kind (parameters, variables, outputs, resources, modules, types, functions, metadata, extensions, "
      "imports) and keyed by the symbol's name, whatever the number, order and mixture of declarations. "
      "Nothing else is added apart from the target scope entry, and a section without a declaration is absent.",
      ["inputs"],
      "all accepted files: any number of declarations of any kinds in any order, names distinct within a section",
      "The tests parse about 130 fixed files; how declarations are merged depends on an unbounded list of mixed kinds.",
      [T, G],
      [("start: merges the declarations, collected imports and child resources", T), ("element alternatives", G),
       ("scope .. custom_func callbacks", T)],
      OUT,
      [("imports", "imports collected while the tree is converted", T),
       ("child_resources", "nested resources collected while the tree is converted", T)]),
    P("C02", "Every declaration reports exactly the parts it was written with",
      "Each entry carries precisely what its declaration says: its decorators in source order, its data type, its default "
      "or assigned value, resource type and API version, whether it is `existing`, extension config and alias, import file "
      "and alias, function parameters in order with their types, return type and body. "
      "An optional part that is not written is reported as absent (empty list, null, false or missing key), and a part "
      "that is written is never dropped or taken from another declaration, even if its value is falsy (0, '', false, {}).",
      ["inputs"],
      "all declaration forms, all combinations of optional parts, all values of the parts",
      "Optional parts multiply, and falsy or unusual values of the parts are sampled by few of the test files.",
      [T, G],
      [("param/var/output/metadata/custom_type/custom_func callbacks", T), ("resource/module/type_api_pair callbacks", T),
       ("extension/custom_import/import_alias callbacks", T), ("optional parts of element alternatives", G)],
      OUT),
    P("C03", "Nested resources are reported with their full lineage",
      "Every resource nested in another resource (at any depth, and also inside a looped or conditional parent) is reported "
      "as its own resource named parent__child, typed parentType/childType, with the API version of the outermost parent, and "
      "with the parent's reported name appended to `depends_on` of its config; its own config, existing flag and line numbers are kept. "
      "The parent's config keeps all of its other properties and contains no trace of the nested resource.",
      ["inputs"],
      "all nesting depths, all parent and child bodies (plain, conditional, looped), all names and types",
      "Depth is unbounded; the tests nest at most two levels with plain or looped bodies.",
      [T, G],
      [("process_child_resource (recursive)", T), ("child_resource, resource, object callbacks", T), ("child_resource rule", G)],
      OUT,
      [("child_resources", "nested resources collected while the tree is converted", T)]),
    P("C04", "Line numbers are exact and change nothing else",
      "With line numbers requested, every reported declaration (nested resources included) carries the 1-based first and "
      "last source line of its own text, where decorators belong to the declaration and surrounding blank lines and comments do not, "
      "and the implicit target scope carries 0. "
      "Apart from these two keys the result equals the result without line numbers, which contains no line keys at all.",
      ["inputs", "configurations"],
      "all accepted files, both settings of the line number option",
      "Positions vary with every layout; a single fixture checks them.",
      [T, G, M],
      [("meta handling in the element callbacks", T), ("propagate_positions", M), ("newline placement in the rules", G)],
      OUT),
    P("C05", "Operators keep their kind, operands and explicit grouping",
      "Every operator expression is reported with the operator that was written and with its operands in source order, each "
      "in its own slot: comparison, logical, numeric, ternary, unary, index, property, nested resource and resource function access. "
      "Parentheses decide the grouping and are not reported themselves; an unparenthesised chain is reported nested to the right without "
      "losing, swapping or merging an operand.",
      ["inputs"],
      "all expressions of any size over all operators, operands of every kind including null, 0, false and ''",
      "Expression trees are unbounded; the tests contain mostly single operators between two simple operands.",
      [T, G],
      [("operator callbacks", T), ("operator rules and conflict resolution", G)],
      OUT),
    P("C06", "Built-in function calls bind every argument to its parameter",
      "For every built-in function and every documented number of arguments, each argument of a call is reported under the "
      "documented parameter it is bound to, exactly once and unchanged, whatever its value (null, 0, false and '' included). "
      "Optional parameters that were not given are reported as null or are absent, never filled from another argument, and "
      "arguments of functions taking any number of them are numbered consecutively in source order.",
      ["inputs"],
      "all built-in functions, all documented argument counts (unbounded for the variadic ones), all argument values",
      "Each function is sampled with one or two argument lists; argument values and counts are unbounded.",
      [F, T],
      [("one handler per function and the FUNCTIONS table", F), ("function callback", T), ("function rule", G)],
      OUT),
    P("C07", "Unknown and namespace-qualified functions and decorators lose nothing",
      "A call to a function without dedicated support is reported under the name it was written with and all of its arguments "
      "numbered from arg_1 in source order, and a decorator without dedicated support under its name and with its argument if it has one. "
      "Qualifying a supported function with the namespace it belongs to (`sys.` or `az.`) or a supported decorator with `sys.` "
      "yields exactly the same report as the unqualified form.",
      ["inputs"],
      "all names, all argument lists of any length, every entry of the documented function and decorator sets",
      "Names and argument counts are unbounded, and only some qualified forms are tested.",
      [F, D, T],
      [("UNKNOWN_FUNCTION fallback, FUNCTIONS aliases", F), ("UNKNOWN_DECORATOR fallback, DECORATORS aliases", D),
       ("function and decorator callbacks", T), ("FUNCTION terminal, decorator rule", G)],
      OUT),
    P("C08", "Decorators keep their kind, argument and order",
      "Every decorator of a declaration is reported in source order with its documented kind and with its argument "
      "unchanged, whatever the argument's value; decorators without argument report none. "
      "The bounds of minValue and maxValue are reported as the integer written, negative literals included.",
      ["inputs"],
      "all decorator lists of any length on every kind of declaration, all argument values",
      "Lists of decorators are unbounded and argument values (falsy, negative, expressions) are hardly sampled.",
      [D, T, G],
      [("deco_* handlers and the DECORATORS table", D), ("decorator and decorators callbacks", T), ("decorator rules", G)],
      OUT),
    P("C09", "Literals and identifiers are reported faithfully",
      "A quoted string is reported as a plain string with exactly the characters between its quotes (escapes and "
      "interpolations verbatim), a multi-line string with exactly its content minus one leading line break, an integer, "
      "boolean or null literal as that value. "
      "An identifier used as a value is reported as a Bicep element with that name, so literals and identifiers with the same "
      "characters stay distinguishable, at every place where a value can be written.",
      ["inputs"],
      "all literal texts and identifiers in every value position",
      "The set of string contents is infinite: escapes, quotes, braces, interpolations and comment markers interact with the tokeniser.",
      [T, U, G, "pycep/models.py"],
      [("string, multi_line_string, int_type, true, false, null callbacks", T), ("transform_string_token, sanitize_multi_line_string_token", U),
       ("STRING, QUOTED_INTERPOLATION, MULTI_LINE_STRING terminals", G)],
      OUT),
    P("C10", "Arrays and objects keep every element",
      "An array is reported as a list of its elements' values in source order and an object as a mapping with one entry per "
      "property, keyed as written, holding the value of exactly that property. "
      "No element is dropped, duplicated, split, merged or moved, whatever their number, nesting, values, separators "
      "(newlines or commas) and interleaved comments.",
      ["inputs"],
      "all arrays and objects of any length and nesting",
      "Length and nesting are unbounded; the tests use short lists.",
      [T, G],
      [("array, object, pair, key callbacks", T), ("array, object, pair, key rules", G)],
      OUT),
    P("C11", "Module references are classified and decomposed without loss",
      "Every module path is classified by its form: registry reference (br:), registry alias (br/), template spec (ts:), template spec alias "
      "(ts/), otherwise local path. "
      "Its components (registry, alias, path and tag; subscription, resource group, name and version) "
      "are reported as written, so that the reference can be rebuilt from them; `full` holds the reference without its scheme prefix, "
      "and `public` is true exactly for the official public registry or its `public` alias.",
      ["inputs"],
      "all well-formed module references: names, paths and tags made of the characters allowed in them",
      "Seven sample references exist in the tests; the reference language is infinite and overlapping patterns decide it.",
      [T],
      [("module_path callback and the five reference patterns", T)],
      OUT),
    P("C12", "The target scope is always reported and validated",
      "The result always contains the target scope: the declared one if the file declares it, wherever in the file that is, "
      "otherwise `resourceGroup`. "
      "Declaring anything but resourceGroup, subscription, managementGroup or tenant is rejected with an error.",
      ["inputs"],
      "all files with and without a scope declaration at any position, all scope strings",
      "Invalid scopes are infinitely many and the position of the declaration is not sampled.",
      [T],
      [("scope callback, VALID_TARGET_SCOPES", T), ("default in start", T)],
      OUT),
    P("C13", "Parsing has a strict input contract and no memory",
      "Exactly one of text and file path must be given, anything else is a TypeError; a file gives the same result as its content given "
      "as text, and text with an unbalanced number of multi-line string delimiters is rejected with a ValueError (naming the file, if one was given). "
      "The result depends only on that text and the line number option: earlier, failed or interleaved parses of the same or other parser "
      "objects never influence it, and later parses never change results already returned.",
      ["inputs", "histories"],
      "all argument combinations, all sequences of parse calls (successful or failing) on one or several parser objects",
      "Histories of calls are unbounded; the tests use a fresh parser for every file.",
      [M, T, "pycep/validator.py"],
      [("BicepParser.parse, _create_tree", M), ("BicepValidator", "pycep/validator.py"), ("fresh converter per parse", M)],
      ["result and exceptions of BicepParser.parse"],
      [("imports", "imports collected while the tree is converted", T),
       ("child_resources", "nested resources collected while the tree is converted", T),
       ("FUNCTIONS, DECORATORS", "shared dispatch tables", F)]),
    P("C14", "Loops and conditions are reported completely",
      "Every loop is reported with its form (array, array with index, object items), its variable names and its source expression, with "
      "the filter condition exactly as written or null without one, and with its whole body; a conditional resource or module is reported "
      "with its condition and its whole body. "
      "This holds for every declaration kind that allows a loop or condition and for nested resources and properties.",
      ["inputs"],
      "all loop and condition forms in all positions, all source, condition and body expressions",
      "Forms, positions and expressions multiply; each is sampled once or twice.",
      [T, G],
      [("loop, loop_array, loop_array_index, loop_object, deploy_condition callbacks", T), ("loop and deploy_condition rules", G)],
      OUT),
    P("C15", "Data types keep their structure",
      "Every declared data type is reported with its structure: a simple type as its name, each array suffix as one array layer around the "
      "type before it, a union with its members in source order, in any nesting. "
      "A custom type that is a union of values is reported as these values joined with ' | ' in source order, any other custom type as its value.",
      ["inputs"],
      "all types: any number of array suffixes and union members, any nesting, in parameters, variables, outputs and functions",
      "Types are unbounded trees; the tests contain two suffixes and three members at most.",
      [T, G],
      [("data_type, base_type, union_type, array_suffix, type_value callbacks", T), ("data_type rules", G)],
      OUT),
    P("C16", "The result is plain JSON data",
      "For every accepted file the result consists only of dictionaries with string keys, lists, strings, integers, booleans and null, "
      "with no internal parser objects or internal marker keys anywhere, and converting it to JSON and back yields an equal value.",
      ["inputs"],
      "all accepted files",
      "A leak depends on the syntactic position of a construct; positions and constructs multiply without bound.",
      [T, U, F, D],
      [("every callback", T), ("token conversion", U)],
      OUT),
    P("C17", "Every syntactically accepted file converts",
      "A parse ends in a result or in a documented error about the text: a syntax error with its position, or an error for an invalid "
      "scope, module reference or unbalanced multi-line string. "
      "No syntactically valid file whose built-in functions and decorators get a documented number of arguments fails while its content "
      "is converted, whatever values appear in it.",
      ["inputs"],
      "all accepted files with documented argument counts",
      "Conversion failures need an unusual value at an unusual place; the tests only convert well-behaved files.",
      [T, F, D, G],
      [("every callback", T), ("every handler", F), ("every handler", D)],
      ["result and exceptions of BicepParser.parse"]),
    P("C18", "Lambdas and user-defined functions keep parameters and bodies",
      "A lambda expression is reported with all of its variable names, numbered in source order, and its body expression. "
      "A user-defined function is reported with every parameter name mapped to that parameter's type in source order, its return type and "
      "its body expression, for any number of parameters including none.",
      ["inputs"],
      "all lambdas and user-defined functions with any number of variables or parameters, all bodies",
      "The number of variables and parameters is unbounded; only one to three are sampled.",
      [T, G],
      [("lambda_expression, custom_func callbacks", T), ("lambda_expression, _func_statement rules", G)],
      OUT),
    P("C19", "Comments and blank lines do not change the result",
      "Adding, removing or changing line comments, block comments, preprocessor directive lines and blank lines at places where the syntax "
      "allows a line break or a space does not change the result (line numbers apart). "
      "Comment text is never reported, and text that looks like a comment inside a string is always reported.",
      ["inputs"],
      "all files, all comment texts (without multi-line string delimiters), all places between declarations, array items, object properties, "
      "call arguments and after decorators",
      "Placements and comment texts are unbounded and interact with the tokeniser.",
      [G],
      [("newline and comment tokens in the rules, ignored terminals", G)],
      OUT),
    P("C20", "Unparenthesised chains follow Bicep's operator precedence",
      "In an expression chain without parentheses of two operators, the reported nesting is the one Bicep's operator precedence and "
      "associativity define, for every pair of operators.",
      ["inputs"],
      "all ordered pairs of operators with any operands",
      "The tests contain no chain that mixes operators of different precedence.",
      [G],
      [("operator rules and conflict resolution", G)],
      OUT),
]

path = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
path.write_text("".join(json.dumps(p) + "\n" for p in PROPS))
print(len(PROPS), "properties")
