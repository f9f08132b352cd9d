From fb71e6d10ace6bd01b5a8d03c2e7a881532d9b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 01/25] fix: handle negative and non-literal values in minValue
 and maxValue decorators

---
 pycep/rules/decorators.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index c8f60ac..34fbf35 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -5,8 +5,6 @@ from typing import TYPE_CHECKING, Any
 if TYPE_CHECKING:
     from collections.abc import Callable
 
-    from lark import Token
-
     from pycep import typing as pycep_typing
 
 ####################
@@ -58,23 +56,29 @@ def deco_max_len(_deco_name: str, args: tuple[int]) -> pycep_typing.DecoratorMax
 
 
 def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
-    arg = args[0]
-    if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
-        arg = operator["operands"]["integer_value"] * -1
-
     return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "min_value",
-        "argument": arg,  # ty: ignore[invalid-argument-type]
+        "argument": _resolve_negative_int(args[0]),
     }
 
 
-def deco_max_val(_deco_name: str, args: tuple[Token]) -> pycep_typing.DecoratorMaxValue:
-    return {
+def deco_max_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMaxValue:
+    return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "max_value",
-        "argument": int(args[0]),
+        "argument": _resolve_negative_int(args[0]),
     }
 
 
+def _resolve_negative_int(arg: int | dict[str, Any]) -> int | dict[str, Any]:
+    """Converts the unary minus expression of an integer literal to the negative integer, ex. `-5`."""
+    if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
+        value = operator["operands"]["integer_value"]
+        if isinstance(value, int) and not isinstance(value, bool):
+            return value * -1
+
+    return arg
+
+
 def deco_metadata(_deco_name: str, args: tuple[dict[str, Any]]) -> pycep_typing.DecoratorMetadata:
     return {
         "type": "metadata",
-- 
2.43.0


From 95bd263794d0061b115a2c1e9573444cac5e320b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:40 +0000
Subject: [PATCH 02/25] fix: keep falsy arguments of function accessors

---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 17e24e8..ecf34d9 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -161,7 +161,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ["," value_brackets]+ ")"
+function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ("," value_brackets)* ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index b25e2d4..8718e5c 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -869,7 +869,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "operands": {
                 "operand_1": arg_1,
                 "func_name": str(func_name),
-                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x) if extra},
+                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x)},
             },
         }
 
-- 
2.43.0


From 23ac238dceeee5bbd071047185f8b5bad1e7db7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:43 +0000
Subject: [PATCH 03/25] fix: bind both arguments of resourceGroup regardless of
 their value

---
 pycep/rules/functions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index 1d8ee29..cbb3cf3 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -686,16 +686,13 @@ def resource_group(
 ) -> pycep_typing.ResourceGroup:
     args_len = len(args)
     if args_len == 2:
-        resource_group_name, subscription_id = args
+        # very strange parameter definition
+        subscription_id, resource_group_name = args
     elif args_len == 1:
         resource_group_name, subscription_id = args[0], None
     else:
         resource_group_name, subscription_id = None, None
 
-    if resource_group_name and subscription_id:
-        # very strange parameter definition
-        resource_group_name, subscription_id = subscription_id, resource_group_name
-
     result: pycep_typing.ResourceGroup = {
         "type": "resource_group",
         "parameters": {
-- 
2.43.0


From ca32385cab400fbcd336b0930233c78da02c1bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:15 +0000
Subject: [PATCH 04/25] fix: keep every resource name of the resource ID
 functions

---
 pycep/rules/functions.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index cbb3cf3..71ac136 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -441,13 +441,14 @@ def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Ex
         resource_name_1 = args[2]
         resource_name_2 = args[3]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "extension_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_id": resource_id,
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[4:], start=3)},
         },
     }
 
@@ -486,12 +487,13 @@ def management_group_resource_id(_func_name: str, args: list[Token]) -> pycep_ty
         resource_name_1 = args[1]
         resource_name_2 = args[2]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "management_group_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[3:], start=3)},
         },
     }
 
@@ -633,12 +635,13 @@ def subscription_resource_id(_func_name: str, args: list[Token]) -> pycep_typing
         resource_name_1 = args[2]
         resource_name_2 = args[3]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "subscription_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[4:], start=3)},
             "subscription_id": subscription_id,
         },
     }
@@ -655,12 +658,13 @@ def tenant_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Tenan
         resource_name_1 = args[1]
         resource_name_2 = args[2]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "tenant_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args[3:], start=3)},
         },
     }
 
-- 
2.43.0


From 2742f99aae2f34f5c9c7af9afebebb483d298efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:20 +0000
Subject: [PATCH 05/25] fix: accept the function values argument of listKeys

---
 pycep/rules/functions.py | 5 ++++-
 pycep/typing.py          | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index 71ac136..1e85f2c 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -462,7 +462,7 @@ def list_func(
 ) -> pycep_typing.ListFunc:
     # See https://learn.microsoft.com/en-us/azure/azure-resource-manager/bicep/bicep-functions-resource#list
     # With Bicep v0.4.X, you call list*() using accessor operator, ex: storageAccount.listKeys()
-    resource_identifier, api_version = args
+    resource_identifier, api_version, *function_values = args
 
     result: pycep_typing.ListFunc = {
         "type": "list_func",
@@ -473,6 +473,9 @@ def list_func(
         },
     }
 
+    if function_values:
+        result["parameters"]["function_values"] = function_values[0]
+
     return result
 
 
diff --git a/pycep/typing.py b/pycep/typing.py
index f0d5aba..279f2d8 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -811,6 +811,7 @@ class _ListFuncParameters(TypedDict):
     func_name: PossibleValue
     resource_identifier: PossibleValue
     api_version: PossibleValue
+    function_values: NotRequired[PossibleValue]
 
 
 class ListFunc(TypedDict):
-- 
2.43.0


From 17bd2cbc3167cecd50355a3eea1fd3579f4807d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:25 +0000
Subject: [PATCH 06/25] fix: add line numbers to namespace imports

---
 pycep/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8718e5c..f1770d2 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -106,6 +106,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
                 "__name__": transform_string_token(args[0]),
                 "__attrs__": {},
             }
+
+            if self.add_line_numbers:
+                result["__attrs__"]["__start_line__"] = meta.line
+                result["__attrs__"]["__end_line__"] = meta.end_line
+
             self.imports.append(
                 {
                     "imports": result,
-- 
2.43.0


From cc5a13135e07ed23631cf35e3f466d0c29185215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:30 +0000
Subject: [PATCH 07/25] fix: accept an empty text as parser input

---
 pycep/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index ee35d08..28f1bd4 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -33,18 +33,18 @@ class BicepParser:
         return tree.pretty()
 
     def _create_tree(self, text: str | None, file_path: Path | None) -> Tree[Token]:
-        if text and file_path:
+        if text is not None and file_path is not None:
             raise TypeError("Either 'text' or 'file_path' can be set")
 
-        if text:
+        if text is not None:
             bicep_text = text
-        elif file_path:
+        elif file_path is not None:
             bicep_text = file_path.read_text()
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
         if not BicepValidator.is_valid(bicep_text):
-            if file_path:
+            if file_path is not None:
                 raise ValueError(f"{file_path} file content is invalid")
 
             raise ValueError("Text is invalid")
-- 
2.43.0


From 419e54d40cb5885a9299b7c7a68fe72dcfa96b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 08/25] fix: extract child resources of conditional and looped
 resources

---
 pycep/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index f1770d2..101fcf0 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -952,6 +952,10 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         Beware that this method is not idempotent, it modifies the passed in `config`.
         """
+        # the actual config of a loop or deploy condition is one level deeper
+        while "__child_resource__" not in config and "condition" in config and isinstance(config.get("config"), dict):
+            config = config["config"]
+
         if "__child_resource__" in config:
             child_resource = config.pop("__child_resource__")
 
-- 
2.43.0


From a7feedf9307ebc3cafc865c93170a3b4cc2cd3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:40 +0000
Subject: [PATCH 09/25] fix: report the end line of child resources independent
 of trailing newlines

---
 pycep/bicep.lark     | 4 ++--
 pycep/transformer.py | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ecf34d9..51bbf5e 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -45,7 +45,7 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 ?module_value: object | loop | deploy_condition
 
-child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition) _CPP_COMMENT_NL+
+child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition)
 
 ?type_value: value_brackets ("|" value_brackets)*
 
@@ -82,7 +82,7 @@ deploy_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" value_brackets
 
 array: "[" _CPP_COMMENT_NL* (value_brackets ("," value_brackets)* _CPP_COMMENT_NL*)* "]"
 
-object: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource) _CPP_COMMENT_NL*)* "}"
+object: "{" _CPP_COMMENT_NL* (pair ("," pair)* _CPP_COMMENT_NL* | child_resource _CPP_COMMENT_NL+)* "}"
 
 pair: key ":" (value_brackets | loop) "?"?
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 101fcf0..853e00b 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -310,8 +310,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if self.add_line_numbers:
             result["__attrs__"]["__start_line__"] = meta.line
-            # remove one line, because the new line is counted for child resources
-            result["__attrs__"]["__end_line__"] = meta.end_line - 1
+            result["__attrs__"]["__end_line__"] = meta.end_line
 
         return "__child_resource__", result
 
-- 
2.43.0


From 692a1c3c52d08e1fbb5421c8553d4d2851b9bb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 10/25] fix: parse lambda expressions with two variables

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 51bbf5e..8729168 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -88,7 +88,7 @@ pair: key ":" (value_brackets | loop) "?"?
 
 !key: "resource" | quoted_string
 
-lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)+ ")") "=>" value_brackets
+lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")") "=>" value_brackets
 
 // decorators
 
-- 
2.43.0


From eca59080c1c38fb41fdd521a9636c699681452cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:26 +0000
Subject: [PATCH 11/25] fix: accept a trailing comment without newline at the
 end of the file

---
 pycep/bicep.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 8729168..369cbb2 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -1,4 +1,4 @@
-start: ((element _CPP_COMMENT_NL?) | _CPP_COMMENT_NL)*
+start: ((element _CPP_COMMENT_NL?) | _CPP_COMMENT_NL)* _CPP_COMMENT?
 
 element: "targetScope" "=" QUOTED_INTERPOLATION                                         -> scope
        | "import" _import_statement                                                     -> custom_import
@@ -181,6 +181,7 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
 
 _NEWLINE: NEWLINE
+_CPP_COMMENT: CPP_COMMENT
 _CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
 
 %import common.C_COMMENT
-- 
2.43.0


From abd1c59da8d94e48b64cc16b27ff0c86077432b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 12/25] fix: recognise escaped backslashes at the end of a
 string

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 369cbb2..0dc56d4 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,7 +175,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
+QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\[\s\S]|[^'\\])*'/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
-- 
2.43.0


From bbdaf89e705301431062a3cdeb9fc64248da18bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:16 +0000
Subject: [PATCH 13/25] fix: parse interpolated strings with nested strings
 independent of the parser context

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 0dc56d4..13997e0 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,7 +175,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\[\s\S]|[^'\\])*'/
+QUOTED_INTERPOLATION: /(?!.*''')(?P<_quoted>'(?:\$(?P<_braces>\{(?:[^}'{]+|(?&_quoted)|(?&_braces))*+\})|\\[\s\S]|[^'\\])*')/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
-- 
2.43.0


From 95443c7bcc152aa3662ef54bf89099079f54cf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:31 +0000
Subject: [PATCH 14/25] fix: parse quoted strings followed by a multi-line
 string on the same line

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 13997e0..0ed29c9 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,7 +175,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')(?P<_quoted>'(?:\$(?P<_braces>\{(?:[^}'{]+|(?&_quoted)|(?&_braces))*+\})|\\[\s\S]|[^'\\])*')/
+QUOTED_INTERPOLATION: /(?!''')(?P<_quoted>'(?:\$(?P<_braces>\{(?:[^}'{]+|(?&_quoted)|(?&_braces))*+\})|\\[\s\S]|[^'\\])*')/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
-- 
2.43.0


From 011f8373148fbc1f3c2067e4b420308f5968178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 15/25] fix: parse loop conditions with a space after 'if'

---
 pycep/bicep.lark | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 0ed29c9..642d42e 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,7 +64,10 @@ import_alias: (STRING | /\*/) ["as" STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets | _loop_condition] value_brackets _CPP_COMMENT_NL? "]"
+
+// without a space after 'if' it is parsed as a function
+_loop_condition: "if" "(" value_brackets ")"
 
 loop_array: STRING "in" value_brackets
 
-- 
2.43.0


From 760b101e2723bfc0d40d4f3d8d19b5e3e29401f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 16/25] fix: parse function names with underscores

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 642d42e..f2f578b 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -100,7 +100,7 @@ decorators: decorator+
 
 // functions
 
-FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9]+/ "("
+FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
 function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
 
 // operators
-- 
2.43.0


From 02db2495c7eedbc0a845d3efc1f5a8b2425b3b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 17/25] fix: parse nested parentheses

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index f2f578b..95bde3f 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -25,7 +25,7 @@ element: "targetScope" "=" QUOTED_INTERPOLATION
       | operator
       | lambda_expression
 
-?value_brackets: (value | "(" value ")") "!"?
+?value_brackets: (value | "(" value_brackets ")") "!"?
 
 // aliases
 
-- 
2.43.0


From c0663c63c30407f251dd44f08877037b3d25f76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:59 +0000
Subject: [PATCH 18/25] fix: keep an empty extension config

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 853e00b..3376113 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -155,7 +155,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
         }
 
-        if config:
+        if config is not None:
             result["extensions"]["__attrs__"]["config"] = config
 
         if alias:
-- 
2.43.0


From d190b977e50efd93d55005190536b0325209b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 19/25] fix: remove a leading CRLF of multi-line strings

---
 pycep/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/utils.py b/pycep/utils.py
index c1f2548..8c695f3 100644
--- a/pycep/utils.py
+++ b/pycep/utils.py
@@ -24,4 +24,5 @@ def transform_string_token(value: Token) -> str | BicepElement:
 
 def sanitize_multi_line_string_token(value: Token) -> str:
     """Sanitizes multi-line string typed Token."""
-    return str(value)[3:-3].removeprefix("\n")
+    content = str(value)[3:-3]
+    return content.removeprefix("\r\n" if content.startswith("\r") else "\n")
-- 
2.43.0


From cf3cb162fd80bc1996f30bdaacbe80ee8f6e3166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:37 +0000
Subject: [PATCH 20/25] fix: keep expressions as loop object source

---
 pycep/transformer.py | 4 ++--
 pycep/typing.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 3376113..70d06bf 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -570,13 +570,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             },
         }
 
-    def loop_object(self, args: tuple[Token, Token]) -> pycep_typing.LoopObject:
+    def loop_object(self, args: tuple[Token, pycep_typing.PossibleValue]) -> pycep_typing.LoopObject:
         item_name, obj_name = args
         return {
             "type": "object",
             "detail": {
                 "item_name": str(item_name),
-                "object_name": str(obj_name),
+                "object_name": obj_name,
             },
         }
 
diff --git a/pycep/typing.py b/pycep/typing.py
index 279f2d8..223fc46 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -368,7 +368,7 @@ class LoopArrayIndex(TypedDict):
 
 class _LoopObjectDetail(TypedDict):
     item_name: str
-    object_name: str
+    object_name: PossibleValue
 
 
 class LoopObject(TypedDict):
-- 
2.43.0


From 8ba3d27f7a5c19b7497e18f57e3f04164d3386f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:02 +0000
Subject: [PATCH 21/25] fix: accept any number of comment lines after a
 decorator

---
 pycep/bicep.lark | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 95bde3f..8c87b4a 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -95,9 +95,12 @@ lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
+decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _decorator_breaks?)
 decorators: decorator+
 
+// not '_CPP_COMMENT_NL*', because the contextual lexer would then expect the start of an element inside arrays and objects, too
+_decorator_breaks: _CPP_COMMENT_NL | _decorator_breaks _CPP_COMMENT_NL
+
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
-- 
2.43.0


From 53035e62f8336fcaeb66351b1aeea24783a490a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:28 +0000
Subject: [PATCH 22/25] fix: an 'if' loop condition is recognised by its
 syntax, not by the shape of its value

'[for x in y: if ({function: 5}) {}]' crashed, because the condition was taken for the result of
a function named 'if'. Give 'if(' its own terminal in loops, so that no unwrapping is needed.
---
 pycep/bicep.lark     | 8 +++++---
 pycep/transformer.py | 3 ---
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 8c87b4a..a1a0ca2 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,10 +64,12 @@ import_alias: (STRING | /\*/) ["as" STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets | _loop_condition] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [loop_condition] value_brackets _CPP_COMMENT_NL? "]"
 
-// without a space after 'if' it is parsed as a function
-_loop_condition: "if" "(" value_brackets ")"
+?loop_condition: ("if" "(" | _IF_BRACKET) value_brackets ")"
+
+// without a space after 'if' it would otherwise be parsed as a function
+_IF_BRACKET.2: "if("
 
 loop_array: STRING "in" value_brackets
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 70d06bf..d3f7da8 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -540,9 +540,6 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     def loop(self, args: tuple[pycep_typing.LoopType, str | None, dict[str, Any]]) -> pycep_typing.Loop:
         loop_type, condition, config = args
 
-        if isinstance(condition, dict) and (func := condition.get("function", {})).get("type") == "if":
-            condition = func["parameters"]["arg_1"]
-
         return {
             "loop_type": loop_type,
             "condition": condition,
-- 
2.43.0


From e25cb42ca892686be9e3ee45f601720e4bbe4111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:06 +0000
Subject: [PATCH 23/25] fix: a property named '__child_resource__' is not taken
 for a nested resource

Use a marker that can't be the name of a property.
---
 pycep/transformer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index d3f7da8..89411a2 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -26,6 +26,9 @@ TEMPLATE_SPEC_PATTERN = re.compile(
     r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
 )
 
+# can't be confused with the name of a user defined property
+CHILD_RESOURCE_KEY = "<child_resource>"
+
 VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}
 
 
@@ -294,7 +297,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     @v_args(meta=True)
     def child_resource(
         self, meta: Meta, args: tuple[Token, Token, Token | None, dict[str, Any]]
-    ) -> tuple[Literal["__child_resource__"], pycep_typing.Resource]:
+    ) -> tuple[str, pycep_typing.Resource]:
         name, type_name, existing, config = args
 
         result: pycep_typing.Resource = {
@@ -312,7 +315,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             result["__attrs__"]["__start_line__"] = meta.line
             result["__attrs__"]["__end_line__"] = meta.end_line
 
-        return "__child_resource__", result
+        return CHILD_RESOURCE_KEY, result
 
     @v_args(meta=True)
     def module(
@@ -949,11 +952,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
         Beware that this method is not idempotent, it modifies the passed in `config`.
         """
         # the actual config of a loop or deploy condition is one level deeper
-        while "__child_resource__" not in config and "condition" in config and isinstance(config.get("config"), dict):
+        while CHILD_RESOURCE_KEY not in config and "condition" in config and isinstance(config.get("config"), dict):
             config = config["config"]
 
-        if "__child_resource__" in config:
-            child_resource = config.pop("__child_resource__")
+        if CHILD_RESOURCE_KEY in config:
+            child_resource = config.pop(CHILD_RESOURCE_KEY)
 
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
-- 
2.43.0


From aaf5277960c45de505ffc34318179353496f8a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:23 +0000
Subject: [PATCH 24/25] fix: a property or function whose name starts with
 'list' is not cut off before '[(' or '_('

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index a1a0ca2..4acf94d 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -184,7 +184,7 @@ STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 QUOTED_INTERPOLATION: /(?!''')(?P<_quoted>'(?:\$(?P<_braces>\{(?:[^}'{]+|(?&_quoted)|(?&_braces))*+\})|\\[\s\S]|[^'\\])*')/
-LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
+LIST_FUNC_NAME.2: /(?=([Ll]ist[A-Za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
 
-- 
2.43.0


From f846312800ce09352081b1ee3703b1b30a801bd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:54 +0000
Subject: [PATCH 25/25] fix: a nested resource with a 'depends_on' value that
 is no list is reported

---
 pycep/transformer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 89411a2..556b647 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -969,9 +969,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
             child_resource["__attrs__"]["type"] = child_type_api_pair["type"]
             child_resource["__attrs__"]["api_version"] = child_type_api_pair["api_version"]
-            child_resource["__attrs__"]["config"].setdefault("depends_on", []).append(
-                BicepElement(parent_resource_name)
-            )
+            depends_on = child_resource["__attrs__"]["config"].setdefault("depends_on", [])
+            if not isinstance(depends_on, list):
+                # a single value or an expression stays the first entry
+                depends_on = child_resource["__attrs__"]["config"]["depends_on"] = [depends_on]
+            depends_on.append(BicepElement(parent_resource_name))
 
             self.child_resources.append(
                 {
-- 
2.43.0

