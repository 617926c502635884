From 51a35fcd28699933c8be7942bcae2fdfb8f40183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:27 +0000
Subject: [PATCH 01/33] fix: keep falsy arguments of accessor function calls

---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 17e24e8..ecf34d9 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -161,7 +161,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ["," value_brackets]+ ")"
+function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ("," value_brackets)* ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index b25e2d4..8718e5c 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -869,7 +869,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "operands": {
                 "operand_1": arg_1,
                 "func_name": str(func_name),
-                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x) if extra},
+                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x)},
             },
         }
 
-- 
2.43.0


From dc668a3dddc7810b08b2ddcab55c2e9c579f01d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:30 +0000
Subject: [PATCH 02/33] fix: bind resourceGroup arguments independent of their
 values

---
 pycep/rules/functions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index 1d8ee29..cbb3cf3 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -686,16 +686,13 @@ def resource_group(
 ) -> pycep_typing.ResourceGroup:
     args_len = len(args)
     if args_len == 2:
-        resource_group_name, subscription_id = args
+        # very strange parameter definition
+        subscription_id, resource_group_name = args
     elif args_len == 1:
         resource_group_name, subscription_id = args[0], None
     else:
         resource_group_name, subscription_id = None, None
 
-    if resource_group_name and subscription_id:
-        # very strange parameter definition
-        resource_group_name, subscription_id = subscription_id, resource_group_name
-
     result: pycep_typing.ResourceGroup = {
         "type": "resource_group",
         "parameters": {
-- 
2.43.0


From 323385a7f4eb9de6c6f222508925c02b0d618321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:18 +0000
Subject: [PATCH 03/33] fix: keep all resource names of resource ID functions

---
 pycep/rules/functions.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index cbb3cf3..ddf305d 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -428,6 +428,11 @@ def json_func(_func_name: str, args: tuple[pycep_typing.PossibleValue]) -> pycep
 ####################
 
 
+def _extra_resource_names(args: list[Token]) -> dict[str, Token]:
+    # the first 2 names are fixed parameters, deeper nested resource types need one more name per segment
+    return {f"resource_name_{idx}": resource_name for idx, resource_name in enumerate(args, start=3)}
+
+
 def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.ExtensionResourceId:
     args_len = len(args)
     if args_len == 3:
@@ -448,6 +453,7 @@ def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Ex
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **_extra_resource_names(args[4:]),
         },
     }
 
@@ -492,6 +498,7 @@ def management_group_resource_id(_func_name: str, args: list[Token]) -> pycep_ty
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **_extra_resource_names(args[3:]),
         },
     }
 
@@ -639,6 +646,7 @@ def subscription_resource_id(_func_name: str, args: list[Token]) -> pycep_typing
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **_extra_resource_names(args[4:]),
             "subscription_id": subscription_id,
         },
     }
@@ -661,6 +669,7 @@ def tenant_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Tenan
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **_extra_resource_names(args[3:]),
         },
     }
 
-- 
2.43.0


From 48cefff0b9d6e5279651d908668babd4081be2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:22 +0000
Subject: [PATCH 04/33] fix: accept the optional third argument of listKeys

---
 pycep/rules/functions.py | 10 +++++-----
 pycep/typing.py          |  1 +
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index ddf305d..b502678 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -460,14 +460,11 @@ def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Ex
 
 def list_func(
     _func_name: str,
-    args: tuple[
-        pycep_typing.PossibleValue,
-        pycep_typing.PossibleValue,
-    ],
+    args: tuple[pycep_typing.PossibleValue, ...],
 ) -> pycep_typing.ListFunc:
     # See https://learn.microsoft.com/en-us/azure/azure-resource-manager/bicep/bicep-functions-resource#list
     # With Bicep v0.4.X, you call list*() using accessor operator, ex: storageAccount.listKeys()
-    resource_identifier, api_version = args
+    resource_identifier, api_version, *function_values = args
 
     result: pycep_typing.ListFunc = {
         "type": "list_func",
@@ -478,6 +475,9 @@ def list_func(
         },
     }
 
+    if function_values:
+        result["parameters"]["function_values"] = function_values[0]
+
     return result
 
 
diff --git a/pycep/typing.py b/pycep/typing.py
index f0d5aba..fcb5c11 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -811,6 +811,7 @@ class _ListFuncParameters(TypedDict):
     func_name: PossibleValue
     resource_identifier: PossibleValue
     api_version: PossibleValue
+    function_values: NotRequired[PossibleNoneValue]
 
 
 class ListFunc(TypedDict):
-- 
2.43.0


From 8962d2d74e8e0ce156bcc7bd653adca61ab67057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:04 +0000
Subject: [PATCH 05/33] fix: keep the sign and kind of minValue and maxValue
 arguments

---
 pycep/rules/decorators.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index c8f60ac..26b6ec7 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -5,8 +5,6 @@ from typing import TYPE_CHECKING, Any
 if TYPE_CHECKING:
     from collections.abc import Callable
 
-    from lark import Token
-
     from pycep import typing as pycep_typing
 
 ####################
@@ -57,21 +55,26 @@ def deco_max_len(_deco_name: str, args: tuple[int]) -> pycep_typing.DecoratorMax
     }
 
 
-def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
-    arg = args[0]
-    if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
-        arg = operator["operands"]["integer_value"] * -1
+def _signed_int(arg: pycep_typing.PossibleValue) -> pycep_typing.PossibleValue:
+    """Folds the negation of an integer literal into the integer itself."""
+    match arg:
+        case {"operator": {"type": "minus", "operands": {"integer_value": int(value)}}} if not isinstance(value, bool):
+            return -value
+
+    return arg
 
-    return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
+
+def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
+    return {
         "type": "min_value",
-        "argument": arg,  # ty: ignore[invalid-argument-type]
+        "argument": _signed_int(args[0]),  # ty: ignore[invalid-argument-type] # there is no real issue if this is a dict
     }
 
 
-def deco_max_val(_deco_name: str, args: tuple[Token]) -> pycep_typing.DecoratorMaxValue:
+def deco_max_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMaxValue:
     return {
         "type": "max_value",
-        "argument": int(args[0]),
+        "argument": _signed_int(args[0]),  # ty: ignore[invalid-argument-type] # there is no real issue if this is a dict
     }
 
 
-- 
2.43.0


From f483265950bbc95394e8e4d53c127209831257a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:32 +0000
Subject: [PATCH 06/33] fix: lift child resources out of conditional and looped
 parents

---
 pycep/transformer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8718e5c..4a361dc 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -947,6 +947,10 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         Beware that this method is not idempotent, it modifies the passed in `config`.
         """
+        # conditions and loops wrap the actual resource body
+        while "__child_resource__" not in config and "condition" in config and isinstance(config.get("config"), dict):
+            config = config["config"]
+
         if "__child_resource__" in config:
             child_resource = config.pop("__child_resource__")
 
-- 
2.43.0


From 700c95f51c400174e08907a7b05efdf6920531d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:03 +0000
Subject: [PATCH 07/33] fix: do not fail on loop bodies preceded by an
 arbitrary object

---
 pycep/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 4a361dc..9b6beb1 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -536,8 +536,9 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     def loop(self, args: tuple[pycep_typing.LoopType, str | None, dict[str, Any]]) -> pycep_typing.Loop:
         loop_type, condition, config = args
 
-        if isinstance(condition, dict) and (func := condition.get("function", {})).get("type") == "if":
-            condition = func["parameters"]["arg_1"]
+        match condition:
+            case {"function": {"type": "if", "parameters": {"arg_1": if_condition}}}:
+                condition = if_condition
 
         return {
             "loop_type": loop_type,
-- 
2.43.0


From 5694035941a80d4eb5e18a1d573341fabd985ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:06 +0000
Subject: [PATCH 08/33] fix: keep the source expression of object loops
 unchanged

---
 pycep/transformer.py | 4 ++--
 pycep/typing.py      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 9b6beb1..e7218aa 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -567,13 +567,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             },
         }
 
-    def loop_object(self, args: tuple[Token, Token]) -> pycep_typing.LoopObject:
+    def loop_object(self, args: tuple[Token, pycep_typing.PossibleValue]) -> pycep_typing.LoopObject:
         item_name, obj_name = args
         return {
             "type": "object",
             "detail": {
                 "item_name": str(item_name),
-                "object_name": str(obj_name),
+                "object_name": obj_name,
             },
         }
 
diff --git a/pycep/typing.py b/pycep/typing.py
index fcb5c11..cd867d3 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -368,7 +368,7 @@ class LoopArrayIndex(TypedDict):
 
 class _LoopObjectDetail(TypedDict):
     item_name: str
-    object_name: str
+    object_name: PossibleValue
 
 
 class LoopObject(TypedDict):
-- 
2.43.0


From 568a8be1451f67bb923fb787580d1188de01de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:10 +0000
Subject: [PATCH 09/33] fix: add line numbers to imports without a file
 reference

---
 pycep/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index e7218aa..bf126be 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -106,6 +106,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
                 "__name__": transform_string_token(args[0]),
                 "__attrs__": {},
             }
+
+            if self.add_line_numbers:
+                result["__attrs__"]["__start_line__"] = meta.line
+                result["__attrs__"]["__end_line__"] = meta.end_line
+
             self.imports.append(
                 {
                     "imports": result,
-- 
2.43.0


From 01fdb309849eeb97b5e4de30eff79b7c62c2b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:14 +0000
Subject: [PATCH 10/33] fix: keep the empty configuration of an extension

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index bf126be..a8d2379 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -155,7 +155,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
         }
 
-        if config:
+        if config is not None:
             result["extensions"]["__attrs__"]["config"] = config
 
         if alias:
-- 
2.43.0


From 258fd24217873a4d7962ac14fee946769f3cdcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:18 +0000
Subject: [PATCH 11/33] fix: accept an empty text

---
 pycep/main.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index ee35d08..28f1bd4 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -33,18 +33,18 @@ class BicepParser:
         return tree.pretty()
 
     def _create_tree(self, text: str | None, file_path: Path | None) -> Tree[Token]:
-        if text and file_path:
+        if text is not None and file_path is not None:
             raise TypeError("Either 'text' or 'file_path' can be set")
 
-        if text:
+        if text is not None:
             bicep_text = text
-        elif file_path:
+        elif file_path is not None:
             bicep_text = file_path.read_text()
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
         if not BicepValidator.is_valid(bicep_text):
-            if file_path:
+            if file_path is not None:
                 raise ValueError(f"{file_path} file content is invalid")
 
             raise ValueError("Text is invalid")
-- 
2.43.0


From d0afbe38a826d82bb678aad1e6f51b6e2b31911d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 12/33] fix: read the Bicep file and grammar as UTF-8

---
 pycep/main.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index 28f1bd4..8acec22 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -14,7 +14,7 @@ if TYPE_CHECKING:
     from pycep import typing as pycep_typing
 
 
-LARK_GRAMMAR = (files(__package__) / "bicep.lark").read_text()  # ty: ignore[invalid-argument-type] # can't be `None` here
+LARK_GRAMMAR = (files(__package__) / "bicep.lark").read_text(encoding="utf-8")  # ty: ignore[invalid-argument-type] # can't be `None` here
 
 
 class BicepParser:
@@ -39,7 +39,7 @@ class BicepParser:
         if text is not None:
             bicep_text = text
         elif file_path is not None:
-            bicep_text = file_path.read_text()
+            bicep_text = file_path.read_text(encoding="utf-8")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-- 
2.43.0


From 8d07b912b012e278b4a931460e5a290d9fe7ba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:40 +0000
Subject: [PATCH 13/33] fix: remove a leading CRLF line break of multi-line
 strings

---
 pycep/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/utils.py b/pycep/utils.py
index c1f2548..c33c1c8 100644
--- a/pycep/utils.py
+++ b/pycep/utils.py
@@ -24,4 +24,5 @@ def transform_string_token(value: Token) -> str | BicepElement:
 
 def sanitize_multi_line_string_token(value: Token) -> str:
     """Sanitizes multi-line string typed Token."""
-    return str(value)[3:-3].removeprefix("\n")
+    content = str(value)[3:-3]
+    return content.removeprefix("\r\n" if content.startswith("\r\n") else "\n")
-- 
2.43.0


From b61b05009a946c47b4b02832ebea0ad97e65da58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 14/33] fix: reject module references with trailing text

---
 pycep/transformer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index a8d2379..59f1f9b 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -430,13 +430,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if file_path.startswith("br:"):
             # check if it's referencing the official public registry
-            m = re.match(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
+            m = re.fullmatch(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
             if m:
                 is_public = True
                 registry_name = "mcr.microsoft.com"
             else:
                 # check if it's referencing a privvte registry
-                m = re.match(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
+                m = re.fullmatch(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
                 if m:
                     is_public = False
                     registry_name = m.group("registry_name")
@@ -455,7 +455,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_result
         elif file_path.startswith("br/"):
-            m = re.match(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Bicep registry alias is invalid: {file_path}")
 
@@ -478,7 +478,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_alias_result
         elif file_path.startswith("ts:"):
-            m = re.match(TEMPLATE_SPEC_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec path is invalid: {file_path}")
 
@@ -494,7 +494,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return ts_result
         elif file_path.startswith("ts/"):
-            m = re.match(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec alias is invalid: {file_path}")
 
-- 
2.43.0


From 2a80032a43345d5d12bcf6061658e7e6fc63d50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:58 +0000
Subject: [PATCH 15/33] fix: accept dashes in module aliases and dots in module
 paths

---
 pycep/transformer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 59f1f9b..8b76dfe 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -16,12 +16,12 @@ if TYPE_CHECKING:
     from lark.tree import Meta
 
 
-BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
-PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
+PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 PRIVATE_BICEP_REGISTRY_PATTERN = re.compile(
     r"br:(?P<registry_name>\w+)\.azurecr\.io/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)"
 )
-TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w]+):(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 TEMPLATE_SPEC_PATTERN = re.compile(
     r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
 )
-- 
2.43.0


From a0e5dd94f86a0034fde3707d51fb762c3f950127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:14 +0000
Subject: [PATCH 16/33] fix: accept calls of functions with an underscore in
 their name

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ecf34d9..3bbc000 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -97,7 +97,7 @@ decorators: decorator+
 
 // functions
 
-FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9]+/ "("
+FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
 function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
 
 // operators
-- 
2.43.0


From 976ded6e66be8326c6c09082dc849db62274ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:34 +0000
Subject: [PATCH 17/33] fix: avoid exponential backtracking on unterminated
 multi-line strings

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 3bbc000..9f196f2 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -178,7 +178,7 @@ INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(
 QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
-MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
+MULTI_LINE_STRING: /'''.*?'''/s
 
 _NEWLINE: NEWLINE
 _CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
-- 
2.43.0


From a854660a714da3d272089fa41e5a1d5172186e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:58 +0000
Subject: [PATCH 18/33] fix: accept single-quoted strings in front of
 multi-line strings

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 9f196f2..793d534 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,7 +175,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
+QUOTED_INTERPOLATION: /(?!''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''.*?'''/s
-- 
2.43.0


From fca39d8f463e1ebec6772c456c68fcb22a7c05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:09 +0000
Subject: [PATCH 19/33] fix: scan escaped and interpolated strings completely
 and in linear time

Escaped backslashes ended a string too late, interpolations were only
recognized if the parser state allowed their content and unterminated
ones caused exponential backtracking.
---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 793d534..ccf06c7 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,7 +175,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
+QUOTED_INTERPOLATION: /(?P<quoted>(?!''')'(?:\${(?P<expr>(?:[^{}']|(?s:'''.*?''')|(?&quoted)|{(?&expr)})*+)}|\\[\s\S]|\$(?!{)|[^'\\$])*+')/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''.*?'''/s
-- 
2.43.0


From 090a4bc25fb93c3356cf402c9ca827e14d4db97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:39 +0000
Subject: [PATCH 20/33] fix: end line of child resources independent of the
 following layout

---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ccf06c7..ef050dd 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -45,7 +45,7 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 ?module_value: object | loop | deploy_condition
 
-child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition) _CPP_COMMENT_NL+
+child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition)
 
 ?type_value: value_brackets ("|" value_brackets)*
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8b76dfe..8fb793f 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -310,8 +310,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if self.add_line_numbers:
             result["__attrs__"]["__start_line__"] = meta.line
-            # remove one line, because the new line is counted for child resources
-            result["__attrs__"]["__end_line__"] = meta.end_line - 1
+            result["__attrs__"]["__end_line__"] = meta.end_line
 
         return "__child_resource__", result
 
-- 
2.43.0


From b092e5875fd4f8ec17cce61af7f82d90a2f6556f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:11 +0000
Subject: [PATCH 21/33] fix: accept any number of comment lines after a
 decorator

---
 pycep/bicep.lark | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ef050dd..5d9812f 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -92,9 +92,12 @@ lambda_expression: (value_brackets | "(" value_brackets "," value_brackets (","
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
+decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _decorator_end?)
 decorators: decorator+
 
+// a dedicated rule, because sharing the states of a plain repetition breaks the keyword detection inside of objects
+_decorator_end: _decorator_end? _CPP_COMMENT_NL
+
 // functions
 
 FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
-- 
2.43.0


From a4ecc059101aa218de6e3020a328754502217a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:10 +0000
Subject: [PATCH 22/33] fix: accept a loop source named items

---
 pycep/bicep.lark | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 5d9812f..96c8d12 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -70,7 +70,7 @@ loop_array: STRING "in" value_brackets
 
 loop_array_index: "(" STRING "," STRING ")" "in" value_brackets
 
-loop_object: STRING "in" "items" "(" value_brackets ")"
+loop_object: STRING "in" _ITEMS value_brackets ")"
 
 // deploy condition
 
@@ -175,6 +175,9 @@ property_accessor: value_brackets "." "?"? value_brackets
 
 EXISTING: "existing"
 
+// includes the bracket to not reserve the name 'items'
+_ITEMS.1: /items[ \t]+\(/
+
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-- 
2.43.0


From 3ed2061847da1a3776d1ad768e40e182a5e2d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:34 +0000
Subject: [PATCH 23/33] fix: declare metadata in the published result type

---
 pycep/typing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/typing.py b/pycep/typing.py
index cd867d3..5830e3d 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -12,7 +12,7 @@ DataType: TypeAlias = "str | ArrayType | UnionType"
 ModulePath: TypeAlias = "LocalModulePath | BicepRegistryModulePath | BicepRegistryAliasModulePath | TemplateSpecModulePath | TemplateSpecAliasModulePath"
 ModuleDetail: TypeAlias = "_LocalModulePathDetail | _BicepRegistryModulePathDetail | _BicepRegistryAliasModulePathDetail | _TemplateSpecModulePathDetail | _TemplateSpecAliasModulePathDetail"
 LoopType: TypeAlias = "LoopArray | LoopArrayIndex | LoopObject | LoopRange"
-ElementResponse: TypeAlias = "ImportResponse | ParamResponse | VarResponse | ResourceResponse | ModuleResponse | OutputResponse | TypeResponse | ExtensionResponse | FunctionResponse"
+ElementResponse: TypeAlias = "ScopeResponse | MetadataResponse | ImportResponse | ParamResponse | VarResponse | ResourceResponse | ModuleResponse | OutputResponse | TypeResponse | ExtensionResponse | FunctionResponse"
 Decorator: TypeAlias = "DecoratorAllowed | DecoratorBatchSize | DecoratorDescription | DecoratorExport | DecoratorMinLength | DecoratorMaxLength | DecoratorMinValue | DecoratorMaxValue | DecoratorMetadata | DecoratorSealed | DecoratorSecure | UnknownDecorator"
 
 ComparisonOperators: TypeAlias = "GreaterThanOrEquals | GreaterThan | LessThanOrEquals | LessThan | Equals | NotEquals | EqualsCaseInsensitive | NotEqualsCaseInsensitive"
@@ -1384,6 +1384,7 @@ class BicepJson(TypedDict):
     globals: GlobalsAttributes
     imports: NotRequired[dict[str, ImportAttributes]]
     extensions: NotRequired[dict[str, ExtensionAttributes]]
+    metadata: NotRequired[dict[str, MetadataAttributes]]
     types: NotRequired[dict[str, VariableAttributes]]
     functions: NotRequired[dict[str, FunctionAttributes]]
     parameters: NotRequired[dict[str, ParameterAttributes]]
-- 
2.43.0


From 815c957a9c316fcfb397356fbaae6a95d455de7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:38 +0000
Subject: [PATCH 24/33] fix: accept lambdas with two parameters

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 96c8d12..78778ef 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -88,7 +88,7 @@ pair: key ":" (value_brackets | loop) "?"?
 
 !key: "resource" | quoted_string
 
-lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)+ ")") "=>" value_brackets
+lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")") "=>" value_brackets
 
 // decorators
 
-- 
2.43.0


From 5923f249e111b6af662489697d5551c7488cc745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 25/33] fix: accept nested parentheses around an expression

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 78778ef..3c43ca1 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -25,7 +25,7 @@ element: "targetScope" "=" QUOTED_INTERPOLATION
       | operator
       | lambda_expression
 
-?value_brackets: (value | "(" value ")") "!"?
+?value_brackets: (value | "(" value_brackets ")") "!"?
 
 // aliases
 
-- 
2.43.0


From d8493bb7363f403fdc1980e2dca2d4be0386558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:54 +0000
Subject: [PATCH 26/33] fix: a property named like the child resource marker is
 kept

---
 pycep/transformer.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8fb793f..1b57a86 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -26,6 +26,9 @@ TEMPLATE_SPEC_PATTERN = re.compile(
     r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
 )
 
+# neither an identifier nor a quoted string, therefore it can't clash with the key of a property
+CHILD_RESOURCE_KEY = "<child resource>"
+
 VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}
 
 
@@ -294,7 +297,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     @v_args(meta=True)
     def child_resource(
         self, meta: Meta, args: tuple[Token, Token, Token | None, dict[str, Any]]
-    ) -> tuple[Literal["__child_resource__"], pycep_typing.Resource]:
+    ) -> tuple[str, pycep_typing.Resource]:
         name, type_name, existing, config = args
 
         result: pycep_typing.Resource = {
@@ -312,7 +315,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             result["__attrs__"]["__start_line__"] = meta.line
             result["__attrs__"]["__end_line__"] = meta.end_line
 
-        return "__child_resource__", result
+        return CHILD_RESOURCE_KEY, result
 
     @v_args(meta=True)
     def module(
@@ -953,11 +956,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
         Beware that this method is not idempotent, it modifies the passed in `config`.
         """
         # conditions and loops wrap the actual resource body
-        while "__child_resource__" not in config and "condition" in config and isinstance(config.get("config"), dict):
+        while CHILD_RESOURCE_KEY not in config and "condition" in config and isinstance(config.get("config"), dict):
             config = config["config"]
 
-        if "__child_resource__" in config:
-            child_resource = config.pop("__child_resource__")
+        if CHILD_RESOURCE_KEY in config:
+            child_resource = config.pop(CHILD_RESOURCE_KEY)
 
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
-- 
2.43.0


From 740958675e0b61bef63f04a0737033bfcd5a1e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:56 +0000
Subject: [PATCH 27/33] fix: child resources with a dependency list given by an
 expression

---
 pycep/transformer.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 1b57a86..9ecbda1 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -973,9 +973,12 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
             child_resource["__attrs__"]["type"] = child_type_api_pair["type"]
             child_resource["__attrs__"]["api_version"] = child_type_api_pair["api_version"]
-            child_resource["__attrs__"]["config"].setdefault("depends_on", []).append(
-                BicepElement(parent_resource_name)
-            )
+            child_config = child_resource["__attrs__"]["config"]
+            depends_on = child_config.get("depends_on", [])
+            if not isinstance(depends_on, list):
+                # an expression, which references a list
+                depends_on = [depends_on]
+            child_config["depends_on"] = [*depends_on, BicepElement(parent_resource_name)]
 
             self.child_resources.append(
                 {
-- 
2.43.0


From b22b1d6f7544d3b870d6fe3df70db6815aead011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 28/33] fix: accept subscription IDs with letters in template
 spec references

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 9ecbda1..5d1a15b 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -23,7 +23,7 @@ PRIVATE_BICEP_REGISTRY_PATTERN = re.compile(
 )
 TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 TEMPLATE_SPEC_PATTERN = re.compile(
-    r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
+    r"ts:(?P<sub_id>[\da-fA-F\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
 )
 
 # neither an identifier nor a quoted string, therefore it can't clash with the key of a property
-- 
2.43.0


From 78b9ccf0dc084d9e8fbe3550ad3da1c3770137db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:33 +0000
Subject: [PATCH 29/33] fix: accept parentheses in the name of a template spec

---
 pycep/transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 5d1a15b..20c592d 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -23,7 +23,7 @@ PRIVATE_BICEP_REGISTRY_PATTERN = re.compile(
 )
 TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 TEMPLATE_SPEC_PATTERN = re.compile(
-    r"ts:(?P<sub_id>[\da-fA-F\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
+    r"ts:(?P<sub_id>[\da-fA-F\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-()]+):(?P<version>[\w.\-]+)"
 )
 
 # neither an identifier nor a quoted string, therefore it can't clash with the key of a property
-- 
2.43.0


From 6a7ba4363b3eec125ed739a27a564379168a34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 30/33] fix: declare the dependencies of nested loops and
 conditions in the result types

---
 pycep/typing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycep/typing.py b/pycep/typing.py
index 5830e3d..05467a6 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -380,6 +380,7 @@ class Loop(TypedDict):
     loop_type: LoopType
     condition: PossibleNoneValue
     config: dict[str, Any]
+    depends_on: NotRequired[PossibleValue]  # only on nested child resources
 
 
 ####################
@@ -392,6 +393,7 @@ class Loop(TypedDict):
 class DeployCondition(TypedDict):
     condition: PossibleValue
     config: dict[str, Any]
+    depends_on: NotRequired[PossibleValue]  # only on nested child resources
 
 
 ####################
-- 
2.43.0


From aac96326d2ea955a0cef9af43a325a28b5f2a849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:14 +0000
Subject: [PATCH 31/33] fix: functions with a single argument conform to the
 result types

---
 pycep/typing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/typing.py b/pycep/typing.py
index 05467a6..25e5148 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -616,7 +616,7 @@ class Take(TypedDict):
 
 class _UnionParameters(TypedDict):
     arg_1: str
-    arg_2: str
+    arg_2: NotRequired[str]
     arg_3: NotRequired[str]  # and many more possible
 
 
@@ -980,7 +980,7 @@ class EndsWith(TypedDict):
 
 class _FormatParameters(TypedDict):
     format_string: PossibleValue
-    arg_1: PossibleValue
+    arg_1: NotRequired[PossibleValue]
     arg_2: NotRequired[PossibleValue]  # and many more possible
 
 
-- 
2.43.0


From 44eac1a1faccf5e7b17432f33c9e8abda80fd8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:32 +0000
Subject: [PATCH 32/33] fix: accept an identifier named resource on any line of
 an array

---
 pycep/bicep.lark | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 3c43ca1..73165fb 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -80,7 +80,10 @@ deploy_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" value_brackets
 
 ?quoted_string: STRING | QUOTED_STRING | QUOTED_INTERPOLATION
 
-array: "[" _CPP_COMMENT_NL* (value_brackets ("," value_brackets)* _CPP_COMMENT_NL*)* "]"
+array: "[" _array_lines? (value_brackets ("," value_brackets)* _array_lines?)* "]"
+
+// a dedicated rule, because sharing the states of a plain repetition with objects breaks the keyword detection in arrays
+_array_lines: _array_lines? _CPP_COMMENT_NL
 
 object: "{" _CPP_COMMENT_NL* ((pair ("," pair)* | child_resource) _CPP_COMMENT_NL*)* "}"
 
-- 
2.43.0


From d344d08583a7fc8be88aaf4299065177ce7c00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:14 +0000
Subject: [PATCH 33/33] fix: a line break in front of a resource function does
 not change its meaning

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 73165fb..321b1ce 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -167,7 +167,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ("," value_brackets)* ")"
+function_accessor: value_brackets "." _NEWLINE? LIST_FUNC_NAME "(" value_brackets? ("," value_brackets)* ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
-- 
2.43.0

