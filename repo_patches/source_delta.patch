From 286da10cc4bd038fc72de8e0a4ca1fd6fce00a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:37 +0000
Subject: [PATCH 01/36] fix: end single-quoted strings at their own closing
 quote

Escaped backslashes before the closing quote swallowed the following text, a
multi-line string later on the same line made an ordinary string unreadable and
unclosed nested interpolations took exponential time.
---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 17e24e8..c7ef56b 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -175,7 +175,7 @@ EXISTING: "existing"
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?!.*''')'(\${(?:[^}'{]+|(?R))*+}|\\'|[^'])*'/
+QUOTED_INTERPOLATION: /(?P<_STR>'(?!'')(?:\\.|\${(?P<_EXPR>(?:[^{}']|{(?&_EXPR)}|(?&_STR))*+)}|[^'\\$]|\$(?!{))*+')/s
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
-- 
2.43.0


From bb5e68d23fd7e565457afd74c7789bdb6fb930cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:41 +0000
Subject: [PATCH 02/36] fix: match multi-line strings in linear time

The nested quantifiers took exponential time on an unterminated multi-line
string. Extra quotes before the closing ones belong to the content.
---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index c7ef56b..185eb29 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -178,7 +178,7 @@ INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(
 QUOTED_INTERPOLATION: /(?P<_STR>'(?!'')(?:\\.|\${(?P<_EXPR>(?:[^{}']|{(?&_EXPR)}|(?&_STR))*+)}|[^'\\$]|\$(?!{))*+')/s
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
 
-MULTI_LINE_STRING: "'''" (/.*?/ | NEWLINE)+ "'''"
+MULTI_LINE_STRING: /'''.*?'''(?!')/s
 
 _NEWLINE: NEWLINE
 _CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
-- 
2.43.0


From d44c0a0d7469fe4920de4b53386b93f14ca82d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:55 +0000
Subject: [PATCH 03/36] fix: drop a leading CRLF of multi-line strings

Only a leading LF was dropped, so the same file with Windows line endings gave
values starting with an extra line break.
---
 pycep/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/utils.py b/pycep/utils.py
index c1f2548..ec4a199 100644
--- a/pycep/utils.py
+++ b/pycep/utils.py
@@ -24,4 +24,5 @@ def transform_string_token(value: Token) -> str | BicepElement:
 
 def sanitize_multi_line_string_token(value: Token) -> str:
     """Sanitizes multi-line string typed Token."""
-    return str(value)[3:-3].removeprefix("\n")
+    content = str(value)[3:-3]
+    return content[2:] if content.startswith("\r\n") else content.removeprefix("\n")
-- 
2.43.0


From 0306e7cb94b30eae3f2075db4d3197078e74cec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:11 +0000
Subject: [PATCH 04/36] fix: accept an empty text as input

An empty string counted as not set, while an empty file was parsed.
---
 pycep/main.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index ee35d08..8feaca4 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -33,12 +33,12 @@ class BicepParser:
         return tree.pretty()
 
     def _create_tree(self, text: str | None, file_path: Path | None) -> Tree[Token]:
-        if text and file_path:
+        if text is not None and file_path is not None:
             raise TypeError("Either 'text' or 'file_path' can be set")
 
-        if text:
+        if text is not None:
             bicep_text = text
-        elif file_path:
+        elif file_path is not None:
             bicep_text = file_path.read_text()
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
-- 
2.43.0


From 699a6e200aeac819add0f86f6fd1b3bae909fbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:15 +0000
Subject: [PATCH 05/36] fix: read Bicep files as UTF-8

The encoding of the current locale was used, which garbled or rejected files,
and a byte order mark made a file unparseable.
---
 pycep/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/main.py b/pycep/main.py
index 8feaca4..aa844cf 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -39,7 +39,7 @@ class BicepParser:
         if text is not None:
             bicep_text = text
         elif file_path is not None:
-            bicep_text = file_path.read_text()
+            bicep_text = file_path.read_text(encoding="utf-8-sig")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-- 
2.43.0


From 6b881faae472af4457cecfababd1c045b426340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:30 +0000
Subject: [PATCH 06/36] fix: accept three quotes in a comment

The quotes were counted without regard to comments, so a well-formed file
mentioning them in a comment was reported as invalid.
---
 pycep/main.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pycep/main.py b/pycep/main.py
index aa844cf..0a0efa0 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from importlib.resources import files
 from typing import TYPE_CHECKING
 
-from lark import Lark, Token, Tree
+from lark import Lark, Token, Tree, UnexpectedInput
 
 from .transformer import BicepToJson
 from .validator import BicepValidator
@@ -43,10 +43,13 @@ class BicepParser:
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-        if not BicepValidator.is_valid(bicep_text):
-            if file_path:
-                raise ValueError(f"{file_path} file content is invalid")
+        try:
+            return self.lark_parser.parse(bicep_text)
+        except UnexpectedInput:
+            if BicepValidator.is_valid(bicep_text):
+                raise
 
-            raise ValueError("Text is invalid")
+        if file_path:
+            raise ValueError(f"{file_path} file content is invalid")
 
-        return self.lark_parser.parse(bicep_text)
+        raise ValueError("Text is invalid")
-- 
2.43.0


From 18ca0dad24ed810894c461330a79551529a92f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:44 +0000
Subject: [PATCH 07/36] fix: keep every argument of a resource function call

Arguments like 0, '', false and null were dropped from 'resource.listX()'.
---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 185eb29..7fd9d8d 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -161,7 +161,7 @@ substract.1: value_brackets "-" value_brackets
 
 index_accessor: value_brackets "[" "?"? value_brackets "]"
 
-function_accessor: value_brackets "." LIST_FUNC_NAME "(" value_brackets? ["," value_brackets]+ ")"
+function_accessor: value_brackets "." LIST_FUNC_NAME "(" (value_brackets ("," value_brackets)*)? ")"
 
 nested_resource_accessor: value_brackets "::" value_brackets
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index b25e2d4..8718e5c 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -869,7 +869,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "operands": {
                 "operand_1": arg_1,
                 "func_name": str(func_name),
-                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x) if extra},
+                **{f"operand_{idx + 2}": extra for idx, extra in enumerate(arg_x)},
             },
         }
 
-- 
2.43.0


From 1617aff747410f8e2203308fc5044aec6fabbe1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 08/36] fix: accept underscores in the name of a called
 function

A user-defined function with an underscore could be declared, but not called.
---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 7fd9d8d..0a12a2f 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -97,7 +97,7 @@ decorators: decorator+
 
 // functions
 
-FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9]+/ "("
+FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
 function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
 
 // operators
-- 
2.43.0


From f905e165a994f91201fe5041fb9218bc79d5767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:50 +0000
Subject: [PATCH 09/36] fix: accept whitespace between a function name and its
 parenthesis

This includes the condition of a loop, for which only 'if(' was recognised, and
'for(' is no longer taken for a function call.
---
 pycep/bicep.lark     | 4 ++--
 pycep/transformer.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 0a12a2f..69c17fe 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -97,7 +97,7 @@ decorators: decorator+
 
 // functions
 
-FUNCTION.1: /((sys|az)\.)?[a-zA-Z0-9_]+/ "("
+FUNCTION.1: /(?!for\b)((sys|az)\.)?[a-zA-Z0-9_]+[ \t]*/ "("
 function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
 
 // operators
@@ -176,7 +176,7 @@ STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 QUOTED_INTERPOLATION: /(?P<_STR>'(?!'')(?:\\.|\${(?P<_EXPR>(?:[^{}']|{(?&_EXPR)}|(?&_STR))*+)}|[^'\\$]|\$(?!{))*+')/s
-LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)\()([A-Za-z]+)/
+LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)[ \t]*\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''.*?'''(?!')/s
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 8718e5c..ff6bfff 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -613,7 +613,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
     def function(self, args: tuple[pycep_typing.PossibleValue, ...]) -> pycep_typing.Function:
         func_name, *params = args
-        func_name = str(func_name).removesuffix("(")
+        func_name = str(func_name).removesuffix("(").rstrip()
 
         func_def = FUNCTIONS.get(func_name, UNKNOWN_FUNCTION)
         func_data = func_def(func_name, params)
-- 
2.43.0


From 1e846438975591e59c77b03542d4d5ddc8ad860c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:55 +0000
Subject: [PATCH 10/36] fix: accept a collection named items in a loop

The dedicated rule reserved the name and was only reached by 'items (', which
turned the argument into its string representation.
---
 pycep/bicep.lark     |  4 +---
 pycep/transformer.py | 10 ----------
 2 files changed, 1 insertion(+), 13 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 69c17fe..2f9c330 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,14 +64,12 @@ import_alias: (STRING | /\*/) ["as" STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index | loop_object) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
 
 loop_array: STRING "in" value_brackets
 
 loop_array_index: "(" STRING "," STRING ")" "in" value_brackets
 
-loop_object: STRING "in" "items" "(" value_brackets ")"
-
 // deploy condition
 
 deploy_condition: _CPP_COMMENT_NL? "if" "(" value_brackets ")" value_brackets
diff --git a/pycep/transformer.py b/pycep/transformer.py
index ff6bfff..9891bef 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -566,16 +566,6 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             },
         }
 
-    def loop_object(self, args: tuple[Token, Token]) -> pycep_typing.LoopObject:
-        item_name, obj_name = args
-        return {
-            "type": "object",
-            "detail": {
-                "item_name": str(item_name),
-                "object_name": str(obj_name),
-            },
-        }
-
     ####################
     #
     # deploy condition
-- 
2.43.0


From 3fccd276b80818579aefbd68eee85db235f285ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:22 +0000
Subject: [PATCH 11/36] fix: accept every character allowed in a module
 reference

Subscription ids with hex letters, aliases with a hyphen, dots in a path of the
public registry and dots or parentheses in a template spec name were rejected.
---
 pycep/transformer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 9891bef..3f183f2 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -16,14 +16,14 @@ if TYPE_CHECKING:
     from lark.tree import Meta
 
 
-BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
-PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+BICEP_REGISTRY_ALIAS_PATTERN = re.compile(r"br/(?P<alias>[\w\-]+):(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
+PUBLIC_BICEP_REGISTRY_PATTERN = re.compile(r"br:mcr\.microsoft\.com/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)")
 PRIVATE_BICEP_REGISTRY_PATTERN = re.compile(
     r"br:(?P<registry_name>\w+)\.azurecr\.io/(?P<path>[\w/\-.]+):(?P<tag>[\w.\-]+)"
 )
-TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w]+):(?P<path>[\w/\-]+):(?P<tag>[\w.\-]+)")
+TEMPLATE_SPEC_ALIAS_PATTERN = re.compile(r"ts/(?P<alias>[\w\-]+):(?P<path>[\w/\-.()]+):(?P<tag>[\w.\-]+)")
 TEMPLATE_SPEC_PATTERN = re.compile(
-    r"ts:(?P<sub_id>[\d\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-]+):(?P<version>[\w.\-]+)"
+    r"ts:(?P<sub_id>[\da-fA-F\-]+)/(?P<rg_id>[\w._\-()]+)/(?P<name>[\w.\-()]+):(?P<version>[\w.\-]+)"
 )
 
 VALID_TARGET_SCOPES = {"resourceGroup", "subscription", "managementGroup", "tenant"}
-- 
2.43.0


From d22c095abc03361b4bb14346372100ca9b225197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 12/36] fix: match module references as a whole

Anything after the longest matching prefix was silently dropped from the tag.
---
 pycep/transformer.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 3f183f2..58a61e8 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -425,13 +425,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if file_path.startswith("br:"):
             # check if it's referencing the official public registry
-            m = re.match(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
+            m = re.fullmatch(PUBLIC_BICEP_REGISTRY_PATTERN, file_path)
             if m:
                 is_public = True
                 registry_name = "mcr.microsoft.com"
             else:
                 # check if it's referencing a privvte registry
-                m = re.match(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
+                m = re.fullmatch(PRIVATE_BICEP_REGISTRY_PATTERN, file_path)
                 if m:
                     is_public = False
                     registry_name = m.group("registry_name")
@@ -450,7 +450,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_result
         elif file_path.startswith("br/"):
-            m = re.match(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(BICEP_REGISTRY_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Bicep registry alias is invalid: {file_path}")
 
@@ -473,7 +473,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return br_alias_result
         elif file_path.startswith("ts:"):
-            m = re.match(TEMPLATE_SPEC_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec path is invalid: {file_path}")
 
@@ -489,7 +489,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             }
             return ts_result
         elif file_path.startswith("ts/"):
-            m = re.match(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
+            m = re.fullmatch(TEMPLATE_SPEC_ALIAS_PATTERN, file_path)
             if not m:  # pragma: no cover
                 raise ValueError(f"Template spec alias is invalid: {file_path}")
 
-- 
2.43.0


From 98b523c8923641b2e242259e4d108021381dba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:38 +0000
Subject: [PATCH 13/36] fix: add line numbers to namespace imports

---
 pycep/transformer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 58a61e8..85e196a 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -106,6 +106,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
                 "__name__": transform_string_token(args[0]),
                 "__attrs__": {},
             }
+
+            if self.add_line_numbers:
+                result["__attrs__"]["__start_line__"] = meta.line
+                result["__attrs__"]["__end_line__"] = meta.end_line
+
             self.imports.append(
                 {
                     "imports": result,
-- 
2.43.0


From b981d4d55646f7a5190de1f7160e6116680b8d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:58 +0000
Subject: [PATCH 14/36] fix: end a child resource at its closing bracket

Comments and blank lines following a child resource were counted as part of it,
which gave a wrong end line.
---
 pycep/bicep.lark     | 2 +-
 pycep/transformer.py | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 2f9c330..ff98953 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -45,7 +45,7 @@ _func_statement: STRING "(" (STRING data_type ("," STRING data_type)*)? ")" data
 
 ?module_value: object | loop | deploy_condition
 
-child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition) _CPP_COMMENT_NL+
+child_resource: "resource" STRING QUOTED_INTERPOLATION [EXISTING] "=" (object | loop | deploy_condition)
 
 ?type_value: value_brackets ("|" value_brackets)*
 
diff --git a/pycep/transformer.py b/pycep/transformer.py
index 85e196a..d5fdfd3 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -310,8 +310,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         if self.add_line_numbers:
             result["__attrs__"]["__start_line__"] = meta.line
-            # remove one line, because the new line is counted for child resources
-            result["__attrs__"]["__end_line__"] = meta.end_line - 1
+            result["__attrs__"]["__end_line__"] = meta.end_line
 
         return "__child_resource__", result
 
-- 
2.43.0


From d60dd0f3946347cef0e80be538270b333282d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:31 +0000
Subject: [PATCH 15/36] fix: list child resources of conditional and loop
 resources

They were left in the config of the parent under an internal key.
---
 pycep/transformer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index d5fdfd3..41aa91f 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -547,6 +547,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             "loop_type": loop_type,
             "condition": condition,
             "config": config,
+            **self.extract_child_resource(config),
         }
 
     def loop_array(self, args: tuple[Token, pycep_typing.PossibleValue]) -> pycep_typing.LoopArray:
@@ -581,6 +582,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
         return {
             "condition": condition,
             "config": config,
+            **self.extract_child_resource(config),
         }
 
     ####################
@@ -934,6 +936,13 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     #
     ####################
 
+    @staticmethod
+    def extract_child_resource(config: Any) -> dict[str, Any]:  # ruff:ignore[any-type]
+        """Moves a child resource out of the body of a loop or deploy condition."""
+        if isinstance(config, dict) and "__child_resource__" in config:
+            return {"__child_resource__": config.pop("__child_resource__")}
+        return {}
+
     def process_child_resource(
         self, parent_resource_name: str, parent_type_api_pair: pycep_typing.ApiTypeVersion, config: dict[str, Any]
     ) -> None:
-- 
2.43.0


From 3855d2715d7d82afc7cff39719305a59782524f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:07 +0000
Subject: [PATCH 16/36] fix: split the API version off the type of a child
 resource

A child resource with an API version of its own had it glued to its type and
was given the version of its parent.
---
 pycep/transformer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 41aa91f..40146d7 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -956,10 +956,11 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
 
-            # inherit type and api version info from parent resource
+            # inherit type and, unless it has its own, api version info from parent resource
+            child_type, _, child_api_version = child_resource["__attrs__"]["type"].partition("@")
             child_type_api_pair: pycep_typing.ApiTypeVersion = {
-                "type": f"{parent_type_api_pair['type']}/{child_resource['__attrs__']['type']}",
-                "api_version": parent_type_api_pair["api_version"],
+                "type": f"{parent_type_api_pair['type']}/{child_type}",
+                "api_version": child_api_version or parent_type_api_pair["api_version"],
             }
 
             child_resource["__attrs__"]["type"] = child_type_api_pair["type"]
-- 
2.43.0


From 7a61da50769eebe262eeb59527b03d0704e12dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:41 +0000
Subject: [PATCH 17/36] fix: keep every resource name of the resource id
 functions

Only the first two names were kept for extension, management group,
subscription and tenant resource ids.
---
 pycep/rules/functions.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index 1d8ee29..80fa08e 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -441,13 +441,14 @@ def extension_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Ex
         resource_name_1 = args[2]
         resource_name_2 = args[3]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "extension_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_id": resource_id,
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": name for idx, name in enumerate(args[4:], start=3)},
         },
     }
 
@@ -486,12 +487,13 @@ def management_group_resource_id(_func_name: str, args: list[Token]) -> pycep_ty
         resource_name_1 = args[1]
         resource_name_2 = args[2]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "management_group_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": name for idx, name in enumerate(args[3:], start=3)},
         },
     }
 
@@ -633,12 +635,13 @@ def subscription_resource_id(_func_name: str, args: list[Token]) -> pycep_typing
         resource_name_1 = args[2]
         resource_name_2 = args[3]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "subscription_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": name for idx, name in enumerate(args[4:], start=3)},
             "subscription_id": subscription_id,
         },
     }
@@ -655,12 +658,13 @@ def tenant_resource_id(_func_name: str, args: list[Token]) -> pycep_typing.Tenan
         resource_name_1 = args[1]
         resource_name_2 = args[2]
 
-    return {
+    return {  # ty: ignore[invalid-return-type] # dynamic operand creation
         "type": "tenant_resource_id",
-        "parameters": {
+        "parameters": {  # ty: ignore[missing-typed-dict-key]
             "resource_type": resource_type,
             "resource_name_1": resource_name_1,
             "resource_name_2": resource_name_2,
+            **{f"resource_name_{idx}": name for idx, name in enumerate(args[3:], start=3)},
         },
     }
 
-- 
2.43.0


From fdc37248e52e3ed85fc9cb7ac196d8f63090be99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:00 +0000
Subject: [PATCH 18/36] fix: take the subscription from the first of two
 resource group arguments

The arguments were only swapped when neither of them was empty.
---
 pycep/rules/functions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index 80fa08e..efed4d7 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -690,16 +690,13 @@ def resource_group(
 ) -> pycep_typing.ResourceGroup:
     args_len = len(args)
     if args_len == 2:
-        resource_group_name, subscription_id = args
+        # very strange parameter definition
+        subscription_id, resource_group_name = args
     elif args_len == 1:
         resource_group_name, subscription_id = args[0], None
     else:
         resource_group_name, subscription_id = None, None
 
-    if resource_group_name and subscription_id:
-        # very strange parameter definition
-        resource_group_name, subscription_id = subscription_id, resource_group_name
-
     result: pycep_typing.ResourceGroup = {
         "type": "resource_group",
         "parameters": {
-- 
2.43.0


From 0aca607faaab971e2f0fdf23ba388c61d71f966f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:43 +0000
Subject: [PATCH 19/36] fix: accept the function values argument of listKeys

The optional third argument made the whole file fail to parse.
---
 pycep/rules/functions.py | 5 ++++-
 pycep/typing.py          | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycep/rules/functions.py b/pycep/rules/functions.py
index efed4d7..6eca6d1 100644
--- a/pycep/rules/functions.py
+++ b/pycep/rules/functions.py
@@ -462,7 +462,7 @@ def list_func(
 ) -> pycep_typing.ListFunc:
     # See https://learn.microsoft.com/en-us/azure/azure-resource-manager/bicep/bicep-functions-resource#list
     # With Bicep v0.4.X, you call list*() using accessor operator, ex: storageAccount.listKeys()
-    resource_identifier, api_version = args
+    resource_identifier, api_version, *function_values = args
 
     result: pycep_typing.ListFunc = {
         "type": "list_func",
@@ -473,6 +473,9 @@ def list_func(
         },
     }
 
+    if function_values:
+        result["parameters"]["function_values"] = function_values[0]
+
     return result
 
 
diff --git a/pycep/typing.py b/pycep/typing.py
index f0d5aba..279f2d8 100644
--- a/pycep/typing.py
+++ b/pycep/typing.py
@@ -811,6 +811,7 @@ class _ListFuncParameters(TypedDict):
     func_name: PossibleValue
     resource_identifier: PossibleValue
     api_version: PossibleValue
+    function_values: NotRequired[PossibleValue]
 
 
 class ListFunc(TypedDict):
-- 
2.43.0


From 404797092339b236cf731ee7a6e6419dec36d082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:47 +0000
Subject: [PATCH 20/36] fix: accept a negative number in the maxValue decorator

---
 pycep/rules/decorators.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index c8f60ac..e59696a 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -5,8 +5,6 @@ from typing import TYPE_CHECKING, Any
 if TYPE_CHECKING:
     from collections.abc import Callable
 
-    from lark import Token
-
     from pycep import typing as pycep_typing
 
 ####################
@@ -68,10 +66,14 @@ def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_ty
     }
 
 
-def deco_max_val(_deco_name: str, args: tuple[Token]) -> pycep_typing.DecoratorMaxValue:
-    return {
+def deco_max_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMaxValue:
+    arg = args[0]
+    if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
+        arg = operator["operands"]["integer_value"] * -1
+
+    return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "max_value",
-        "argument": int(args[0]),
+        "argument": arg,  # ty: ignore[invalid-argument-type]
     }
 
 
-- 
2.43.0


From 5fed7e81a5a5014de626a2c727f05eba274a9b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 21/36] fix: accept comments and blank lines wherever a line
 break is

Depending on the position only one of them, at most ten after a decorator, or
none at all was accepted, and a comment at the end of a file needed a line
break.
---
 pycep/bicep.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ff98953..0285bef 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -178,8 +178,8 @@ LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)[ \t]*\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''.*?'''(?!')/s
 
-_NEWLINE: NEWLINE
-_CPP_COMMENT_NL: [CPP_COMMENT] NEWLINE
+_NEWLINE: _CPP_COMMENT_NL
+_CPP_COMMENT_NL: (CPP_COMMENT | NEWLINE) (CPP_COMMENT | NEWLINE | C_COMMENT | SH_COMMENT | WS_INLINE)*
 
 %import common.C_COMMENT
 %import common.CPP_COMMENT
-- 
2.43.0


From adb48e790b74bc669e6737557a4de28c06c73757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:13 +0000
Subject: [PATCH 22/36] fix: accept lambda expressions with two parameters

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 0285bef..afdf36a 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -86,7 +86,7 @@ pair: key ":" (value_brackets | loop) "?"?
 
 !key: "resource" | quoted_string
 
-lambda_expression: (value_brackets | "(" value_brackets "," value_brackets ("," value_brackets)+ ")") "=>" value_brackets
+lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")") "=>" value_brackets
 
 // decorators
 
-- 
2.43.0


From 49cb622e14f4bbdc1ef1d2e8b82ea3bbc9333bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:57 +0000
Subject: [PATCH 23/36] fix: accept nested parentheses

Redundant parentheses and a non-null assertion within parentheses were
rejected.
---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index afdf36a..f36c2e2 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -25,7 +25,7 @@ element: "targetScope" "=" QUOTED_INTERPOLATION
       | operator
       | lambda_expression
 
-?value_brackets: (value | "(" value ")") "!"?
+?value_brackets: (value | "(" value_brackets ")") "!"?
 
 // aliases
 
-- 
2.43.0


From d5a9913e64377d69830d0d54cea1bc08d07ffd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:27 +0000
Subject: [PATCH 24/36] fix: only negate integers in the minValue and maxValue
 decorators

---
 pycep/rules/decorators.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pycep/rules/decorators.py b/pycep/rules/decorators.py
index e59696a..7e483c3 100644
--- a/pycep/rules/decorators.py
+++ b/pycep/rules/decorators.py
@@ -58,7 +58,9 @@ def deco_max_len(_deco_name: str, args: tuple[int]) -> pycep_typing.DecoratorMax
 def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMinValue:
     arg = args[0]
     if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
-        arg = operator["operands"]["integer_value"] * -1
+        value = operator["operands"]["integer_value"]
+        if type(value) is int:
+            arg = -value
 
     return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "min_value",
@@ -69,7 +71,9 @@ def deco_min_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_ty
 def deco_max_val(_deco_name: str, args: tuple[int | dict[str, Any]]) -> pycep_typing.DecoratorMaxValue:
     arg = args[0]
     if isinstance(arg, dict) and (operator := arg.get("operator", {})).get("type") == "minus":
-        arg = operator["operands"]["integer_value"] * -1
+        value = operator["operands"]["integer_value"]
+        if type(value) is int:
+            arg = -value
 
     return {  # ty: ignore[invalid-return-type] # there is no real issue if this returns a dict
         "type": "max_value",
-- 
2.43.0


From 15f25264530e53f9cccfe5a8b7a87ef6c3dacaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:15 +0000
Subject: [PATCH 25/36] fix: accept an indexed property named like a list
 function

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index f36c2e2..4ee895f 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -174,7 +174,7 @@ STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 QUOTED_INTERPOLATION: /(?P<_STR>'(?!'')(?:\\.|\${(?P<_EXPR>(?:[^{}']|{(?&_EXPR)}|(?&_STR))*+)}|[^'\\$]|\$(?!{))*+')/s
-LIST_FUNC_NAME.2: /(?=([Ll]ist[A-za-z]*|getSecret)[ \t]*\()([A-Za-z]+)/
+LIST_FUNC_NAME.2: /(?=([Ll]ist[A-Za-z]*|getSecret)[ \t]*\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''.*?'''(?!')/s
 
-- 
2.43.0


From 85cb3c5d30b0a08ce437c8badd4f0ede1a6f436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 26/36] fix: reject a function call with a missing first
 argument

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 4ee895f..976b403 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -96,7 +96,7 @@ decorators: decorator+
 // functions
 
 FUNCTION.1: /(?!for\b)((sys|az)\.)?[a-zA-Z0-9_]+[ \t]*/ "("
-function: FUNCTION _CPP_COMMENT_NL? value_brackets? ("," _CPP_COMMENT_NL? value_brackets)* _CPP_COMMENT_NL? ")"
+function: FUNCTION _CPP_COMMENT_NL? (value_brackets ("," _CPP_COMMENT_NL? value_brackets)*)? _CPP_COMMENT_NL? ")"
 
 // operators
 
-- 
2.43.0


From f15e63fa0f054384790a7f764c1f19f68dce46ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 27/36] fix: reject resources with an empty type or API version

---
 pycep/transformer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 40146d7..b7883ae 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -419,6 +419,9 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
     def type_api_pair(self, args: tuple[Token, Token]) -> pycep_typing.ApiTypeVersion:
         type_name, api_version = str(args[0])[1:-1].split("@")
+        if not type_name or not api_version:
+            raise ValueError(f"resource type or API version is missing: {args[0]}")
+
         return {
             "type": str(type_name),
             "api_version": str(api_version),
-- 
2.43.0


From 6438fe9822e596075d6c18e30e163810c01983cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:23 +0000
Subject: [PATCH 28/36] fix: end keywords at a word boundary

---
 pycep/bicep.lark | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 976b403..ea47c25 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -1,18 +1,18 @@
 start: ((element _CPP_COMMENT_NL?) | _CPP_COMMENT_NL)*
 
-element: "targetScope" "=" QUOTED_INTERPOLATION                                         -> scope
-       | "import" _import_statement                                                     -> custom_import
-       | "extension" STRING ["with" object] ["as" STRING]                               -> extension
-       | "metadata" STRING "=" metadata_value                                           -> metadata
-       | [decorators] "param" STRING data_type "?"? ["=" value_brackets]                -> param
-       | [decorators] "var" STRING [data_type "?"?] "=" var_value                       -> var
-       | [decorators] "output" STRING data_type "?"? "=" output_value                   -> output
-       | [decorators] "resource" STRING type_api_pair [EXISTING] "=" resource_value     -> resource
-       | [decorators] "module" STRING module_path "=" module_value                      -> module
-       | [decorators] "type" STRING "=" type_value                                      -> custom_type
-       | [decorators] "func" _func_statement                                            -> custom_func
-
-?value: _NEWLINE? "null"                      -> null
+element: "targetScope" "=" QUOTED_INTERPOLATION                                          -> scope
+       | _IMPORT _import_statement                                                       -> custom_import
+       | _EXTENSION STRING ["with" object] [_AS STRING]                                  -> extension
+       | _METADATA STRING "=" metadata_value                                             -> metadata
+       | [decorators] _PARAM STRING data_type "?"? ["=" value_brackets]                  -> param
+       | [decorators] _VAR STRING [data_type "?"?] "=" var_value                         -> var
+       | [decorators] _OUTPUT STRING data_type "?"? "=" output_value                     -> output
+       | [decorators] _RESOURCE STRING type_api_pair [EXISTING] "=" resource_value       -> resource
+       | [decorators] _MODULE STRING module_path "=" module_value                        -> module
+       | [decorators] _TYPE STRING "=" type_value                                        -> custom_type
+       | [decorators] _FUNC _func_statement                                              -> custom_func
+
+?value: _NEWLINE? "null"                                                                 -> null
       | _NEWLINE? "true"                      -> true
       | _NEWLINE? "false"                     -> false
       | _NEWLINE? INT                         -> int_type
@@ -60,15 +60,15 @@ type_api_pair: QUOTED_INTERPOLATION
 
 module_path: QUOTED_INTERPOLATION
 
-import_alias: (STRING | /\*/) ["as" STRING]
+import_alias: (STRING | /\*/) [_AS STRING]
 
 // loops
 
 loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
 
-loop_array: STRING "in" value_brackets
+loop_array: STRING _IN value_brackets
 
-loop_array_index: "(" STRING "," STRING ")" "in" value_brackets
+loop_array_index: "(" STRING "," STRING ")" _IN value_brackets
 
 // deploy condition
 
@@ -170,6 +170,20 @@ property_accessor: value_brackets "." "?"? value_brackets
 
 EXISTING: "existing"
 
+// keywords in front of a name, which end at a word boundary
+_IMPORT.1: /import\b/
+_EXTENSION.1: /extension\b/
+_METADATA.1: /metadata\b/
+_PARAM.1: /param\b/
+_VAR.1: /var\b/
+_OUTPUT.1: /output\b/
+_RESOURCE.1: /resource\b/
+_MODULE.1: /module\b/
+_TYPE.1: /type\b/
+_FUNC.1: /func\b/
+_AS.1: /as\b/
+_IN.1: /in\b/
+
 STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-- 
2.43.0


From b138e1d66da6707dd33c10f88e0bf29a9ae69441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:42 +0000
Subject: [PATCH 29/36] fix: reject a file that ends within a byte order mark

---
 pycep/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/main.py b/pycep/main.py
index 0a0efa0..158eb92 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -39,7 +39,7 @@ class BicepParser:
         if text is not None:
             bicep_text = text
         elif file_path is not None:
-            bicep_text = file_path.read_text(encoding="utf-8-sig")
+            bicep_text = file_path.read_text(encoding="utf-8").removeprefix("\ufeff")
         else:
             raise TypeError("Either 'text' or 'file_path' has to be set")
 
-- 
2.43.0


From 853980dca6e5af220215d9d9519a06df88fe0c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:24 +0000
Subject: [PATCH 30/36] fix: construct a parser without a usable temporary
 directory

---
 pycep/main.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pycep/main.py b/pycep/main.py
index 158eb92..aa8409c 100644
--- a/pycep/main.py
+++ b/pycep/main.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import tempfile
 from importlib.resources import files
 from typing import TYPE_CHECKING
 
@@ -22,6 +23,14 @@ class BicepParser:
 
     def __init__(self, *, add_line_numbers: bool = False, cache: bool = True) -> None:
         self.add_line_numbers = add_line_numbers
+
+        if cache:
+            try:
+                tempfile.gettempdir()
+            except OSError:
+                # without a usable temporary directory there is no place for the cache
+                cache = False
+
         self.lark_parser = Lark(grammar=LARK_GRAMMAR, parser="lalr", propagate_positions=True, regex=True, cache=cache)
 
     def parse(self, *, text: str | None = None, file_path: Path | None = None) -> pycep_typing.BicepJson:
-- 
2.43.0


From 703c00d9d942d14c03420bb211239787c1809592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:27 +0000
Subject: [PATCH 31/36] fix: accept a resource property named like the marker
 of child resources

---
 pycep/transformer.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index b7883ae..29e5b70 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -294,7 +294,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     @v_args(meta=True)
     def child_resource(
         self, meta: Meta, args: tuple[Token, Token, Token | None, dict[str, Any]]
-    ) -> tuple[Literal["__child_resource__"], pycep_typing.Resource]:
+    ) -> tuple[Literal["<child_resource>"], pycep_typing.Resource]:
         name, type_name, existing, config = args
 
         result: pycep_typing.Resource = {
@@ -312,7 +312,8 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             result["__attrs__"]["__start_line__"] = meta.line
             result["__attrs__"]["__end_line__"] = meta.end_line
 
-        return "__child_resource__", result
+        # a marker, which can't be the name of a property
+        return "<child_resource>", result
 
     @v_args(meta=True)
     def module(
@@ -942,8 +943,8 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
     @staticmethod
     def extract_child_resource(config: Any) -> dict[str, Any]:  # ruff:ignore[any-type]
         """Moves a child resource out of the body of a loop or deploy condition."""
-        if isinstance(config, dict) and "__child_resource__" in config:
-            return {"__child_resource__": config.pop("__child_resource__")}
+        if isinstance(config, dict) and "<child_resource>" in config:
+            return {"<child_resource>": config.pop("<child_resource>")}
         return {}
 
     def process_child_resource(
@@ -953,8 +954,8 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         Beware that this method is not idempotent, it modifies the passed in `config`.
         """
-        if "__child_resource__" in config:
-            child_resource = config.pop("__child_resource__")
+        if "<child_resource>" in config:
+            child_resource = config.pop("<child_resource>")
 
             # prefix the resource name with the parent to prevent overlap
             child_resource["__name__"] = f"{parent_resource_name}__{child_resource['__name__']}"
-- 
2.43.0


From 7cae97c5cd33bcec01b769bfea6fe207e305222a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:54 +0000
Subject: [PATCH 32/36] fix: names consist of ASCII letters, digits and
 underscores

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index ea47c25..196181a 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -184,7 +184,7 @@ _FUNC.1: /func\b/
 _AS.1: /as\b/
 _IN.1: /in\b/
 
-STRING: /(?!(sys|az)\.)[a-zA-Z_]([\w_])*/
+STRING: /(?!(sys|az)\.)[a-zA-Z_][a-zA-Z0-9_]*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
 QUOTED_INTERPOLATION: /(?P<_STR>'(?!'')(?:\\.|\${(?P<_EXPR>(?:[^{}']|{(?&_EXPR)}|(?&_STR))*+)}|[^'\\$]|\$(?!{))*+')/s
-- 
2.43.0


From 4b5620b36e9b5a0420ee16ebf700c6158e6e0ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:59 +0000
Subject: [PATCH 33/36] fix: names of functions and decorators do not start
 with a digit

---
 pycep/bicep.lark | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 196181a..3554cd3 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -90,12 +90,12 @@ lambda_expression: (value_brackets | "(" value_brackets ("," value_brackets)+ ")
 
 // decorators
 
-decorator: ("@" /(sys\.)?[a-zA-Z0-9]+/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
+decorator: ("@" /(sys\.)?[a-zA-Z][a-zA-Z0-9]*/ "(" _CPP_COMMENT_NL? value_brackets? _CPP_COMMENT_NL? ")" _CPP_COMMENT_NL~0..10)
 decorators: decorator+
 
 // functions
 
-FUNCTION.1: /(?!for\b)((sys|az)\.)?[a-zA-Z0-9_]+[ \t]*/ "("
+FUNCTION.1: /(?!for\b)((sys|az)\.)?[a-zA-Z_][a-zA-Z0-9_]*[ \t]*/ "("
 function: FUNCTION _CPP_COMMENT_NL? (value_brackets ("," _CPP_COMMENT_NL? value_brackets)*)? _CPP_COMMENT_NL? ")"
 
 // operators
-- 
2.43.0


From d744d2a63a0ce19ba279630a3167d4aac00cb555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:40 +0000
Subject: [PATCH 34/36] fix: end the keyword of a loop at a word boundary

---
 pycep/bicep.lark | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 3554cd3..4730dde 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -64,7 +64,7 @@ import_alias: (STRING | /\*/) [_AS STRING]
 
 // loops
 
-loop: "[" _CPP_COMMENT_NL? "for" (loop_array | loop_array_index) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
+loop: "[" _CPP_COMMENT_NL? _FOR (loop_array | loop_array_index) ":" [value_brackets] value_brackets _CPP_COMMENT_NL? "]"
 
 loop_array: STRING _IN value_brackets
 
@@ -183,6 +183,7 @@ _TYPE.1: /type\b/
 _FUNC.1: /func\b/
 _AS.1: /as\b/
 _IN.1: /in\b/
+_FOR.1: /for\b/
 
 STRING: /(?!(sys|az)\.)[a-zA-Z_][a-zA-Z0-9_]*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
-- 
2.43.0


From e2d14f4467f73533e4df0bdd22e0f31746c50e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:23 +0000
Subject: [PATCH 35/36] fix: end single-quoted strings at the end of their line

---
 pycep/bicep.lark | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycep/bicep.lark b/pycep/bicep.lark
index 4730dde..9aab292 100644
--- a/pycep/bicep.lark
+++ b/pycep/bicep.lark
@@ -188,7 +188,7 @@ _FOR.1: /for\b/
 STRING: /(?!(sys|az)\.)[a-zA-Z_][a-zA-Z0-9_]*/
 QUOTED_STRING: "'" /[a-zA-Z_]([\w_.])*/ "'"
 INDEXED: /(?=[\w][\w_.]+(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|[\[\]])+)(.(get|list)[a-zA-Z]*\(('[\w-]+'|[\w.]+)?\)|\[[\w\[\]_().']+\]|[\w_\-\/.,'= ])+/
-QUOTED_INTERPOLATION: /(?P<_STR>'(?!'')(?:\\.|\${(?P<_EXPR>(?:[^{}']|{(?&_EXPR)}|(?&_STR))*+)}|[^'\\$]|\$(?!{))*+')/s
+QUOTED_INTERPOLATION: /(?P<_STR>'(?!'')(?:\\[^\r\n]|\${(?P<_EXPR>(?:[^{}']|{(?&_EXPR)}|(?&_STR))*+)}|[^'\\$\r\n]|\$(?!{))*+')/
 LIST_FUNC_NAME.2: /(?=([Ll]ist[A-Za-z]*|getSecret)[ \t]*\()([A-Za-z]+)/
 
 MULTI_LINE_STRING: /'''.*?'''(?!')/s
-- 
2.43.0


From f6d97da42cbe9dbd72972c2977be4a4492434999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:20 +0000
Subject: [PATCH 36/36] fix: reject nested resources outside of resource bodies

---
 pycep/transformer.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pycep/transformer.py b/pycep/transformer.py
index 29e5b70..802c65a 100644
--- a/pycep/transformer.py
+++ b/pycep/transformer.py
@@ -35,6 +35,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
 
         self.imports: list[pycep_typing.ImportResponse] = []
         self.child_resources: list[pycep_typing.ResourceResponse] = []
+        self.has_child_resources = False
 
         super().__init__()
 
@@ -65,6 +66,9 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             for key, value in arg.items():
                 result.setdefault(key, {})[value["__name__"]] = value["__attrs__"]  # ty: ignore[not-subscriptable, no-matching-overload]
 
+        if self.has_child_resources:
+            self.check_child_resources(result)
+
         return result
 
     ####################
@@ -313,6 +317,7 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             result["__attrs__"]["__end_line__"] = meta.end_line
 
         # a marker, which can't be the name of a property
+        self.has_child_resources = True
         return "<child_resource>", result
 
     @v_args(meta=True)
@@ -947,6 +952,20 @@ class BicepToJson(Transformer[Token, pycep_typing.BicepJson]):
             return {"<child_resource>": config.pop("<child_resource>")}
         return {}
 
+    @staticmethod
+    def check_child_resources(result: Any) -> None:  # ruff:ignore[any-type]
+        """Raises an error, if a child resource is not directly in the body of a resource."""
+        values = [result]
+        while values:
+            value = values.pop()
+            if isinstance(value, dict):
+                if "<child_resource>" in value:
+                    name = value["<child_resource>"]["__name__"]
+                    raise ValueError(f"child resource is not part of a resource body: {name}")
+                values.extend(value.values())
+            elif isinstance(value, list | tuple):
+                values.extend(value)
+
     def process_child_resource(
         self, parent_resource_name: str, parent_type_api_pair: pycep_typing.ApiTypeVersion, config: dict[str, Any]
     ) -> None:
-- 
2.43.0

