From b656b198f4d32cccddce85a7d6430284cf866dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 001/156] fix: unknown command followed by an unbalanced brace
 no longer raises

---
 latex2json/parser/tex_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 38e2e41..23392fc 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -230,8 +230,13 @@ class LatexParser:
                 inner_content, inner_end_pos = extract_nested_content(
                     content[end_pos - 1 :]
                 )
-                end_pos += inner_end_pos - 1
-                total_content += inner_content + "}"
+                if inner_content is None:
+                    # unbalanced brace: it is not an argument
+                    end_pos -= 1
+                    total_content = command
+                else:
+                    end_pos += inner_end_pos - 1
+                    total_content += inner_content + "}"
 
             expanded = self._expand_command(total_content)
 
-- 
2.43.0


From cd0c351748a05f265d1743ff9161b1602510a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 002/156] fix: an unclosed \begingroup or \bgroup no longer
 loops forever

---
 latex2json/parser/handlers/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index fcd0320..c223ae5 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -325,7 +325,8 @@ class BaseEnvironmentHandler(TokenHandler):
                 )
 
             if end_pos == -1:
-                return None, 0
+                # no matching end: skip the opening command itself
+                return None, match.end()
 
             token = {
                 "type": ENV_TYPES.get("group", "environment"),
-- 
2.43.0


From b41566b25819d16756d4fc03db945060ae4627fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:00 +0000
Subject: [PATCH 003/156] fix: an author command with an unbalanced brace no
 longer raises

---
 latex2json/parser/handlers/author.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 377c7f0..846f79e 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -69,8 +69,14 @@ class AuthorHandler(TokenHandler):
         for name, pattern in PATTERNS.items():
             match = pattern.match(content)
             if match:
+                if name == "curraddr":
+                    return None, match.end()
+
                 start_pos = match.end() - 1
                 content, end_pos = extract_nested_content(content[start_pos:])
+                if content is None:
+                    # unbalanced brace
+                    return None, match.end()
                 total_pos = start_pos + end_pos
 
                 if name == "thanks":
@@ -88,8 +94,6 @@ class AuthorHandler(TokenHandler):
                         "type": "author",
                         "content": tokens,
                     }, total_pos
-                elif name == "curraddr":
-                    return None, match.end()
                 else:
                     if self.process_content_fn:
                         content = self.process_content_fn(content)
-- 
2.43.0


From 24dbdabcc0221e6dcdcb4dbf2904c44a49e4c993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:07 +0000
Subject: [PATCH 004/156] fix: legacy font and color commands with an
 unbalanced brace no longer raise

---
 latex2json/parser/handlers/legacy_formatting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 0826ab0..ec9d92f 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -115,6 +115,9 @@ class LegacyFormattingHandler(TokenHandler):
                 if matched_str.startswith("\\color"):
                     # our regex is \color{
                     text, end_pos = extract_nested_content("{" + content[next_pos:])
+                    if text is None:
+                        # unbalanced brace
+                        return "", next_pos
                     modern_command = "textcolor"
 
                     if match.group(1):
@@ -129,6 +132,9 @@ class LegacyFormattingHandler(TokenHandler):
                     # simple \tt{text}
                     next_pos -= 1  # remove the opening brace
                     text, end_pos = extract_nested_content(content[next_pos:])
+                    if text is None:
+                        # unbalanced brace
+                        return "", match.end()
                     content_to_format = text.strip()
                     total_pos = next_pos + end_pos
                     formatted_text = "\\%s{%s}" % (modern_command, content_to_format)
-- 
2.43.0


From 4efa5db874d0e33404fd7846c3559502c80f2661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 005/156] fix: \hphantom and \ensuremath with an unbalanced
 brace no longer raise or yield null content

---
 latex2json/parser/handlers/formatting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 808ae6b..c5ee80b 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -415,6 +415,8 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:
+                        return None, match.end()
                     return {
                         "type": "equation",
                         "content": extracted_content,
@@ -463,6 +465,8 @@ class FormattingHandler(TokenHandler):
                     extracted_content, end_pos = extract_nested_content(
                         content[start_pos:]
                     )
+                    if extracted_content is None:
+                        return None, match.end()
                     # Check if it's hphantom or vphantom
                     if match.group(0).startswith("\\hphantom"):
                         # Horizontal phantom - create spaces matching content width
-- 
2.43.0


From 436af0e29b6cf3bd36fbc643a2a835d17607e4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 006/156] fix: \subfloat with an unbalanced bracket and a
 trailing text style no longer raise

---
 latex2json/parser/handlers/text_formatting.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 7607fbe..231733b 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -127,6 +127,9 @@ class TextFormattingHandler(TokenHandler):
             else:
                 # get first character that is not space
                 index = find_first_nonspace(next_content)
+                if index == len(next_content):
+                    # nothing left to format
+                    return None, match.end(0)
                 content_to_format = next_content[index]
                 if content_to_format == "\\":
                     # if command, no content
@@ -261,6 +264,9 @@ class TextFormattingHandler(TokenHandler):
     def _handle_subfloat(self, content: str, match: re.Match) -> Tuple[str, int]:
         start_pos = match.end() - 1
         caption, end_pos = extract_nested_content(content[start_pos:], "[", "]")
+        if caption is None:
+            # unbalanced bracket
+            return None, match.end()
         caption = caption.strip()
 
         total_pos = start_pos + end_pos
-- 
2.43.0


From aa27fbda7d7497e41a1b2faf45eb8014a80b3630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 007/156] fix: number parts and sections below subsubsection
 instead of raising KeyError

---
 latex2json/structure/builder.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index 14439a9..ec6f600 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -122,6 +122,7 @@ class TokenBuilder:
     def reset_numbering(self):
         """Reset section numbering state"""
         self.section_numbers = {1: 0, 2: 0, 3: 0}
+        self.part_number = 0
         self.math_env_number = 0  # resets when section changes
         # equation, table, figure are simple sequential counters
         self.equation_number = 0
@@ -141,6 +142,16 @@ class TokenBuilder:
 
         level = token.get("level", 1)
 
+        if level < 1:
+            # parts have their own counter, and do not restart section numbering
+            self.part_number += 1
+            token["numbering"] = str(self.part_number)
+            return
+
+        # deeper levels than subsubsection start counting on first use
+        for l in range(1, level + 1):
+            self.section_numbers.setdefault(l, 0)
+
         # Reset lower level counters if needed
         if reset_lower_levels:
             for l in range(level + 1, max(self.section_numbers.keys()) + 1):
-- 
2.43.0


From ca266e01799bc73e90970aee6bd47e3ca22ec550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:16 +0000
Subject: [PATCH 008/156] fix: \hyperref without an optional label no longer
 raises

---
 latex2json/parser/handlers/content_command.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index ef0cc6d..bcf99b6 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -181,7 +181,7 @@ class ContentCommandHandler(TokenHandler):
             return {
                 "type": "ref",
                 "title": content,
-                "content": [match.group(1).strip()],
+                "content": [(match.group(1) or "").strip()],
             }
 
         # URLs
-- 
2.43.0


From 9cc799fb27cb76f302c25a18a7cc0195b66301ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:21 +0000
Subject: [PATCH 009/156] fix: an empty algorithm environment no longer fails
 the build

---
 latex2json/structure/tokens/code_and_algo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/structure/tokens/code_and_algo.py b/latex2json/structure/tokens/code_and_algo.py
index 44eebdd..ce667d0 100644
--- a/latex2json/structure/tokens/code_and_algo.py
+++ b/latex2json/structure/tokens/code_and_algo.py
@@ -1,5 +1,5 @@
 from enum import Enum
-from typing import List, Optional
+from typing import List, Optional, Union
 
 from pydantic import Field
 
@@ -21,7 +21,7 @@ class AlgorithmToken(EnvironmentToken):
     """Represents algorithm environment"""
 
     type: TokenType = TokenType.ALGORITHM
-    content: List[BaseToken] = Field(default_factory=list)
+    content: Union[str, List[BaseToken]] = Field(default_factory=list)
     numbering: Optional[str] = None
 
 
-- 
2.43.0


From b5e764b4006bf48e8dece85786bf839cc1f63249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:27 +0000
Subject: [PATCH 010/156] fix: a list holding tokens other than items no longer
 fails the build

---
 latex2json/structure/tokens/table_figure_list.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/table_figure_list.py b/latex2json/structure/tokens/table_figure_list.py
index 04cb863..57f16ff 100644
--- a/latex2json/structure/tokens/table_figure_list.py
+++ b/latex2json/structure/tokens/table_figure_list.py
@@ -47,5 +47,6 @@ class ListToken(EnvironmentToken):
     """Represents itemize/enumerate/description environments"""
 
     type: TokenType = TokenType.LIST
-    content: List[ItemToken] = Field(default_factory=list)
+    # usually items, but a list may hold other tokens too e.g. text before the first item
+    content: List[BaseToken] = Field(default_factory=list)
     depth: int = 1
-- 
2.43.0


From b9c64c6818b61fe26d85f92e207a5b199f317e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:33 +0000
Subject: [PATCH 011/156] fix: tokens of unknown type are skipped inside
 theorems, equations and table cells too

---
 latex2json/structure/tokens/base.py     | 8 ++++++--
 latex2json/structure/tokens/equation.py | 4 +++-
 latex2json/structure/tokens/tabular.py  | 4 +++-
 3 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 6064cd3..e0e858b 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -90,11 +90,15 @@ class MathEnvToken(BaseToken):
         proof = None
         if "content" in data:
             for item in data["content"]:
-                content.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    content.append(token)
         if "title" in data:
             title = []
             for item in data["title"]:
-                title.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    title.append(token)
         if "proof" in data:
             proof = create_token(data["proof"])
 
diff --git a/latex2json/structure/tokens/equation.py b/latex2json/structure/tokens/equation.py
index 8a76244..8481935 100644
--- a/latex2json/structure/tokens/equation.py
+++ b/latex2json/structure/tokens/equation.py
@@ -35,7 +35,9 @@ class EquationToken(BaseToken):
             for k, v in data["placeholders"].items():
                 out = []
                 for item in v:
-                    out.append(create_token(item))
+                    token = create_token(item)
+                    if token is not None:
+                        out.append(token)
                 placeholder_dict[k] = out
 
         return cls(
diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 5bc60e5..488c5fa 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -102,7 +102,9 @@ class TabularToken(BaseToken):
         processed_list = []
         for item in nested_list:
             if isinstance(item, dict) and "type" in item:
-                processed_list.append(create_token(item))
+                token = create_token(item)
+                if token is not None:
+                    processed_list.append(token)
             elif isinstance(item, list):
                 processed_list.append(cls._process_nested_list(item, create_token))
             else:
-- 
2.43.0


From 77a31117dc3b4d9aa3ba88c6193826d224697b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 012/156] fix: keep all the fields of tokens held in titles and
 placeholders when dumping

---
 latex2json/structure/tokens/base.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index e0e858b..0a362c2 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -43,6 +43,14 @@ class BaseToken(BaseModel):
         else:
             result["content"] = self.serialize_value(self.content, **kwargs)
 
+        # Other fields may hold tokens too (e.g. titles, placeholders): dump them as what they
+        # are, as pydantic would only keep the fields of their declared type
+        for name in type(self).model_fields:
+            if name != "content" and name in result:
+                value = getattr(self, name)
+                if isinstance(value, (list, dict, BaseToken)):
+                    result[name] = self.serialize_value(value, **kwargs)
+
         # Remove None values if exclude_none is True
         if exclude_none:
             result = {k: v for k, v in result.items() if v is not None}
-- 
2.43.0


From 5e9f13820436990ad2752dfe8c3613c7b79470b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 013/156] fix: an unnumbered section does not restart theorem
 numbering

---
 latex2json/structure/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index ec6f600..f4b1246 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -409,7 +409,7 @@ class TokenBuilder:
                     token, reset_lower_levels=True, in_appendix=in_appendix
                 )
                 # Reset math environment counter when section changes
-                if token.get("level") == 1:
+                if token.get("level") == 1 and token.get("numbered", True):
                     self.math_env_number = 0
 
                 self._manage_stack(token, section_stack, root)
-- 
2.43.0


From 727dbc46341b799b6e23217b06e2ce2adf5be3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:22 +0000
Subject: [PATCH 014/156] fix: theorems in an appendix carry its letter instead
 of repeating main matter numbers

---
 latex2json/structure/builder.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index f4b1246..cdcea09 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -188,10 +188,11 @@ class TokenBuilder:
         self.figure_env_number += 1
         token["numbering"] = str(self.figure_env_number)
 
-    def _update_math_env_numbering(self, token):
+    def _update_math_env_numbering(self, token, in_appendix=False):
         self.math_env_number += 1
         # Use current section number + sequential counter
-        section_prefix = str(self.section_numbers[1])
+        number = self.section_numbers[1]
+        section_prefix = chr(64 + number) if in_appendix and number else str(number)
         token["numbering"] = f"{section_prefix}.{self.math_env_number}"
 
     def _convert_inline_equations_to_text(self, tokens):
@@ -330,14 +331,14 @@ class TokenBuilder:
         token["content"] = []
         stack.append(token)
 
-    def _check_update_numbering(self, token: Dict[str, any]):
+    def _check_update_numbering(self, token: Dict[str, any], in_appendix=False):
         if token.get("numbered"):
             if token["type"] == "equation":
                 self._update_equation_numbering(token)
             elif token["type"] == "algorithm":
                 self._update_algorithm_numbering(token)
             elif token["type"] == "math_env":
-                self._update_math_env_numbering(token)
+                self._update_math_env_numbering(token, in_appendix)
             elif token["type"] == "table":
                 self._update_table_env_numbering(token)
             elif token["type"] == "figure":
@@ -380,7 +381,7 @@ class TokenBuilder:
                 continue
 
             # Handle token numbering
-            self._check_update_numbering(token)
+            self._check_update_numbering(token, in_appendix)
 
             # Handle list depth
             if token["type"] == "list":
-- 
2.43.0


From bcbad00b0307e5e980a44931552ac40e65b3c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:28 +0000
Subject: [PATCH 015/156] fix: a subparagraph inside a section is nested in its
 paragraph

---
 latex2json/structure/builder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2json/structure/builder.py b/latex2json/structure/builder.py
index cdcea09..d485c53 100644
--- a/latex2json/structure/builder.py
+++ b/latex2json/structure/builder.py
@@ -322,9 +322,9 @@ class TokenBuilder:
 
         # Determine where to add the token
         target = (
-            parent_stack[-1]["content"]
-            if parent_stack
-            else (stack[-1]["content"] if stack else organized)
+            stack[-1]["content"]
+            if stack
+            else (parent_stack[-1]["content"] if parent_stack else organized)
         )
         target.append(token)
 
-- 
2.43.0


From 5d2fa2aafc53ccbc7baf0dd8df4e140593eb46ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 016/156] fix: saved boxes and citation aliases no longer leak
 between parser instances

---
 latex2json/parser/handlers/content_command.py | 4 +++-
 latex2json/parser/packages/boxes.py           | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index bcf99b6..d319beb 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -85,7 +85,9 @@ GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
 class ContentCommandHandler(TokenHandler):
-    citealias = {}  # key, alias/title
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        self.citealias = {}  # key, alias/title
 
     def clear(self):
         self.citealias = {}
diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 6dd435a..b27b3c9 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -66,8 +66,10 @@ def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str],
 
 
 class BoxHandler(TokenHandler):
-    saved_boxes = {}
-    numbered_boxes = {}  # Add storage for numbered boxes
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        self.saved_boxes = {}
+        self.numbered_boxes = {}  # Add storage for numbered boxes
 
     def can_handle(self, content: str) -> bool:
         return bool(
-- 
2.43.0


From caa43fd1b7b5b84b75fcabbffb6c7e8aedbc27b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 017/156] fix: each \usebox yields its own copy of the saved
 content

---
 latex2json/parser/packages/boxes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index b27b3c9..f4e761c 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -1,3 +1,4 @@
+import copy
 from typing import Dict, List, Tuple, Optional
 import re
 
@@ -173,7 +174,7 @@ class BoxHandler(TokenHandler):
         elif command == "usebox":
             # Return the saved box content if it exists
             if box_name in self.saved_boxes and self.saved_boxes[box_name] is not None:
-                return self.saved_boxes[box_name], match.end()
+                return copy.deepcopy(self.saved_boxes[box_name]), match.end()
 
         return None, match.end()
 
-- 
2.43.0


From 550b4218036a66351cbb86b55d9a4d3ab1017747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 018/156] fix: names of \let, counters, lengths, ifs and
 csnames are taken literally, not as regular expressions

---
 latex2json/parser/handlers/command_processor.py | 10 +++++-----
 latex2json/parser/handlers/new_definition.py    |  9 ++++++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 0fe83da..f59d79d 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -254,7 +254,7 @@ class CommandProcessor:
         self, command_name: str, left_delim: str, right_delim: str
     ):
         r"""Process a paired delimiter command like \br{content}"""
-        usage_pattern = r"\\" + command_name + r"\*?\s*{"
+        usage_pattern = r"\\" + re.escape(command_name) + r"\*?\s*{"
 
         def handler(
             match: re.Match[str], text: str, math_mode: bool = False
@@ -328,7 +328,7 @@ class CommandProcessor:
 
     def process_newif(self, var_name: str):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"(?:true|false)"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"(?:true|false)"),
             "handler": default_ignore_handler,
         }
         self.commands["newif:" + var_name] = command
@@ -349,14 +349,14 @@ class CommandProcessor:
             return "", start_pos + end_pos
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": handler,
         }
         self.commands["newtoks:" + var_name] = command
 
     def process_newX(self, var_name: str, type: str = "newX"):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + var_name + r"\b"),
+            "pattern": re.compile(r"\\" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands[type + ":" + var_name] = command
@@ -364,7 +364,7 @@ class CommandProcessor:
     def process_newcounter(self, var_name: str):
 
         command: CommandEntry = {
-            "pattern": re.compile(r"\\the" + var_name + r"\b"),
+            "pattern": re.compile(r"\\the" + re.escape(var_name) + r"\b"),
             "handler": default_ignore_handler,
         }
         self.commands["newcounter:" + var_name] = command
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 7166b80..3971633 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -341,14 +341,14 @@ class NewDefinitionHandler(TokenHandler):
                 "content": content,
                 "num_args": 0,
                 "defaults": [],
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         else:
             token = {
                 "type": "let",
                 "name": name,
                 "content": content,
-                "usage_pattern": r"\\" + name + USAGE_SUFFIX,
+                "usage_pattern": r"\\" + re.escape(name) + USAGE_SUFFIX,
             }
         return token, match.end()
 
@@ -496,7 +496,10 @@ class NewDefinitionHandler(TokenHandler):
                                 "\\" + first_inner.replace(" ", "")
                             )
                         inner_csname_regex = (
-                            r"\\csname" + first_inner + r"\\endcsname" + usage_suffix
+                            r"\\csname"
+                            + re.escape(first_inner)
+                            + r"\\endcsname"
+                            + usage_suffix
                         )
                         token["usage_pattern"] = (
                             token["usage_pattern"] + "|" + inner_csname_regex
-- 
2.43.0


From 73b03b1db70d4a34eca48fc08af42869638b2380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:35 +0000
Subject: [PATCH 019/156] fix: \let takes one target and leaves the text after
 it alone

---
 latex2json/parser/handlers/new_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 3971633..6db9c39 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -25,7 +25,9 @@ DEF_COMMAND_PATTERN = re.compile(
     r"%s([^\s{#]+)(((?:#\d+|[^{])*)\s*{)" % (DEF_COMMAND_PREFIX), re.DOTALL
 )
 LET_COMMAND_PATTERN = re.compile(
-    r"%s([^\s{\\]+)\s*(=.*|\\[^\s{]+)" % (LET_COMMAND_PREFIX), re.DOTALL
+    r"%s([^\s{\\=]+|=)\s*(=\s*(?:\\(?:[^a-zA-Z@\s]|[^\s{\\]+)|[^\s{\\]+)|\\(?:[^a-zA-Z@\s]|[^\s{\\]+))"
+    % (LET_COMMAND_PREFIX),
+    re.DOTALL,
 )
 
 EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?:\w+)?(?![a-zA-Z])")
-- 
2.43.0


From 74205363fabc0203ed28132401f355c6e1321e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:27 +0000
Subject: [PATCH 020/156] fix: \csname name\endcsname uses the macro of that
 name

---
 latex2json/parser/handlers/command_processor.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index f59d79d..f7aba7f 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -447,11 +447,18 @@ class CommandProcessor:
         if match:
             nested, end_pos = extract_and_concat_nested_csname(text)
             if nested:
-                for cmd in self.get_command_iter(False):
-                    match = cmd["pattern"].match(text)
+                name = nested.lstrip()
+                cmd = self._all_commands.get(name)
+                if cmd and not cmd.get("math_mode_only", False):
+                    # same as the plain \name, followed by what comes after \endcsname
+                    command = "\\" + name
+                    if text[end_pos : end_pos + 1].isalpha():
+                        command += " "
+                    plain_text = command + text[end_pos:]
+                    match = cmd["pattern"].match(plain_text)
                     if match:
-                        out, _ = cmd["handler"](match, text)
-                        return out, end_pos
+                        out, pos = cmd["handler"](match, plain_text)
+                        return out, end_pos + max(0, pos - len(command))
                 return "", end_pos
         return text, 0
 
-- 
2.43.0


From 0d5b82b1601520a3d54075710f48efe6ed528cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:55 +0000
Subject: [PATCH 021/156] fix: the preprocessor no longer turns \ensuremath
 into plain text

---
 latex2json/parser/tex_preprocessor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5fbc3f3..ec72d31 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -282,6 +282,10 @@ class LatexPreprocessor:
             if self.formatting_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.formatting_handler.handle(content[current_pos:])
                 if end_pos > 0:
+                    if token and token.get("type") == "equation":
+                        # math e.g. \ensuremath, not plain text: leave it for the parser
+                        current_pos += end_pos
+                        continue
                     block = ""
                     if token:
                         block = token.get("content", "")
-- 
2.43.0


From 5cfc6c1d1b2bfa13b9e5c38958d0b8da170d6809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:56 +0000
Subject: [PATCH 022/156] fix: endlessly recursive macros are cut off instead
 of hanging or failing the parse

---
 .../parser/handlers/command_processor.py      | 35 ++++++++++++++++---
 latex2json/parser/tex_parser.py               |  5 +++
 latex2json/parser/tex_preprocessor.py         |  7 ++++
 3 files changed, 43 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index f7aba7f..8ac4d38 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -34,6 +34,33 @@ class CommandEntry(TypedDict):
     math_mode_only: Optional[bool] = False
 
 
+class ExpansionGuard:
+    """Detects runaway macro expansion e.g. \\def\\a{\\b}\\def\\b{\\a}\\a, which never ends"""
+
+    # expansions allowed without getting past the text that follows the outermost call
+    MAX_EXPANSIONS = 10000
+
+    def __init__(self, text: str):
+        self.max_length = 1_000_000 + 100 * len(text)
+        self.min_remaining = len(text) + 1
+        self.count = 0
+
+    def is_runaway(self, expanded_length: int, remaining_length: int) -> bool:
+        """
+        Args:
+            expanded_length: length of the output of this expansion
+            remaining_length: length of the text that follows the call
+        """
+        if remaining_length < self.min_remaining:
+            self.min_remaining = remaining_length
+            self.count = 0
+        self.count += 1
+        return (
+            self.count > self.MAX_EXPANSIONS
+            or expanded_length + remaining_length > self.max_length
+        )
+
+
 def default_ignore_handler(
     match: re.Match[str], text: str, math_mode: bool = False
 ) -> Tuple[str, int]:
@@ -424,13 +451,13 @@ class CommandProcessor:
             name: cmd["pattern"] for name, cmd in command_entries.items()
         }
 
+        max_length = 20_000 + 100 * len(text)
         prev_text = None
         while prev_text != text:
             depth += 1
-            if depth > max_depth:
-                raise RecursionError(
-                    f"Maximum recursion depth ({max_depth}) exceeded. Possible infinite loop in LaTeX commands."
-                )
+            if depth > max_depth or len(text) > max_length:
+                # possible infinite loop in LaTeX commands: leave the rest unexpanded
+                break
             prev_text = text
             text = substitute_patterns(text, command2pattern, sub_fn)
 
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 23392fc..4590ef5 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -28,6 +28,7 @@ from latex2json.parser.handlers import (
 )
 from latex2json.parser.handlers.environment import BaseEnvironmentHandler
 from latex2json.parser.handlers.command_manager import CommandManager
+from latex2json.parser.handlers.command_processor import ExpansionGuard
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     read_tex_file_content,
@@ -501,6 +502,7 @@ class LatexParser:
 
         tokens = []
         current_pos = 0
+        guard = ExpansionGuard(content)
 
         while current_pos < len(content):
             # Skip whitespace
@@ -556,6 +558,9 @@ class LatexParser:
             if self.command_manager.can_handle(content[current_pos:]):
                 text, end_pos = self.command_manager.handle(content[current_pos:])
                 if end_pos > 0:
+                    if guard.is_runaway(len(text), len(content) - current_pos - end_pos):
+                        self.logger.warning("Runaway command expansion, skipping")
+                        text = ""
                     # replace the matched user command with the expanded text
                     content = (
                         content[:current_pos] + text + content[current_pos + end_pos :]
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index ec72d31..4d1a7bf 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -26,6 +26,7 @@ from latex2json.utils.tex_utils import (
 )
 from latex2json.parser.sty_parser import LatexStyParser
 from latex2json.parser.handlers.command_manager import CommandManager
+from latex2json.parser.handlers.command_processor import ExpansionGuard
 
 
 ADD_TO_PATTERN = re.compile(r"\\addto\s*(?:{?\\[^}\s]+}?)\s*\{")  # e.g. \addto\cmd{...}
@@ -191,6 +192,7 @@ class LatexPreprocessor:
         tokens = []  # Store all definition tokens
 
         math_blocks = {}
+        guard = ExpansionGuard(content)
 
         while current_pos < len(content):
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
@@ -300,6 +302,11 @@ class LatexPreprocessor:
                     content[current_pos:]
                 )
                 if end_pos > 0:
+                    if guard.is_runaway(
+                        len(expanded_text), len(content) - current_pos - end_pos
+                    ):
+                        self.logger.warning("Runaway command expansion, skipping")
+                        expanded_text = ""
                     content = (
                         content[:current_pos]
                         + expanded_text
-- 
2.43.0


From 7e92fabbf1db3ce58dc294b68ca8be35b74137c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:33 +0000
Subject: [PATCH 023/156] fix: an incomplete \ifthenelse no longer fails the
 parse

---
 latex2json/parser/handlers/if_else_statements.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 3d8aa73..bcf7732 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -282,8 +282,11 @@ class IfElseBlockHandler(TokenHandler):
             match = pattern.match(content)
             if match:
                 if name == "ifthenelse":
-                    token, end_pos = try_handle_ifthenelse(content, match)
-                    return token, end_pos
+                    try:
+                        return try_handle_ifthenelse(content, match)
+                    except ValueError as e:
+                        self.logger.warning(e)
+                        return None, 0
                 elif name in [
                     "@ifclassloaded",
                     "@ifpackageloaded",
-- 
2.43.0


From 1197f0ebbc99be87df93081313d216c01ae68d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:39 +0000
Subject: [PATCH 024/156] fix: the name given to \newif is taken literally, not
 as a regular expression

---
 latex2json/parser/handlers/if_else_statements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index bcf7732..d9ec79f 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -200,7 +200,7 @@ class IfElseBlockHandler(TokenHandler):
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
-        pattern = re.compile(r"\\if" + var_name + r"(?:true|false)?")
+        pattern = re.compile(r"\\if" + re.escape(var_name) + r"(?:true|false)?")
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
         self._recompile_all_ifs()
-- 
2.43.0


From 8d1531da3b70ab264aedbe15bb6ec5f272fa5f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 025/156] fix: the end position after optional and mandatory
 arguments counts both

---
 latex2json/utils/tex_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 5a57707..c4bdb8b 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -462,11 +462,10 @@ def extract_args(content: str, req_args=0, opt_args=0):
 
     req = []
     if req_args > 0:
-        req, end_pos = extract_nested_content_sequence_blocks(
+        req, req_end_pos = extract_nested_content_sequence_blocks(
             content, "{", "}", max_blocks=req_args
         )
-        if end_pos > 0:
-            content = content[end_pos:]
+        end_pos += req_end_pos
 
     return {"req": req, "opt": opt}, end_pos
 
-- 
2.43.0


From 22203fe583a3420fa4369ca316e1ae98220d8389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:48 +0000
Subject: [PATCH 026/156] fix: tar members cannot write or link outside the
 extraction folder through links

---
 latex2json/tex_file_extractor.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index d8ef713..52b3052 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -62,6 +62,26 @@ class TexFileExtractor:
             "No main TeX file found (no documentclass or begin{document} found)"
         )
 
+    @staticmethod
+    def _stays_inside(member, temp_dir):
+        """Check that extracting a tar member neither writes nor links outside temp_dir."""
+        root = os.path.realpath(temp_dir)
+
+        def inside(path):
+            path = os.path.realpath(path)
+            return path == root or path.startswith(root + os.sep)
+
+        path = os.path.join(root, member.name)
+        if member.issym():
+            # a symlink target is relative to the folder that holds the link
+            return inside(os.path.dirname(path)) and inside(
+                os.path.join(os.path.dirname(path), member.linkname)
+            )
+        if member.islnk():
+            # a hard link target is relative to the archive root
+            return inside(path) and inside(os.path.join(root, member.linkname))
+        return (member.isfile() or member.isdir()) and inside(path)
+
     @staticmethod
     @contextmanager
     def process_compressed_file(compressed_path, cleanup: bool = True):
@@ -133,7 +153,14 @@ class TexFileExtractor:
                             safe_members.append(member)
                         # Extract only safe members (use filter='data' in Python 3.12+ for better security)
                         # For broader compatibility, we extract member by member after checks
+                        # Links are resolved against what was extracted so far, since a
+                        # link may redirect a later, harmless looking path
                         for member in safe_members:
+                            if not TexFileExtractor._stays_inside(member, temp_dir):
+                                print(
+                                    f"[WARNING] Skipping potentially unsafe link or file in tar.gz: {member.name}"
+                                )
+                                continue
                             tar.extract(member, temp_dir)
 
                     main_tex, main_folder_abs = TexFileExtractor.find_main_tex_file(
-- 
2.43.0


From 08f2edfbccfc20506de9afa554f39720bb40c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 027/156] fix: no extracted folder is left behind when
 processing an archive fails

---
 latex2json/tex_file_extractor.py | 4 +++-
 latex2json/tex_reader.py         | 7 ++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 52b3052..973f527 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -100,6 +100,7 @@ class TexFileExtractor:
         main_tex = None
         main_folder_abs = None  # Store the absolute path found by find_main_tex_file
         processed = False
+        handed_over = False  # whether the caller knows about temp_dir
 
         try:
             if compressed_path.endswith(".zip"):
@@ -228,11 +229,12 @@ class TexFileExtractor:
                 )
 
             # Yield the relative path of main_tex from temp_dir and temp_dir itself
+            handed_over = True
             yield main_tex, temp_dir
 
         finally:
             # Clean up temporary directory
-            if cleanup:
+            if cleanup or not handed_over:
                 shutil.rmtree(temp_dir)
 
     @classmethod
diff --git a/latex2json/tex_reader.py b/latex2json/tex_reader.py
index cc98317..51fecb0 100644
--- a/latex2json/tex_reader.py
+++ b/latex2json/tex_reader.py
@@ -28,7 +28,8 @@ class ProcessingResult:
     def cleanup(self):
         """Clean up temporary resources."""
         if self.temp_dir:
-            shutil.rmtree(self.temp_dir)
+            # the folder may have been removed by process_compressed already
+            shutil.rmtree(self.temp_dir, ignore_errors=True)
             self.temp_dir = None
 
 
@@ -194,6 +195,7 @@ class TexReader:
             self.logger.error(error_msg, exc_info=True)
             raise FileNotFoundError(error_msg)
 
+        temp_dir = None
         try:
             with TexFileExtractor.from_compressed(compressed_path, cleanup) as (
                 main_tex,
@@ -207,6 +209,9 @@ class TexReader:
                 output.temp_dir = temp_dir
                 return output
         except Exception as e:
+            # no result is returned that could clean up the extracted files later
+            if temp_dir is not None:
+                shutil.rmtree(temp_dir, ignore_errors=True)
             error_msg = f"Failed to process compressed file {compressed_path}: {str(e)}"
             self.logger.error(error_msg, exc_info=True)
             raise RuntimeError(error_msg) from e
-- 
2.43.0


From 6011e42110869a59a831b539442eeac884c8462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:56 +0000
Subject: [PATCH 028/156] fix: fall back to utf-8 when the detected encoding is
 unknown or broken

---
 latex2json/utils/encoding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index 045f973..53cc0e2 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -54,7 +54,7 @@ def read_file(path):
     try:
         with open(path, "r", encoding=encoding) as f:
             return f.read()
-    except UnicodeDecodeError:
+    except (UnicodeError, LookupError):
         # First fallback: try utf-8 with error handling
         try:
             with open(path, "r", encoding="utf-8", errors="replace") as f:
-- 
2.43.0


From df127628907b4f18dbc2ecd924433b985e7e684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:18 +0000
Subject: [PATCH 029/156] fix: citation aliases of a document do not leak into
 the equations of the next one

---
 latex2json/parser/handlers/equation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 9d723df..dc65f84 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -64,6 +64,7 @@ class EquationHandler(TokenHandler):
 
     def clear(self):
         self.box_handler.clear()
+        self.content_command.clear()
 
     def can_handle(self, content: str) -> bool:
         """Check if content contains an equation pattern."""
-- 
2.43.0


From b9df39bffcfdc7ae05f47b613304e00396c95251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:34 +0000
Subject: [PATCH 030/156] fix: register declarations do not swallow the
 commands behind them

---
 latex2json/parser/handlers/new_definition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 6db9c39..a5269ef 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -95,11 +95,11 @@ PATTERNS = {
     "newcounter": re.compile(
         r"\\(?:(?:re)?newcounter|stepcounter)\s*" + BRACE_CONTENT_PATTERN, re.DOTALL
     ),
-    "newother": re.compile(r"\\(?:re)?new(?:count|dimen|skip|muskip)\s*\\([^\s{[]+)"),
+    "newother": re.compile(r"\\(?:re)?new(?:count|dimen|skip|muskip)\s*\\([^\s{[\\=]+)"),
     "newcolumntype": re.compile(
         r"\\(?:newcolumntype|renewcolumntype)\s*\{[^}]*\}(?:\s*\[\d+\])?\s*{", re.DOTALL
     ),
-    "newfam": re.compile(r"\\newfam\s*\\([^\s{[]+)"),
+    "newfam": re.compile(r"\\newfam\s*\\([^\s{[\\=]+)"),
     "setcounter": re.compile(
         r"\\setcounter\s*%s\s*%s" % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
         re.DOTALL,
-- 
2.43.0


From 3dc873ad891ecfecfb8d78212c9a20672484256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:41 +0000
Subject: [PATCH 031/156] fix: macro parameters have a single digit: #10 is
 parameter 1 followed by 0

---
 latex2json/utils/tex_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index c4bdb8b..16428ed 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -470,9 +470,9 @@ def extract_args(content: str, req_args=0, opt_args=0):
     return {"req": req, "opt": opt}, end_pos
 
 
-NO_ESC_HASH_NUMBER_PATTERN = re.compile(r"(?<!\\)(#+)(\d+)")
+NO_ESC_HASH_NUMBER_PATTERN = re.compile(r"(?<!\\)(#+)([1-9])")
 
-HASH_NUMBER_PATTERN = re.compile(r"(\\#)|(#+)(\d+)")
+HASH_NUMBER_PATTERN = re.compile(r"(\\#)|(#+)([1-9])")
 
 
 def check_string_has_hash_number(text: str) -> bool:
-- 
2.43.0


From 3fc87e6ea668c00c993e2ce58311d1593d1f0749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 032/156] fix: providecommand does not replace an existing
 command

---
 latex2json/parser/handlers/command_manager.py | 3 +++
 latex2json/parser/handlers/new_definition.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 9c9636d..f418ebf 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -75,6 +75,9 @@ class CommandManager(TokenHandler):
         if not self._should_handle_command_type(token["type"]):
             return
 
+        if token.get("provide") and self.processor.has_command(cmd_name):
+            return
+
         # Consolidate command registration logic from sty_parser/tex_parser/tex_preprocessor
         ignore_sty = token.get("is_sty", False) and self.ignore_sty_commands
         math_mode_only = token.get("math_mode_only", False)
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index a5269ef..499547b 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -394,6 +394,9 @@ class NewDefinitionHandler(TokenHandler):
             "defaults": defaults,
             "usage_pattern": pattern,
         }
+        if match.group(0).startswith(r"\providecommand"):
+            # only takes effect if the command does not exist yet
+            token["provide"] = True
 
         return token, start_pos + end_pos - 1
 
-- 
2.43.0


From d027a701cc4cda94eb12b8b69599d1573763856c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:21 +0000
Subject: [PATCH 033/156] fix: percent signs in verbatim material and URLs do
 not start a comment

---
 latex2json/utils/tex_utils.py | 38 +++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 16428ed..dcf1b36 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -322,12 +322,46 @@ def is_escaped(pos: int, text: str) -> bool:
     return count_preceding_backslashes(text, pos) % 2 == 1
 
 
+# Material that is taken literally, where % is an ordinary character
+LITERAL_PERCENT_PATTERN = re.compile(
+    r"\\verb\*?(?P<delim>[^a-zA-Z\s*])[^\n]*?(?P=delim)"
+    r"|\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
+    r"|\\(?:url|path|href)\s*\{[^{}\n]*\}",
+    re.DOTALL,
+)
+LITERAL_PERCENT = "\ue025"  # private use stand-in for a literal %
+
+
+def _mask_literal_percents(text: str) -> str:
+    if "%" not in text:
+        return text
+    pos = 0
+    while match := LITERAL_PERCENT_PATTERN.search(text, pos):
+        # ignore what is commented out itself
+        line_start = text.rfind("\n", 0, match.start()) + 1
+        line_end = text.find("\n", match.start())
+        line_end = len(text) if line_end < 0 else line_end
+        if is_escaped(match.start(), text):
+            pos = match.start() + 1
+        elif any(
+            text[i] == "%" and not is_escaped(i, text)
+            for i in range(line_start, match.start())
+        ):
+            pos = line_end
+        else:
+            block = match.group(0).replace("%", LITERAL_PERCENT)
+            text = text[: match.start()] + block + text[match.end() :]
+            pos = match.end()
+    return text
+
+
 def strip_latex_comments(text: str) -> str:
     r"""
     Remove all LaTeX comments while preserving escaped \% characters.
 
     A % starts a comment if it is preceded by an even number (including zero)
     of consecutive backslashes. An odd number indicates that the % is escaped.
+    Inside verbatim material and URLs, % is an ordinary character.
 
     Args:
         text: Input LaTeX text
@@ -336,7 +370,7 @@ def strip_latex_comments(text: str) -> str:
         Text with all comments removed.
     """
     lines = []
-    for line in text.splitlines():
+    for line in _mask_literal_percents(text).splitlines():
         result = []
         i = 0
         while i < len(line):
@@ -353,7 +387,7 @@ def strip_latex_comments(text: str) -> str:
                 result.append(line[i])
                 i += 1
         lines.append("".join(result).rstrip())
-    return "\n".join(lines)
+    return "\n".join(lines).replace(LITERAL_PERCENT, "%")
 
 
 def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
-- 
2.43.0


From af98c0f41d1b10c644005d8428e6a90d29fa304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 034/156] fix: preprocessing leaves verbatim material and
 percent signs in URLs alone

---
 latex2json/parser/tex_preprocessor.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 4d1a7bf..9a4d396 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -31,6 +31,12 @@ from latex2json.parser.handlers.command_processor import ExpansionGuard
 
 ADD_TO_PATTERN = re.compile(r"\\addto\s*(?:{?\\[^}\s]+}?)\s*\{")  # e.g. \addto\cmd{...}
 
+# code and URLs with a literal %, none of which may be expanded
+LITERAL_PATTERNS = list(VERBATIM_PATTERNS.values())
+LITERAL_PATTERNS.append(
+    re.compile(r"\\(?:url|path|href)\s*\{[^{}\n]*(?<!\\)%[^{}\n]*\}")
+)
+
 ALL_VERBATIM_PATTERNS = list(VERBATIM_PATTERNS.values())
 ALL_VERBATIM_PATTERNS.append(
     re.compile(r"\\begin\s*\{algorithm\}(.*?)\\end\s*\{algorithm\}", re.DOTALL)
@@ -96,8 +102,16 @@ class LatexPreprocessor:
         if end_pos > 0:
             content = content[end_pos:]
 
-        # 3. Process all definitions and expand commands
+        # 3. Process all definitions and expand commands, but not in literal material
+        content, literal_blocks = self._extract_verbatim_blocks(
+            content, LITERAL_PATTERNS, "__LITERAL_BLOCK__"
+        )
         content, tokens = self._process_definitions_and_expand(content, file_dir)
+        for token in tokens:
+            if isinstance(token.get("content"), str):
+                token["content"] = restore_placeholder_blocks(
+                    token["content"], literal_blocks
+                )
         out_tokens.extend(tokens)
 
         # 4. After all expansions, normalize whitespace and lines
@@ -106,6 +120,7 @@ class LatexPreprocessor:
         content, verbatim_blocks = self._extract_verbatim_blocks(content)
         content = normalize_whitespace_and_lines(content)
         content = restore_placeholder_blocks(content, verbatim_blocks)
+        content = restore_placeholder_blocks(content, literal_blocks)
 
         return content, out_tokens
 
@@ -336,13 +351,17 @@ class LatexPreprocessor:
 
         return content, tokens
 
-    def _extract_verbatim_blocks(self, content: str) -> tuple[str, dict]:
+    def _extract_verbatim_blocks(
+        self,
+        content: str,
+        patterns=ALL_VERBATIM_PATTERNS,
+        placeholder_prefix="__VERBATIM_BLOCK__",
+    ) -> tuple[str, dict]:
         """
         Extracts verbatim environments from the content and replaces them with placeholders.
         Returns the modified content and a dictionary mapping placeholders to the original verbatim blocks.
         """
         blocks = {}
-        placeholder_prefix = "__VERBATIM_BLOCK__"
         output = []
         pos = 0
         placeholder_index = 0
@@ -351,7 +370,7 @@ class LatexPreprocessor:
             earliest_match = None
             earliest_start = len(content)
             # Look for the earliest occurrence from any of the verbatim patterns
-            for pattern in ALL_VERBATIM_PATTERNS:
+            for pattern in patterns:
                 m = pattern.search(content, pos)
                 if m and m.start() < earliest_start:
                     earliest_match = m
-- 
2.43.0


From ce81b0d67c404e141e7f3af6a0c2f9bb41aa7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 035/156] fix: preprocessing applies a redefinition only to
 what follows it

---
 latex2json/parser/tex_preprocessor.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 9a4d396..bfb8c7d 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -62,6 +62,10 @@ QUOTE_PATTERNS = {
 }
 
 
+# definitions of commands that are replaced by other text
+MACRO_TYPES = ("newcommand", "def", "let")
+
+
 def restore_placeholder_blocks(content: str, blocks: dict) -> str:
     """
     Restores the blocks in the content by replacing placeholders with the original blocks.
@@ -280,7 +284,15 @@ class LatexPreprocessor:
                 ):
                     current_pos += end_pos
                     continue
+                is_redefinition = token.get("type") in MACRO_TYPES and any(
+                    t.get("type") in MACRO_TYPES and t.get("name") == token.get("name")
+                    for t in tokens
+                )
                 self._process_new_definition_token(token)
+                if is_redefinition and end_pos > 0:
+                    # stays in place, since it must not affect what comes before it
+                    current_pos += end_pos
+                    continue
                 tokens.append(token)
                 if end_pos > 0:
                     content = content[:current_pos] + content[current_pos + end_pos :]
-- 
2.43.0


From ee800820865641fa337f939d10c644a50a375ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 036/156] fix: preprocessing forgets a macro that is redefined
 with arguments

---
 latex2json/parser/handlers/command_manager.py | 4 ++++
 latex2json/parser/tex_preprocessor.py         | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index f418ebf..b3b5574 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -40,6 +40,10 @@ class CommandManager(TokenHandler):
         self.keyval_handler.clear()
         self._unknown_commands = {}
 
+    def forget_command(self, name: str) -> None:
+        self.processor.commands.pop(name, None)
+        self.processor.let_commands.pop(name, None)
+
     def process_definition(
         self, content: str, register: bool = True
     ) -> Tuple[Optional[Dict], int]:
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index bfb8c7d..f58a172 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -282,6 +282,8 @@ class LatexPreprocessor:
                 if token.get("num_args", 0) > 0 or check_string_has_hash_number(
                     token.get("content", "")
                 ):
+                    # from here on, an earlier definition without arguments is void
+                    self.command_manager.forget_command(token.get("name", ""))
                     current_pos += end_pos
                     continue
                 is_redefinition = token.get("type") in MACRO_TYPES and any(
-- 
2.43.0


From 49109d29d4c69b13e890d04fc9283faa2b41ea6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 037/156] fix: \xdef expands its body like \edef

---
 latex2json/parser/handlers/new_definition.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 499547b..0314b22 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -528,7 +528,8 @@ class NewDefinitionHandler(TokenHandler):
         if definition is None:
             return None, start_pos
 
-        is_edef = r"\edef" in content[: match.start(1) or match.start(2)]
+        prefix = content[: match.start(1) or match.start(2)]
+        is_edef = r"\edef" in prefix or r"\xdef" in prefix
 
         # Get command name (will be clean now, without parameters)
         cmd_name = match.group(1) or match.group(2)
-- 
2.43.0


From 511c125c9faa11330db2e91f0bb9bf96b7f789fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 038/156] fix: \let to a macro with arguments keeps the
 arguments

---
 .../parser/handlers/command_processor.py      | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 8ac4d38..3d51916 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -27,6 +27,9 @@ CSNAME_PATTERN = re.compile(
 # COMPARISON_OP_PATTERN = re.compile(r"\s*=\s*%s" % command_or_dim)
 
 
+SINGLE_COMMAND_PATTERN = re.compile(r"\\([a-zA-Z@]+|[^a-zA-Z@\s])")
+
+
 class CommandEntry(TypedDict):
     pattern: Pattern[str]
     handler: Callable[[re.Match[str], str, Optional[bool]], Tuple[str, int]]
@@ -159,7 +162,29 @@ class CommandProcessor:
                 if not cmd.get("math_mode_only", False):
                     yield cmd
 
+    def _copy_command(self, command_name: str, definition: str) -> bool:
+        r"""Make command_name the same as the macro that definition refers to, arguments
+        included e.g. \newcommand{\foo}[1]{..}\let\command_name\foo"""
+        match = SINGLE_COMMAND_PATTERN.fullmatch(definition.strip())
+        target = self._all_commands.get(match.group(1)) if match else None
+        if not target or target.get("math_mode_only", False):
+            return False
+        prefix = r"\\" + re.escape(match.group(1))
+        pattern = target["pattern"].pattern
+        if not pattern.startswith(prefix):
+            return False
+        pattern = r"\\" + re.escape(command_name) + pattern[len(prefix) :]
+        self.commands[command_name] = {
+            **target,
+            "pattern": re.compile(pattern, re.DOTALL),
+        }
+        self.let_commands.pop(command_name, None)
+        return True
+
     def process_let(self, command_name: str, definition: str, usage_pattern: str):
+        if self._copy_command(command_name, definition):
+            return
+
         # for let, we evaluate the definition right way
         definition = self.expand_commands(definition, True)[0]
 
-- 
2.43.0


From 9bcac03905ae45861cfa2e88885095048ca2e655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 039/156] fix: a definition after \let replaces it, and the
 other way round

---
 latex2json/parser/handlers/command_processor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 3d51916..96d0a96 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -199,6 +199,7 @@ class CommandProcessor:
                 "handler": handler,
                 "definition": definition,
             }
+            self.commands.pop(command_name, None)
             self.let_commands[command_name] = command
         except Exception as e:
             print(f"Error processing newcommand {command_name}: {e}")
@@ -297,6 +298,7 @@ class CommandProcessor:
                 "definition": definition,
                 "math_mode_only": math_mode_only,
             }
+            self.let_commands.pop(command_name, None)
             self.commands[command_name] = command
         except Exception as e:
             print(f"Error processing newcommand {command_name}: {e}")
@@ -330,6 +332,7 @@ class CommandProcessor:
                 "pattern": re.compile(usage_pattern, re.DOTALL),
                 "handler": handler,
             }
+            self.let_commands.pop(command_name, None)
             self.commands[command_name] = command
         except Exception as e:
             print(f"Error processing paired delimiter {command_name}: {e}")
@@ -373,6 +376,7 @@ class CommandProcessor:
                 "handler": handler,
                 "definition": definition,
             }
+            self.let_commands.pop(command_name, None)
             self.commands[command_name] = command
         except Exception as e:
             print(f"Error processing newdef {command_name}: {e}")
-- 
2.43.0


From b8d041d4565a863f096ccd7c740e0e5e721cf145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 040/156] fix: an unclosed overpic environment no longer loops
 forever

---
 latex2json/parser/packages/overpic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/packages/overpic.py b/latex2json/parser/packages/overpic.py
index 0622b97..f617b77 100644
--- a/latex2json/parser/packages/overpic.py
+++ b/latex2json/parser/packages/overpic.py
@@ -27,6 +27,9 @@ class OverpicHandler(TokenHandler):
             return None, 0
 
         start_pos, end_pos, env_content = find_matching_env_block(content, "overpic")
+        if start_pos < 0:
+            # no matching \\end{overpic}
+            return None, match.end()
 
         args, _ = extract_args(env_content, 1, 1)
         if args["req"]:
-- 
2.43.0


From 04158cc0d3117c9971ed1c2c5b29725798746495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 041/156] fix: an unclosed tikz or pgf picture no longer loops
 forever

---
 latex2json/parser/packages/tikz_pgf.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/packages/tikz_pgf.py b/latex2json/parser/packages/tikz_pgf.py
index bda51f7..46db46b 100644
--- a/latex2json/parser/packages/tikz_pgf.py
+++ b/latex2json/parser/packages/tikz_pgf.py
@@ -49,6 +49,9 @@ class TikzPGFHandler(TokenHandler):
                     start_pos, end_pos, inner_content = find_matching_env_block(
                         content, env_name
                     )
+                    if start_pos < 0:
+                        # no matching \\end
+                        return None, match.end()
                     return {
                         "type": "diagram",
                         "name": env_name,
-- 
2.43.0


From 2a6d89db757d98ac66fca60077a6f7054f3cf6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 042/156] fix: unknown commands and empty cells inside \mbox
 and \frac no longer raise

---
 latex2json/utils/tex_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index dcf1b36..2860119 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -399,10 +399,13 @@ def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
             return token
         elif isinstance(token, list):
             return flatten_all_to_string(token)
-        elif isinstance(token, dict) and isinstance(token.get("content"), list):
-            return flatten_all_to_string(token["content"])
-        else:
-            return token["content"]
+        elif not isinstance(token, dict):
+            return ""  # e.g. an empty table cell
+        content = token.get("content")
+        if isinstance(content, (str, list)):
+            return flatten_all_to_string(content)
+        # unknown commands have no content
+        return token.get("command", "")
 
     return " ".join(flatten_token(token) for token in tokens)
 
-- 
2.43.0


From 66cb8d9d9c43a28debf734164bfb45cd2e9ef5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 043/156] fix: the name of an unknown command with arguments is
 kept inside \mbox and \frac

---
 latex2json/utils/tex_utils.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 2860119..28dec7c 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -401,11 +401,11 @@ def flatten_all_to_string(tokens: List[Dict | str | List] | str) -> str:
             return flatten_all_to_string(token)
         elif not isinstance(token, dict):
             return ""  # e.g. an empty table cell
+        # unknown commands may have no content
         content = token.get("content")
-        if isinstance(content, (str, list)):
-            return flatten_all_to_string(content)
-        # unknown commands have no content
-        return token.get("command", "")
+        if not isinstance(content, (str, list)):
+            content = ""
+        return token.get("command", "") + flatten_all_to_string(content)
 
     return " ".join(flatten_token(token) for token in tokens)
 
-- 
2.43.0


From e6ff398316c2e625a4c9cf0733e166f9374da7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:05 +0000
Subject: [PATCH 044/156] fix: \name ... \endname pairs need the whole name: no
 hang on rows starting with its letters

---
 latex2json/parser/handlers/environment.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index c223ae5..0337d48 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -17,11 +17,14 @@ ENV_NAME_BRACE_PATTERN = r"\{([^}]*?)\}"
 
 # e.g. \list \endlist, \xxx \endxxx etc
 # make sure to tweak the '1' in end\1 to match the relevant regex group if combining with other patterns
-ENV_PAIR_PATTERN = r"\\((?:\w|@)+\b)(\s*(?:\{[^}]*\}|\[[^]]*\])*\s*.*)\\end\1"
+COMMAND_END = r"(?![a-zA-Z@])"
+ENV_PAIR_PATTERN = (
+    r"\\(?!csname\b)((?:\w|@)+\b)(\s*(?:\{[^}]*\}|\[[^]]*\])*\s*.*)\\end\1" + COMMAND_END
+)
 
 # Check for both \begin{xxx} and \xxx \endxxx e.g. \list \endlist, etc
 ENVIRONMENT_PATTERN = re.compile(
-    r"\\begin\s*%s|%s" % (ENV_NAME_BRACE_PATTERN, ENV_PAIR_PATTERN[:-1] + "2"),
+    r"\\begin\s*%s|%s" % (ENV_NAME_BRACE_PATTERN, ENV_PAIR_PATTERN.replace(r"\1", r"\2")),
     re.DOTALL,
 )
 
@@ -124,8 +127,16 @@ def convert_any_env_pairs_to_begin_end(content: str) -> str:
     while match:
         env_name = match.group(1)
         start_pos, end_pos, inner_content = extract_nested_content_pattern(
-            content, r"\\" + env_name, r"\\end" + env_name
+            content[match.start() :],
+            r"\\" + env_name + COMMAND_END,
+            r"\\end" + env_name + COMMAND_END,
         )
+        if start_pos < 0:
+            # not a pair after all
+            match = pattern.search(content, match.start() + 1)
+            continue
+        start_pos += match.start()
+        end_pos += match.start()
         inner_content = convert_any_env_pairs_to_begin_end(inner_content)
         inner_content = r"\begin{%s}%s\end{%s}" % (env_name, inner_content, env_name)
         content = content[:start_pos] + inner_content + content[end_pos:]
@@ -277,7 +288,9 @@ class BaseEnvironmentHandler(TokenHandler):
                 )
 
                 start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\" + env_name, r"\\end" + env_name
+                    content,
+                    r"\\" + env_name + COMMAND_END,
+                    r"\\end" + env_name + COMMAND_END,
                 )
                 if env_name == "@float":
                     # e.g. \@float{table} -> \begin{@float}{table} -> \begin{table}
-- 
2.43.0


From 1d2a9907186a3f2f84362f3bce2094f96873a55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 045/156] fix: constructs nested hundreds of levels deep no
 longer exceed the recursion limit

---
 latex2json/parser/tex_parser.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 4590ef5..876c183 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -43,6 +43,9 @@ from latex2json.parser.packages import get_all_custom_handlers
 
 UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
 
+# constructs inside constructs; LaTeX itself allows 255 groups
+MAX_NESTING_LEVEL = 120
+
 
 class LatexParser:
     def __init__(self, logger: logging.Logger = None):
@@ -57,6 +60,7 @@ class LatexParser:
         )
         self.current_file_dir = None
         self.current_str = ""
+        self._nesting_level = 0
 
         # color definitions via \definecolor
         self.colors = {}  # e.g. {"mycolor": {"format": "HTML", "value": "FF0000"}}
@@ -495,6 +499,30 @@ class LatexParser:
         if not isinstance(content, str):
             return content
 
+        if self._nesting_level >= MAX_NESTING_LEVEL:
+            self.logger.warning("Nested too deeply, keeping the rest as text")
+            return [{"type": "text", "content": content}]
+
+        self._nesting_level += 1
+        try:
+            return self._parse(
+                content,
+                line_break_delimiter,
+                handle_unknown_commands,
+                handle_legacy_formatting,
+                preprocess,
+            )
+        finally:
+            self._nesting_level -= 1
+
+    def _parse(
+        self,
+        content: str,
+        line_break_delimiter: str,
+        handle_unknown_commands: bool,
+        handle_legacy_formatting: bool,
+        preprocess: bool,
+    ) -> List[Dict]:
         content = strip_latex_comments(content)
 
         if preprocess:
-- 
2.43.0


From 6428659bc4a54b851b33032f111f3305ab5a1dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 046/156] fix: content commands inside math are processed like
 outside of it: their titles and texts build

---
 latex2json/parser/tex_parser.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 876c183..67f3640 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -407,6 +407,15 @@ class LatexParser:
                     token["title"] = self.parse(token["title"])
             elif token["type"] == "abstract":
                 token["content"] = self.parse(token["content"])
+            elif token["type"] == "equation":
+                # tokens inside the math need the same processing as outside of it
+                for key, inner_tokens in token.get("placeholders", {}).items():
+                    prev_env = self.current_env
+                    processed = []
+                    for inner_token in inner_tokens:
+                        self._process_token(inner_token, processed)
+                    token["placeholders"][key] = processed
+                    self.current_env = prev_env
             elif is_env_type:
                 # algorithmic keep as literal?
                 if token.get("content") and token["type"] not in [
-- 
2.43.0


From 9cf98eaf61c778420f143e228a6ee85de8c67e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:45 +0000
Subject: [PATCH 047/156] fix: a tabular without a readable column spec keeps
 its cells

---
 latex2json/parser/handlers/tabular.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index f920e8e..7e5d848 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -326,6 +326,9 @@ class TabularHandler(BaseEnvironmentHandler):
         blocks, end_pos = extract_nested_content_sequence_blocks(
             inner_content, max_blocks=2
         )
+        if not blocks:
+            # no (balanced) column spec: all of it is table content
+            blocks, end_pos = [""], 0
 
         if blocks:
             column_spec = blocks[-1]
-- 
2.43.0


From 481301c2b505683e2dbd3f16ea2c95dc28b00153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:13 +0000
Subject: [PATCH 048/156] fix: equations with \nonumber, \notag or \tag take no
 number

---
 latex2json/parser/handlers/equation.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index dc65f84..023296d 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -27,6 +27,11 @@ EQUATION_ENV = {
     "dmath",  # display math
 }
 
+# environments with one number, whatever lines they have
+SINGLE_NUMBER_ENV = {"equation", "multline", "dmath"}
+
+NO_NUMBER_PATTERN = re.compile(r"\\(?:nonumber|notag|tag\*?)(?![a-zA-Z@])")
+
 # Define equation patterns
 RAW_PATTERNS = OrderedDict(
     [
@@ -125,6 +130,13 @@ class EquationHandler(TokenHandler):
 
         return parsed_equation.strip(), list(reversed(labels))
 
+    def _is_number_suppressed(self, env_name: str, equation: str) -> bool:
+        """Whether \\nonumber, \\notag or \\tag leave the environment without a number"""
+        rows = [equation]
+        if env_name not in SINGLE_NUMBER_ENV:
+            rows = [row for row in equation.split("\\\\") if row.strip()]
+        return bool(rows) and all(NO_NUMBER_PATTERN.search(row) for row in rows)
+
     def _get_equation_delimiter(self, pattern_name: str) -> Optional[str]:
         """Get the delimiter for a given pattern type."""
         delimiters = {
@@ -232,7 +244,7 @@ class EquationHandler(TokenHandler):
 
             if pattern_name in EQUATION_ENV:
                 numbered = not match.group(0).strip().endswith("*}")
-                if numbered:
+                if numbered and not self._is_number_suppressed(pattern_name, equation):
                     token["numbered"] = True
 
             if labels:
-- 
2.43.0


From 64cdad26a33e0b56f154c5d7e242c40edea64e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 049/156] fix: \let to a command does not swallow the
 characters after its name

---
 latex2json/parser/handlers/new_definition.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 0314b22..cbaca90 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -25,6 +25,12 @@ DEF_COMMAND_PATTERN = re.compile(
     r"%s([^\s{#]+)(((?:#\d+|[^{])*)\s*{)" % (DEF_COMMAND_PREFIX), re.DOTALL
 )
 LET_COMMAND_PATTERN = re.compile(
+    r"%s([^\s{\\=]+|=)\s*(=\s*(?:\\(?:[^a-zA-Z@\s]|[a-zA-Z@]+)|[^\s{\\]+)|\\(?:[^a-zA-Z@\s]|[a-zA-Z@]+))"
+    % (LET_COMMAND_PREFIX),
+    re.DOTALL,
+)
+# names given by \csname may hold other characters than letters
+LET_CSNAME_PATTERN = re.compile(
     r"%s([^\s{\\=]+|=)\s*(=\s*(?:\\(?:[^a-zA-Z@\s]|[^\s{\\]+)|[^\s{\\]+)|\\(?:[^a-zA-Z@\s]|[^\s{\\]+))"
     % (LET_COMMAND_PREFIX),
     re.DOTALL,
@@ -167,6 +173,7 @@ class NewDefinitionHandler(TokenHandler):
                         self._handle_let,
                         False,
                         max_csname_blocks=2,
+                        csname_pattern=LET_CSNAME_PATTERN,
                     )
                 elif pattern_name == "def":
                     return self._handle_def_prefix(
@@ -451,6 +458,7 @@ class NewDefinitionHandler(TokenHandler):
         handler: Callable[[str, re.Match], Tuple[Optional[Dict], int]],
         add_usage_suffix=True,
         max_csname_blocks=1,
+        csname_pattern: Optional[re.Pattern] = None,
     ) -> Tuple[Optional[Dict], int]:
         prefix = match.group(0)
         if prefix:
@@ -489,7 +497,10 @@ class NewDefinitionHandler(TokenHandler):
                 if content[start_pos] == "\\":
                     start_pos += 1
                 search_text = search_prefix + content[start_pos:]
-                full_match = full_pattern.match(search_text)
+                pattern = full_pattern
+                if inner_csnames and csname_pattern:
+                    pattern = csname_pattern
+                full_match = pattern.match(search_text)
                 if full_match:
                     token, end_pos = handler(search_text, full_match)
                     if token and inner_csnames:  # allow csname regex compile
-- 
2.43.0


From 6eb8b568d9350aa4e2ea61e1aca405bebe608b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:16 +0000
Subject: [PATCH 050/156] fix: a label after a footnote goes to the enclosing
 construct, not into the footnote

---
 latex2json/parser/tex_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 67f3640..eb4a2a3 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -384,10 +384,12 @@ class LatexParser:
                         tokens.extend(input_tokens)
                 return
             elif token["type"] in ["footnote", "caption"]:
-                # prev_env = self.current_env
+                prev_env = self.current_env
                 self.current_env = token
                 token["content"] = self.parse(token["content"])
-                # self.current_env = prev_env
+                if token["type"] == "footnote":
+                    # unlike a caption, a footnote takes no label that follows it
+                    self.current_env = prev_env
             elif token["type"] == "url":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-- 
2.43.0


From cc545ea5f54c52d10623d0f18aa5d1700361caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:36 +0000
Subject: [PATCH 051/156] fix: the tabular token keeps its labels and styles

---
 latex2json/structure/tokens/tabular.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/tabular.py b/latex2json/structure/tokens/tabular.py
index 488c5fa..84858ab 100644
--- a/latex2json/structure/tokens/tabular.py
+++ b/latex2json/structure/tokens/tabular.py
@@ -92,7 +92,11 @@ class TabularToken(BaseToken):
                 else:
                     row_cells.append(cell)
             all_cells.append(row_cells)
-        return cls(content=all_cells)
+        return cls(
+            content=all_cells,
+            styles=data.get("styles"),
+            labels=data.get("labels"),
+        )
 
     @classmethod
     def _process_nested_list(
-- 
2.43.0


From 001c0aba25dab12b36660b5ca53e8321440d3a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 052/156] fix: the optional arguments of a minipage are no
 content

---
 latex2json/parser/handlers/environment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 0337d48..392c278 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -99,7 +99,8 @@ ENV_TYPES = {
 # Add to your environment configurations
 ENV_ARGS = {
     "thebibliography": {"mandatory": 1},  # Expects 1 mandatory argument
-    "minipage": {"mandatory": 1},  # Expects 1 mandatory argument
+    # position, height and inner position, then width
+    "minipage": {"optional": 3, "mandatory": 1},
     "list": {"mandatory": 2},  # usually used as \list{label}{spacing}
     "adjustwidth": {"mandatory": 2},  # usually used as \adjustwidth{left}{right}
     "spacing": {"mandatory": 1},  # usually used as \spacing{1em}
-- 
2.43.0


From 0fc6911a287f8881fbc4f0d22242e826ebe59577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 053/156] fix: a braced first cell of a table is no second
 column spec

---
 latex2json/parser/handlers/tabular.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 7e5d848..f5082a2 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -324,7 +324,9 @@ class TabularHandler(BaseEnvironmentHandler):
 
         # Extract column spec using nested content extraction
         blocks, end_pos = extract_nested_content_sequence_blocks(
-            inner_content, max_blocks=2
+            inner_content,
+            # tabular*, tabularx and tabulary take a width before the column spec
+            max_blocks=2 if env_type in ("tabular*", "tabularx", "tabulary") else 1,
         )
         if not blocks:
             # no (balanced) column spec: all of it is table content
-- 
2.43.0


From f63bafdebc3ec1f45d2a4ce29c13f706bf7696b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 054/156] fix: table cells keep the text around makecell,
 multicolumn and multirow, and nested ones leave no placeholder

---
 latex2json/parser/handlers/tabular.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index f5082a2..67fa12e 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -111,12 +111,24 @@ def split_cells(row: str) -> List[str]:
     for cell in cells:
         if cell:
             match = MAKECELL_SHORTSTACK_PATTERN.search(cell)
-            if match:
-                cell, end_pos = extract_nested_content(cell[match.end() - 1 :])
+            while match:
+                start_pos = match.end() - 1
+                content, end_pos = extract_nested_content(cell[start_pos:])
+                if content is None:
+                    break
+                cell = cell[: match.start()] + content + cell[start_pos + end_pos :]
+                match = MAKECELL_SHORTSTACK_PATTERN.search(cell)
         out_cells.append(cell)
     return out_cells
 
 
+def replace_span(content: str, match: re.Match, blocks: List[str], end_pos: int) -> str:
+    """Replace a multicolumn/multirow command in a cell by the text that it spans"""
+    text = blocks[-1].strip() if blocks else ""
+    after = content[match.end() - 1 + end_pos :]
+    return (content[: match.start()] + text + after).strip()
+
+
 def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
     """
     Parse LaTeX table into structured format with rows and cells containing content and span information
@@ -152,7 +164,7 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
                     blocks, end_pos = extract_nested_content_sequence_blocks(
                         content[start_pos:], max_blocks=2
                     )
-                    content = blocks[-1].strip() if blocks else ""
+                    content = replace_span(content, mcol_match, blocks, end_pos)
 
                 # Then handle multirow within the content
                 mrow_match = MULTIROW_PATTERN.search(content)
@@ -162,7 +174,7 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
                     blocks, end_pos = extract_nested_content_sequence_blocks(
                         content[start_pos:], max_blocks=2
                     )
-                    content = blocks[-1].strip() if blocks else ""
+                    content = replace_span(content, mrow_match, blocks, end_pos)
 
                 # Create cell structure
                 parsed_content = cell_parser_fn(content) if cell_parser_fn else content
@@ -353,7 +365,8 @@ class TabularHandler(BaseEnvironmentHandler):
             flattened_content, reference_map = flatten_tokens(processed_content)
 
             # then set back the table structures to the original content
-            for ref_key, structure in table_structures.items():
+            # (the later ones can hold references to the earlier ones)
+            for ref_key, structure in reversed(table_structures.items()):
                 flattened_content = flattened_content.replace(
                     ref_key, structure["content"]
                 )
-- 
2.43.0


From 64e94deb2641f495c3eab07f686674eda317d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:05 +0000
Subject: [PATCH 055/156] fix: spanning cells of nested tables leave no
 placeholder

---
 latex2json/parser/handlers/tabular.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 67fa12e..4b4f214 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -204,6 +204,27 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
     return parsed_rows
 
 
+def find_nested_table_end(content: str, pos: int) -> int:
+    """End of the nested table around this position, or -1 if it is in none"""
+    match = TABULAR_PATTERN.search(content)
+    while match and match.start() < pos:
+        end_pos = -1
+        if match.group(1):
+            _, end_pos, _ = find_matching_env_block(
+                content, content[match.start(1) : match.end() - 1], match.start()
+            )
+        else:
+            _, end_pos, _ = extract_nested_content_pattern(
+                content[match.start() :], r"\\tabular", r"\\endtabular"
+            )
+            if end_pos > 0:
+                end_pos += match.start()
+        if end_pos > pos:
+            return end_pos
+        match = TABULAR_PATTERN.search(content, max(end_pos, match.end()))
+    return -1
+
+
 def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
     """Extract multicolumn, multirow and makecell structures and replace with references"""
     reference_map = {}
@@ -224,6 +245,12 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
             if not match:
                 break
 
+            # structures of nested tables are left to these
+            nested_end = find_nested_table_end(current_content[pos:], match.start())
+            if nested_end > 0:
+                pos += nested_end
+                continue
+
             start_pos = pos + match.end() - 1
             blocks, end_pos = extract_nested_content_sequence_blocks(
                 current_content[start_pos:], max_blocks=block_count
-- 
2.43.0


From ac17b1a7282c652d4c5855f7dc396b31eb94e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 056/156] fix: escaped delimiters neither start nor end math,
 and \( \) may span lines

---
 latex2json/parser/handlers/equation.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 023296d..c400f44 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -35,10 +35,20 @@ NO_NUMBER_PATTERN = re.compile(r"\\(?:nonumber|notag|tag\*?)(?![a-zA-Z@])")
 # Define equation patterns
 RAW_PATTERNS = OrderedDict(
     [
-        ("equation_display_$$", re.compile(r"\$\$([\s\S]*?)\$\$", re.DOTALL)),
-        ("equation_inline_$", re.compile(r"\$([^$]*)\$")),
-        ("equation_display_brackets", re.compile(r"\\\[(.*?)\\\]", re.DOTALL)),
-        ("equation_inline_brackets", re.compile(r"\\\((.*?)\\\)")),
+        # a delimiter after a backslash is no delimiter e.g. \$ or \\]
+        (
+            "equation_display_$$",
+            re.compile(r"\$\$((?:\\.|[^\\])*?)\$\$", re.DOTALL),
+        ),
+        ("equation_inline_$", re.compile(r"\$((?:\\.|[^$\\])*)\$", re.DOTALL)),
+        (
+            "equation_display_brackets",
+            re.compile(r"\\\[((?:\\[^\]]|[^\\])*?)\\\]", re.DOTALL),
+        ),
+        (
+            "equation_inline_brackets",
+            re.compile(r"\\\(((?:\\[^)]|[^\\])*?)\\\)", re.DOTALL),
+        ),
     ]
 )
 
-- 
2.43.0


From e75191ca6bf91d2c837c5306fe9da076ed281227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:26 +0000
Subject: [PATCH 057/156] fix: bracket math with brackets or unbalanced braces
 in its text is not lost

---
 latex2json/parser/handlers/equation.py | 3 ++-
 latex2json/utils/tex_utils.py          | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index c400f44..11e0a63 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -226,10 +226,11 @@ class EquationHandler(TokenHandler):
                 if not delimiter:
                     return None, 0
 
-                equation, proper_end = extract_equation_content(
+                proper_equation, proper_end = extract_equation_content(
                     content[match.start() :], delimiter
                 )
                 if proper_end > 0:
+                    equation = proper_equation
                     end_pos = match.start() + proper_end
 
             # Process equation content
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 28dec7c..da23c11 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -466,15 +466,16 @@ def extract_equation_content(content: str, delimiter: str) -> Tuple[str, int]:
 
     Args:
         content: Input text containing equation
-        delimiter: Equation delimiter ($ or $$)
+        delimiter: Closing equation delimiter ($, $$, \\] or \\))
 
     Returns:
         Tuple[str, int]: (equation content, end position)
     """
-    if not content.startswith(delimiter):
+    opening = {"\\]": "\\[", "\\)": "\\("}.get(delimiter, delimiter)
+    if not content.startswith(opening):
         return "", 0
 
-    start = len(delimiter)
+    start = len(opening)
     end_pos = find_delimiter_end(content, start, delimiter)
 
     if end_pos < 0:
-- 
2.43.0


From 05bfc91b154d33026e42f50ac573edc9996ae31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:42 +0000
Subject: [PATCH 058/156] fix: a letter after a line break in math is not taken
 for a formatting command

---
 latex2json/parser/handlers/equation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index 11e0a63..e14033e 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -89,6 +89,10 @@ class EquationHandler(TokenHandler):
         """Remove LaTeX formatting commands from equation."""
         backslash_pos = equation.find("\\")
         while backslash_pos >= 0:
+            if equation.startswith("\\\\", backslash_pos):
+                # line break: its second backslash begins no command
+                backslash_pos = equation.find("\\", backslash_pos + 2)
+                continue
             incr = 1
             x, end_pos = self.formatter.handle(
                 equation[backslash_pos:], exclude_patterns=["spacing"]
-- 
2.43.0


From 0ea6f915f6bc5be23d616497f74911d8016f43c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 059/156] fix: a macro name after a line break is not expanded

---
 latex2json/parser/tex_preprocessor.py |  3 ++-
 latex2json/utils/tex_utils.py         | 16 ++++++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index f58a172..8fa5f58 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -358,7 +358,8 @@ class LatexPreprocessor:
                     )
                     continue
 
-            current_pos += 1
+            # the second backslash of a line break begins no command
+            current_pos += 2 if content.startswith("\\\\", current_pos) else 1
 
         # restore math blocks
         content = restore_placeholder_blocks(content, math_blocks)
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index da23c11..466124e 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -228,6 +228,16 @@ def flatten(lst):
     return result
 
 
+def is_escaped_backslash(text: str, pos: int) -> bool:
+    r"""Whether the backslash at pos is the second one of a line break i.e. \\\\"""
+    if not text.startswith("\\", pos):
+        return False
+    start = pos
+    while start > 0 and text[start - 1] == "\\":
+        start -= 1
+    return (pos - start) % 2 == 1
+
+
 def substitute_patterns(
     text: str,
     patterns: Dict[str, re.Pattern],
@@ -242,6 +252,12 @@ def substitute_patterns(
         while match:
             start_pos = current_pos + match.start()
 
+            if is_escaped_backslash(text, start_pos):
+                # the second backslash of a line break begins no command
+                current_pos = start_pos + 1
+                match = pattern.search(text[current_pos:])
+                continue
+
             converted, end_pos = substitute_fn(text[current_pos:], match, key)
             current_pos += end_pos
 
-- 
2.43.0


From bd6ad6ca32dcb6a8380a21c3dad753c727a1ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:05 +0000
Subject: [PATCH 060/156] fix: verbatim* is code as well

---
 latex2json/parser/handlers/code_block.py | 5 +++--
 latex2json/utils/tex_utils.py            | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/code_block.py b/latex2json/parser/handlers/code_block.py
index 9e3225c..19f83dc 100644
--- a/latex2json/parser/handlers/code_block.py
+++ b/latex2json/parser/handlers/code_block.py
@@ -5,7 +5,8 @@ from latex2json.parser.handlers.base import TokenHandler
 # Compile patterns for code blocks
 PATTERNS = {
     "verbatim_env": re.compile(
-        r"\\begin\s*\{verbatim\}(.*?)\\end\s*\{verbatim\}", re.DOTALL
+        r"\\begin\s*\{verbatim(?P<star>\*?)\}(.*?)\\end\s*\{verbatim(?P=star)\}",
+        re.DOTALL,
     ),
     "lstlisting": re.compile(
         r"\\begin\s*\{lstlisting\}(?:\[([^\]]*)\])?(.*?)\\end\s*\{lstlisting\}",
@@ -32,7 +33,7 @@ class CodeBlockHandler(TokenHandler):
                 if pattern_name == "verbatim_env":
                     return {
                         "type": "code",
-                        "content": match.group(1).strip(),
+                        "content": match.group(2).strip(),
                     }, match.end()
 
                 elif pattern_name == "verb_command":
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 466124e..c2313bf 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -341,7 +341,7 @@ def is_escaped(pos: int, text: str) -> bool:
 # Material that is taken literally, where % is an ordinary character
 LITERAL_PERCENT_PATTERN = re.compile(
     r"\\verb\*?(?P<delim>[^a-zA-Z\s*])[^\n]*?(?P=delim)"
-    r"|\\begin\s*\{(?P<env>verbatim|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
+    r"|\\begin\s*\{(?P<env>verbatim\*?|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
     r"|\\(?:url|path|href)\s*\{[^{}\n]*\}",
     re.DOTALL,
 )
-- 
2.43.0


From f173b8e9bbe032cf584b207975af1f36010b62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:09 +0000
Subject: [PATCH 061/156] fix: brackets in braces do not end the options of a
 listing

---
 latex2json/parser/handlers/code_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/code_block.py b/latex2json/parser/handlers/code_block.py
index 19f83dc..5b289e2 100644
--- a/latex2json/parser/handlers/code_block.py
+++ b/latex2json/parser/handlers/code_block.py
@@ -9,7 +9,7 @@ PATTERNS = {
         re.DOTALL,
     ),
     "lstlisting": re.compile(
-        r"\\begin\s*\{lstlisting\}(?:\[([^\]]*)\])?(.*?)\\end\s*\{lstlisting\}",
+        r"\\begin\s*\{lstlisting\}(?:\[((?:\{(?:[^{}]|\{[^{}]*\})*\}|[^\]{}])*)\])?(.*?)\\end\s*\{lstlisting\}",
         re.DOTALL,
     ),
     "verb_command": re.compile(
-- 
2.43.0


From 993583abbcad7cf68e820a57577118a8dc32438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 062/156] fix: ends, begins and items in code do not count in
 the surrounding environment or list

---
 latex2json/parser/handlers/environment.py |  2 +
 latex2json/utils/tex_utils.py             | 53 +++++++++++++++++++++--
 2 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 392c278..6819f44 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -5,6 +5,7 @@ from latex2json.utils.tex_utils import (
     extract_args,
     extract_nested_content,
     extract_nested_content_pattern,
+    mask_verbatim,
     extract_nested_content_sequence_blocks,
     find_matching_env_block,
     substitute_args,
@@ -163,6 +164,7 @@ def find_pattern_while_skipping_nested_envs(
         if no match is found
     """
     end_pos = -1
+    content = mask_verbatim(content)
 
     next_match = pattern.search(content[start_pos:])
     while next_match:
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index c2313bf..686bd37 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -111,6 +111,36 @@ def extract_nested_content_sequence_blocks(
     return blocks, last_valid_pos
 
 
+# code, in which commands have no meaning
+VERBATIM_PATTERN = re.compile(
+    r"\\verb\*?(?P<delim>[^a-zA-Z\s*])[^\n]*?(?P=delim)"
+    r"|\\begin\s*\{(?P<env>verbatim\*?|lstlisting)\}.*?\\end\s*\{(?P=env)\}",
+    re.DOTALL,
+)
+
+
+def has_verbatim(text: str) -> bool:
+    return "\\verb" in text or "{verbatim" in text or "{lstlisting" in text
+
+
+def mask_verbatim(text: str) -> str:
+    """Blank out code, keeping the length, in order to find what is outside of it"""
+    if not has_verbatim(text):
+        return text
+    out = []
+    copied = 0
+    pos = 0
+    while match := VERBATIM_PATTERN.search(text, pos):
+        pos = match.start() + 1
+        if not is_escaped(match.start(), text):
+            pos = match.end()
+            out.append(text[copied : match.start()])
+            out.append(" " * (pos - match.start()))
+            copied = pos
+    out.append(text[copied:])
+    return "".join(out)
+
+
 def extract_nested_content_pattern(
     text: str, begin_pattern: re.Pattern | str, end_pattern: re.Pattern | str
 ) -> Tuple[int, int, str]:
@@ -128,10 +158,25 @@ def extract_nested_content_pattern(
     if isinstance(end_pattern, str):
         end_pattern = re.compile(end_pattern)
 
+    start_pos, end_pos, content = _find_nested_content(text, begin_pattern, end_pattern)
+    if has_verbatim(text if end_pos < 0 else text[:end_pos]):
+        # patterns inside of code do not count
+        start_pos, end_pos, content = _find_nested_content(
+            mask_verbatim(text), begin_pattern, end_pattern
+        )
+    if end_pos < 0:
+        return -1, -1, ""
+    return start_pos, end_pos, text[content[0] : content[1]]
+
+
+def _find_nested_content(
+    text: str, begin_pattern: re.Pattern, end_pattern: re.Pattern
+) -> Tuple[int, int, Tuple[int, int]]:
+    """Positions of the block between regex patterns and of its content, or -1"""
     # Find the first beginning pattern
     begin_match = begin_pattern.search(text)
     if not begin_match:
-        return -1, -1, ""
+        return -1, -1, (-1, -1)
 
     nesting_level = 1
     current_pos = begin_match.end()
@@ -144,19 +189,19 @@ def extract_nested_content_pattern(
         end_match = end_pattern.search(text, current_pos)
 
         if not end_match:
-            return -1, -1, ""
+            return -1, -1, (-1, -1)
 
         if not begin_match or end_match.start() < begin_match.start():
             nesting_level -= 1
             if nesting_level == 0:
-                content = text[content_start : end_match.start()]
+                content = (content_start, end_match.start())
                 return start_pos, end_match.end(), content
             current_pos = end_match.end()
         else:
             nesting_level += 1
             current_pos = begin_match.end()
 
-    return -1, -1, ""
+    return -1, -1, (-1, -1)
 
 
 def find_matching_env_block(
-- 
2.43.0


From 1c5819d6eb8cff6693abd0499bd3d352cd20a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:27 +0000
Subject: [PATCH 063/156] fix: a conditional without end at the end of the text
 is not swallowed

---
 latex2json/parser/handlers/if_else_statements.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index d9ec79f..a6a602a 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -153,6 +153,9 @@ def extract_else_elseif_fi(
 
         pos += next_match.end()
 
+    if nesting_level > 0:
+        raise ValueError("Unclosed conditional block")
+
     return (
         "".join(if_content).strip(),
         "".join(else_content).strip(),
-- 
2.43.0


From df6b36fc6255537daae04e89e7253afbd05e1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 064/156] fix: symbols and brace conditionals within a
 conditional do not hide its end

---
 .../parser/handlers/if_else_statements.py     | 40 ++++++++++++++++---
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index a6a602a..87211a3 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -9,7 +9,9 @@ from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks
 from latex2json.parser.patterns import command_with_opt_brace_pattern, command_or_dim
 
 # Could be character, command, or more complex token
-char_or_command_pattern = r"(?:{\s*)?(?:\\[a-zA-Z@]+|\S)(?:\s*})?"
+char_or_command_pattern = (
+    r"(?:{\s*)?(?:\\(?!(?:else|or|fi)(?![a-zA-Z@]))[a-zA-Z@]+|[^\s\\])(?:\s*})?"
+)
 
 default_if_pattern = r"\s*(%s\s*%s|.+?)(?=\\|\s|$|\n)" % (
     char_or_command_pattern,
@@ -36,12 +38,25 @@ ifx_pattern = re.compile(
 )
 
 
-IF_PATTERN = re.compile(r"\\(?:@)?if%s" % (default_if_pattern))
-ELSE_PATTERN = re.compile(r"\\else\b")
+# commands whose names begin with if, but which no \\fi ends: symbols and those with
+# their branches in braces
+NO_FI_COMMANDS = r"if(?:%s)|@if(?:%s)" % (
+    "f|thenelse|bool|toggle|blank|def|undef|csdef|csundef|defempty|csempty|defvoid|csvoid"
+    "|defmacro|csmacro|defstring|csstring|strempty|strequal|numcomp|numequal|numgreater"
+    "|numless|numodd|dimcomp|FileExists",
+    "nextchar|star|undefined|definable|classloaded|packageloaded|classlater"
+    "|packagelater|classwith|packagewith|l@aded|l@ter|f@rmat",
+)
+
+IF_PATTERN = re.compile(
+    r"\\(?!(?:%s)(?![a-zA-Z@]))(?:@)?if%s" % (NO_FI_COMMANDS, default_if_pattern)
+)
+ELSE_PATTERN = re.compile(r"\\else(?![a-zA-Z@])")
 ELSIF_PATTERN = re.compile(
     r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
 )  # Matches both \elsif and \elseif
-FI_PATTERN = re.compile(r"\\fi\b")
+FI_PATTERN = re.compile(r"\\fi(?![a-zA-Z@])")
+NEWIF_PATTERN = re.compile(r"\\newif\s*(?:\{\s*)?$")
 
 value_pattern = r"\\value\s*{\s*([a-zA-Z@]+)\s*}"
 numbered_command_pattern = r"\\([a-zA-Z@]+)(\d+)"
@@ -79,6 +94,16 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
     }
 )
 
+# these have their branches in braces
+NO_FI_NAMES = {
+    "ifthenelse",
+    "iffileexists",
+    "@ifclassloaded",
+    "@ifpackageloaded",
+    "@ifundefined",
+    "@ifstar",
+}
+
 
 def extract_else_elseif_fi(
     content: str,
@@ -125,6 +150,10 @@ def extract_else_elseif_fi(
             current_buffer.append(content[pos : pos + next_match.end()])
 
         if match_type == "start":
+            # \newif\iffoo declares a conditional, it does not begin one
+            if NEWIF_PATTERN.search(content, 0, pos + next_match.start()):
+                pos += next_match.end()
+                continue
             nesting_level += 1
         elif match_type == "end":
             nesting_level -= 1
@@ -217,7 +246,8 @@ class IfElseBlockHandler(TokenHandler):
             return
         pattern = ""
         for k, v in self.all_ifs:
-            pattern += "|" + v.pattern
+            if k not in NO_FI_NAMES:
+                pattern += "|" + v.pattern
         if pattern.startswith("|"):
             pattern = pattern[1:]
         self.all_ifs_compiled = re.compile(pattern)
-- 
2.43.0


From 55015837e2691271c2635856593b9651a17f1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:43 +0000
Subject: [PATCH 065/156] fix: ifcase keeps the branch it selects, and the last
 or branch is not lost

---
 .../parser/handlers/if_else_statements.py     | 47 +++++++++----------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 87211a3..008efff 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -53,8 +53,8 @@ IF_PATTERN = re.compile(
 )
 ELSE_PATTERN = re.compile(r"\\else(?![a-zA-Z@])")
 ELSIF_PATTERN = re.compile(
-    r"\\els(?:e)?if%s|\\or%s\b" % (default_if_pattern, default_if_pattern)
-)  # Matches both \elsif and \elseif
+    r"\\els(?:e)?if%s|\\or(?![a-zA-Z@])\s*(?P<or>[^\\\s]*)\s*" % default_if_pattern
+)  # Matches both \elsif and \elseif, and \or of \ifcase with the word after it
 FI_PATTERN = re.compile(r"\\fi(?![a-zA-Z@])")
 NEWIF_PATTERN = re.compile(r"\\newif\s*(?:\{\s*)?$")
 
@@ -84,7 +84,7 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
         "ifnum": re.compile(ifnum_pattern),
         "ifdim": re.compile(ifdim_pattern),
         "ifcat": re.compile(ifcat_pattern),
-        "ifcase": re.compile(r"\\ifcase" + default_if_pattern),
+        "ifcase": re.compile(rf"\\ifcase\s*{counter_or_num}"),
         "iffileexists": re.compile(r"\\IfFileExists\s*\{"),
         "@ifclassloaded": re.compile(r"\\@ifclassloaded\s*\{"),
         "@ifpackageloaded": re.compile(r"\\@ifpackageloaded\s*\{"),
@@ -115,10 +115,9 @@ def extract_else_elseif_fi(
     nesting_level = 1
     pos = 0
     content_length = len(content)
-    if_content = []
+    branches = [("", [])]  # condition, content of the if branch and the elsif branches
     else_content = []
-    elsif_branches = []
-    current_buffer = if_content
+    current_buffer = branches[0][1]
 
     while pos < content_length and nesting_level > 0:
         # Find all possible next matches
@@ -158,37 +157,25 @@ def extract_else_elseif_fi(
         elif match_type == "end":
             nesting_level -= 1
         elif match_type == "else" and nesting_level == 1:
-            if elsif_branches:
-                condition = elsif_branches[-1][0]
-                elsif_branches[-1] = (condition, "".join(current_buffer).strip())
             current_buffer = else_content
         elif match_type == "elsif" and nesting_level == 1:
-            # First save the content we've collected so far
-            current_content = "".join(current_buffer).strip()
-            if current_buffer == if_content:
-                if_content = [current_content]
-            else:
-                # Add the previous elsif branch
-                condition = elsif_branches[-1][0]
-                elsif_branches[-1] = (condition, current_content)
-
             # Start new buffer for the next elsif branch
-            current_buffer = (
-                []
-            )  # Create new empty buffer for collecting the next branch
-            elsif_condition = next_match.group(1)
-            elsif_branches.append((elsif_condition, ""))
-            current_buffer = []  # Reset buffer to collect the elsif content
+            current_buffer = []
+            condition = next_match.group(1)
+            if condition is None:
+                condition = next_match.group(0)[len("\\or") :].lstrip()
+            branches.append((condition, current_buffer))
 
         pos += next_match.end()
 
     if nesting_level > 0:
         raise ValueError("Unclosed conditional block")
 
+    contents = [(condition, "".join(buf).strip()) for condition, buf in branches]
     return (
-        "".join(if_content).strip(),
+        contents[0][1],
         "".join(else_content).strip(),
-        elsif_branches,
+        contents[1:],
         pos,
     )
 
@@ -364,6 +351,14 @@ class IfElseBlockHandler(TokenHandler):
                                 start_delimiter=self.all_ifs_compiled or IF_PATTERN,
                             )
                         )
+                        if name == "ifcase":
+                            # \ifcase n selects the branch after the n-th \or
+                            number = re.search(r"\\ifcase\s*(\d+)$", out_str)
+                            cases = [if_content] + [c + b for c, b in elsif_branches]
+                            if number:
+                                n = int(number.group(1))
+                                if_content = cases[n] if n < len(cases) else else_content
+
                         # Swap if_content and else_content for \iffalse
                         if condition.replace("{", "").replace("}", "") == "false":
                             if_content, else_content = else_content, if_content
-- 
2.43.0


From b1535b969a3056027767aa78a7c75c99250e83de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:47 +0000
Subject: [PATCH 066/156] fix: the condition of ifodd and of ifnum with a sign
 stays out of the text

---
 latex2json/parser/handlers/if_else_statements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 008efff..0fba720 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -61,7 +61,7 @@ NEWIF_PATTERN = re.compile(r"\\newif\s*(?:\{\s*)?$")
 value_pattern = r"\\value\s*{\s*([a-zA-Z@]+)\s*}"
 numbered_command_pattern = r"\\([a-zA-Z@]+)(\d+)"
 
-counter_or_num = rf"(?:{value_pattern}|{numbered_command_pattern}|{command_with_opt_brace_pattern}|\d+)"
+counter_or_num = rf"(?:{value_pattern}|{numbered_command_pattern}|{command_with_opt_brace_pattern}|[-+]?\d+)"
 
 # Allow either order around operator
 ifnum_pattern = rf"\\ifnum\s*{counter_or_num}\s*([=<>])\s*{counter_or_num}"
@@ -82,6 +82,7 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
             r"\\if(?:un)?defined\s*%s" % (command_with_opt_brace_pattern)
         ),
         "ifnum": re.compile(ifnum_pattern),
+        "ifodd": re.compile(rf"\\ifodd\s*(?:{value_pattern}|[-+]?\d+)"),
         "ifdim": re.compile(ifdim_pattern),
         "ifcat": re.compile(ifcat_pattern),
         "ifcase": re.compile(rf"\\ifcase\s*{counter_or_num}"),
-- 
2.43.0


From 3f91a38a6df540f7b5eb4dfff23e277731c54411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:51 +0000
Subject: [PATCH 067/156] fix: IfFileExists keeps one of its branches

---
 latex2json/parser/handlers/if_else_statements.py | 2 ++
 latex2json/parser/sty_parser.py                  | 6 +++---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 0fba720..a28a3f6 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -314,6 +314,8 @@ class IfElseBlockHandler(TokenHandler):
                     "@ifundefined",
                 ]:
                     return self._handle_atif(content, match, name)
+                elif name == "iffileexists":
+                    return self._handle_iffileexists(content, match)
                 elif name == "@ifstar":
                     return self._handle_ifstar(content, match)
                 # elif name == "equal":
diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index f9672e1..e13fe4c 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -119,10 +119,8 @@ class LatexStyParser:
                 block = ""
                 if token:
                     typing = token.get("type", "")
-                    if "@" not in typing:
-                        block = token.get("if_content", "")
                     # Handle iffileexists condition
-                    elif typing == "conditional-iffileexists":
+                    if typing == "conditional-iffileexists":
                         block = token.get("else_content", "")
 
                         file_path = token.get("condition", "").strip()
@@ -133,6 +131,8 @@ class LatexStyParser:
                                 )
                             if os.path.exists(file_path):
                                 block = token.get("if_content", "")
+                    elif "@" not in typing:
+                        block = token.get("if_content", "")
                 return block, current_pos + end_pos
         return None, current_pos
 
-- 
2.43.0


From 35e2f5e1ab5a5912247790235a599c182404d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:59 +0000
Subject: [PATCH 068/156] fix: an expansion ending in a command does not absorb
 the letters that follow it

---
 latex2json/parser/handlers/command_processor.py |  4 +++-
 latex2json/parser/tex_parser.py                 |  9 +++++----
 latex2json/parser/tex_preprocessor.py           | 11 +++++------
 latex2json/utils/tex_utils.py                   | 13 +++++++++++++
 4 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 96d0a96..f90e617 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -10,6 +10,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_sequence_blocks,
     substitute_patterns,
     extract_nested_content,
+    splice_expansion,
     substitute_args,
 )
 from latex2json.parser.handlers.new_definition import (
@@ -474,7 +475,8 @@ class CommandProcessor:
 
                 if should_wrap:
                     out = wrap_math_mode_arg(out)
-            return out, pos
+            following = text[pos : pos + 1]
+            return splice_expansion(out, following).removesuffix(following), pos
 
         command2pattern = {
             name: cmd["pattern"] for name, cmd in command_entries.items()
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index eb4a2a3..f61d9f3 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -32,6 +32,7 @@ from latex2json.parser.handlers.command_processor import ExpansionGuard
 from latex2json.utils.tex_utils import (
     extract_nested_content,
     read_tex_file_content,
+    splice_expansion,
     strip_latex_comments,
 )
 from latex2json.parser.tex_preprocessor import LatexPreprocessor
@@ -601,8 +602,8 @@ class LatexParser:
                         self.logger.warning("Runaway command expansion, skipping")
                         text = ""
                     # replace the matched user command with the expanded text
-                    content = (
-                        content[:current_pos] + text + content[current_pos + end_pos :]
+                    content = content[:current_pos] + splice_expansion(
+                        text, content[current_pos + end_pos :]
                     )
                     continue
 
@@ -621,8 +622,8 @@ class LatexParser:
                     block = ""
                     if token:
                         block = token.get("if_content", "")
-                    content = (
-                        content[:current_pos] + block + content[current_pos + end_pos :]
+                    content = content[:current_pos] + splice_expansion(
+                        block, content[current_pos + end_pos :]
                     )
                     continue
 
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 8fa5f58..5576cdb 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -23,6 +23,7 @@ from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
     strip_latex_comments,
     normalize_whitespace_and_lines,
+    splice_expansion,
 )
 from latex2json.parser.sty_parser import LatexStyParser
 from latex2json.parser.handlers.command_manager import CommandManager
@@ -336,10 +337,8 @@ class LatexPreprocessor:
                     ):
                         self.logger.warning("Runaway command expansion, skipping")
                         expanded_text = ""
-                    content = (
-                        content[:current_pos]
-                        + expanded_text
-                        + content[current_pos + end_pos :]
+                    content = content[:current_pos] + splice_expansion(
+                        expanded_text, content[current_pos + end_pos :]
                     )
                     continue
 
@@ -353,8 +352,8 @@ class LatexPreprocessor:
                     if token:
                         if "@" not in token.get("type", ""):
                             block = token.get("if_content", "")
-                    content = (
-                        content[:current_pos] + block + content[current_pos + end_pos :]
+                    content = content[:current_pos] + splice_expansion(
+                        block, content[current_pos + end_pos :]
                     )
                     continue
 
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 686bd37..7d8f9da 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -273,6 +273,19 @@ def flatten(lst):
     return result
 
 
+ENDS_WITH_CONTROL_WORD_PATTERN = re.compile(r"\\([a-zA-Z@]+)$")
+
+
+def splice_expansion(expansion: str, following: str) -> str:
+    r"""The expansion with the text that follows it, where a command at the end of the
+    expansion must not swallow the letters after it e.g. \alpha + b -> \alpha b"""
+    if following[:1].isalpha():
+        match = ENDS_WITH_CONTROL_WORD_PATTERN.search(expansion)
+        if match and not is_escaped_backslash(expansion, match.start()):
+            return expansion + " " + following
+    return expansion + following
+
+
 def is_escaped_backslash(text: str, pos: int) -> bool:
     r"""Whether the backslash at pos is the second one of a line break i.e. \\\\"""
     if not text.startswith("\\", pos):
-- 
2.43.0


From 79efa827e946da0725ab2cee6a558759f0cada64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:30 +0000
Subject: [PATCH 069/156] fix: the branch chosen by ifbool is kept

---
 latex2json/parser/packages/etoolbox.py | 1 +
 latex2json/parser/tex_parser.py        | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/latex2json/parser/packages/etoolbox.py b/latex2json/parser/packages/etoolbox.py
index 623ac22..2dacdbf 100644
--- a/latex2json/parser/packages/etoolbox.py
+++ b/latex2json/parser/packages/etoolbox.py
@@ -67,6 +67,7 @@ class EtoolboxHandler(TokenHandler):
             "true_code": true_code,
             "false_code": false_code,
             "is_not": is_not,
+            "value": self.bool_definitions.get(bool_name),
         }
 
         return token, start_pos + end_pos
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index f61d9f3..5990d7f 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -384,6 +384,13 @@ class LatexParser:
                     if input_tokens:
                         tokens.extend(input_tokens)
                 return
+            elif token["type"] == "bool_conditional":
+                # an unknown value takes the true branch, like the other conditionals
+                is_false = token.get("value") is False
+                branch = token["false_code" if is_false else "true_code"]
+                for branch_token in self.parse(branch):
+                    self.add_token(branch_token, tokens)
+                return
             elif token["type"] in ["footnote", "caption"]:
                 prev_env = self.current_env
                 self.current_env = token
-- 
2.43.0


From 275c63d002d3bd35e3b0bd2128519c1d4048dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:10 +0000
Subject: [PATCH 070/156] fix: a conditional made by newif does not match the
 beginning of longer names

---
 latex2json/parser/handlers/if_else_statements.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index a28a3f6..eea40b7 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -220,7 +220,9 @@ class IfElseBlockHandler(TokenHandler):
         self._recompile_all_ifs()
 
     def process_newif(self, var_name: str):
-        pattern = re.compile(r"\\if" + re.escape(var_name) + r"(?:true|false)?")
+        pattern = re.compile(
+            r"\\if" + re.escape(var_name) + r"(?:true|false)?(?![a-zA-Z@])"
+        )
         # push to top of stack i.e. priority
         self.all_ifs.insert(0, (var_name, pattern))
         self._recompile_all_ifs()
-- 
2.43.0


From 8bdf48b4d480183f839edcb8b0580bc0f7735a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:32 +0000
Subject: [PATCH 071/156] fix: the switches of newif do not match the beginning
 of longer names

---
 latex2json/parser/handlers/command_processor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index f90e617..574a2ee 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -385,7 +385,9 @@ class CommandProcessor:
 
     def process_newif(self, var_name: str):
         command: CommandEntry = {
-            "pattern": re.compile(r"\\" + re.escape(var_name) + r"(?:true|false)"),
+            "pattern": re.compile(
+                r"\\" + re.escape(var_name) + r"(?:true|false)(?![a-zA-Z@])"
+            ),
             "handler": default_ignore_handler,
         }
         self.commands["newif:" + var_name] = command
-- 
2.43.0


From 2685821213a2d701b35a2092248db3085aff29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:28 +0000
Subject: [PATCH 072/156] fix: text right after a conditional is not taken for
 its condition

---
 latex2json/parser/handlers/if_else_statements.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index eea40b7..77b3e4f 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -48,8 +48,13 @@ NO_FI_COMMANDS = r"if(?:%s)|@if(?:%s)" % (
     "|packagelater|classwith|packagewith|l@aded|l@ter|f@rmat",
 )
 
+# these are followed by what they test, which the others are not
+IF_WITH_OPERANDS = "x|num|dim|odd|case|cat|(?:un)?defined|csname|void|hbox|vbox|eof"
+
 IF_PATTERN = re.compile(
-    r"\\(?!(?:%s)(?![a-zA-Z@]))(?:@)?if%s" % (NO_FI_COMMANDS, default_if_pattern)
+    r"\\(?!(?:%s)(?![a-zA-Z@]))(?:@)?if(?:(?:true|false|[hvm]mode|inner)(?![a-zA-Z@])"
+    r"|(?!(?:%s)(?![a-zA-Z@]))[a-zA-Z@]+\d*|%s)"
+    % (NO_FI_COMMANDS, IF_WITH_OPERANDS, default_if_pattern)
 )
 ELSE_PATTERN = re.compile(r"\\else(?![a-zA-Z@])")
 ELSIF_PATTERN = re.compile(
-- 
2.43.0


From 6626c19bb2ed097687226e28d253d7d7c909da43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:20 +0000
Subject: [PATCH 073/156] fix: a group in braces after a blank is not joined to
 the word before it

---
 latex2json/parser/tex_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 5990d7f..41410da 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -567,8 +567,13 @@ class LatexParser:
                     # Parse the content within the braces
                     nested_tokens = self.parse(inner_content)
                     if nested_tokens:
+                        # words on both sides of the brace stay apart
+                        add_space = (
+                            current_pos > 0 and content[current_pos - 1].isspace()
+                        )
                         for token in nested_tokens:
-                            self.add_token(token, tokens)
+                            self.add_token(token, tokens, add_space)
+                            add_space = False
                     current_pos += end_pos
                     continue
 
-- 
2.43.0


From bb712879240684852ca20bb9ec91ff50f2f7901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:44 +0000
Subject: [PATCH 074/156] fix: newif registers conditionals named like a
 command

---
 latex2json/parser/handlers/command_manager.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index b3b5574..b042021 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -73,7 +73,10 @@ class CommandManager(TokenHandler):
             return
 
         cmd_name = token.get("name", "")
-        if not cmd_name or cmd_name in WHITELISTED_COMMANDS:
+        if not cmd_name:
+            return
+        # newif does not define a command with this name
+        if cmd_name in WHITELISTED_COMMANDS and token["type"] != "newif":
             return
 
         if not self._should_handle_command_type(token["type"]):
-- 
2.43.0


From d7deb9eea6133776c70dd3a022aa772ac70809d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:55 +0000
Subject: [PATCH 075/156] fix: letters after a line break are not parts of a
 conditional

---
 .../parser/handlers/if_else_statements.py     | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 77b3e4f..3be0f2a 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -5,7 +5,10 @@ import re
 
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.new_definition import extract_and_concat_nested_csname
-from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks
+from latex2json.utils.tex_utils import (
+    extract_nested_content_sequence_blocks,
+    is_escaped,
+)
 from latex2json.parser.patterns import command_with_opt_brace_pattern, command_or_dim
 
 # Could be character, command, or more complex token
@@ -111,6 +114,14 @@ NO_FI_NAMES = {
 }
 
 
+def search_unescaped(pattern: re.Pattern, text: str) -> Optional[re.Match]:
+    r"""The first match which is not a line break before letters e.g. \\if"""
+    match = pattern.search(text)
+    while match and is_escaped(match.start(), text):
+        match = pattern.search(text, match.start() + 1)
+    return match
+
+
 def extract_else_elseif_fi(
     content: str,
     start_delimiter: re.Pattern = IF_PATTERN,
@@ -127,10 +138,11 @@ def extract_else_elseif_fi(
 
     while pos < content_length and nesting_level > 0:
         # Find all possible next matches
-        start_match = start_delimiter.search(content[pos:])
-        end_match = end_delimiter.search(content[pos:])
-        else_match = else_delimiter.search(content[pos:])
-        elsif_match = elsif_delimiter.search(content[pos:])
+        remaining = content[pos:]
+        start_match = search_unescaped(start_delimiter, remaining)
+        end_match = search_unescaped(end_delimiter, remaining)
+        else_match = search_unescaped(else_delimiter, remaining)
+        elsif_match = search_unescaped(elsif_delimiter, remaining)
 
         valid_matches = []
         if start_match:
-- 
2.43.0


From 541f33caa3d61fd6da190dc45d69807432073b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:32 +0000
Subject: [PATCH 076/156] fix: commands do not absorb the letters of an
 expansion that comes to stand after them

---
 latex2json/parser/handlers/command_manager.py |  4 ++
 .../parser/handlers/command_processor.py      | 27 ++++++++--
 latex2json/parser/tex_parser.py               | 12 ++++-
 latex2json/parser/tex_preprocessor.py         | 26 +++++-----
 latex2json/utils/tex_utils.py                 | 52 +++++++++++++++----
 5 files changed, 92 insertions(+), 29 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index b042021..5dd1385 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -44,6 +44,10 @@ class CommandManager(TokenHandler):
         self.processor.commands.pop(name, None)
         self.processor.let_commands.pop(name, None)
 
+    def is_plain_macro(self, name: str) -> bool:
+        """Whether there is a macro without arguments of this name"""
+        return self.processor.is_plain_macro(name)
+
     def process_definition(
         self, content: str, register: bool = True
     ) -> Tuple[Optional[Dict], int]:
diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 574a2ee..434cc95 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -10,7 +10,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_sequence_blocks,
     substitute_patterns,
     extract_nested_content,
-    splice_expansion,
+    control_word_before,
     substitute_args,
 )
 from latex2json.parser.handlers.new_definition import (
@@ -25,6 +25,9 @@ CSNAME_PATTERN = re.compile(
     START_CSNAME_PATTERN.pattern + r"(.*)" + END_CSNAME_PATTERN.pattern
 )
 
+# stands between a command and the letters after it while commands are expanded
+SEPARATOR = "\0"
+
 # COMPARISON_OP_PATTERN = re.compile(r"\s*=\s*%s" % command_or_dim)
 
 
@@ -182,6 +185,10 @@ class CommandProcessor:
         self.let_commands.pop(command_name, None)
         return True
 
+    def is_plain_macro(self, name: str) -> bool:
+        command = self._all_commands.get(name)
+        return bool(command) and "#" not in command.get("definition", "#")
+
     def process_let(self, command_name: str, definition: str, usage_pattern: str):
         if self._copy_command(command_name, definition):
             return
@@ -477,8 +484,7 @@ class CommandProcessor:
 
                 if should_wrap:
                     out = wrap_math_mode_arg(out)
-            following = text[pos : pos + 1]
-            return splice_expansion(out, following).removesuffix(following), pos
+            return out, pos
 
         command2pattern = {
             name: cmd["pattern"] for name, cmd in command_entries.items()
@@ -492,9 +498,20 @@ class CommandProcessor:
                 # possible infinite loop in LaTeX commands: leave the rest unexpanded
                 break
             prev_text = text
-            text = substitute_patterns(text, command2pattern, sub_fn)
+            text = substitute_patterns(
+                text, command2pattern, sub_fn, "" if math_mode else SEPARATOR
+            )
 
-        return text, match_count
+        return self._replace_separators(text), match_count
+
+    def _replace_separators(self, text: str) -> str:
+        parts = text.split(SEPARATOR)
+        text = parts[0]
+        for part in parts[1:]:
+            if part[:1].isalpha() and control_word_before(text, len(text)):
+                text += " "
+            text += part
+        return text
 
     def can_handle(self, text: str) -> bool:
         for cmd in self.get_command_iter(False):
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 41410da..0a0043d 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -615,7 +615,11 @@ class LatexParser:
                         text = ""
                     # replace the matched user command with the expanded text
                     content = content[:current_pos] + splice_expansion(
-                        text, content[current_pos + end_pos :]
+                        content[current_pos:],
+                        0,
+                        end_pos,
+                        text,
+                        self.command_manager.is_plain_macro,
                     )
                     continue
 
@@ -635,7 +639,11 @@ class LatexParser:
                     if token:
                         block = token.get("if_content", "")
                     content = content[:current_pos] + splice_expansion(
-                        block, content[current_pos + end_pos :]
+                        content[current_pos:],
+                        0,
+                        end_pos,
+                        block,
+                        self.command_manager.is_plain_macro,
                     )
                     continue
 
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 5576cdb..55a1143 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -129,6 +129,12 @@ class LatexPreprocessor:
 
         return content, out_tokens
 
+    def _splice(self, content: str, pos: int, length: int, text: str) -> str:
+        """The content with the text in place of what is at pos"""
+        return splice_expansion(
+            content, pos, pos + length, text, self.command_manager.is_plain_macro
+        )
+
     def _process_new_definition_token(self, token: Dict) -> None:
         if token and "name" in token:
             # do not process content commands e.g. section etc
@@ -233,9 +239,7 @@ class LatexPreprocessor:
             # Process addto by simply treating the content inside as {...}
             match = ADD_TO_PATTERN.match(content[current_pos:])
             if match:
-                content = (
-                    content[:current_pos] + content[current_pos + match.end() - 1 :]
-                )
+                content = self._splice(content, current_pos, match.end() - 1, "")
                 continue
 
             # check math mode to ignore expansion of math mode commands
@@ -298,7 +302,7 @@ class LatexPreprocessor:
                     continue
                 tokens.append(token)
                 if end_pos > 0:
-                    content = content[:current_pos] + content[current_pos + end_pos :]
+                    content = self._splice(content, current_pos, end_pos, "")
                     continue
 
             # Update usepackage check to handle returned tokens
@@ -307,7 +311,7 @@ class LatexPreprocessor:
             )
             tokens.extend(sty_tokens)  # Add sty tokens to our token list
             if end_pos > 0:
-                content = content[:current_pos] + content[current_pos + end_pos :]
+                content = self._splice(content, current_pos, end_pos, "")
                 continue
 
             # check for formatting (put formatting ahead so that we can ignore lots of unnecessary things)
@@ -321,9 +325,7 @@ class LatexPreprocessor:
                     block = ""
                     if token:
                         block = token.get("content", "")
-                    content = (
-                        content[:current_pos] + block + content[current_pos + end_pos :]
-                    )
+                    content = self._splice(content, current_pos, end_pos, block)
                     continue
 
             # Expand commands using command_manager instead of command_processor
@@ -337,8 +339,8 @@ class LatexPreprocessor:
                     ):
                         self.logger.warning("Runaway command expansion, skipping")
                         expanded_text = ""
-                    content = content[:current_pos] + splice_expansion(
-                        expanded_text, content[current_pos + end_pos :]
+                    content = self._splice(
+                        content, current_pos, end_pos, expanded_text
                     )
                     continue
 
@@ -352,9 +354,7 @@ class LatexPreprocessor:
                     if token:
                         if "@" not in token.get("type", ""):
                             block = token.get("if_content", "")
-                    content = content[:current_pos] + splice_expansion(
-                        block, content[current_pos + end_pos :]
-                    )
+                    content = self._splice(content, current_pos, end_pos, block)
                     continue
 
             # the second backslash of a line break begins no command
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 7d8f9da..2cfa9e1 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -273,17 +273,39 @@ def flatten(lst):
     return result
 
 
-ENDS_WITH_CONTROL_WORD_PATTERN = re.compile(r"\\([a-zA-Z@]+)$")
+def control_word_before(text: str, end: int) -> str:
+    r"""The name of the command that the text up to end ends in e.g. foo for a\foo"""
+    start = end
+    while start > 0 and (text[start - 1] == "@" or text[start - 1].isalpha()):
+        start -= 1
+    name = text[start:end]
+    if not name or not name.isascii() or not text.startswith("\\", start - 1):
+        return ""
+    return "" if start < 1 or is_escaped_backslash(text, start - 1) else name
+
+
+def splice_expansion(
+    content: str,
+    start: int,
+    end: int,
+    expansion: str,
+    is_macro: Callable[[str], bool] = lambda name: False,
+) -> str:
+    r"""The content with the expansion in place of what is between start and end, where
+    no command swallows letters that come to stand after it e.g. \alpha + b -> \alpha b"""
 
+    def separator(name: str) -> str:
+        if not name:
+            return ""
+        # blanks after a macro would show in its expansion
+        return "{}" if is_macro(name) else " "
 
-def splice_expansion(expansion: str, following: str) -> str:
-    r"""The expansion with the text that follows it, where a command at the end of the
-    expansion must not swallow the letters after it e.g. \alpha + b -> \alpha b"""
-    if following[:1].isalpha():
-        match = ENDS_WITH_CONTROL_WORD_PATTERN.search(expansion)
-        if match and not is_escaped_backslash(expansion, match.start()):
-            return expansion + " " + following
-    return expansion + following
+    before = after = ""
+    if (expansion or content[end : end + 1])[:1].isalpha():
+        before = separator(control_word_before(content, start))
+    if expansion and content[end : end + 1].isalpha():
+        after = separator(control_word_before(expansion, len(expansion)))
+    return content[:start] + before + expansion + after + content[end:]
 
 
 def is_escaped_backslash(text: str, pos: int) -> bool:
@@ -300,9 +322,11 @@ def substitute_patterns(
     text: str,
     patterns: Dict[str, re.Pattern],
     substitute_fn: Callable[[str, re.Match, str], Tuple[str, int]],
+    separator: str = "",
 ) -> str:
     """
     Substitute patterns in text with their handlers.
+    A separator is put between a command and letters that come to stand after it.
     """
     for key, pattern in patterns.items():
         current_pos = 0
@@ -319,6 +343,16 @@ def substitute_patterns(
             converted, end_pos = substitute_fn(text[current_pos:], match, key)
             current_pos += end_pos
 
+            if separator:
+                following = text[current_pos : current_pos + 1]
+                if (converted or following)[:1].isalpha():
+                    if control_word_before(text, start_pos):
+                        converted = separator + converted
+                if following.isalpha() and control_word_before(
+                    converted, len(converted)
+                ):
+                    converted += separator
+
             diff = len(converted) - (current_pos - start_pos)
             text = text[:start_pos] + converted + text[current_pos:]
             current_pos += diff
-- 
2.43.0


From b93eb1c04f5d5a88d6680aa9e6ddfb95e75c20cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:59 +0000
Subject: [PATCH 077/156] fix: unknown commands in table cells do not absorb
 the letters of an expansion after them

---
 latex2json/parser/tex_parser.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 0a0043d..dfe3534 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -614,10 +614,12 @@ class LatexParser:
                         self.logger.warning("Runaway command expansion, skipping")
                         text = ""
                     # replace the matched user command with the expanded text
-                    content = content[:current_pos] + splice_expansion(
-                        content[current_pos:],
-                        0,
-                        end_pos,
+                    # unknown commands that have become tokens are done with
+                    done = current_pos if handle_unknown_commands else 0
+                    content = content[:done] + splice_expansion(
+                        content[done:],
+                        current_pos - done,
+                        current_pos - done + end_pos,
                         text,
                         self.command_manager.is_plain_macro,
                     )
@@ -638,10 +640,12 @@ class LatexParser:
                     block = ""
                     if token:
                         block = token.get("if_content", "")
-                    content = content[:current_pos] + splice_expansion(
-                        content[current_pos:],
-                        0,
-                        end_pos,
+                    # unknown commands that have become tokens are done with
+                    done = current_pos if handle_unknown_commands else 0
+                    content = content[:done] + splice_expansion(
+                        content[done:],
+                        current_pos - done,
+                        current_pos - done + end_pos,
                         block,
                         self.command_manager.is_plain_macro,
                     )
-- 
2.43.0


From f456153f785e44529f31ec36fc64efef899d5a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:10 +0000
Subject: [PATCH 078/156] fix: an escaped brace before a command or math is
 unescaped

---
 latex2json/parser/tex_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index dfe3534..8ac5138 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -31,6 +31,7 @@ from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.parser.handlers.command_processor import ExpansionGuard
 from latex2json.utils.tex_utils import (
     extract_nested_content,
+    is_escaped,
     read_tex_file_content,
     splice_expansion,
     strip_latex_comments,
@@ -591,7 +592,7 @@ class LatexParser:
                 text = content[current_pos : current_pos + next_pos]
                 if text:
                     # skip delimited braces for next pass
-                    if text.endswith("{"):
+                    if text.endswith("{") and not is_escaped(len(text) - 1, text):
                         text = text[:-1]
                         next_pos -= 1
                     if handle_unknown_commands:
-- 
2.43.0


From 9702faed21f7a5912a530fbc52648c93239b34db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 079/156] fix: conversion of quotes leaves accents, primes,
 keys and addresses alone

---
 latex2json/parser/tex_preprocessor.py | 60 +++++++++++++++------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 55a1143..4fc0480 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -51,16 +51,37 @@ ALL_VERBATIM_PATTERNS.append(
     )
 )
 
-DELIM_PATTERN_WITH_QUOTES = re.compile(DELIM_PATTERN.pattern + r"|`")
+# quotation marks, but not accents e.g. \`a, nor the keys and addresses of references
+QUOTES_PATTERN = re.compile(
+    r"\\(?:url|path|href|label|[a-zA-Z]*(?:ref|cite)[a-zA-Z]*)\*?\s*"
+    r"(?:\[[^\[\]]*\]\s*)*\{[^{}]*\}|\\.|(``|''|`|')",
+    re.DOTALL,
+)
+
 
-QUOTE_PATTERNS = {
-    "double_quotes": re.compile(
-        r"``(.*?)''", re.DOTALL
-    ),  # latex quotes e.g. ``aaa'' -> "aaa"
-    "single_quotes": re.compile(
-        r"`(.*?)'", re.DOTALL
-    ),  # latex quotes e.g. `aaa' -> 'aaa'
-}
+def convert_quotes(content: str) -> str:
+    """Latex quotes to plain ones e.g. ``aaa'' -> "aaa", `aaa' -> 'aaa'"""
+    marks = [(m.start(), m[1]) for m in QUOTES_PATTERN.finditer(content) if m[1]]
+    quotes = {}
+    for i, (pos, mark) in enumerate(marks):
+        if pos in quotes:
+            continue
+        if mark == "``":
+            for end_pos, end_mark in marks[i + 1 :]:
+                if end_mark == "''" and end_pos not in quotes:
+                    quotes[pos] = quotes[end_pos] = '"'
+                    break
+        elif mark == "`" and any("'" in m for _, m in marks[i + 1 :]):
+            quotes[pos] = "'"
+
+    out = []
+    last = 0
+    for pos, mark in marks:
+        if pos in quotes:
+            out.append(content[last:pos] + quotes[pos])
+            last = pos + len(mark)
+    out.append(content[last:])
+    return "".join(out)
 
 
 # definitions of commands that are replaced by other text
@@ -224,7 +245,7 @@ class LatexPreprocessor:
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
             # without it, we would have to parse the entire content string character by character. which would be slower.)
             # if next delimiter exists, we need to store the text before the next delimiter (or all remaining text if no delimiter)
-            next_delimiter = DELIM_PATTERN_WITH_QUOTES.search(content[current_pos:])
+            next_delimiter = DELIM_PATTERN.search(content[current_pos:])
             next_pos = (
                 len(content[current_pos:])
                 if not next_delimiter
@@ -258,22 +279,6 @@ class LatexPreprocessor:
                     )
                     continue
 
-            # check quotes
-            for quote_type, pattern in QUOTE_PATTERNS.items():
-                match = pattern.match(content[current_pos:])
-                if match:
-                    quote_content = match.group(1)
-                    if quote_type == "double_quotes":
-                        quote_content = '"' + quote_content + '"'
-                    elif quote_type == "single_quotes":
-                        quote_content = "'" + quote_content + "'"
-                    content = (
-                        content[:current_pos]
-                        + quote_content
-                        + content[current_pos + match.end() :]
-                    )
-                    continue
-
             # Process definitions
             token, end_pos = self.command_manager.process_definition(
                 content[current_pos:], register=False
@@ -360,6 +365,9 @@ class LatexPreprocessor:
             # the second backslash of a line break begins no command
             current_pos += 2 if content.startswith("\\\\", current_pos) else 1
 
+        # with no primes of the math among the quotes
+        content = convert_quotes(content)
+
         # restore math blocks
         content = restore_placeholder_blocks(content, math_blocks)
 
-- 
2.43.0


From 01796de3c99f5af62b75d122f8dace478444c235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 080/156] fix: the name declared by newif, newcount, newdimen,
 newskip or newfam ends at the first non-letter

---
 latex2json/parser/handlers/new_definition.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index cbaca90..2531d56 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -18,6 +18,9 @@ POST_NEW_COMMAND_PATTERN_STR = (
     % (command_pattern, command_pattern)
 )
 
+# the letters of a command name (and those that packages make letters)
+CONTROL_WORD_NAME = r"[a-zA-Z@:]+(?:_[a-zA-Z@:]+)*"
+
 DEF_COMMAND_PREFIX = r"(?:\\long)?\\(?:e|g|x)?def\s*\\"
 LET_COMMAND_PREFIX = r"\\(?:future)?let\s*\\"
 
@@ -86,7 +89,9 @@ PATTERNS = {
     "newtoks": re.compile(
         r"\\newtoks\s*(%s)" % (command_with_opt_brace_pattern), re.DOTALL
     ),
-    "newif": re.compile(r"\\(?:re)?newif\s*\\if([^\s{\\]+)", re.DOTALL),
+    "newif": re.compile(
+        r"\\(?:re)?newif\s*\\if(%s)" % CONTROL_WORD_NAME, re.DOTALL
+    ),
     "newboolean": re.compile(
         r"\\(?:re)?newboolean\s*" + BRACE_CONTENT_PATTERN, re.DOTALL
     ),
@@ -101,11 +106,13 @@ PATTERNS = {
     "newcounter": re.compile(
         r"\\(?:(?:re)?newcounter|stepcounter)\s*" + BRACE_CONTENT_PATTERN, re.DOTALL
     ),
-    "newother": re.compile(r"\\(?:re)?new(?:count|dimen|skip|muskip)\s*\\([^\s{[\\=]+)"),
+    "newother": re.compile(
+        r"\\(?:re)?new(?:count|dimen|skip|muskip)\s*\\(%s)" % CONTROL_WORD_NAME
+    ),
     "newcolumntype": re.compile(
         r"\\(?:newcolumntype|renewcolumntype)\s*\{[^}]*\}(?:\s*\[\d+\])?\s*{", re.DOTALL
     ),
-    "newfam": re.compile(r"\\newfam\s*\\([^\s{[\\=]+)"),
+    "newfam": re.compile(r"\\newfam\s*\\(%s)" % CONTROL_WORD_NAME),
     "setcounter": re.compile(
         r"\\setcounter\s*%s\s*%s" % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
         re.DOTALL,
-- 
2.43.0


From 40ceed3b083d16c972060d0e4c540e921df84710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:09 +0000
Subject: [PATCH 081/156] fix: table cells do not space the text of a
 conditional from a definition before it

---
 latex2json/parser/tex_parser.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 8ac5138..d41483d 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -550,9 +550,14 @@ class LatexParser:
 
         tokens = []
         current_pos = 0
+        # everything before is done with: commands after it may be kept as text
+        done_pos = 0
         guard = ExpansionGuard(content)
 
         while current_pos < len(content):
+            if handle_unknown_commands:
+                done_pos = current_pos
+
             # Skip whitespace
             while current_pos < len(content) and content[current_pos].isspace():
                 self.current_str += content[current_pos]
@@ -615,12 +620,10 @@ class LatexParser:
                         self.logger.warning("Runaway command expansion, skipping")
                         text = ""
                     # replace the matched user command with the expanded text
-                    # unknown commands that have become tokens are done with
-                    done = current_pos if handle_unknown_commands else 0
-                    content = content[:done] + splice_expansion(
-                        content[done:],
-                        current_pos - done,
-                        current_pos - done + end_pos,
+                    content = content[:done_pos] + splice_expansion(
+                        content[done_pos:],
+                        current_pos - done_pos,
+                        current_pos - done_pos + end_pos,
                         text,
                         self.command_manager.is_plain_macro,
                     )
@@ -630,6 +633,7 @@ class LatexParser:
             end_pos = self._check_for_new_definitions(content[current_pos:])
             if end_pos > 0:
                 current_pos += end_pos
+                done_pos = current_pos
                 continue
 
             # check for if else blocks
@@ -641,12 +645,10 @@ class LatexParser:
                     block = ""
                     if token:
                         block = token.get("if_content", "")
-                    # unknown commands that have become tokens are done with
-                    done = current_pos if handle_unknown_commands else 0
-                    content = content[:done] + splice_expansion(
-                        content[done:],
-                        current_pos - done,
-                        current_pos - done + end_pos,
+                    content = content[:done_pos] + splice_expansion(
+                        content[done_pos:],
+                        current_pos - done_pos,
+                        current_pos - done_pos + end_pos,
                         block,
                         self.command_manager.is_plain_macro,
                     )
@@ -671,6 +673,7 @@ class LatexParser:
             matched, end_pos = self._check_handlers(content[current_pos:], tokens)
             current_pos += end_pos
             if matched:
+                done_pos = current_pos
                 continue
 
             # check remaining patterns
@@ -679,6 +682,7 @@ class LatexParser:
             )
             current_pos += end_pos
             if matched:
+                done_pos = current_pos
                 continue
 
             # check for unknown command
-- 
2.43.0


From 23367b215f8d73273b95547578b24a9940025fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 082/156] fix: a command is recognised when a digit or
 underscore follows its name

---
 latex2json/parser/handlers/author.py          |  2 +-
 latex2json/parser/handlers/content_command.py |  2 +-
 latex2json/parser/handlers/environment.py     |  6 +-
 latex2json/parser/handlers/formatting.py      | 58 +++++++++----------
 latex2json/parser/handlers/item.py            |  2 +-
 .../parser/handlers/legacy_formatting.py      |  2 +-
 latex2json/parser/handlers/text_formatting.py |  4 +-
 7 files changed, 38 insertions(+), 38 deletions(-)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 846f79e..98a1349 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -4,7 +4,7 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import extract_nested_content
 
-AND_PATTERN = re.compile(r"\\and\b", re.IGNORECASE)
+AND_PATTERN = re.compile(r"\\and(?![a-zA-Z@])", re.IGNORECASE)
 BACKSLASH_PATTERN = re.compile(r"\\\\")
 
 compile_as = re.DOTALL | re.IGNORECASE
diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index d319beb..799797b 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -67,7 +67,7 @@ RAW_PATTERNS = OrderedDict(
         # Title
         ("title", r"\\title\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # appendix
-        ("appendix", r"\\(?:appendix|appendices)\b"),
+        ("appendix", r"\\(?:appendix|appendices)(?![a-zA-Z@])"),
         # keywords
         ("keywords", r"\\keywords\s*{"),
         # bibliography
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 6819f44..ca40565 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -12,7 +12,7 @@ from latex2json.utils.tex_utils import (
 )
 import logging
 
-BEGIN_GROUP_PATTERN = re.compile(r"\\(?:begin|b)group\b")
+BEGIN_GROUP_PATTERN = re.compile(r"\\(?:begin|b)group(?![a-zA-Z@])")
 
 ENV_NAME_BRACE_PATTERN = r"\{([^}]*?)\}"
 
@@ -333,11 +333,11 @@ class BaseEnvironmentHandler(TokenHandler):
             is_bgroup = "bgroup" in match.group(0)
             if is_bgroup:
                 start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\bgroup\b", r"\\egroup\b"
+                    content, r"\\bgroup(?![a-zA-Z@])", r"\\egroup(?![a-zA-Z@])"
                 )
             else:
                 start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                    content, r"\\begingroup\b", r"\\endgroup\b"
+                    content, r"\\begingroup(?![a-zA-Z@])", r"\\endgroup(?![a-zA-Z@])"
                 )
 
             if end_pos == -1:
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index c5ee80b..0840d17 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -62,26 +62,26 @@ RAW_PATTERNS = OrderedDict(
         ("tracing", r"\\(?:tracinglostchars)\s*=\s*\d+"),
         # date
         ("date", r"\\date\s*\{"),
-        ("today", r"\\today\b"),
+        ("today", r"\\today(?![a-zA-Z@])"),
         ("subjclass", r"\\subjclass\s*%s\s*\{[^}]+\}" % OPTIONAL_BRACE_PATTERN),
         # Formatting commands
         ("setup", r"\\(?:hypersetup|captionsetup)%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "make_or_contents",
-            r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)\b",
+            r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)(?![a-zA-Z@])",
         ),
         ("addcontentsline", r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\s*\{[^}]*\}"),
         ("addtocontents", r"\\(?:addtocontents|addtocounter)\s*\{[^}]*\s*\}\s*{"),
         ("titlecontents", r"\\titlecontents\s*{"),
-        ("contents", r"\\(?:contentspage|startcontents)\b"),
+        ("contents", r"\\(?:contentspage|startcontents)(?![a-zA-Z@])"),
         ("printcontents", r"\\printcontents\s*{"),
         (
             "page",
-            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)\b",
+            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)(?![a-zA-Z@])",
         ),
         (
             "pagebreak",
-            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)\b|\\linebreak(?:\[\d+\])?",
+            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)(?![a-zA-Z@])|\\linebreak(?:\[\d+\])?",
         ),
         (
             "vskip",
@@ -95,13 +95,13 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "skip",
-            r"\\(?:bigskip|medskip|smallskip|lastskip|unskip|(above|below)(display|caption)(short)?skip)\b",
+            r"\\(?:bigskip|medskip|smallskip|lastskip|unskip|(above|below)(display|caption)(short)?skip)(?![a-zA-Z@])",
         ),
         (
             "style",
             r"\\(?:pagestyle|urlstyle|thispagestyle|theoremstyle|bibliographystyle|documentstyle|setcitestyle)\s*\{[^}]*\}",
         ),
-        ("bib", r"\\printbibliography\b"),
+        ("bib", r"\\printbibliography(?![a-zA-Z@])"),
         ("bibmacro", r"\\renewbibmacro\*?\s*%s\s*{" % (BRACE_CONTENT_PATTERN)),
         ("newstyle", r"\\(?:newpagestyle|renewpagestyle)\s*\{[^}]*\}\s*{"),
         # ("font", r"\\(?:mdseries|bfseries|itshape|slshape|normalfont|ttfamily)\b"),
@@ -118,11 +118,11 @@ RAW_PATTERNS = OrderedDict(
         # New margin and size commands allowing any characters after the number
         (
             "margins",
-            r"\\(?:rightmargin|leftmargin)\b|"
+            r"\\(?:rightmargin|leftmargin)(?![a-zA-Z@])|"
             + r"\\(?:topmargin|oddsidemargin|evensidemargin|textwidth|textheight|skip|footskip|headheight|headsep|footnotesep|marginparsep|marginparwidth|parindent|itemindent|parskip|vfuzz|hfuzz|hoffset|voffset)"
             + r"\s*(\=?\s*(?:%s))?" % (number_points_suffix),
         ),
-        ("indent", r"\\indent\b"),
+        ("indent", r"\\indent(?![a-zA-Z@])"),
         (
             "lineskip",
             r"\\lineskip\s*%s" % (number_points_suffix)
@@ -131,7 +131,7 @@ RAW_PATTERNS = OrderedDict(
         # width
         (
             "width",
-            r"\\(?:linewidth|columnwidth|textwidth|hsize|labelwidth)\b",
+            r"\\(?:linewidth|columnwidth|textwidth|hsize|labelwidth)(?![a-zA-Z@])",
         ),
         # spacing
         (
@@ -155,7 +155,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "options",
             re.compile(
-                r"\\(?:ProcessOptions\b|(PassOptionsToPackage|PassOptionsToClass)\s*%s\s*%s)|\\ExecuteBibliographyOptions\s*%s"
+                r"\\(?:ProcessOptions(?![a-zA-Z@])|(PassOptionsToPackage|PassOptionsToClass)\s*%s\s*%s)|\\ExecuteBibliographyOptions\s*%s"
                 % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
                 re.DOTALL,
             ),
@@ -181,7 +181,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "linenumbers",
             re.compile(
-                r"\\(?:linenumbers\b|linesnumbered\b|numberwithin\s*\{[^}]*\}\s*\{[^}]*\})",
+                r"\\(?:linenumbers(?![a-zA-Z@])|linesnumbered(?![a-zA-Z@])|numberwithin\s*\{[^}]*\}\s*\{[^}]*\})",
                 re.DOTALL | re.IGNORECASE,
             ),
         ),
@@ -197,12 +197,12 @@ RAW_PATTERNS = OrderedDict(
         (
             "separators",
             r"\\(?:"
-            r"hline\b|"  # no args
-            r"center\b|"  # no args
-            r"hrulefill\b|"  # no args
-            r"centerline\b|"  # no args
+            r"hline(?![a-zA-Z@])|"  # no args
+            r"center(?![a-zA-Z@])|"  # no args
+            r"hrulefill(?![a-zA-Z@])|"  # no args
+            r"centerline(?![a-zA-Z@])|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
-            r"topsep\b|parsep\b|partopsep\b|"
+            r"topsep(?![a-zA-Z@])|parsep(?![a-zA-Z@])|partopsep(?![a-zA-Z@])|"
             r"labelsep\s*\{?([^\}]*)\}?|"
             + r"(?:midrule|toprule|bottomrule)%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
@@ -212,14 +212,14 @@ RAW_PATTERNS = OrderedDict(
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
             r"addlinespace(?:\[([^\]]*)\])?|"  # optional [length]
             r"rule\s*{[^}]*}\s*{[^}]*}|"  # \rule{width}{height}
-            r"hrule\b|"
-            r"morecmidrules\b|"  # no args
+            r"hrule(?![a-zA-Z@])|"
+            r"morecmidrules(?![a-zA-Z@])|"  # no args
             r"fboxsep\s*{([^}]+)}|"  # {length}
             r"Xhline\s*{([^}]+)}|"  # {length}
-            r"tabcolsep\b|"
-            r"colrule\b|"
-            r"noalign\b|"
-            r"endfirsthead\b"
+            r"tabcolsep(?![a-zA-Z@])|"
+            r"colrule(?![a-zA-Z@])|"
+            r"noalign(?![a-zA-Z@])|"
+            r"endfirsthead(?![a-zA-Z@])"
             r")",
         ),
         (
@@ -231,13 +231,13 @@ RAW_PATTERNS = OrderedDict(
         ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
         (
             "counters",
-            r"\\c@page\b|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
+            r"\\c@page(?![a-zA-Z@])|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
         ),
         ("add_enumerate_counter", r"\\AddEnumerateCounter\s*\{"),
-        ("backslash", r"\\(?:backslash|textbackslash|arraybackslash)\b"),
+        ("backslash", r"\\(?:backslash|textbackslash|arraybackslash)(?![a-zA-Z@])"),
         ("geometry", r"\\geometry\s*\{"),
         ("ensuremath", r"\\ensuremath\s*{"),
-        ("stackmath", r"\\stackMath\b"),
+        ("stackmath", r"\\stackMath(?![a-zA-Z@])"),
         ("hyphenation", r"\\hyphenation\s*{"),
         # Handle vspace separately
         ("vspace", r"\\vspace\*?\s*{[^}]*}"),
@@ -251,7 +251,7 @@ RAW_PATTERNS = OrderedDict(
         (
             "other",
             re.compile(
-                r"\\(?:ignorespaces|relax|repeat|\@tempboxa|box|global|@plus|@minus|null|FloatBarrier|footins|phantomsection)\b",
+                r"\\(?:ignorespaces|relax|repeat|\@tempboxa|box|global|@plus|@minus|null|FloatBarrier|footins|phantomsection)(?![a-zA-Z@])",
             ),
         ),
         ("newmdenv", re.compile(r"\\newmdenv\s*(?:\[(.*?)\])?\s*\{(.*?)\}", re.DOTALL)),
@@ -267,7 +267,7 @@ RAW_PATTERNS = OrderedDict(
         ("physics", r"\\pacs\s*\{(.*?)\}"),
         ("Hy@", r"\\Hy@[a-zA-Z]+\s*{"),
         ("unvbox", r"\\unvbox\s*(?:%s|\\[a-zA-Z@]+\b)" % (number_regex)),
-        ("string_or_chars", r"\\string\b|\\escapechar\b"),
+        ("string_or_chars", r"\\string(?![a-zA-Z@])|\\escapechar(?![a-zA-Z@])"),
         (
             "dims",
             re.compile(
@@ -275,7 +275,7 @@ RAW_PATTERNS = OrderedDict(
                 re.VERBOSE | re.DOTALL,
             ),
         ),
-        ("debug", r"\\(?:showthe|the)\b"),
+        ("debug", r"\\(?:showthe|the)(?![a-zA-Z@])"),
     ]
 )
 
diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index 6609aab..a40d32c 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -7,7 +7,7 @@ from latex2json.parser.handlers.environment import (
 
 # pattern to match \item up to the next \item or end of string
 ITEM_PATTERN = re.compile(
-    r"\\item\b\s*(?:\[(.*?)\])?\s*([\s\S]*?)(?=\\item\b|$)", re.DOTALL
+    r"\\item(?![a-zA-Z@])\s*(?:\[(.*?)\])?\s*([\s\S]*?)(?=\\item(?![a-zA-Z@])|$)", re.DOTALL
 )
 
 
diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index ec9d92f..923ca15 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -76,7 +76,7 @@ SIZE_PATTERN = re.compile(
     r"\\(" + "|".join(LEGACY_SIZE_MAPPING.keys()) + r")(?![a-zA-Z])\s*\{?"
 )
 
-COLOR_PATTERN = re.compile(r"\\(?:color\s*(\[\w+\])?\s*\{|normalcolor\b)")
+COLOR_PATTERN = re.compile(r"\\(?:color\s*(\[\w+\])?\s*\{|normalcolor(?![a-zA-Z@]))")
 
 PATTERNS = {
     "font": FONT_PATTERN,
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 231733b..80a563c 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -54,7 +54,7 @@ TEXT_PATTERN = re.compile(
 
 FONT_PATTERN = {
     "fontsize": (r"\\fontsize" + (r"\s*" + BRACE_CONTENT_PATTERN) * 2),
-    "selectfont": (r"\\selectfont\b"),
+    "selectfont": (r"\\selectfont(?![a-zA-Z@])"),
     "usefont": (r"\\usefont" + (r"\s*" + BRACE_CONTENT_PATTERN) * 4),
 }
 
@@ -65,7 +65,7 @@ PATTERNS = {
     "frac": re.compile(r"\\(?:frac|nicefrac|textfrac)\s*\{", re.DOTALL),
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
-    "columns": re.compile(r"\\(?:onecolumn\b|twocolumn\s*\[?)"),
+    "columns": re.compile(r"\\(?:onecolumn(?![a-zA-Z@])|twocolumn\s*\[?)"),
     "subfloat": re.compile(r"\\subfloat\s*\["),
     "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
 }
-- 
2.43.0


From 0eeb2eb17e64e00f937c870f4e8a142bc6aa6b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:24 +0000
Subject: [PATCH 083/156] fix: arguments do not merge with the commands next to
 them in a macro body

---
 .../parser/handlers/command_processor.py      | 10 +++-
 latex2json/parser/handlers/environment.py     |  6 +-
 latex2json/utils/tex_utils.py                 | 58 +++++++++++++++----
 3 files changed, 59 insertions(+), 15 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 434cc95..8da6e22 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -297,7 +297,10 @@ class CommandProcessor:
                 # fill remaining args with empty strings
                 args.extend([""] * (num_args - len(args)))
 
-                return substitute_args(definition, args, math_mode), end_pos
+                expansion = substitute_args(
+                    definition, args, math_mode, self.is_plain_macro
+                )
+                return expansion, end_pos
 
         try:
             command: CommandEntry = {
@@ -373,7 +376,10 @@ class CommandProcessor:
                     args.append(g)
                     # args.append(wrap_math_mode_arg(g) if math_mode else g)
 
-            return substitute_args(get_definition(match), args, math_mode), match.end()
+            expansion = substitute_args(
+                get_definition(match), args, math_mode, self.is_plain_macro
+            )
+            return expansion, match.end()
 
         if expand_definition:
             definition = self.expand_commands(definition, True)[0]
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index ca40565..7759008 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -472,8 +472,10 @@ class EnvironmentProcessor:
                     args.append("")  # Empty string for missing required args
 
             # Process begin definition with arguments
-            begin_def = substitute_args(env_info["begin_def"], args)
-            end_def = substitute_args(env_info["end_def"], args)
+            begin_def, end_def = [
+                substitute_args(env_info[key], args, is_macro=lambda name: False)
+                for key in ("begin_def", "end_def")
+            ]
 
             # Add content and end definition
             result = begin_def + "\n" + content + "\n" + end_def
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 2cfa9e1..7f7f900 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -1,4 +1,4 @@
-from typing import Callable, Dict, List, Tuple
+from typing import Callable, Dict, List, Optional, Tuple
 import re
 import os
 
@@ -284,6 +284,14 @@ def control_word_before(text: str, end: int) -> str:
     return "" if start < 1 or is_escaped_backslash(text, start - 1) else name
 
 
+def command_separator(name: str, is_macro: Callable[[str], bool]) -> str:
+    """What keeps the command of this name (if any) from letters after it"""
+    if not name:
+        return ""
+    # blanks after a macro would show in its expansion
+    return "{}" if is_macro(name) else " "
+
+
 def splice_expansion(
     content: str,
     start: int,
@@ -294,17 +302,12 @@ def splice_expansion(
     r"""The content with the expansion in place of what is between start and end, where
     no command swallows letters that come to stand after it e.g. \alpha + b -> \alpha b"""
 
-    def separator(name: str) -> str:
-        if not name:
-            return ""
-        # blanks after a macro would show in its expansion
-        return "{}" if is_macro(name) else " "
-
     before = after = ""
     if (expansion or content[end : end + 1])[:1].isalpha():
-        before = separator(control_word_before(content, start))
+        before = command_separator(control_word_before(content, start), is_macro)
     if expansion and content[end : end + 1].isalpha():
-        after = separator(control_word_before(expansion, len(expansion)))
+        name = control_word_before(expansion, len(expansion))
+        after = command_separator(name, is_macro)
     return content[:start] + before + expansion + after + content[end:]
 
 
@@ -620,12 +623,22 @@ NO_ESC_HASH_NUMBER_PATTERN = re.compile(r"(?<!\\)(#+)([1-9])")
 
 HASH_NUMBER_PATTERN = re.compile(r"(\\#)|(#+)([1-9])")
 
+# definitions of commands whose name ends in an argument e.g. \def\foo#1{...}
+NAME_WITH_ARG_PATTERN = re.compile(
+    r"\\(?:[egx]?def|let|(?:new|renew|provide)command\*?)\s*\{?\s*\\([a-zA-Z@]+)#"
+)
+
 
 def check_string_has_hash_number(text: str) -> bool:
     return bool(NO_ESC_HASH_NUMBER_PATTERN.search(text))
 
 
-def substitute_args(definition: str, args: List[str], math_mode=False) -> str:
+def substitute_args(
+    definition: str,
+    args: List[str],
+    math_mode=False,
+    is_macro: Optional[Callable[[str], bool]] = None,
+) -> str:
     r"""
     Substitute argument patterns in LaTeX command definitions.
     First finds the smallest sequence of unescaped #s in the definition (e.g. #1, ##1, or ###1),
@@ -634,6 +647,9 @@ def substitute_args(definition: str, args: List[str], math_mode=False) -> str:
 
     When math_mode is True, the two surrounding characters (if any) are checked; if either
     is alphabetic then the substitution is wrapped in curly braces.
+
+    With is_macro (whether a command is a macro without arguments), no command merges with
+    letters that come to stand after it e.g. \bf#1 -> \bf arg
     """
     if not args:
         return definition
@@ -676,7 +692,27 @@ def substitute_args(definition: str, args: List[str], math_mode=False) -> str:
         else:
             return match.group(0)
 
-    return HASH_NUMBER_PATTERN.sub(sub_fn, definition)
+    if is_macro is None:
+        return HASH_NUMBER_PATTERN.sub(sub_fn, definition)
+
+    names_with_arg = NAME_WITH_ARG_PATTERN.findall(definition)
+    out = ""
+
+    def add(text: str) -> None:
+        nonlocal out
+        if text[:1].isalpha():
+            name = control_word_before(out, len(out))
+            if name not in names_with_arg:
+                out += command_separator(name, is_macro)
+        out += text
+
+    pos = 0
+    for match in HASH_NUMBER_PATTERN.finditer(definition):
+        add(definition[pos : match.start()])
+        add(sub_fn(match))
+        pos = match.end()
+    add(definition[pos:])
+    return out
 
 
 def extract_delimited_args(
-- 
2.43.0


From faa9200e79c6b5a94b75acccb44bd0b2da8c5cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:06 +0000
Subject: [PATCH 084/156] fix: BibTeX numbers, abbreviations, joined values and
 quotes in braces are read; commands with @ are no entries

---
 latex2json/parser/bib/bibtex_parser.py | 123 ++++++++++++++++---------
 1 file changed, 81 insertions(+), 42 deletions(-)

diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index 40e896f..c11381d 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -3,7 +3,7 @@ from enum import Enum
 from logging import Logger
 import logging
 import re
-from typing import Dict, List, Optional
+from typing import Dict, List, Optional, Tuple
 from latex2json.utils.tex_utils import (
     extract_nested_content,
 )
@@ -43,8 +43,26 @@ class BibTexEntry:
         )
 
 
-BibTexPattern = re.compile(r"@(\w+)\s*\{")
-BibTexFieldPattern = re.compile(r"(\w+)\s*=\s*")
+# but not commands or addresses e.g. \@ifx{ or a@b{
+BibTexPattern = re.compile(r"(?<![\\\w.])@(\w+)\s*\{")
+BibTexFieldPattern = re.compile(r"([^\s,={}\"#]+)\s*=\s*")
+BibTexBareValuePattern = re.compile(r"[^\s,={}\"#]+")
+BibTexJoinPattern = re.compile(r"\s*#\s*")
+
+NON_ENTRY_TYPES = ["comment", "preamble"]
+
+
+def extract_quoted_content(text: str) -> Tuple[Optional[str], int]:
+    """The content of the quotes that the text starts with, which ends outside of braces"""
+    level = 0
+    for i in range(1, len(text)):
+        if text[i] == '"' and level == 0:
+            return text[1:i], i + 1
+        if text[i] == "{":
+            level += 1
+        elif text[i] == "}":
+            level -= 1
+    return None, 0
 
 
 class BibTexParser:
@@ -98,8 +116,13 @@ class BibTexParser:
         entries = []
         pos = 0
 
+        strings = {}
+
         # Find each entry starting with @
         for match in re.finditer(BibTexPattern, content):
+            if match.start() < pos:
+                # part of a value
+                continue
             entry_type = match.group(1).lower()
             start_pos = match.end() - 1  # Position of the opening brace
 
@@ -107,6 +130,14 @@ class BibTexParser:
             entry_content, next_pos = extract_nested_content(content[start_pos:])
             if entry_content is None:
                 continue
+            pos = start_pos + next_pos
+
+            if entry_type == "string":
+                # abbreviations for use in the entries after it
+                self._parse_fields(entry_content, strings, strings)
+                continue
+            if entry_type in NON_ENTRY_TYPES:
+                continue
 
             # Split into citation key and fields
             key_end = entry_content.find(",")
@@ -114,46 +145,8 @@ class BibTexParser:
                 continue
 
             citation_key = entry_content[:key_end].strip()
-            fields_text = entry_content[key_end + 1 :].strip()
-
-            # Parse fields
             fields = {}
-            pos = 0
-
-            while pos < len(fields_text):
-                field_match = re.search(BibTexFieldPattern, fields_text[pos:])
-                if not field_match:
-                    break
-
-                field_name = field_match.group(1).lower()
-                field_start = pos + field_match.end()
-
-                # Get value - either in braces or quotes
-                if fields_text[field_start:].lstrip().startswith("{"):
-                    # Skip whitespace to actual brace
-                    while (
-                        field_start < len(fields_text)
-                        and fields_text[field_start].isspace()
-                    ):
-                        field_start += 1
-                    value, value_end = extract_nested_content(fields_text[field_start:])
-                    if value is not None:
-                        fields[field_name] = value.strip()
-                        pos = field_start + value_end
-                else:
-                    # Handle quoted values
-                    quote_match = re.match(r'\s*"([^"]*)"', fields_text[field_start:])
-                    if quote_match:
-                        fields[field_name] = quote_match.group(1)
-                        pos = field_start + quote_match.end()
-                    else:
-                        pos = field_start + 1
-
-                # Skip trailing comma and whitespace
-                while pos < len(fields_text) and (
-                    fields_text[pos].isspace() or fields_text[pos] == ","
-                ):
-                    pos += 1
+            self._parse_fields(entry_content[key_end + 1 :], fields, strings)
 
             entry = BibTexEntry.from_bibtex(
                 entry_type=entry_type, citation_key=citation_key, fields=fields
@@ -162,6 +155,52 @@ class BibTexParser:
 
         return entries
 
+    def _parse_fields(
+        self, text: str, fields: Dict[str, str], strings: Dict[str, str]
+    ) -> None:
+        """Add the fields in the text e.g. title = {...}, year = 2020"""
+        pos = 0
+        while True:
+            match = BibTexFieldPattern.search(text, pos)
+            if not match:
+                break
+            value, pos = self._parse_value(text, match.end(), strings)
+            if value is not None:
+                fields[match.group(1).lower()] = value
+
+    @staticmethod
+    def _parse_value(
+        text: str, pos: int, strings: Dict[str, str]
+    ) -> Tuple[Optional[str], int]:
+        """A value in braces or quotes, a number or abbreviation, or some joined by #"""
+        parts = []
+        while True:
+            while pos < len(text) and text[pos].isspace():
+                pos += 1
+            if text.startswith("{", pos):
+                part, length = extract_nested_content(text[pos:])
+                if part is None:
+                    break
+                parts.append(part.strip())
+                pos += length
+            elif text.startswith('"', pos):
+                part, length = extract_quoted_content(text[pos:])
+                if part is None:
+                    break
+                parts.append(part)
+                pos += length
+            else:
+                match = BibTexBareValuePattern.match(text, pos)
+                if not match:
+                    break
+                parts.append(strings.get(match.group(0).lower(), match.group(0)))
+                pos = match.end()
+            match = BibTexJoinPattern.match(text, pos)
+            if not match:
+                break
+            pos = match.end()
+        return "".join(parts) if parts else None, pos
+
 
 if __name__ == "__main__":
     parser = BibTexParser()
-- 
2.43.0


From 793136baee6a641a7eda3bc497b10df348515f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:12 +0000
Subject: [PATCH 085/156] fix: a percent sign within a line of a BibTeX source
 begins no comment

---
 latex2json/parser/bib/bib_parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index e8c7323..0ed28d3 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -1,6 +1,7 @@
 from logging import Logger
 import logging
 import os
+import re
 from typing import List
 
 from latex2json.parser.bib.bibtex_parser import (
@@ -15,6 +16,9 @@ from latex2json.utils.tex_utils import (
 )
 
 
+COMMENT_LINE_PATTERN = re.compile(r"^[ \t]*%.*\n?", re.MULTILINE)
+
+
 def preprocess(content: str) -> str:
     """Preprocess content to remove comments and normalize whitespace"""
     content = strip_latex_comments(content)
@@ -41,6 +45,7 @@ class BibParser:
     def parse(self, content: str) -> List[BibTexEntry]:
         """Parse both BibTeX, bibitem, and bibdiv entries from the content"""
 
+        source = content
         content = preprocess(content)
 
         entries = []
@@ -51,6 +56,11 @@ class BibParser:
             entries.extend(self.bibdiv_parser.parse(content))
         # Use the can_handle method for BibTeX
         elif self.bibtex_parser.can_handle(content):
+            if self.bibtex_parser.is_bibtex(content):
+                # there, a % is an ordinary character within a line e.g. in a URL
+                content = normalize_whitespace_and_lines(
+                    COMMENT_LINE_PATTERN.sub("", source)
+                )
             entries.extend(self.bibtex_parser.parse(content))
         # Use the can_handle method for BibItem (now includes bibliography environment check)
         elif self.bibitem_parser.can_handle(content):
-- 
2.43.0


From 5aac845353cf85b820fa27e7e85efdc650e5c4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:16 +0000
Subject: [PATCH 086/156] fix: all bibliographies of a compiled bibliography
 file are read

---
 latex2json/parser/bib/bibitem_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 8beaff1..b8903f0 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -23,11 +23,11 @@ class BibItemParser:
 
     def parse(self, content: str) -> List[BibTexEntry]:
         # If content is in bibliography environment, extract the content
-        bib_match = re.search(
+        bib_blocks = re.findall(
             r"\\begin{(\w*bibliography)}(.*?)\\end{\1}", content, re.DOTALL
         )
-        if bib_match:
-            content = bib_match.group(2)
+        if bib_blocks:
+            content = "\n".join(block for _, block in bib_blocks)
 
         entries = []
         previous_content = None
-- 
2.43.0


From 51ffbdfd34a042d4a291a85a032d7eee295cc410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:21 +0000
Subject: [PATCH 087/156] fix: bysame takes authors with commands in their
 names

---
 latex2json/parser/bib/bibitem_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index b8903f0..728b2c7 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -44,7 +44,7 @@ class BibItemParser:
                     # Extract author part from previous entry (up to first comma)
                     author_part = previous_content.split(",")[0]
                     if author_part:
-                        item = bysame_pattern.sub(author_part, item)
+                        item = bysame_pattern.sub(lambda _: author_part, item)
 
                 entry = BibTexEntry(
                     citation_key=match.group(2).strip(),
-- 
2.43.0


From 1a243e906ed84b7c167882c31bf2cfa1231eeb0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:25 +0000
Subject: [PATCH 088/156] fix: bibitem commands end at the end of their name

---
 latex2json/parser/bib/bibitem_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/bib/bibitem_parser.py b/latex2json/parser/bib/bibitem_parser.py
index 728b2c7..75bf706 100644
--- a/latex2json/parser/bib/bibitem_parser.py
+++ b/latex2json/parser/bib/bibitem_parser.py
@@ -6,10 +6,10 @@ from latex2json.parser.bib.bibtex_parser import BibTexEntry
 
 class BibItemParser:
     BibItemPattern = re.compile(
-        r"\\bibitem\s*(?:\[(.*?)\])?\s*\{(.*?)\}\s*([\s\S]*?)(?=\\bibitem|$)",
+        r"\\bibitem(?![a-zA-Z@])\s*(?:\[(.*?)\])?\s*\{(.*?)\}\s*([\s\S]*?)(?=\\bibitem(?![a-zA-Z@])|$)",
         re.DOTALL,
     )
-    NewblockPattern = re.compile(r"\\newblock\b")
+    NewblockPattern = re.compile(r"\\newblock(?![a-zA-Z@])")
 
     def __init__(self, logger: logging.Logger = None):
         self.logger = logger or logging.getLogger(__name__)
@@ -31,7 +31,7 @@ class BibItemParser:
 
         entries = []
         previous_content = None
-        bysame_pattern = re.compile(r"\\bysame\b")
+        bysame_pattern = re.compile(r"\\bysame(?![a-zA-Z@])")
 
         for match in self.BibItemPattern.finditer(content):
             item = match.group(3).strip()
-- 
2.43.0


From 71bc35d938da9dee437e0ae74abed58cf29decf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:29 +0000
Subject: [PATCH 089/156] fix: a compiled BibTeX entry without an end does not
 swallow the one after it

---
 latex2json/parser/bib/compiled_bibtex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 68ecbdd..1fee257 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -140,7 +140,9 @@ def process_compiled_bibtex_to_bibtex(input_text):
     converting each to standard BibTeX format, and returning the combined result.
     """
     # Find all blocks from \entry to \endentry (non-greedy match)
-    entries = re.findall(r"(\\entry\{.*?\\endentry)", input_text, re.DOTALL)
+    entries = re.findall(
+        r"(\\entry\{(?:(?!\\entry\{).)*?\\endentry)", input_text, re.DOTALL
+    )
     output_entries = []
     for entry_text in entries:
         try:
-- 
2.43.0


From dde509082faaca4d3318f327f27f10e741b86d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 090/156] fix: authors of compiled BibTeX entries keep
 prefixes, names without given name and accents

---
 latex2json/parser/bib/compiled_bibtex.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 1fee257..16fa2a8 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -63,7 +63,9 @@ def parse_compiled_bibtex_entry(entry_text):
 
         if author_blocks:
             # find the hash stuff
-            for hash_match in re.finditer(r"\{hash=\w+\}\{", author_blocks):
+            for hash_match in re.finditer(
+                r"\{(?:[^{}]*,\s*)?hash=\w+[^{}]*\}\s*\{", author_blocks
+            ):
                 hash_pos = hash_match.end() - 1
                 auth_block, _ = extract_nested_content(
                     author_blocks[hash_pos:], "{", "}"
@@ -71,14 +73,22 @@ def parse_compiled_bibtex_entry(entry_text):
                 if auth_block:
                     # Extract family and given names
                     family_match = re.search(r"(family=)\{([^}]+)\}", auth_block)
+                    prefix_match = re.search(r"(\bprefix=)\{([^}]+)\}", auth_block)
                     given_match = re.search(r"(given=)\{([^}]+)\}", auth_block)
-                    if family_match and given_match:
+                    if family_match:
                         start_pos = family_match.end(1)
-                        family, _ = extract_nested_content(auth_block[start_pos:])
-                        start_pos = given_match.end(1)
-                        given, _ = extract_nested_content(auth_block[start_pos:])
-                        given = given[:1] + "."
-                        authors.append(f"{family}, {given}")
+                        name, _ = extract_nested_content(auth_block[start_pos:])
+                        if prefix_match:
+                            start_pos = prefix_match.end(1)
+                            prefix, _ = extract_nested_content(auth_block[start_pos:])
+                            name = f"{prefix} {name}"
+                        if given_match:
+                            start_pos = given_match.end(1)
+                            given, _ = extract_nested_content(auth_block[start_pos:])
+                            if given[:1].isalpha():
+                                given = given[:1] + "."
+                            name = f"{name}, {given}"
+                        authors.append(name)
 
         if authors:
             entry["author"] = " and ".join(authors)
-- 
2.43.0


From 1032d41c0a7a5edf8c370e63845ac015afcb0478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:37 +0000
Subject: [PATCH 091/156] fix: a type or key field of a compiled BibTeX entry
 does not replace its own

---
 latex2json/parser/bib/compiled_bibtex.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/bib/compiled_bibtex.py b/latex2json/parser/bib/compiled_bibtex.py
index 16fa2a8..e241d69 100644
--- a/latex2json/parser/bib/compiled_bibtex.py
+++ b/latex2json/parser/bib/compiled_bibtex.py
@@ -30,13 +30,13 @@ def parse_compiled_bibtex_entry(entry_text):
     Returns a dictionary with keys:
       - key: citation key (from \entry{...})
       - type: entry type (e.g., misc, article, etc.)
-      - author: formatted author string (if available)
-      - other fields: title, year, eprint, eprinttype, eprintclass, etc.
+      - fields: author (formatted, if available), title, year, eprint, eprinttype, eprintclass, etc.
     """
     # Apply pattern replacements to the entry text first
     entry_text = apply_pattern_replacements(entry_text)
 
-    entry = {}
+    fields = {}
+    entry = {"fields": fields}
 
     # Extract the entry header: \entry{<key>}{<type>}{...}
     header_match = re.search(r"\\entry\{([^}]+)\}\{([^}]+)\}\{[^}]*\}", entry_text)
@@ -91,7 +91,7 @@ def parse_compiled_bibtex_entry(entry_text):
                         authors.append(name)
 
         if authors:
-            entry["author"] = " and ".join(authors)
+            fields["author"] = " and ".join(authors)
 
     # Parse \field blocks (e.g. title, year, eprinttype, eprintclass)
     for field_match in re.finditer(r"(\\field)\{([^}]+)\}\{", entry_text):
@@ -106,7 +106,7 @@ def parse_compiled_bibtex_entry(entry_text):
             continue
         if field_key == "journaltitle":
             field_key = "journal"
-        entry[field_key] = field_value
+        fields[field_key] = field_value
 
     # Parse the eprint value from the \verb block
     eprint_match = re.search(
@@ -114,7 +114,7 @@ def parse_compiled_bibtex_entry(entry_text):
     )
     if eprint_match:
         eprint_value = eprint_match.group(1).strip()
-        entry["eprint"] = eprint_value
+        fields["eprint"] = eprint_value
 
     return entry
 
@@ -130,13 +130,14 @@ def convert_to_regular_bibtex(entry):
 
     # Specify the field order you want in the output.
     field_order = ["author", "title", "year", "eprint", "eprinttype", "eprintclass"]
+    fields = entry.get("fields", {})
     for field in field_order:
-        if field in entry:
-            lines.append(f"  {field} = {{{entry[field]}}},")
+        if field in fields:
+            lines.append(f"  {field} = {{{fields[field]}}},")
 
     # Optionally, add any additional fields that were parsed
-    for field, value in entry.items():
-        if field in ["key", "type"] or field in field_order:
+    for field, value in fields.items():
+        if field in field_order:
             continue
         lines.append(f"  {field} = {{{value}}},")
 
-- 
2.43.0


From 86950aa6997c0b9b8da4d3054acac6bf8d2425ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 092/156] fix: amsrefs values keep the braces of arguments and
 math

---
 latex2json/parser/bib/bibdiv_parser.py | 39 +++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/bib/bibdiv_parser.py b/latex2json/parser/bib/bibdiv_parser.py
index 1e443b2..86ccdaa 100644
--- a/latex2json/parser/bib/bibdiv_parser.py
+++ b/latex2json/parser/bib/bibdiv_parser.py
@@ -8,8 +8,34 @@ from latex2json.utils.tex_utils import (
 )
 from latex2json.parser.bib.bibtex_parser import BibTexEntry
 
+COMMAND_START_PATTERN = re.compile(r"\s*\\[a-zA-Z]")
+
 BibDivPattern = re.compile(r"\\begin\s*{bibdiv}")
-BibPattern = re.compile(r"\\bib\s*\{([^}]+)\}\s*\{([^}]+)\}")
+BibPattern = re.compile(r"\\bib\*?\s*\{([^}]+)\}\s*\{([^}]+)\}\s*")
+
+
+def strip_group_braces(text: str) -> str:
+    """Remove braces around words, but not those of arguments or math e.g. \\emph{a}, $x^{2}$"""
+    out = ""
+    pos = 0
+    in_math = False
+    while pos < len(text):
+        char = text[pos]
+        if char == "\\":
+            out += text[pos : pos + 2]
+            pos += 2
+            continue
+        if char == "$":
+            in_math = not in_math
+        elif char == "{" and not in_math and (not out or out[-1] in " \t\n,;:(-/"):
+            inner, length = extract_nested_content(text[pos:])
+            if inner is not None and not COMMAND_START_PATTERN.match(inner):
+                out += strip_group_braces(inner)
+                pos += length
+                continue
+        out += char
+        pos += 1
+    return out
 
 
 class BibDivParser:
@@ -59,12 +85,12 @@ class BibDivParser:
 
         # Find each \bib entry
         for match in re.finditer(BibPattern, bibdiv_content):
-            citation_key = match.group(1)
-            entry_type = match.group(2)
+            citation_key = match.group(1).strip()
+            entry_type = match.group(2).strip()
 
             # Get everything inside the braces after the entry type
             entry_content, _ = extract_nested_content(bibdiv_content[match.end() :])
-            if not entry_content:
+            if entry_content is None:
                 continue
 
             # Parse fields
@@ -93,8 +119,7 @@ class BibDivParser:
                     )
                     if value is not None:
                         # Strip any remaining braces from the value
-                        value = re.sub(r"\{([^}]*)\}", r"\1", value)
-                        value = value.strip()
+                        value = strip_group_braces(value).strip()
                         # Handle multiple instances of the same field
                         if field_name in fields:
                             fields[field_name] = f"{fields[field_name]} and {value}"
@@ -108,7 +133,7 @@ class BibDivParser:
                         comma_pos = len(entry_content)
                     value = entry_content[field_start:comma_pos].strip()
                     # Strip any remaining braces from the value
-                    value = re.sub(r"\{([^}]*)\}", r"\1", value)
+                    value = strip_group_braces(value)
                     # Handle multiple instances of the same field
                     if field_name in fields:
                         fields[field_name] = f"{fields[field_name]} and {value}"
-- 
2.43.0


From da04a3119c4ce9a319080e7b081d78821412e5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:00 +0000
Subject: [PATCH 093/156] fix: bibliography files of any encoding are read, and
 the fallback does not depend on the folder order

---
 latex2json/parser/bib/bib_parser.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/bib/bib_parser.py b/latex2json/parser/bib/bib_parser.py
index 0ed28d3..725bdc7 100644
--- a/latex2json/parser/bib/bib_parser.py
+++ b/latex2json/parser/bib/bib_parser.py
@@ -10,6 +10,7 @@ from latex2json.parser.bib.bibtex_parser import (
 )
 from latex2json.parser.bib.bibdiv_parser import BibDivParser
 from latex2json.parser.bib.bibitem_parser import BibItemParser
+from latex2json.utils.encoding import read_file
 from latex2json.utils.tex_utils import (
     strip_latex_comments,
     normalize_whitespace_and_lines,
@@ -77,8 +78,7 @@ class BibParser:
         #     self.logger.warning(f"BibParser: Already parsed {file_path}")
         #     return None
         # self._parsed_files.add(file_path)
-        with open(file_path, "r") as f:
-            return f.read()
+        return read_file(file_path)
 
     def parse_file(self, file_path: str) -> List[BibTexEntry]:
         """Parse a bibliography file and return list of entries.
@@ -108,7 +108,7 @@ class BibParser:
 
         # Case 3: Try main.bbl first, then any .bbl file in the same directory
         if not bib_content:
-            directory = os.path.dirname(file_path)
+            directory = os.path.dirname(file_path) or "."
             main_bbl = os.path.join(directory, "main.bbl")
 
             if os.path.exists(main_bbl):
@@ -116,7 +116,11 @@ class BibParser:
                 bib_content = self._open_file(main_bbl)
             else:
                 # Look for any .bbl file
-                bbl_files = [f for f in os.listdir(directory) if f.endswith(".bbl")]
+                bbl_files = []
+                if os.path.isdir(directory):
+                    bbl_files = sorted(
+                        f for f in os.listdir(directory) if f.endswith(".bbl")
+                    )
                 if bbl_files:
                     first_bbl = os.path.join(directory, bbl_files[0])
                     self.logger.info(f"Bib fallback -> Found {bbl_files[0]}")
-- 
2.43.0


From 9cbda0d0cd7429f2b2d986d0ea83406c15dde9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:22 +0000
Subject: [PATCH 094/156] fix: bibliography tokens keep their styles and labels

---
 latex2json/structure/tokens/bibliography.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/structure/tokens/bibliography.py b/latex2json/structure/tokens/bibliography.py
index 6739deb..64cc773 100644
--- a/latex2json/structure/tokens/bibliography.py
+++ b/latex2json/structure/tokens/bibliography.py
@@ -41,4 +41,8 @@ class BibliographyToken(BaseToken):
                 if isinstance(token, BibItemToken):
                     processed_content.append(token)
 
-        return cls(content=processed_content)
+        return cls(
+            content=processed_content,
+            styles=data.get("styles"),
+            labels=data.get("labels"),
+        )
-- 
2.43.0


From 458310d8b19a63b45d75152fc3bd8e11732da6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:27 +0000
Subject: [PATCH 095/156] fix: dumped equations and math environments without
 placeholders, title or proof can be turned into tokens again

---
 latex2json/structure/tokens/base.py     | 4 ++--
 latex2json/structure/tokens/equation.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/latex2json/structure/tokens/base.py b/latex2json/structure/tokens/base.py
index 0a362c2..d98b0c9 100644
--- a/latex2json/structure/tokens/base.py
+++ b/latex2json/structure/tokens/base.py
@@ -101,13 +101,13 @@ class MathEnvToken(BaseToken):
                 token = create_token(item)
                 if token is not None:
                     content.append(token)
-        if "title" in data:
+        if data.get("title") is not None:
             title = []
             for item in data["title"]:
                 token = create_token(item)
                 if token is not None:
                     title.append(token)
-        if "proof" in data:
+        if data.get("proof") is not None:
             proof = create_token(data["proof"])
 
         return cls(
diff --git a/latex2json/structure/tokens/equation.py b/latex2json/structure/tokens/equation.py
index 8481935..6f495bd 100644
--- a/latex2json/structure/tokens/equation.py
+++ b/latex2json/structure/tokens/equation.py
@@ -30,7 +30,7 @@ class EquationToken(BaseToken):
     ) -> "EquationToken":
         """Process equation data, filtering for EquationItemTokens only"""
         placeholder_dict = None
-        if "placeholders" in data:
+        if data.get("placeholders") is not None:
             placeholder_dict = {}
             for k, v in data["placeholders"].items():
                 out = []
-- 
2.43.0


From 08fb182066061ec3b5f4d8aeee24b790ff463b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:15 +0000
Subject: [PATCH 096/156] fix: accents go on letters given by commands, and
 leave what is no letter alone

---
 latex2json/parser/handlers/diacritics.py | 100 ++++++++++++++++++-----
 1 file changed, 79 insertions(+), 21 deletions(-)

diff --git a/latex2json/parser/handlers/diacritics.py b/latex2json/parser/handlers/diacritics.py
index 26e3fe3..2f2642a 100644
--- a/latex2json/parser/handlers/diacritics.py
+++ b/latex2json/parser/handlers/diacritics.py
@@ -2,6 +2,7 @@ from typing import Dict, Optional, Tuple
 import unicodedata
 import re
 
+from latex2json.latex_maps._latex2unicode_map import latex2unicode
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import extract_nested_content, substitute_patterns
 
@@ -40,6 +41,26 @@ ACCENT_MAP = {
 }
 
 
+# an accent on nothing is the sign itself
+SPACING_ACCENTS = {
+    "'": "\N{ACUTE ACCENT}",
+    "`": "\N{GRAVE ACCENT}",
+    '"': "\N{DIAERESIS}",
+    "^": "\N{CIRCUMFLEX ACCENT}",
+    "~": "\N{TILDE}",
+    "=": "\N{MACRON}",
+    "c": "\N{CEDILLA}",
+    "H": "\N{DOUBLE ACUTE ACCENT}",
+    "k": "\N{OGONEK}",
+    ".": "\N{DOT ABOVE}",
+    "r": "\N{RING ABOVE}",
+    "u": "\N{BREVE}",
+    "v": "\N{CARON}",
+}
+
+SYMBOL_COMMAND_PATTERN = re.compile(r"(\\[a-zA-Z]+)(?:\{\}|\s+)?")
+
+
 def generate_accent_patterns():
     """
     Generate regex patterns for LaTeX accent commands and special characters.
@@ -49,11 +70,9 @@ def generate_accent_patterns():
 
     for key in ACCENT_MAP:
         if key[0].isalpha():
-            patterns[key] = re.compile(
-                r"\\" + key + r"((?:\s*\{)|(\s+\S)|(?![a-zA-Z@])\S)"
-            )
+            patterns[key] = re.compile(r"\\" + key + r"(?![a-zA-Z@])")
         else:
-            patterns[key] = re.compile(r"\\" + re.escape(key) + r"\s*(\{|\S)")
+            patterns[key] = re.compile(r"\\" + re.escape(key))
 
     return patterns
 
@@ -79,9 +98,12 @@ def apply_accent(base_char: str, accent: str) -> str:
     if accent not in ACCENT_MAP:
         return base_char
 
-    # Split into first char and rest
-    first_char = base_char[0]
-    rest = base_char[1:]
+    # Split into first char (and the accents it already has) and rest
+    end = 1
+    while end < len(base_char) and unicodedata.combining(base_char[end]):
+        end += 1
+    first_char = base_char[:end]
+    rest = base_char[end:]
 
     # Combine only the first character with the accent and normalize
     combined = first_char + ACCENT_MAP[accent]
@@ -96,24 +118,60 @@ def convert_tex_diacritics(text: str) -> str:
     return substitute_patterns(text, ACCENT_PATTERNS, parse_diacritic_match)
 
 
+def parse_accent_base(text: str) -> Tuple[str, int]:
+    """Parse the letter at the start of the text, and return it with its end position.
+
+    The letter may be given by a command e.g. \\i or another accent. It is empty if there is none.
+    """
+    if not text or text[0].isspace() or text[0] in "{}$&%#~":
+        return "", 0
+
+    if text[0] != "\\":
+        return text[0], 1
+
+    for accent_name, pattern in ACCENT_PATTERNS.items():
+        match = pattern.match(text)
+        if match:
+            return parse_diacritic_match(text, match, accent_name)
+
+    match = SYMBOL_COMMAND_PATTERN.match(text)
+    if match:
+        if match.group(1) in ("\\i", "\\j"):
+            # the dot gives way to the accent
+            return match.group(1)[1:], match.end()
+        symbol = latex2unicode.get(match.group(1))
+        if isinstance(symbol, int):
+            return chr(symbol), match.end()
+
+    return "", 0
+
+
 def parse_diacritic_match(
     text: str, match: re.Match, accent_name: str
 ) -> Tuple[str, int]:
     """Parse a diacritic match and return the converted text and the end position"""
-    matched_str = match.group(0)
-    # start_pos = match.start()
-    end_pos = match.end()
-
-    last_char = matched_str[-1]
-    if last_char == "{":
-        out, nested_end_pos = extract_nested_content(text[end_pos - 1 :])
-        if out:
-            out = out.strip()
-            last_char = out
-            end_pos += nested_end_pos - 1
-
-    converted = apply_accent(last_char, accent_name)
-    return converted, end_pos
+    arg_pos = match.end()
+    while arg_pos < len(text) and text[arg_pos].isspace():
+        arg_pos += 1
+
+    if text[arg_pos : arg_pos + 1] == "{":
+        inner, nested_end_pos = extract_nested_content(text[arg_pos:])
+        if inner is not None:
+            inner = inner.strip()
+            base, base_end_pos = parse_accent_base(inner)
+            if base or not inner:
+                converted = apply_accent(base, accent_name)
+                if not base:
+                    converted = SPACING_ACCENTS.get(accent_name, "")
+                converted += convert_tex_diacritics(inner[base_end_pos:])
+                return converted, arg_pos + nested_end_pos
+    else:
+        base, base_end_pos = parse_accent_base(text[arg_pos:])
+        if base:
+            return apply_accent(base, accent_name), arg_pos + base_end_pos
+
+    # no letter to put the accent on, leave what follows alone
+    return SPACING_ACCENTS.get(accent_name, ""), match.end()
 
 
 class DiacriticsHandler(TokenHandler):
-- 
2.43.0


From 265d1157dbc05603bddbf813242125544b10ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:19 +0000
Subject: [PATCH 097/156] fix: paragraph, dagger, pound, bar, brace and dotless
 j commands are known symbols

---
 latex2json/latex_maps/_latex2unicode_map.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/latex2json/latex_maps/_latex2unicode_map.py b/latex2json/latex_maps/_latex2unicode_map.py
index 89a2449..ec08957 100644
--- a/latex2json/latex_maps/_latex2unicode_map.py
+++ b/latex2json/latex_maps/_latex2unicode_map.py
@@ -14,6 +14,15 @@ latex2unicode: Dict[str, Union[str, int]] = {
     "\\dots": "...",
     "\\textless": "<",
     "\\textgreater": ">",
+    "\\textbar": "|",
+    "\\textunderscore": "_",
+    "\\textbraceleft": "{",
+    "\\textbraceright": "}",
+    "\\P": "¶",
+    "\\dag": "†",
+    "\\ddag": "‡",
+    "\\pounds": "£",
+    "\\j": "ȷ",
     "\\#": 35,
     "\\$": 36,
     "\\%": 37,
-- 
2.43.0


From 5e7ccdaa1ac7364ef0fe55df06ff8a2d13a5c2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:14 +0000
Subject: [PATCH 098/156] fix: a backslash command is a backslash and no line
 break, and symbols take no argument

---
 latex2json/latex_maps/_latex2unicode_map.py | 1 +
 latex2json/parser/handlers/formatting.py    | 4 +---
 latex2json/parser/tex_parser.py             | 7 +++++++
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/latex2json/latex_maps/_latex2unicode_map.py b/latex2json/latex_maps/_latex2unicode_map.py
index ec08957..0e8714b 100644
--- a/latex2json/latex_maps/_latex2unicode_map.py
+++ b/latex2json/latex_maps/_latex2unicode_map.py
@@ -14,6 +14,7 @@ latex2unicode: Dict[str, Union[str, int]] = {
     "\\dots": "...",
     "\\textless": "<",
     "\\textgreater": ">",
+    "\\backslash": "\\",
     "\\textbar": "|",
     "\\textunderscore": "_",
     "\\textbraceleft": "{",
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 0840d17..0d60097 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -234,7 +234,7 @@ RAW_PATTERNS = OrderedDict(
             r"\\c@page(?![a-zA-Z@])|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
         ),
         ("add_enumerate_counter", r"\\AddEnumerateCounter\s*\{"),
-        ("backslash", r"\\(?:backslash|textbackslash|arraybackslash)(?![a-zA-Z@])"),
+        ("arraybackslash", r"\\arraybackslash(?![a-zA-Z@])"),
         ("geometry", r"\\geometry\s*\{"),
         ("ensuremath", r"\\ensuremath\s*{"),
         ("stackmath", r"\\stackMath(?![a-zA-Z@])"),
@@ -378,8 +378,6 @@ class FormattingHandler(TokenHandler):
                     return None, match.end()
                 elif pattern_name == "indent":
                     return {"type": "text", "content": "\t"}, match.end()
-                elif pattern_name == "backslash":
-                    return {"type": "text", "content": r"\\"}, match.end()
                 elif pattern_name == "spacing":
                     if match.group(0) == r"\!":
                         return None, match.end()
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index d41483d..578db61 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -245,6 +245,13 @@ class LatexParser:
                     end_pos += inner_end_pos - 1
                     total_content += inner_content + "}"
 
+            symbol = self._expand_command(command)
+            if symbol == "\\" or not symbol.startswith("\\"):
+                # a symbol has no argument: what is in the braces is just text after it
+                if inner_content:
+                    end_pos = len(command)
+                return {"type": "text", "content": symbol}, end_pos
+
             expanded = self._expand_command(total_content)
 
             if expanded.startswith("\\"):
-- 
2.43.0


From 8886183e9fdd8c20e184d1bfd548f89171ae99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:46 +0000
Subject: [PATCH 099/156] fix: a tilde accent is an accent wherever it stands

---
 latex2json/parser/patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 7c47f7d..6ecd05a 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -22,7 +22,7 @@ command_or_dim = rf"(?:[-+]?\s*{command_with_opt_brace_pattern}|{number_points_s
 # match $ or % or { or } only if not preceded by \
 # Update DELIM_PATTERN to also match double backslashes and opening braces {
 DELIM_PATTERN = re.compile(
-    r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\\^|\\(?![$%&_#{}^~\\]))"
+    r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\[\^~]|\\(?![$%&_#{}^~\\]))"
 )
 
 DOCUMENTCLASS_PATTERN = re.compile(
-- 
2.43.0


From e22e73641c53e8af9bf2a535a9ac37cee1958b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:14 +0000
Subject: [PATCH 100/156] fix: groups in table cells are parsed with their cell
 only, not twice

---
 latex2json/parser/tex_parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 578db61..534e76e 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -576,6 +576,13 @@ class LatexParser:
             if content[current_pos] == "{":
                 # Find matching closing brace
                 inner_content, end_pos = extract_nested_content(content[current_pos:])
+                if inner_content is not None and not handle_unknown_commands:
+                    # first pass: the group is parsed with the cell that it is in
+                    add_space = current_pos > 0 and content[current_pos - 1].isspace()
+                    group = content[current_pos : current_pos + end_pos]
+                    self.add_token(group, tokens, add_space)
+                    current_pos += end_pos
+                    continue
                 if inner_content is not None:
                     # Parse the content within the braces
                     nested_tokens = self.parse(inner_content)
-- 
2.43.0


From 770de7cbb510cf37056e51d4fa57202d75886a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:03 +0000
Subject: [PATCH 101/156] fix: plain text from boxes and groups in table cells
 is not read as source again

---
 latex2json/parser/flatten.py    | 19 ++++++++++++++-----
 latex2json/parser/tex_parser.py | 16 +++++++++++++---
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/flatten.py b/latex2json/parser/flatten.py
index 360d890..5a2fb65 100644
--- a/latex2json/parser/flatten.py
+++ b/latex2json/parser/flatten.py
@@ -2,6 +2,19 @@ from typing import List, Dict
 from collections import OrderedDict
 
 
+def is_plain_text(token: str | Dict | List) -> bool:
+    """Check if this is nothing but text without styles"""
+    if isinstance(token, list):
+        return all(is_plain_text(t) for t in token)
+    if isinstance(token, dict):
+        return (
+            token.get("type") == "text"
+            and isinstance(token["content"], str)
+            and "styles" not in token
+        )
+    return isinstance(token, str)
+
+
 def flatten_tokens(tokens: str | List[Dict]) -> tuple[str, OrderedDict[str, Dict]]:
     flattened_content = ""
     reference_map = OrderedDict[str, Dict]()
@@ -11,11 +24,7 @@ def flatten_tokens(tokens: str | List[Dict]) -> tuple[str, OrderedDict[str, Dict
         return tokens, {}
 
     for token in tokens:
-        if (
-            token["type"] == "text"
-            and isinstance(token["content"], str)
-            and "styles" not in token
-        ):
+        if is_plain_text(token):
             flattened_content += token["content"]
         else:
             # Create a reference key and store token in map
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 534e76e..62b1f83 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -5,6 +5,7 @@ import sys, os, traceback
 import logging
 
 from latex2json.parser.bib.bib_parser import BibTexEntry, BibParser
+from latex2json.parser.flatten import is_plain_text
 from latex2json.utils.logger import setup_logger
 
 sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
@@ -450,9 +451,14 @@ class LatexParser:
 
         self.add_token(token, tokens)
 
-    def _check_handlers(self, content: str, tokens: List[Dict]) -> Tuple[bool, int]:
+    def _check_handlers(
+        self, content: str, tokens: List[Dict], plain_text_as_source: bool = False
+    ) -> Tuple[bool, int]:
         """Process content through available handlers.
 
+        With plain_text_as_source, what comes out as plain text is kept as its source, as it
+        is going to be parsed again.
+
         Returns:
             Tuple[bool, int]: (whether content was matched, new position)
         """
@@ -460,7 +466,9 @@ class LatexParser:
             if handler.can_handle(content):
                 prev_token = tokens[-1] if tokens else None
                 token, end_pos = handler.handle(content, prev_token)
-                if token:
+                if token and plain_text_as_source and is_plain_text(token):
+                    self.add_token(content[:end_pos], tokens)
+                elif token:
                     self._process_token(
                         token,
                         tokens,
@@ -684,7 +692,9 @@ class LatexParser:
                     continue
 
             # try each handler
-            matched, end_pos = self._check_handlers(content[current_pos:], tokens)
+            matched, end_pos = self._check_handlers(
+                content[current_pos:], tokens, not handle_unknown_commands
+            )
             current_pos += end_pos
             if matched:
                 done_pos = current_pos
-- 
2.43.0


From 72cf402058bf799b2db305d74238d19f09bf731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:46 +0000
Subject: [PATCH 102/156] fix: names that merely begin like a known command are
 commands of their own

---
 latex2json/parser/handlers/content_command.py |  2 +-
 latex2json/parser/handlers/formatting.py      | 23 +++++++++++++++----
 latex2json/parser/handlers/new_definition.py  |  2 +-
 latex2json/parser/handlers/text_formatting.py |  2 +-
 4 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 799797b..0933e27 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -45,7 +45,7 @@ RAW_PATTERNS = OrderedDict(
             % OPTIONAL_BRACE_PATTERN,
         ),
         # footnotes
-        ("footnotemark", r"\\footnotemark%s" % OPTIONAL_BRACE_PATTERN),
+        ("footnotemark", r"\\footnotemark(?![a-zA-Z@])%s" % OPTIONAL_BRACE_PATTERN),
         ("footnotetext", r"\\footnotetext%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # URLs
         ("url", r"\\(?:url|path)\s*{"),
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 0d60097..107e6f8 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -126,7 +126,8 @@ RAW_PATTERNS = OrderedDict(
         (
             "lineskip",
             r"\\lineskip\s*%s" % (number_points_suffix)
-            + r"|(%s)?\\baselineskip(?:\s*%s)?" % (number_regex, number_points_suffix),
+            + r"|(%s)?\\baselineskip(?![a-zA-Z@])(?:\s*%s)?"
+            % (number_regex, number_points_suffix),
         ),
         # width
         (
@@ -203,7 +204,7 @@ RAW_PATTERNS = OrderedDict(
             r"centerline(?![a-zA-Z@])|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
             r"topsep(?![a-zA-Z@])|parsep(?![a-zA-Z@])|partopsep(?![a-zA-Z@])|"
-            r"labelsep\s*\{?([^\}]*)\}?|"
+            r"labelsep(?![a-zA-Z@])\s*(?:\{[^\}]*\})?|"
             + r"(?:midrule|toprule|bottomrule)%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
             + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
@@ -260,7 +261,7 @@ RAW_PATTERNS = OrderedDict(
         ("@empty", r"\\@empty(?![a-zA-Z@])"),
         (
             "advance",
-            r"\\(?:advance|divide|multiply)(?:\\[a-zA-Z@*\d]+)?(?:\s+by)?(?:\s*-)?(?:\s*(?:\\)?[a-zA-Z@*\d]+)?",
+            r"\\(?:advance|divide|multiply)(?![a-zA-Z@])(?:\\[a-zA-Z@*\d]+)?(?:\s+by)?(?:\s*-)?(?:\s*(?:\\)?[a-zA-Z@*\d]+)?",
         ),
         ("typeout", r"\\typeout\s*{"),
         # other...
@@ -288,6 +289,18 @@ PATTERNS["color_cells"] = COLOR_CELLS_PATTERN
 
 number_regex_compiled = re.compile(number_regex)
 
+CONTROL_WORD_PATTERN = re.compile(r"\\[a-zA-Z]+")
+
+
+def match_command(pattern: re.Pattern, content: str) -> Optional[re.Match]:
+    """Match pattern, unless it only covers the beginning of a longer command name"""
+    match = pattern.match(content)
+    if match:
+        word = CONTROL_WORD_PATTERN.match(content)
+        if word and match.end() < word.end():
+            return None
+    return match
+
 
 def strip_trailing_number_from_token(token: Dict) -> Dict:
     if not token or not isinstance(token, dict) or token.get("type") != "text":
@@ -345,7 +358,7 @@ class FormattingHandler(TokenHandler):
             return number
 
     def can_handle(self, content: str) -> bool:
-        return any(pattern.match(content) for pattern in PATTERNS.values())
+        return any(match_command(pattern, content) for pattern in PATTERNS.values())
 
     def handle(
         self,
@@ -357,7 +370,7 @@ class FormattingHandler(TokenHandler):
         for pattern_name, pattern in PATTERNS.items():
             if exclude_patterns and pattern_name in exclude_patterns:
                 continue
-            match = pattern.match(content)
+            match = match_command(pattern, content)
             if match:
                 if pattern_name == "comment":
                     return None, match.end()
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 2531d56..88f8272 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -39,7 +39,7 @@ LET_CSNAME_PATTERN = re.compile(
     re.DOTALL,
 )
 
-EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?:\w+)?(?![a-zA-Z])")
+EXPAND_PATTERN = re.compile(r"\\(?:expandafter|noexpand)(?![a-zA-Z])")
 START_CSNAME_PATTERN = re.compile(r"\\csname(?![a-zA-Z])")
 END_CSNAME_PATTERN = re.compile(r"\\endcsname(?![a-zA-Z])")
 
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index 80a563c..b38f108 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -65,7 +65,7 @@ PATTERNS = {
     "frac": re.compile(r"\\(?:frac|nicefrac|textfrac)\s*\{", re.DOTALL),
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
-    "columns": re.compile(r"\\(?:onecolumn(?![a-zA-Z@])|twocolumn\s*\[?)"),
+    "columns": re.compile(r"\\(?:onecolumn(?![a-zA-Z@])|twocolumn(?![a-zA-Z@])\s*\[?)"),
     "subfloat": re.compile(r"\\subfloat\s*\["),
     "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
 }
-- 
2.43.0


From bc19687ad0883abf8cae9849abe7b178c3927ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 103/156] fix: an assigned label separation does not take the
 text up to the next brace

---
 latex2json/parser/handlers/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 107e6f8..890be5e 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -204,7 +204,7 @@ RAW_PATTERNS = OrderedDict(
             r"centerline(?![a-zA-Z@])|"  # no args
             r"cline\s*{([^}]+)}|"  # {n-m}
             r"topsep(?![a-zA-Z@])|parsep(?![a-zA-Z@])|partopsep(?![a-zA-Z@])|"
-            r"labelsep(?![a-zA-Z@])\s*(?:\{[^\}]*\})?|"
+            r"labelsep(?![a-zA-Z@])\s*(?:\{[^\}]*\}|=?\s*%s)?|" % number_points_suffix
             + r"(?:midrule|toprule|bottomrule)%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
             + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
-- 
2.43.0


From 736c659e461ad9200267d33c4ca7509b17ebcf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 104/156] fix: spacing commands between table rows make no row

---
 latex2json/parser/flatten.py    | 9 +++++++++
 latex2json/parser/tex_parser.py | 9 +++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/flatten.py b/latex2json/parser/flatten.py
index 5a2fb65..a27426b 100644
--- a/latex2json/parser/flatten.py
+++ b/latex2json/parser/flatten.py
@@ -15,6 +15,15 @@ def is_plain_text(token: str | Dict | List) -> bool:
     return isinstance(token, str)
 
 
+def is_blank_text(token: str | Dict | List) -> bool:
+    """Check if this is text of nothing but white space"""
+    if isinstance(token, list):
+        return all(is_blank_text(t) for t in token)
+    if isinstance(token, dict):
+        return is_plain_text(token) and not token["content"].strip()
+    return isinstance(token, str) and not token.strip()
+
+
 def flatten_tokens(tokens: str | List[Dict]) -> tuple[str, OrderedDict[str, Dict]]:
     flattened_content = ""
     reference_map = OrderedDict[str, Dict]()
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 62b1f83..818acd9 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -5,7 +5,7 @@ import sys, os, traceback
 import logging
 
 from latex2json.parser.bib.bib_parser import BibTexEntry, BibParser
-from latex2json.parser.flatten import is_plain_text
+from latex2json.parser.flatten import is_blank_text, is_plain_text
 from latex2json.utils.logger import setup_logger
 
 sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
@@ -466,7 +466,12 @@ class LatexParser:
             if handler.can_handle(content):
                 prev_token = tokens[-1] if tokens else None
                 token, end_pos = handler.handle(content, prev_token)
-                if token and plain_text_as_source and is_plain_text(token):
+                if (
+                    token
+                    and plain_text_as_source
+                    and is_plain_text(token)
+                    and not is_blank_text(token)
+                ):
                     self.add_token(content[:end_pos], tokens)
                 elif token:
                     self._process_token(
-- 
2.43.0


From 95189ff79959e35d3bb3b4fe53858b8fe88d66dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:18 +0000
Subject: [PATCH 105/156] fix: math, references and styles in an mbox are kept

---
 latex2json/parser/packages/boxes.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index f4e761c..5f5380d 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -2,6 +2,7 @@ import copy
 from typing import Dict, List, Tuple, Optional
 import re
 
+from latex2json.parser.flatten import is_plain_text
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.new_definition import command_with_opt_brace_pattern
 from latex2json.parser.patterns import OPTIONAL_BRACE_PATTERN
@@ -33,6 +34,8 @@ BOX_PATTERN = re.compile(
     r"\\(%s)\s*[\[\{]" % "|".join(BOX_DELIMITERS.keys()), re.VERBOSE | re.DOTALL
 )
 
+LINE_BREAK_PATTERN = re.compile(r"\s*\n\s*")
+
 # Add fancyhead pattern
 FANCYHEAD_PATTERN = re.compile(
     r"\\(fancyhead|fancyheadoffset|rhead|chead|lhead)\s*%s\s*{"
@@ -126,9 +129,16 @@ class BoxHandler(TokenHandler):
 
         if one_liner:
             # make everything into one line
-            extracted_content = strip_latex_newlines(
-                flatten_all_to_string(extracted_content)
-            )
+            if is_plain_text(extracted_content):
+                extracted_content = strip_latex_newlines(
+                    flatten_all_to_string(extracted_content)
+                )
+            else:
+                for token in extracted_content:
+                    if token.get("type") == "text" and isinstance(
+                        token["content"], str
+                    ):
+                        token["content"] = LINE_BREAK_PATTERN.sub(" ", token["content"])
 
         if isinstance(extracted_content, str):
             return {"type": "text", "content": extracted_content}, end_pos
-- 
2.43.0


From c4811c9b7e5df327d973d573aef4f0bed25185dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:23 +0000
Subject: [PATCH 106/156] fix: a style switch ends only what it replaces,
 longer names and repeated switches included

---
 .../parser/handlers/legacy_formatting.py      | 229 ++++++++++++------
 latex2json/parser/handlers/text_formatting.py |   1 +
 latex2json/parser/tex_parser.py               |   1 +
 3 files changed, 158 insertions(+), 73 deletions(-)

diff --git a/latex2json/parser/handlers/legacy_formatting.py b/latex2json/parser/handlers/legacy_formatting.py
index 923ca15..9fadd73 100644
--- a/latex2json/parser/handlers/legacy_formatting.py
+++ b/latex2json/parser/handlers/legacy_formatting.py
@@ -1,12 +1,10 @@
-from typing import Callable, Dict, Optional, Tuple
+from typing import Callable, Dict, List, NamedTuple, Optional, Set, Tuple
 
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
-from latex2json.parser.handlers.environment import (
-    find_pattern_while_skipping_nested_envs,
-)
-from latex2json.utils.tex_utils import extract_nested_content
+from latex2json.parser.handlers.environment import BaseEnvironmentHandler
+from latex2json.utils.tex_utils import extract_nested_content, mask_verbatim
 
 
 # Font style mappings
@@ -36,10 +34,6 @@ LEGACY_FONT_MAPPING: Dict[str, str] = {
     "mdseries": "textrm",  # Changed to textrm as it's the closest equivalent
     # Font combinations and resets
     "normalfont": "textrm",  # Changed to textrm as it's the closest equivalent
-    # Additional text mode variants
-    "textup": "textrm",
-    "textnormal": "textrm",
-    "textmd": "textrm",
     # math stuff (often used directly before math mode)
     "unboldmath": "textrm",
     "boldmath": "textbf",
@@ -87,17 +81,134 @@ PATTERNS = {
 
 LEGACY_FORMAT_MAPPING: Dict[str, str] = {**LEGACY_FONT_MAPPING, **LEGACY_SIZE_MAPPING}
 
-# negative lookbehind that ensures the preceding character is not a backslash
-OPENING_BRACE_PATTERN = re.compile(r"(?<!\\){")
+# What a font switch decides on. The older ones also take back all others
+FONT_FAMILY, FONT_SERIES, FONT_SHAPE, NORMAL_FONT = "family", "series", "shape", "normal"
+ALL_FONT = {FONT_FAMILY, FONT_SERIES, FONT_SHAPE, NORMAL_FONT}
+
+FONT_ASPECTS: Dict[str, str] = {
+    "sffamily": FONT_FAMILY,
+    "ttfamily": FONT_FAMILY,
+    "rmfamily": FONT_FAMILY,
+    "bfseries": FONT_SERIES,
+    "mdseries": FONT_SERIES,
+    "em": FONT_SHAPE,
+    "itshape": FONT_SHAPE,
+    "slshape": FONT_SHAPE,
+    "scshape": FONT_SHAPE,
+    "upshape": FONT_SHAPE,
+    "bm": "math",
+    "boldmath": "math",
+    "unboldmath": "math",
+    "mathversion{bold}": "math",
+    "mathversion{normal}": "math",
+}
+OLD_FONT_ASPECTS: Dict[str, str] = {
+    "tt": FONT_FAMILY,
+    "sf": FONT_FAMILY,
+    "bf": FONT_SERIES,
+    "bold": FONT_SERIES,
+    "it": FONT_SHAPE,
+    "sl": FONT_SHAPE,
+    "sc": FONT_SHAPE,
+}
+
+# control symbols such as \\ or \{, groups and switches
+SWITCH_OR_GROUP_PATTERN = re.compile(
+    r"\\[^a-zA-Z]|{|"
+    + "|".join("(?=%s)" % pattern.pattern for pattern in PATTERNS.values()),
+    re.DOTALL,
+)
+
+# \em within \em is the upright shape
+OFF_SWITCH_PATTERN = re.compile(r"\\em(?![a-zA-Z])")
+
+
+class Switch(NamedTuple):
+    start: int
+    end: int
+    aspect: str
+    source: str
+
+
+def get_switch_aspects(pattern_name: str, command: Optional[str]) -> Tuple[str, Set]:
+    """What this switch decides on, and the decisions that it replaces"""
+    if pattern_name != "font":
+        return pattern_name, {pattern_name}
+    if command in FONT_ASPECTS:
+        aspect = FONT_ASPECTS[command]
+        if LEGACY_FONT_MAPPING[command] == "textrm":
+            return NORMAL_FONT, {aspect, NORMAL_FONT}
+        return aspect, {aspect, NORMAL_FONT}
+    return OLD_FONT_ASPECTS.get(command, NORMAL_FONT), ALL_FONT
+
+
+def find_switches(content: str, aspect: str) -> Tuple[List[Switch], int]:
+    """Find the switches outside of groups and environments, up to one that replaces this aspect
+
+    Returns:
+        Tuple[List[Switch], int]: (switches in force, in order, end position)
+    """
+    switches: List[Switch] = []
+    masked = mask_verbatim(content)
+    env_start = -1
+    pos = 0
+
+    while match := SWITCH_OR_GROUP_PATTERN.search(masked, pos):
+        start = match.start()
+        if env_start < pos:
+            env_match = BaseEnvironmentHandler.search(masked[pos:])
+            env_start = pos + env_match.start() if env_match else len(masked)
+        if env_start <= start:
+            _, length = BaseEnvironmentHandler.try_handle(masked[env_start:])
+            pos = env_start + max(length, 1)
+            continue
+
+        if masked[start] == "{":
+            _, length = extract_nested_content(masked[start:])
+            pos = start + (length or 1)
+            continue
+        if match.end() > start:
+            pos = match.end()
+            continue
+
+        for name, pattern in PATTERNS.items():
+            match = pattern.match(masked, start)
+            if match:
+                break
+        if match.group(0) == "\\normalcolor" and aspect == name:
+            # back to normal altogether
+            return [], start
+
+        new_aspect, replaced = get_switch_aspects(name, match.group(1))
+        if aspect in replaced:
+            return switches, start
+
+        pos = match.end()
+        if match.group(0).endswith("{"):
+            # a color, or a switch that is only for what is in the braces
+            _, length = extract_nested_content(masked[pos - 1 :])
+            pos += max(length - 1, 0)
+            if name != "color":
+                continue
+
+        switches = [s for s in switches if s.aspect not in replaced]
+        if match.group(0) != "\\normalcolor":
+            switches.append(Switch(start, pos, new_aspect, content[start:pos].strip()))
+
+    return switches, len(content)
 
 
 class LegacyFormattingHandler(TokenHandler):
+    # switches of another kind which stay in force behind what was handled last
+    open_switches: str = ""
+
     def can_handle(self, content: str) -> bool:
         return any(pattern.match(content) for pattern in PATTERNS.values())
 
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[str, int]:
+        self.open_switches = ""
         for pattern_name, pattern in PATTERNS.items():
             match = pattern.match(content)
 
@@ -144,78 +255,50 @@ class LegacyFormattingHandler(TokenHandler):
                     # \tt ... {...} ... }  # up to the closing brace
                     # \tt ... \bf ...  # next formatting i.e. \bf override
                     next_content = content[next_pos:]
-                    end_pos = len(next_content)
 
                     # stop until appropriate nested closing brace
                     text, closing_pos = extract_nested_content("{" + next_content)
-                    if text:
+                    if text is not None:
                         # -2 -> -1 for the extra opening brace, -1 for the final closing brace i.e. capture up to before the closing brace
-                        end_pos = closing_pos - 2
-                        next_content = next_content[:end_pos]
-
-                    pos = -1
-                    content_len = len(next_content)
-                    end_pos = content_len
-
-                    # if we find a similar pattern inside, we need to handle everything and skip nested environments
-                    if re.search(pattern.pattern, next_content):
-                        # find the next pattern or opening brace
-                        pattern_or_open_brace = re.compile(
-                            pattern.pattern + "|" + OPENING_BRACE_PATTERN.pattern
-                        )
-                        pos = 0
-
-                        while pos < len(next_content):
-                            # make sure to skip nested environments
-                            out_pos = find_pattern_while_skipping_nested_envs(
-                                next_content, pattern_or_open_brace, pos
-                            )
-
-                            if out_pos == -1 or out_pos == len(next_content):
-                                end_pos = len(next_content)
-                                break
-
-                            if next_content[out_pos] == "{":
-                                # Skip nested content
-                                _, skip_len = extract_nested_content(
-                                    next_content[out_pos:]
-                                )
-                                pos = out_pos + (skip_len or 1)
-                            else:
-                                # Found the pattern we're looking for
-                                end_pos = out_pos
-                                break
+                        next_content = next_content[: closing_pos - 2]
+
+                    # in force up to a switch that replaces it
+                    aspect, _ = get_switch_aspects(pattern_name, command)
+                    switches, end_pos = find_switches(next_content, aspect)
 
                     content_to_format = next_content[:end_pos]
                     total_pos = next_pos + end_pos
                     formatted_text = "\\%s{%s}" % (modern_command, content_to_format)
 
-                    # check if content_to_format contains any of other legacy format patterns at the END
-                    modified_content = content_to_format.rstrip()
-                    if modified_content:
-                        # if we detect a legacy pattern at the end, we need to remove from content_to_format, and add to end of formatted_text instead
-                        trailing_patterns = []
-
-                        for pattern in LEGACY_FORMAT_MAPPING.keys():
-                            if modified_content.endswith("\\" + pattern):
-                                # Remove the pattern from the content
-                                modified_content = modified_content[
-                                    : -len("\\" + pattern)
-                                ].rstrip()
-                                trailing_patterns.append("\\" + pattern)
-
-                        if trailing_patterns:
-                            # Update content and formatting if we found trailing patterns
-                            formatted_text = "\\%s{%s} %s" % (
-                                modern_command,
-                                modified_content,
-                                " ".join(reversed(trailing_patterns)),
-                            )
-
-                    # if exact match detected, we remove it because it acts like a off switch
+                    # switches at the END are not for this content, so we need to remove them
+                    # from content_to_format, and add them to end of formatted_text instead
+                    modified_content = content_to_format
+                    trailing_switches = []
+                    while (
+                        switches
+                        and not modified_content[switches[-1].end :].strip()
+                    ):
+                        switch = switches.pop()
+                        modified_content = modified_content[: switch.start]
+                        trailing_switches.insert(0, switch.source)
+
+                    if trailing_switches:
+                        formatted_text = "\\%s{%s} %s" % (
+                            modern_command,
+                            modified_content.rstrip(),
+                            " ".join(trailing_switches),
+                        )
+
+                    # what follows is still subject to the switches of other kinds
+                    if end_pos < len(next_content):
+                        self.open_switches = "".join(s.source for s in switches)
+
+                    # a second \em acts like a off switch
                     # e.g. \em some italic text ... \em no longer italic
-                    if command and re.match(r"\\" + command, content[total_pos:]):
-                        total_pos += len(command) + 1
+                    if command == "em":
+                        off_match = OFF_SWITCH_PATTERN.match(content, total_pos)
+                        if off_match:
+                            total_pos = off_match.end()
 
                     return formatted_text, total_pos
 
diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index b38f108..e5849a3 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -25,6 +25,7 @@ FRONTEND_STYLE_MAPPING: Dict[str, str] = {
     "texttt": "monospace",
     "textrm": "normal",
     "textup": "normal",
+    "textmd": "normal",
     "emph": "italic",
     # Size mappings
     "texttiny": "xx-small",
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 818acd9..45f7214 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -692,6 +692,7 @@ class LatexParser:
                     content = (
                         content[:current_pos]
                         + parsed_text
+                        + self.legacy_formatting_handler.open_switches
                         + content[current_pos + end_pos :]
                     )
                     continue
-- 
2.43.0


From ee11f3d75fb64df00a5cd0f10c32ce503a095516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:26 +0000
Subject: [PATCH 107/156] fix: starred and multiple citations, links with
 options and notes with brackets in braces are recognised

---
 latex2json/parser/handlers/content_command.py | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 0933e27..887b45a 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -17,7 +17,11 @@ PARAGRAPH_LEVELS = {
     "subparagraph": 2,
 }
 
-OPTIONAL_BRACE_PATTERN = r"(?:\[([^\]]*)\])?"
+# a bracket in braces does not end an optional argument
+OPTIONAL_BRACE_PATTERN = (
+    r"(?:\[((?:[^\]{}\\]|\\.|{(?:[^{}\\]|\\.|{(?:[^{}\\]|\\.)*})*})*|[^\]]*)\])?"
+)
+URL_PATTERN = r"{((?:[^{}]|{[^{}]*})*)}"
 
 RAW_PATTERNS = OrderedDict(
     [
@@ -36,7 +40,7 @@ RAW_PATTERNS = OrderedDict(
         ("ref", r"\\(?:auto|eq|page)?ref\*?\s*{"),
         ("cref", r"\\[cC]ref\*?\s*{"),
         ("hyperref", r"\\hyperref\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("href", r"\\href\s*{([^}]*)}\s*{"),
+        ("href", r"\\href\s*(?:\[[^\]]*\])?\s*%s\s*{" % URL_PATTERN),
         # bookmarks
         ("bookmark", r"\\bookmark\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
@@ -51,13 +55,13 @@ RAW_PATTERNS = OrderedDict(
         ("url", r"\\(?:url|path)\s*{"),
         ("doi", r"\\doi\s*{"),
         # Graphics
-        ("includegraphics", r"\\includegraphics\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("includegraphics", r"\\includegraphics\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("includepdf", r"\\includepdf\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("graphicspath", r"\\graphicspath\s*{"),  # ignore?
         # Citations
         (
             "citation",
-            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\s*%s%s\s*{"
+            r"\\(?:cite|citep|citet|cites|citealt|citealp|citeauthor|citenum|citeyear|citeyearpar|citefullauthor)\*?\s*%s\s*%s\s*{"
             % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN),
         ),
         # ("citetext", r"\\citetext\s*{"), # remove citetext since it is just like regular latex -> handled by text_formatting
@@ -81,6 +85,11 @@ PATTERNS = OrderedDict(
     for key, pattern in RAW_PATTERNS.items()
 )
 
+# further citations of \cites
+NEXT_CITE_PATTERN = re.compile(
+    r"\s*%s\s*%s\s*{" % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN), re.DOTALL
+)
+
 GENERIC_COMMAND_PATTERN = re.compile(r"\\[a-zA-Z]+\b")
 
 
@@ -132,10 +141,27 @@ class ContentCommandHandler(TokenHandler):
                     # Create token based on command type
                     token = self._create_token(pattern_name, match, nested_content)
 
+                    if match.group(0).lower().startswith("\\cites"):
+                        end_pos = self._add_citations(content, end_pos, token)
+
                     return token, end_pos
 
         return None, 0
 
+    def _add_citations(self, content: str, pos: int, token: Dict) -> int:
+        """Add the keys and notes of the other citations of this command"""
+        while match := NEXT_CITE_PATTERN.match(content, pos):
+            keys, length = extract_nested_content(content[match.end() - 1 :])
+            if keys is None:
+                break
+            next_token = self._create_token("citation", match, keys)
+            token["content"] += next_token["content"]
+            titles = [t["title"] for t in (token, next_token) if "title" in t]
+            if titles:
+                token["title"] = ", ".join(titles)
+            pos = match.end() - 1 + length
+        return pos
+
     def _create_token(self, matched_type: str, match, content: str) -> Optional[Dict]:
         """Create appropriate token based on command type"""
 
-- 
2.43.0


From ef97b63c1b0445862e67c96f6f346bdd49e5022d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:00 +0000
Subject: [PATCH 108/156] fix: a percent sign in the address of a DOI or of a
 link with options is literal

---
 latex2json/parser/tex_preprocessor.py | 5 ++++-
 latex2json/utils/tex_utils.py         | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 4fc0480..117cf50 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -35,7 +35,10 @@ ADD_TO_PATTERN = re.compile(r"\\addto\s*(?:{?\\[^}\s]+}?)\s*\{")  # e.g. \addto\
 # code and URLs with a literal %, none of which may be expanded
 LITERAL_PATTERNS = list(VERBATIM_PATTERNS.values())
 LITERAL_PATTERNS.append(
-    re.compile(r"\\(?:url|path|href)\s*\{[^{}\n]*(?<!\\)%[^{}\n]*\}")
+    re.compile(
+        r"\\(?:url|path|href|nolinkurl|doi)\s*(?:\[[^\]\n]*\]\s*)?"
+        r"\{[^{}\n]*(?<!\\)%[^{}\n]*\}"
+    )
 )
 
 ALL_VERBATIM_PATTERNS = list(VERBATIM_PATTERNS.values())
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 7f7f900..3cdadef 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -437,7 +437,7 @@ def is_escaped(pos: int, text: str) -> bool:
 LITERAL_PERCENT_PATTERN = re.compile(
     r"\\verb\*?(?P<delim>[^a-zA-Z\s*])[^\n]*?(?P=delim)"
     r"|\\begin\s*\{(?P<env>verbatim\*?|lstlisting)\}.*?\\end\s*\{(?P=env)\}"
-    r"|\\(?:url|path|href)\s*\{[^{}\n]*\}",
+    r"|\\(?:url|path|href|nolinkurl|doi)\s*(?:\[[^\]\n]*\]\s*)?\{[^{}\n]*\}",
     re.DOTALL,
 )
 LITERAL_PERCENT = "\ue025"  # private use stand-in for a literal %
-- 
2.43.0


From 1f3190f5d22dd9c0f7db76e030e9f9570e7b09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:06 +0000
Subject: [PATCH 109/156] fix: the name of an unknown command ends at its star
 or before the blanks and its argument keeps its braces

---
 latex2json/parser/tex_parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 45f7214..419046d 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -44,7 +44,7 @@ from latex2json.parser.patterns import (
 )
 from latex2json.parser.packages import get_all_custom_handlers
 
-UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\[@a-zA-Z\*]+(?:\s*{)?)")
+UNKNOWN_COMMAND_PATTERN = re.compile(r"(\\(?:[@a-zA-Z]+\*?|\*)(?:\s*{)?)")
 
 # constructs inside constructs; LaTeX itself allows 255 groups
 MAX_NESTING_LEVEL = 120
@@ -234,17 +234,17 @@ class LatexParser:
             inner_content = None
             total_content = command
             if command.endswith("{"):
-                command = command[:-1]
+                command = command[:-1].rstrip()
                 inner_content, inner_end_pos = extract_nested_content(
                     content[end_pos - 1 :]
                 )
                 if inner_content is None:
                     # unbalanced brace: it is not an argument
-                    end_pos -= 1
+                    end_pos = len(command)
                     total_content = command
                 else:
                     end_pos += inner_end_pos - 1
-                    total_content += inner_content + "}"
+                    total_content = command + "{" + inner_content + "}"
 
             symbol = self._expand_command(command)
             if symbol == "\\" or not symbol.startswith("\\"):
@@ -257,7 +257,10 @@ class LatexParser:
 
             if expanded.startswith("\\"):
                 token = {"type": "command", "command": command}
-                if expanded.startswith(command):
+                if inner_content is not None:
+                    # the braces delimit an argument, they are no part of a symbol
+                    expanded = "{" + self._expand_command(inner_content) + "}"
+                elif expanded.startswith(command):
                     expanded = expanded[len(command) :]
                 # expanded = expanded.strip("{}")
                 if expanded:
-- 
2.43.0


From bc21ba54dbe5733b9c111d161f30b00301d12870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:10 +0000
Subject: [PATCH 110/156] fix: items keep titles with brackets in braces, text
 in brackets and empty items, and code in them is not split

---
 latex2json/parser/handlers/environment.py |  6 +--
 latex2json/parser/handlers/item.py        | 52 +++++++++++------------
 2 files changed, 28 insertions(+), 30 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 7759008..79dff9b 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -183,11 +183,9 @@ def find_pattern_while_skipping_nested_envs(
         inner_token, inner_length = BaseEnvironmentHandler.try_handle(
             content[start_pos + start_env :]
         )
-        if not inner_token:
-            return end_pos
-
         start_pos += start_env + inner_length
-        end_pos = start_pos
+        if inner_token:
+            end_pos = start_pos
 
         next_match = pattern.search(content[start_pos:])
 
diff --git a/latex2json/parser/handlers/item.py b/latex2json/parser/handlers/item.py
index a40d32c..7d92d79 100644
--- a/latex2json/parser/handlers/item.py
+++ b/latex2json/parser/handlers/item.py
@@ -5,9 +5,14 @@ from latex2json.parser.handlers.environment import (
     find_pattern_while_skipping_nested_envs,
 )
 
-# pattern to match \item up to the next \item or end of string
-ITEM_PATTERN = re.compile(
-    r"\\item(?![a-zA-Z@])\s*(?:\[(.*?)\])?\s*([\s\S]*?)(?=\\item(?![a-zA-Z@])|$)", re.DOTALL
+# a command, not the end of a line before the word
+ITEM_PATTERN = re.compile(r"(?<!(?<!\\)\\)\\item(?![a-zA-Z@])")
+
+# \item with its optional title, in which braces protect a bracket
+ITEM_START_PATTERN = re.compile(
+    r"\\item(?![a-zA-Z@])\s*"
+    r"(?:\[((?:[^\]{}\\]|\\.|{(?:[^{}\\]|\\.|{(?:[^{}\\]|\\.)*})*})*|[^\]]*)\])?\s*",
+    re.DOTALL,
 )
 
 
@@ -19,29 +24,24 @@ class ItemHandler(BaseEnvironmentHandler):
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[Optional[Dict], int]:
-        match = ITEM_PATTERN.match(content)
-        if match:
-            end_of_item = match.group(2)
-            end_pos = match.end()
-            if end_of_item:
-                # check to see and skip any nested environments that may contain inner \item
-                start = match.start(2)
-                out_end_pos = find_pattern_while_skipping_nested_envs(
-                    content, ITEM_PATTERN, start_pos=start
-                )
-                if out_end_pos != -1:
-                    end_pos = out_end_pos
-
-                token = self._handle_environment("item", content[start:end_pos].strip())
-                token["type"] = "item"
-                del token["name"]
-                if match.group(1):
-                    token["title"] = match.group(1).strip()
-                return token, end_pos
-
-            return None, end_pos
-
-        return None, 0
+        match = ITEM_START_PATTERN.match(content)
+        if not match:
+            return None, 0
+
+        # up to the next \item, without the items of nested environments
+        start = match.end()
+        end_pos = find_pattern_while_skipping_nested_envs(
+            content, ITEM_PATTERN, start_pos=start
+        )
+        if end_pos == -1:
+            end_pos = len(content)
+
+        inner_content = content[start:end_pos].strip()
+        token = {"type": "item", "content": inner_content or []}
+        title = (match.group(1) or "").strip()
+        if title:
+            token["title"] = title
+        return token, end_pos
 
 
 if __name__ == "__main__":
-- 
2.43.0


From b0704e4b98c2ab53c4a33a312309dc4c5ec72082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:21 +0000
Subject: [PATCH 111/156] fix: words on both sides of a box, accent or group
 stay apart

---
 latex2json/parser/tex_parser.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 419046d..e2ac2a0 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -368,13 +368,18 @@ class LatexParser:
         return {"type": "bibliography", "content": non_duplicate_tokens}
 
     def _process_token(
-        self, token: str | Dict | List[Dict], tokens: List[Dict], is_env_type=False
+        self,
+        token: str | Dict | List[Dict],
+        tokens: List[Dict],
+        is_env_type=False,
+        add_space: bool = False,
     ) -> None:
         if isinstance(token, str):
             token = {"type": "text", "content": token}
         elif isinstance(token, list):
             for t in token:
-                self._process_token(t, tokens)
+                self._process_token(t, tokens, add_space=add_space)
+                add_space = False
             return
         else:
             if token["type"] == "bibliography":
@@ -401,7 +406,8 @@ class LatexParser:
                 is_false = token.get("value") is False
                 branch = token["false_code" if is_false else "true_code"]
                 for branch_token in self.parse(branch):
-                    self.add_token(branch_token, tokens)
+                    self.add_token(branch_token, tokens, add_space)
+                    add_space = False
                 return
             elif token["type"] in ["footnote", "caption"]:
                 prev_env = self.current_env
@@ -452,10 +458,14 @@ class LatexParser:
                 if "title" in token and isinstance(token["title"], str):
                     token["title"] = self.parse(token["title"])
 
-        self.add_token(token, tokens)
+        self.add_token(token, tokens, add_space)
 
     def _check_handlers(
-        self, content: str, tokens: List[Dict], plain_text_as_source: bool = False
+        self,
+        content: str,
+        tokens: List[Dict],
+        plain_text_as_source: bool = False,
+        add_space: bool = False,
     ) -> Tuple[bool, int]:
         """Process content through available handlers.
 
@@ -475,12 +485,13 @@ class LatexParser:
                     and is_plain_text(token)
                     and not is_blank_text(token)
                 ):
-                    self.add_token(content[:end_pos], tokens)
+                    self.add_token(content[:end_pos], tokens, add_space)
                 elif token:
                     self._process_token(
                         token,
                         tokens,
                         is_env_type=isinstance(handler, BaseEnvironmentHandler),
+                        add_space=add_space,
                     )
                 return True, end_pos
         return False, 0
@@ -701,8 +712,9 @@ class LatexParser:
                     continue
 
             # try each handler
+            after_space = current_pos > 0 and content[current_pos - 1].isspace()
             matched, end_pos = self._check_handlers(
-                content[current_pos:], tokens, not handle_unknown_commands
+                content[current_pos:], tokens, not handle_unknown_commands, after_space
             )
             current_pos += end_pos
             if matched:
@@ -723,7 +735,7 @@ class LatexParser:
                 token, end_pos = self._check_unknown_command(content[current_pos:])
                 current_pos += end_pos
                 if token:
-                    self.add_token(token, tokens)
+                    self.add_token(token, tokens, after_space)
                     if token["type"] == "command":
                         cmd_name = token["command"]
                         if cmd_name not in self._unknown_commands:
-- 
2.43.0


From c9dd1de1ef8289e944accab85789ebed49a065f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:10 +0000
Subject: [PATCH 112/156] fix: a loop ends at its body and not at the last
 brace of the line

---
 .../parser/handlers/for_loop_statements.py    | 86 ++++++++++++++++---
 1 file changed, 72 insertions(+), 14 deletions(-)

diff --git a/latex2json/parser/handlers/for_loop_statements.py b/latex2json/parser/handlers/for_loop_statements.py
index 9caca97..597ab73 100644
--- a/latex2json/parser/handlers/for_loop_statements.py
+++ b/latex2json/parser/handlers/for_loop_statements.py
@@ -3,17 +3,45 @@ from typing import Dict, List, Optional, Tuple
 import re
 
 from latex2json.parser.handlers.base import TokenHandler
-from latex2json.utils.tex_utils import extract_nested_content_sequence_blocks
+from latex2json.utils.tex_utils import (
+    extract_nested_content,
+    extract_nested_content_sequence_blocks,
+)
 
 
-# ordered dict so that ifthenelse/ifnum etc is matched before general if
 PATTERNS = OrderedDict(
     {
-        "forloop": re.compile(r"\\forloop\s*\{"),
-        "foreach": re.compile(r"\\foreach\s+.+\s*\{"),
+        "forloop": re.compile(r"\\forloop\s*(?=[\{\[])"),
+        # up to the list, which is in braces or is a macro
+        "foreach": re.compile(
+            r"\\foreach(?![a-zA-Z])(?:[^{}]|\{[^{}]*\})*?(?<![a-zA-Z\\])in\s*(?=[\{\\])"
+        ),
     }
 )
 
+COMMAND_PATTERN = re.compile(r"\\(?:[a-zA-Z@]+|.)", re.DOTALL)
+
+
+def find_path_end(content: str) -> int:
+    """Find the end of a loop body without braces, i.e. a path up to its semicolon"""
+    pos = 0
+    while pos < len(content):
+        if content[pos] == ";":
+            return pos + 1
+        elif content[pos] == "\\":
+            pos += 2
+            continue
+        elif content[pos] == "}":
+            break
+        elif content[pos] == "{":
+            _, end_pos = extract_nested_content(content[pos:])
+            if end_pos == 0:
+                break
+            pos += end_pos
+            continue
+        pos += 1
+    return 0
+
 
 class ForLoopHandler(TokenHandler):
 
@@ -23,18 +51,48 @@ class ForLoopHandler(TokenHandler):
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
     ) -> Tuple[Optional[Dict], int]:
-        for name, pattern in PATTERNS.items():
-            match = pattern.match(content)
-            if match:
-                max_blocks = 4 if name == "forloop" else 2
-                start_pos = match.end() - 1  # -1 to exclude the opening brace
-                blocks, end_pos = extract_nested_content_sequence_blocks(
-                    content[start_pos:], "{", "}", max_blocks=max_blocks
-                )
-                # skip entirely?
-                return None, start_pos + end_pos
+        # skip entirely?
+        match = PATTERNS["forloop"].match(content)
+        if match:
+            return None, self._find_forloop_end(content, match.end())
+        match = PATTERNS["foreach"].match(content)
+        if match:
+            return None, self._find_foreach_end(content, match.end())
         return None, 0
 
+    def _find_forloop_end(self, content: str, pos: int) -> int:
+        # \forloop[step]{counter}{initial value}{condition}{body}
+        _, end_pos = extract_nested_content(content[pos:], "[", "]")
+        pos += end_pos
+        _, end_pos = extract_nested_content_sequence_blocks(
+            content[pos:], "{", "}", max_blocks=4
+        )
+        return pos + end_pos
+
+    def _find_foreach_end(self, content: str, pos: int) -> int:
+        # the list
+        if content[pos] == "{":
+            _, end_pos = extract_nested_content(content[pos:])
+            pos += end_pos or 1
+        else:
+            match = COMMAND_PATTERN.match(content, pos)
+            pos = match.end() if match else len(content)
+
+        # the body, which can be another loop
+        start_pos = pos
+        while start_pos < len(content) and content[start_pos].isspace():
+            start_pos += 1
+        body = content[start_pos:]
+        if body.startswith("{"):
+            _, end_pos = extract_nested_content(body)
+        elif self.can_handle(body):
+            _, end_pos = self.handle(body)
+        elif body.startswith("\\"):
+            end_pos = find_path_end(body)
+        else:
+            end_pos = 0
+        return start_pos + end_pos if end_pos else pos
+
 
 if __name__ == "__main__":
     text = r"""
-- 
2.43.0


From e2f92fb6ca7da078f49e62a477ccf94088415a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 113/156] fix: keys take their default, values keep commas in
 braces and repeated keys all run

---
 latex2json/parser/handlers/command_manager.py | 13 +++-
 latex2json/parser/packages/keyval.py          | 63 +++++++++++++------
 2 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index 5dd1385..e3d6ab1 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -7,6 +7,7 @@ from latex2json.parser.patterns import WHITELISTED_COMMANDS
 from latex2json.parser.handlers.command_processor import CommandProcessor
 from latex2json.parser.handlers.new_definition import NewDefinitionHandler
 from latex2json.parser.packages.keyval import KeyValHandler
+from latex2json.utils.tex_utils import splice_expansion
 
 
 class CommandManager(TokenHandler):
@@ -28,7 +29,7 @@ class CommandManager(TokenHandler):
         self.processor = CommandProcessor()
 
         # Add KeyValHandler as a member
-        self.keyval_handler = KeyValHandler()
+        self.keyval_handler = KeyValHandler(is_macro=self.is_plain_macro)
 
         # Track unknown commands like tex_parser does
         self._unknown_commands = {}
@@ -159,8 +160,14 @@ class CommandManager(TokenHandler):
             if end_pos > 0:
                 if token.get("codeblocks"):
                     out_str = ""
-                    for key, codeblock in token["codeblocks"].items():
-                        out_str += codeblock + "\n"
+                    for codeblock in token["codeblocks"]:
+                        out_str = splice_expansion(
+                            out_str,
+                            len(out_str),
+                            len(out_str),
+                            codeblock,
+                            self.is_plain_macro,
+                        )
                     return out_str, end_pos
                 # If KeyValHandler processed it, pass through the result
                 return "", end_pos
diff --git a/latex2json/parser/packages/keyval.py b/latex2json/parser/packages/keyval.py
index e799f38..66bc8d7 100644
--- a/latex2json/parser/packages/keyval.py
+++ b/latex2json/parser/packages/keyval.py
@@ -1,9 +1,11 @@
 import re
-from typing import Dict, List, Optional, Tuple
+from typing import Callable, Dict, List, Optional, Tuple
 from dataclasses import dataclass
 
 from latex2json.parser.handlers.base import TokenHandler
+from latex2json.parser.handlers.tabular import split_latex_content
 from latex2json.utils.tex_utils import (
+    extract_nested_content,
     extract_nested_content_sequence_blocks,
     substitute_args,
 )
@@ -23,12 +25,31 @@ PATTERNS = {
     "setkeys": re.compile(r"\\setkeys\s*"),
 }
 
-KEY_VALUE_PATTERN = re.compile(r"([^=,\s]+)(?:=([^,]+))?")
+
+def strip_braces(text: str) -> str:
+    """Remove blanks and the braces around all of the text (if any)"""
+    text = text.strip()
+    content, end_pos = extract_nested_content(text)
+    return content if end_pos and end_pos == len(text) else text
+
+
+def parse_key_values(text: str) -> List[Tuple[str, Optional[str]]]:
+    """Split keys and values, where the value is None for keys without equals sign"""
+    key_values = []
+    for part in split_latex_content(text, ","):
+        key, *value = split_latex_content(part, "=")
+        if key:
+            value = strip_braces("=".join(value)) if value else None
+            key_values.append((key, value))
+    return key_values
 
 
 class KeyValHandler(TokenHandler):
-    def __init__(self, **kwargs):
+    def __init__(
+        self, is_macro: Optional[Callable[[str], bool]] = None, **kwargs
+    ):
         super().__init__(**kwargs)
+        self.is_macro = is_macro
         self.key_definitions: Dict[str, Dict[str, KeyDefinition]] = {}
 
     def can_handle(self, content: str) -> bool:
@@ -101,11 +122,13 @@ class KeyValHandler(TokenHandler):
         family, key_values_str = blocks[0], blocks[1]
         total_pos = pos + end_pos
 
+        definitions = self.key_definitions.get(family, {})
         key_values = []
-        for key_value_match in KEY_VALUE_PATTERN.finditer(key_values_str):
-            key = key_value_match.group(1)
-            value = key_value_match.group(2)
-            key_values.append({"key": key, "value": value.strip() if value else "true"})
+        for key, value in parse_key_values(key_values_str):
+            if value is None:
+                default = definitions[key].default if key in definitions else None
+                value = "true" if default is None else default
+            key_values.append({"key": key, "value": value})
 
         return {
             "type": "keyval_setting",
@@ -113,19 +136,19 @@ class KeyValHandler(TokenHandler):
             "key_values": key_values,
         }, total_pos
 
-    def _process_setkeys_token(self, token: Dict):
-        codeblocks = {}
-        family = token.get("family", "")
-        if family in self.key_definitions:
-            key_values = token["key_values"]
-            for key_value in key_values:
-                key = key_value["key"]
-                value = key_value["value"]
-                if key in self.key_definitions[family]:
-                    codeblock = self.key_definitions[family][key].codeblock
-                    if codeblock:
-                        codeblock = substitute_args(codeblock, [value])
-                        codeblocks[key] = codeblock
+    def _process_setkeys_token(self, token: Dict) -> List[str]:
+        codeblocks = []
+        definitions = self.key_definitions.get(token.get("family", ""), {})
+        for key_value in token["key_values"]:
+            definition = definitions.get(key_value["key"])
+            if definition and definition.codeblock:
+                codeblocks.append(
+                    substitute_args(
+                        definition.codeblock,
+                        [key_value["value"]],
+                        is_macro=self.is_macro,
+                    )
+                )
 
         return codeblocks
 
-- 
2.43.0


From 8d1f6548a53392c20cd02c6e7d24f23862379031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:19 +0000
Subject: [PATCH 114/156] fix: preprocessing leaves commands to the parser that
 commands with arguments or keys define anew

---
 latex2json/parser/tex_preprocessor.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 117cf50..4537441 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -1,7 +1,7 @@
 import re
 import sys, os
 import logging
-from typing import Dict
+from typing import Dict, Optional
 
 from latex2json.parser.handlers.formatting import FormattingHandler
 from latex2json.parser.handlers.if_else_statements import IfElseBlockHandler
@@ -90,6 +90,12 @@ def convert_quotes(content: str) -> str:
 # definitions of commands that are replaced by other text
 MACRO_TYPES = ("newcommand", "def", "let")
 
+# names that code defines when it is run
+DEFINED_NAME_PATTERN = re.compile(
+    r"\\(?:(?:re)?newcommand|providecommand|DeclareRobustCommand|DeclareMathOperator"
+    r"|[egx]?def|let)\s*\*?\s*\{?\s*\\([a-zA-Z@]+)"
+)
+
 
 def restore_placeholder_blocks(content: str, blocks: dict) -> str:
     """
@@ -230,6 +236,12 @@ class LatexPreprocessor:
                     self._process_new_definition_token(token)
         return tokens
 
+    def _make_changeable(self, code: Optional[str], names: set[str]) -> None:
+        """Leave the names that the code defines for the parser from here on"""
+        for name in DEFINED_NAME_PATTERN.findall(code or ""):
+            names.add(name)
+            self.command_manager.forget_command(name)
+
     def _process_definitions_and_expand(
         self, content: str, file_dir: str = None
     ) -> tuple[str, list[Dict]]:
@@ -240,6 +252,8 @@ class LatexPreprocessor:
         """
         current_pos = 0
         tokens = []  # Store all definition tokens
+        # names that commands with arguments may define anew wherever they are used
+        changeable_names = set()
 
         math_blocks = {}
         guard = ExpansionGuard(content)
@@ -288,6 +302,7 @@ class LatexPreprocessor:
             )
             if token:
                 if token.get("type", "").startswith("keyval"):
+                    self._make_changeable(token.get("codeblock"), changeable_names)
                     current_pos += end_pos
                     continue
                 # Skip macro definitions that have parameters (#1, #2) or take arguments,
@@ -297,6 +312,10 @@ class LatexPreprocessor:
                 ):
                     # from here on, an earlier definition without arguments is void
                     self.command_manager.forget_command(token.get("name", ""))
+                    self._make_changeable(token.get("content"), changeable_names)
+                    current_pos += end_pos
+                    continue
+                if token.get("name") in changeable_names and end_pos > 0:
                     current_pos += end_pos
                     continue
                 is_redefinition = token.get("type") in MACRO_TYPES and any(
-- 
2.43.0


From ec87d027892fb3bf4325dba1b8b1222a63bdb3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 115/156] fix: boxes take all their optional arguments and
 saved boxes are found by number and by TeX primitives

---
 latex2json/parser/packages/boxes.py   | 177 ++++++++++++++------------
 latex2json/parser/tex_preprocessor.py |   7 +
 2 files changed, 103 insertions(+), 81 deletions(-)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index 5f5380d..fcd1f0b 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -13,25 +13,32 @@ from latex2json.utils.tex_utils import (
     flatten_all_to_string,
 )
 
+# arguments: "{" required, "[" optional, "(" optional size in parentheses
 BOX_DELIMITERS = {
-    r"[fhv]box": "{",  # \fbox{text} hbox vbox
+    "fbox": "{",  # \fbox{text}
+    "hbox": "{",
+    "vbox": "{",
     "parbox": "[[[{{",  # \parbox[pos][height][inner-pos]{width}{text}
-    "makebox": "[[{",  # \makebox[width]{text}
-    "framebox": "[[{",  # \framebox[width][pos]{text}
+    "makebox": "([[{",  # \makebox[width][pos]{text} or \makebox(width,height)[pos]{text}
+    "framebox": "([[{",  # \framebox[width][pos]{text}
     "raisebox": "{[[{",  # \raisebox{distance}[extend-above][extend-below]{text}
-    "colorbox": "{{",  # \colorbox{color}{text}
-    "fcolorbox": "{{{",  # \fcolorbox{border}{bg}{text}
-    "scalebox": "{{",  # \scalebox{scale}{text}
+    "colorbox": "[{{",  # \colorbox[model]{color}{text}
+    "fcolorbox": "[{[{{",  # \fcolorbox[model]{border}[model]{bg}{text}
+    "scalebox": "{[{",  # \scalebox{scale}[vertical scale]{text}
     "mbox": "{",  # \mbox{text}
-    r"hbox\s+to\s*[^{]+": "{",  # \hbox to \hsize{text}
-    "pbox": "{{",  # \pbox{x}{text}
+    "pbox": "[[[{{",  # \pbox[pos][height][inner-pos]{x}{text}
     "resizebox": "{{{",  # \resizebox{width}{height}{text}
-    "rotatebox": "{{",  # \rotatebox{angle}{text}
+    "rotatebox": "[{{",  # \rotatebox[origin]{angle}{text}
     "adjustbox": "{{",  # \adjustbox{max width=\textwidth}{text}
 }
 
 BOX_PATTERN = re.compile(
-    r"\\(%s)\s*[\[\{]" % "|".join(BOX_DELIMITERS.keys()), re.VERBOSE | re.DOTALL
+    r"\\(?:"
+    r"(?P<sized>[hv]box)\s*(?:to|spread)(?![a-zA-Z])[^{]+(?=\{)"  # \hbox to \hsize{text}
+    r"|(?P<name>%s)\*?\s*(?=[\[\{])"
+    r"|(?P<picture>(?:make|frame)box)\s*(?=\()"
+    r")" % "|".join(BOX_DELIMITERS.keys()),
+    re.DOTALL,
 )
 
 LINE_BREAK_PATTERN = re.compile(r"\s*\n\s*")
@@ -43,20 +50,37 @@ FANCYHEAD_PATTERN = re.compile(
     re.DOTALL,
 )
 
+# a box that is named \mybox, {\mybox} or by number
+BOX_NAME_PATTERN = r"(?:%s|\d+)" % command_with_opt_brace_pattern
+
 # Add new pattern after BOX_PATTERN
 SAVED_BOX_PATTERN = re.compile(
-    r"\\(usebox|sbox|savebox|newsavebox|newbox)\s*(%s)"
-    % command_with_opt_brace_pattern,
-    re.VERBOSE | re.DOTALL,
+    r"\\(usebox|sbox|savebox|newsavebox|newbox)(?![a-zA-Z])\s*(%s)" % BOX_NAME_PATTERN,
+    re.DOTALL,
+)
+
+# TeX primitives for the content of a box
+BOX_REGISTER_PATTERN = re.compile(
+    r"\\(box|copy|un[hv]box|un[hv]copy)(?![a-zA-Z@])\s*(\d+|\\[a-zA-Z@]+)"
 )
 
 # add ADDITIONAL pattern for setbox
 SETBOX_PATTERN = re.compile(
-    r"\\setbox\s*(\d+|%s)\s*=\s*" % command_with_opt_brace_pattern,
-    re.VERBOSE | re.DOTALL,
+    r"\\setbox(?![a-zA-Z])\s*(%s)\s*=?\s*" % BOX_NAME_PATTERN,
+    re.DOTALL,
 )
 
 
+def extract_box_args(content: str, delimiters: str) -> Tuple[List[Optional[str]], int]:
+    """Extract the arguments of a box, with the size in parentheses (if any) left out"""
+    pos = 0
+    if delimiters.startswith("("):
+        delimiters = delimiters[1:]
+        _, pos = extract_nested_content(content, "(", ")")
+    args, end_pos = extract_delimited_args(content[pos:], delimiters)
+    return (args if len(args) == len(delimiters) else []), pos + end_pos
+
+
 def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str], int]:
     if var_name.startswith("{"):
         _var_name, _ = extract_nested_content(var_name)
@@ -80,6 +104,7 @@ class BoxHandler(TokenHandler):
             BOX_PATTERN.match(content)
             or FANCYHEAD_PATTERN.match(content)
             or SAVED_BOX_PATTERN.match(content)
+            or BOX_REGISTER_PATTERN.match(content)
             or SETBOX_PATTERN.match(content)
         )
 
@@ -100,24 +125,27 @@ class BoxHandler(TokenHandler):
         if saved_match:
             return self._handle_saved_box(content, saved_match)
 
-        match = BOX_PATTERN.match(content) or FANCYHEAD_PATTERN.match(content)
-        if not match:
-            return None, 0
+        register_match = BOX_REGISTER_PATTERN.match(content)
+        if register_match:
+            return self._handle_box_register(register_match)
 
-        s = match.group(0)
-        start_pos = match.end() - 1
+        match = BOX_PATTERN.match(content)
+        if match:
+            start_pos = match.end()
+            name = match.group("name") or match.group("picture")
+            delimiters = BOX_DELIMITERS[name] if name else "{"
+        else:
+            match = FANCYHEAD_PATTERN.match(content)
+            if not match:
+                return None, 0
+            start_pos = match.end() - 1
+            delimiters = "{"
 
-        start_char = s[-1]
-        delimiter_str = BOX_DELIMITERS.get(match.group(1), start_char)
-        N = len(delimiter_str)
-        extracted_args, end_pos = extract_delimited_args(
-            content[start_pos:], delimiter_str
-        )
+        s = match.group(0)
+        extracted_args, end_pos = extract_box_args(content[start_pos:], delimiters)
         end_pos += start_pos
 
-        extracted_content = None
-        if len(extracted_args) == N:
-            extracted_content = extracted_args[-1]
+        extracted_content = extracted_args[-1] if extracted_args else None
 
         if not extracted_content:
             return None, end_pos
@@ -152,88 +180,75 @@ class BoxHandler(TokenHandler):
         self, content: str, match: re.Match
     ) -> Tuple[Optional[Dict], int]:
         command = match.group(1)
-        box_name = match.group(2)
-
-        # Strip braces from box name if present
-        box_name = parse_varname_from_brace_or_backslash(box_name)
+        boxes, box_name = self._find_box(match.group(2))
 
         if command.startswith("new"):
             # Just register the box name
-            self.saved_boxes[box_name] = None
+            boxes[box_name] = None
             return None, match.end()
 
         elif command in ("sbox", "savebox"):
             # Extract the box content
             start_pos = match.end()
-            extracted_args, end_pos = extract_delimited_args(content[start_pos:], "{")
+            extracted_args, end_pos = extract_box_args(
+                content[start_pos:], "{" if command == "sbox" else "([[{"
+            )
             if extracted_args:
-                box_content = extracted_args[0]
-                if self.process_content_fn:
-                    box_content = self.process_content_fn(box_content)
-                # Store content in a consistent format
-                if isinstance(box_content, str):
-                    self.saved_boxes[box_name] = {
-                        "type": "text",
-                        "content": box_content,
-                    }
-                else:
-                    self.saved_boxes[box_name] = box_content
+                boxes[box_name] = self._process_box_content(extracted_args[-1])
                 return None, start_pos + end_pos
             return None, start_pos
 
         elif command == "usebox":
             # Return the saved box content if it exists
-            if box_name in self.saved_boxes and self.saved_boxes[box_name] is not None:
-                return copy.deepcopy(self.saved_boxes[box_name]), match.end()
+            return copy.deepcopy(boxes.get(box_name)), match.end()
 
         return None, match.end()
 
+    def _handle_box_register(self, match: re.Match) -> Tuple[Optional[Dict], int]:
+        boxes, box_name = self._find_box(match.group(2))
+        token = copy.deepcopy(boxes.get(box_name))
+        if token and not match.group(1).endswith("copy"):
+            # empties the box
+            boxes[box_name] = None
+        return token, match.end()
+
+    def _find_box(self, box_name: str) -> Tuple[Dict, str | int]:
+        """Where the box is stored and under which key"""
+        box_name = box_name.strip()
+        number = box_name.strip("{} ")
+        if number.isdigit():
+            return self.numbered_boxes, int(number)
+        return self.saved_boxes, parse_varname_from_brace_or_backslash(box_name)
+
+    def _process_box_content(self, box_content: str) -> Dict | List[Dict]:
+        if self.process_content_fn:
+            box_content = self.process_content_fn(box_content)
+        # Store content in a consistent format
+        if isinstance(box_content, str):
+            return {"type": "text", "content": box_content}
+        return box_content
+
     def _handle_setbox(
         self, content: str, match: re.Match
     ) -> Tuple[Optional[Dict], int]:
 
-        box_name = match.group(1).strip()
-
-        # check if box_name is a number or \command
-        save_box_dict = self.saved_boxes
-        is_digit = box_name.isdigit()
-        if is_digit:
-            box_name = int(box_name)
-            save_box_dict = self.numbered_boxes
-        else:
-            box_name = parse_varname_from_brace_or_backslash(box_name)
-
+        # a number or \command
+        boxes, box_name = self._find_box(match.group(1))
         start_pos = match.end()
 
-        # Skip any whitespace after the =
-        while start_pos < len(content) and content[start_pos].isspace():
-            start_pos += 1
-
         # Check if the content after = matches any box pattern
         remaining_content = content[start_pos:]
-        box_match = BOX_PATTERN.match(remaining_content)
-
-        if box_match:
+        if BOX_PATTERN.match(remaining_content) or BOX_REGISTER_PATTERN.match(
+            remaining_content
+        ):
             # Use the existing box handling logic
-            box_result, end_pos = self.handle(remaining_content)
-            if box_result:
-                save_box_dict[box_name] = box_result
-                return None, start_pos + end_pos
+            boxes[box_name], end_pos = self.handle(remaining_content)
+            return None, start_pos + end_pos
 
         # Fallback to direct content extraction if no box pattern matches
         extracted_args, end_pos = extract_delimited_args(remaining_content, "{")
         if extracted_args:
-            box_content = extracted_args[0]
-            if self.process_content_fn:
-                box_content = self.process_content_fn(box_content)
-            # Store content in a consistent format
-            if isinstance(box_content, str):
-                save_box_dict[box_name] = {
-                    "type": "text",
-                    "content": box_content,
-                }
-            else:
-                save_box_dict[box_name] = box_content
+            boxes[box_name] = self._process_box_content(extracted_args[0])
             return None, start_pos + end_pos
 
         return None, start_pos
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 4537441..643078e 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -25,6 +25,7 @@ from latex2json.utils.tex_utils import (
     normalize_whitespace_and_lines,
     splice_expansion,
 )
+from latex2json.parser.packages.boxes import BOX_REGISTER_PATTERN
 from latex2json.parser.sty_parser import LatexStyParser
 from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.parser.handlers.command_processor import ExpansionGuard
@@ -341,6 +342,12 @@ class LatexPreprocessor:
                 content = self._splice(content, current_pos, end_pos, "")
                 continue
 
+            # boxes are known to the parser only
+            box_match = BOX_REGISTER_PATTERN.match(content, current_pos)
+            if box_match:
+                current_pos = box_match.end()
+                continue
+
             # check for formatting (put formatting ahead so that we can ignore lots of unnecessary things)
             if self.formatting_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.formatting_handler.handle(content[current_pos:])
-- 
2.43.0


From 655b734231358e09efc35fa8a63609a6c2ac69ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:56 +0000
Subject: [PATCH 116/156] fix: declarations of theorems, floats and reference
 names take blanks and nested braces

---
 latex2json/parser/handlers/new_definition.py | 77 +++++++++++++-------
 1 file changed, 52 insertions(+), 25 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 88f8272..70f1c9c 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -81,11 +81,9 @@ PATTERNS = {
     "def": re.compile(DEF_COMMAND_PREFIX),
     "@namedef": re.compile(r"\\@namedef\s*{([^}]*)}"),
     # Matches newtheorem with all its optional arguments
-    "newtheorem": re.compile(
-        r"\\newtheorem\*?{([^}]*)}(?:\[([^]]*)\])?{([^}]*)}(?:\[([^]]*)\])?", re.DOTALL
-    ),
+    "newtheorem": re.compile(r"\\newtheorem(?![a-zA-Z@])\s*\*?\s*(?={)"),
     "newtheoremstyle": re.compile(r"\\newtheoremstyle\*?{", re.DOTALL),
-    "crefname": re.compile(r"\\[cC]refname{([^}]*)}{([^}]*)}(?:{([^}]*)})?", re.DOTALL),
+    "crefname": re.compile(r"\\[cC]refname\s*(?={)"),
     "newtoks": re.compile(
         r"\\newtoks\s*(%s)" % (command_with_opt_brace_pattern), re.DOTALL
     ),
@@ -117,7 +115,7 @@ PATTERNS = {
         r"\\setcounter\s*%s\s*%s" % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
         re.DOTALL,
     ),
-    "floatname": re.compile(r"\\floatname{([^}]*)}{([^}]*)}"),
+    "floatname": re.compile(r"\\floatname\s*(?={)"),
     "expandafter": EXPAND_PATTERN,
     "endcsname": END_CSNAME_PATTERN,  # for trailing \endcsname?
     # color/font
@@ -199,11 +197,11 @@ class NewDefinitionHandler(TokenHandler):
                 elif pattern_name == "newtoks":
                     return self._handle_newtoks(match)
                 elif pattern_name == "newtheorem":
-                    return self._handle_newtheorem(match)
+                    return self._handle_newtheorem(content, match)
                 elif pattern_name == "newtheoremstyle":
                     return self._handle_newtheoremstyle(content, match)
                 elif pattern_name == "crefname":
-                    return self._handle_crefname(match)
+                    return self._handle_crefname(content, match)
                 elif pattern_name == "newif":
                     return self._handle_newif(match)
                 elif pattern_name == "newlength":
@@ -217,11 +215,7 @@ class NewDefinitionHandler(TokenHandler):
                 elif pattern_name == "newother":
                     return self._handle_newother(match)
                 elif pattern_name == "floatname":
-                    return {
-                        "type": "floatname",
-                        "name": match.group(1),
-                        "title": match.group(2),
-                    }, match.end()
+                    return self._handle_floatname(content, match)
                 elif pattern_name in ["expandafter", "endcsname"]:
                     next_pos = match.end()
                     token, end_pos = self.handle(content[next_pos:])
@@ -330,15 +324,22 @@ class NewDefinitionHandler(TokenHandler):
         token = {"type": "newcounter", "name": var_name}
         return token, match.end()
 
-    def _handle_crefname(self, match) -> Tuple[Optional[Dict], int]:
+    def _handle_crefname(
+        self, content: str, match: re.Match
+    ) -> Tuple[Optional[Dict], int]:
         r"""Handle \crefname definitions"""
+        blocks, end_pos = extract_nested_content_sequence_blocks(
+            content[match.end() :], "{", "}", max_blocks=3
+        )
+        if len(blocks) < 2:
+            return None, 0
         token = {
             "type": "crefname",
-            "name": match.group(1),
-            "singular": match.group(2),
-            "plural": match.group(3) or "",
+            "name": blocks[0],
+            "singular": blocks[1],
+            "plural": blocks[2] if len(blocks) > 2 else "",
         }
-        return token, match.end()
+        return token, match.end() + end_pos
 
     def _handle_let(self, content: str, match) -> Tuple[Optional[Dict], int]:
         name = match.group(1).strip()
@@ -414,19 +415,45 @@ class NewDefinitionHandler(TokenHandler):
 
         return token, start_pos + end_pos - 1
 
-    def _handle_newtheorem(self, match) -> Tuple[Optional[Dict], int]:
+    def _handle_newtheorem(
+        self, content: str, match: re.Match
+    ) -> Tuple[Optional[Dict], int]:
         """Handle \newtheorem definitions"""
-        token = {"type": "newtheorem", "name": match.group(1), "title": match.group(3)}
+        pos = match.end()
+        name, end_pos = extract_nested_content(content[pos:])
+        pos += end_pos
+        counter, end_pos = extract_nested_content(content[pos:], "[", "]")
+        pos += end_pos
+        title, end_pos = extract_nested_content(content[pos:])
+        pos += end_pos
+        if name is None or title is None:
+            return None, 0
+        token = {"type": "newtheorem", "name": name.strip(), "title": title}
 
         # Handle optional counter specification
-        if match.group(2):
-            token["counter"] = match.group(2)
+        if counter:
+            token["counter"] = counter
 
-        # Handle optional numbering within
-        if match.group(4):
-            token["within"] = match.group(4)
+        # Handle optional numbering within (on the same line)
+        if content[pos:].lstrip(" \t").startswith("["):
+            within, end_pos = extract_nested_content(content[pos:], "[", "]")
+            pos += end_pos
+            if within:
+                token["within"] = within
 
-        return token, match.end()
+        return token, pos
+
+    def _handle_floatname(
+        self, content: str, match: re.Match
+    ) -> Tuple[Optional[Dict], int]:
+        r"""Handle \floatname definitions"""
+        blocks, end_pos = extract_nested_content_sequence_blocks(
+            content[match.end() :], "{", "}", max_blocks=2
+        )
+        if len(blocks) < 2:
+            return None, 0
+        token = {"type": "floatname", "name": blocks[0], "title": blocks[1]}
+        return token, match.end() + end_pos
 
     def _handle_newtheoremstyle(
         self, content: str, match
-- 
2.43.0


From 6d2675a33d2b0fe2feb225d755fbe613a00e5353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:22 +0000
Subject: [PATCH 117/156] fix: theorems declared without number have none and
 their display names are text

---
 latex2json/parser/handlers/command_manager.py |  5 +++++
 latex2json/parser/handlers/environment.py     | 18 ++++++++++++++----
 latex2json/parser/tex_parser.py               | 18 +++++++++++++++++-
 3 files changed, 36 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/command_manager.py b/latex2json/parser/handlers/command_manager.py
index e3d6ab1..0f31f23 100644
--- a/latex2json/parser/handlers/command_manager.py
+++ b/latex2json/parser/handlers/command_manager.py
@@ -10,6 +10,9 @@ from latex2json.parser.packages.keyval import KeyValHandler
 from latex2json.utils.tex_utils import splice_expansion
 
 
+UNNUMBERED_THEOREM_PATTERN = re.compile(r"\\newtheorem\s*\*")
+
+
 class CommandManager(TokenHandler):
     ignore_sty_commands = True
 
@@ -56,6 +59,8 @@ class CommandManager(TokenHandler):
         # First try the definition handler
         if self.definition_handler.can_handle(content):
             token, end_pos = self.definition_handler.handle(content)
+            if token and UNNUMBERED_THEOREM_PATTERN.match(content):
+                token["numbered"] = False
             if register and token:
                 self.register_command(token)
             return token, end_pos
diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 79dff9b..f74cec8 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -1,5 +1,5 @@
 import re
-from typing import Callable, Dict, List, Optional, Tuple
+from typing import Callable, Dict, List, Optional, Set, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import (
     extract_args,
@@ -197,16 +197,22 @@ class BaseEnvironmentHandler(TokenHandler):
         super().__init__(**kwargs)
         self.logger = logger or logging.getLogger(__name__)
         self._newtheorems: Dict[str, str] = {}
+        self._unnumbered_theorems: Set[str] = set()
         self._floatnames: Dict[str, str] = {}
 
-    def process_newtheorem(self, var_name: str, title: str):
+    def process_newtheorem(self, var_name: str, title: str, numbered: bool = True):
         self._newtheorems[var_name] = title
+        if numbered:
+            self._unnumbered_theorems.discard(var_name)
+        else:
+            self._unnumbered_theorems.add(var_name)
 
     def process_floatname(self, var_name: str, title: str):
         self._floatnames[var_name] = title
 
     def clear(self):
         self._newtheorems = {}
+        self._unnumbered_theorems = set()
         self._floatnames = {}
 
     def can_handle(self, content: str) -> bool:
@@ -217,8 +223,12 @@ class BaseEnvironmentHandler(TokenHandler):
 
     def _handle_environment(self, env_name: str, inner_content: str) -> None:
 
-        contains_asterisk = "*" in env_name
-        env_name = env_name.replace("*", "")
+        if env_name not in self._newtheorems:
+            contains_asterisk = "*" in env_name
+            env_name = env_name.replace("*", "")
+        else:
+            contains_asterisk = False
+        contains_asterisk = contains_asterisk or env_name in self._unnumbered_theorems
 
         env_name = self._newtheorems.get(env_name, env_name)
         token = {
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index e2ac2a0..8fff696 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -272,6 +272,18 @@ class LatexParser:
 
         return None, 0
 
+    def _parse_display_name(self, name: str) -> str:
+        """The name as text without commands and styles, or as it is if it has other content"""
+        if "\\" not in name and "{" not in name:
+            return name
+        tokens = self.parse(name)
+        if all(
+            token.get("type") == "text" and isinstance(token.get("content"), str)
+            for token in tokens
+        ):
+            return "".join(token["content"] for token in tokens).strip() or name
+        return name
+
     def _process_new_definition_token(self, token: Dict) -> None:
         if token and "name" in token:
             # do not process content commands e.g. section etc
@@ -294,7 +306,11 @@ class LatexParser:
                 self.env_handler.process_floatname(cmd_name, token["title"])
                 return
             elif typing == "newtheorem":
-                self.env_handler.process_newtheorem(cmd_name, token["title"])
+                self.env_handler.process_newtheorem(
+                    cmd_name,
+                    self._parse_display_name(token["title"]),
+                    token.get("numbered", True),
+                )
 
             # Special handling for if blocks
             if typing == "newif":
-- 
2.43.0


From 964bf2e79300865f1aefcbf22cc152778c905c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:41 +0000
Subject: [PATCH 118/156] fix: arguments of the document's environments may
 stand apart

---
 latex2json/parser/handlers/environment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index f74cec8..fe29287 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -463,8 +463,8 @@ class EnvironmentProcessor:
             # Handle optional arguments [arg]
             num_req_args = env_info["num_args"] - len(env_info["optional_args"])
             for opt_arg in env_info["optional_args"]:
-                if content.startswith("["):
-                    arg, end_pos = extract_nested_content(content, "[", "]")
+                arg, end_pos = extract_nested_content(content, "[", "]")
+                if end_pos > 0:
                     content = content[end_pos:]
                     args.append(arg)
                 else:
@@ -472,8 +472,8 @@ class EnvironmentProcessor:
 
             # Handle required arguments {arg}
             for _ in range(num_req_args):
-                if content.startswith("{"):
-                    arg, end_pos = extract_nested_content(content, "{", "}")
+                arg, end_pos = extract_nested_content(content, "{", "}")
+                if end_pos > 0:
                     content = content[end_pos:]
                     args.append(arg)
                 else:
-- 
2.43.0


From 72d5000601f2103e63b419d53ba64a14da47c8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:41 +0000
Subject: [PATCH 119/156] fix: a definition inside the code of a command takes
 its arguments

---
 latex2json/parser/handlers/new_definition.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 70f1c9c..243f738 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -583,6 +583,8 @@ class NewDefinitionHandler(TokenHandler):
 
         # Get parameter pattern (now properly separated)
         param_pattern = match.group(3).strip() if match.group(3) else ""
+        # in the code of another command, each # is doubled
+        param_pattern = re.sub(r"#+(\d)", r"#\1", param_pattern)
 
         parts, param_count = self._extract_def_pattern_parts(
             rf"{cmd_name}{param_pattern}"
-- 
2.43.0


From 1926add5aa7064677051b1f01473a8643342f67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:19 +0000
Subject: [PATCH 120/156] fix: headings take a short title, footnotes and
 captionof their optional arguments

---
 latex2json/parser/handlers/content_command.py | 32 ++++++++++++-------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 887b45a..082214a 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -27,13 +27,19 @@ RAW_PATTERNS = OrderedDict(
     [
         # 1. Commands that need nested brace handling (simplified patterns)
         ("abstract", r"\\abstract\s*{"),
-        ("section", r"\\(?:(?:sub)*section\*?)\s*{"),
-        ("part", r"\\part\*?\s*{"),
-        ("chapter", r"\\chapter\*?\s*{"),
-        ("paragraph", r"\\(?:(?:sub)*paragraph\*?)\s*{"),
-        ("footnote", r"\\footnote\*?%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("section", r"\\((?:sub)*section\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("part", r"\\(part\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("chapter", r"\\(chapter\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        (
+            "paragraph",
+            r"\\((?:sub)*paragraph\*?)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
+        ),
+        ("footnote", r"\\footnote\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("caption", r"\\(caption|subcaption)\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
-        ("captionof", r"\\captionof\*?\s*{([^}]*?)}\s*{"),
+        (
+            "captionof",
+            r"\\captionof\*?\s*{([^}]*?)}\s*%s\s*{" % OPTIONAL_BRACE_PATTERN,
+        ),
         # input
         ("input_file", r"\\(?:input|include)\s*{"),
         # REFs
@@ -50,12 +56,16 @@ RAW_PATTERNS = OrderedDict(
         ),
         # footnotes
         ("footnotemark", r"\\footnotemark(?![a-zA-Z@])%s" % OPTIONAL_BRACE_PATTERN),
-        ("footnotetext", r"\\footnotetext%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        ("footnotetext", r"\\footnotetext\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         # URLs
         ("url", r"\\(?:url|path)\s*{"),
         ("doi", r"\\doi\s*{"),
         # Graphics
-        ("includegraphics", r"\\includegraphics\*?\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
+        (
+            "includegraphics",
+            r"\\includegraphics\*?\s*%s\s*%s\s*{"
+            % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN),
+        ),
         ("includepdf", r"\\includepdf\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         ("graphicspath", r"\\graphicspath\s*{"),  # ignore?
         # Citations
@@ -168,15 +178,15 @@ class ContentCommandHandler(TokenHandler):
         content = content.strip()
 
         if matched_type == "paragraph":
-            level = match.group(0).count("sub") + PARAGRAPH_LEVELS["paragraph"]
+            level = match.group(1).lower().count("sub") + PARAGRAPH_LEVELS["paragraph"]
             return {
                 "type": "paragraph",
                 "title": content,
                 "level": level,
             }
         elif matched_type in ["section", "chapter", "part"]:
-            level = match.group(0).count("sub") + SECTION_LEVELS[matched_type]
-            numbered = (matched_type + "*") not in match.group(0)
+            level = match.group(1).lower().count("sub") + SECTION_LEVELS[matched_type]
+            numbered = not match.group(1).endswith("*")
             return {
                 "type": "section",
                 "title": content,
-- 
2.43.0


From 065e1661b88562e1c98657dc44e391e0d700540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:19 +0000
Subject: [PATCH 121/156] fix: a bracket in braces does not end an optional
 argument

---
 latex2json/parser/handlers/new_definition.py | 14 ++++++++++----
 latex2json/utils/tex_utils.py                |  8 ++++++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 243f738..94512c8 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -13,9 +13,14 @@ from latex2json.utils.tex_utils import (
 )
 
 
+# default of an argument, in which braces protect a bracket
+DEFAULT_ARG_PATTERN = (
+    r"\[(?:(?:[^\]{}\\]|\\.|{(?:[^{}\\]|\\.|{(?:[^{}\\]|\\.)*})*})*|[^\]]*)\]"
+)
+
 POST_NEW_COMMAND_PATTERN_STR = (
-    r"\*?\s*(?:{%s}|%s)(?:\s*\[(\d+)\])?((?:\s*\[[^]]*\])*)\s*{"
-    % (command_pattern, command_pattern)
+    r"\*?\s*(?:{%s}|%s)(?:\s*\[\s*(\d+)\s*\])?((?:\s*%s)*)\s*{"
+    % (command_pattern, command_pattern, DEFAULT_ARG_PATTERN)
 )
 
 # the letters of a command name (and those that packages make letters)
@@ -393,8 +398,9 @@ class NewDefinitionHandler(TokenHandler):
         # Add default values if present
         defaults = []
         if match.group(4):
-            for default in re.finditer(r"\[(.*?)\]", match.group(4)):
-                defaults.append(default.group(1))
+            defaults, _ = extract_nested_content_sequence_blocks(
+                match.group(4), "[", "]"
+            )
 
         # Don't add negative lookahead for commands ending in special chars
         needs_lookahead = cmd_name[-1].isalnum()
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 3cdadef..b37e70f 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -32,6 +32,7 @@ def find_matching_delimiter(
     Handles:
         - Nested delimiters
         - Escaped characters (odd number of backslashes)
+        - Braces, which protect a bracket e.g. [{a]}]
     """
     # Skip leading whitespace
     while start < len(text) and text[start].isspace():
@@ -42,7 +43,14 @@ def find_matching_delimiter(
 
     stack = []
     i = start
+    braces_protect = open_delim == "["
     while i < len(text):
+        if braces_protect and text[i] == "{" and not is_escaped(i, text):
+            _, brace_end = find_matching_delimiter(text, "{", "}", i)
+            if brace_end > 0:
+                i = brace_end
+                continue
+            braces_protect = False
         if text[i] == open_delim and not is_escaped(i, text):
             stack.append(i)
         elif text[i] == close_delim and not is_escaped(i, text):
-- 
2.43.0


From bd6e1d6be7442a0b449ebdf6e343a41131d1ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:45 +0000
Subject: [PATCH 122/156] fix: conditions on constants are decided and take no
 text of their branches

---
 .../parser/handlers/if_else_statements.py     | 66 ++++++++++++++-----
 1 file changed, 49 insertions(+), 17 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 3be0f2a..07dedf7 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -21,25 +21,19 @@ default_if_pattern = r"\s*(%s\s*%s|.+?)(?=\\|\s|$|\n)" % (
     char_or_command_pattern,
 )
 
-# Pattern to match any TeX token (command, character, or group)
-tex_token_pattern = r"""
-    (?:
-        (?:\\)?[a-zA-Z@]+     # Command or words token
-        |
-        \{[^}]*\}        # Group token
-        |
-        [^\\{}]          # Single character token
-    )
-"""
+# any TeX token: a command, a group or a character
+tex_token_pattern = r"(?:\\[a-zA-Z@]+|\\[^a-zA-Z@]|\{[^}]*\}|[^\s\\{}])"
 
 # Pattern for \ifx with two tokens to compare
 ifx_pattern = re.compile(
-    r"\\ifx\s*"
-    + rf"({tex_token_pattern})\s*"  # First token
-    + rf"({tex_token_pattern})",  # Second token
-    re.VERBOSE,
+    r"\\ifx(?![a-zA-Z@])\s*(%s)\s*(%s)" % (tex_token_pattern, tex_token_pattern)
 )
 
+# \if alone takes two items as well
+if_items_pattern = (
+    r"(?![a-zA-Z@])\s*(?:\\(?!(?:else|or|fi)(?![a-zA-Z@]))[a-zA-Z@]+|[^\s\\{}])"
+    r"\s*(?:\\(?!(?:else|or|fi)(?![a-zA-Z@]))[a-zA-Z@]+|[^\s\\{}])"
+)
 
 # commands whose names begin with if, but which no \\fi ends: symbols and those with
 # their branches in braces
@@ -56,8 +50,8 @@ IF_WITH_OPERANDS = "x|num|dim|odd|case|cat|(?:un)?defined|csname|void|hbox|vbox|
 
 IF_PATTERN = re.compile(
     r"\\(?!(?:%s)(?![a-zA-Z@]))(?:@)?if(?:(?:true|false|[hvm]mode|inner)(?![a-zA-Z@])"
-    r"|(?!(?:%s)(?![a-zA-Z@]))[a-zA-Z@]+\d*|%s)"
-    % (NO_FI_COMMANDS, IF_WITH_OPERANDS, default_if_pattern)
+    r"|(?!(?:%s)(?![a-zA-Z@]))[a-zA-Z@]+\d*|%s|%s)"
+    % (NO_FI_COMMANDS, IF_WITH_OPERANDS, if_items_pattern, default_if_pattern)
 )
 ELSE_PATTERN = re.compile(r"\\else(?![a-zA-Z@])")
 ELSIF_PATTERN = re.compile(
@@ -114,6 +108,41 @@ NO_FI_NAMES = {
 }
 
 
+CONSTANT_NUMBERS_PATTERN = re.compile(
+    r"\\if(?:num|dim)\s*([-+]?\d*\.?\d+)\s*([a-z]{2})?\s*([=<>])"
+    r"\s*([-+]?\d*\.?\d+)\s*([a-z]{2})?$"
+)
+ITEMS_PATTERN = re.compile(
+    r"\\if(?P<kind>x|cat)?(?![a-zA-Z@])\s*(?P<a>\\[a-zA-Z@]+|[^\s\\{}])\s*(?P<b>\\[a-zA-Z@]+|[^\s\\{}])$"
+)
+# these are no characters
+NO_CHARACTER_COMMANDS = ("\\empty", "\\@empty", "\\relax", "\\undefined", "\\@undefined")
+
+
+def decide_constants(text: str) -> Optional[bool]:
+    """Whether a condition on constants holds, None if more has to be known"""
+    match = re.match(r"\\ifodd\s*[-+]?(\d+)$", text)
+    if match:
+        return int(match.group(1)) % 2 == 1
+
+    match = CONSTANT_NUMBERS_PATTERN.match(text)
+    if match:
+        a, unit_a, operator, b, unit_b = match.groups()
+        if unit_a != unit_b:
+            return None
+        a, b = float(a), float(b)
+        return a == b if operator == "=" else a < b if operator == "<" else a > b
+
+    match = ITEMS_PATTERN.match(text)
+    if match:
+        kind, a, b = match.group("kind", "a", "b")
+        if a[0] != "\\" and b[0] != "\\":
+            return a.isalpha() == b.isalpha() if kind == "cat" else a == b
+        if kind == "x" and a[0] != b[0]:
+            return False if (a if a[0] == "\\" else b) in NO_CHARACTER_COMMANDS else None
+    return None
+
+
 def search_unescaped(pattern: re.Pattern, text: str) -> Optional[re.Match]:
     r"""The first match which is not a line break before letters e.g. \\if"""
     match = pattern.search(text)
@@ -382,7 +411,10 @@ class IfElseBlockHandler(TokenHandler):
                                 if_content = cases[n] if n < len(cases) else else_content
 
                         # Swap if_content and else_content for \iffalse
-                        if condition.replace("{", "").replace("}", "") == "false":
+                        # and what does not hold either
+                        if condition.replace("{", "").replace("}", "") == "false" or (
+                            not elsif_branches and decide_constants(out_str) is False
+                        ):
                             if_content, else_content = else_content, if_content
 
                     except ValueError as e:
-- 
2.43.0


From 0c160053e38b4d37e15445c5bd002d496b718a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:04 +0000
Subject: [PATCH 123/156] fix: authors are separated outside of braces only,
 metadata takes stars and options and keywords are parsed

---
 latex2json/parser/handlers/author.py | 86 +++++++++++++++++-----------
 latex2json/parser/tex_parser.py      |  2 +-
 2 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/latex2json/parser/handlers/author.py b/latex2json/parser/handlers/author.py
index 98a1349..5cc6295 100644
--- a/latex2json/parser/handlers/author.py
+++ b/latex2json/parser/handlers/author.py
@@ -4,19 +4,24 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.utils.tex_utils import extract_nested_content
 
-AND_PATTERN = re.compile(r"\\and(?![a-zA-Z@])", re.IGNORECASE)
-BACKSLASH_PATTERN = re.compile(r"\\\\")
+# what separates authors, and what may surround it
+AND_PATTERN = re.compile(
+    r"(?P<and>\\and(?![a-zA-Z@]))|\\.|(?P<open>{)|(?P<close>})", re.DOTALL | re.IGNORECASE
+)
 
 compile_as = re.DOTALL | re.IGNORECASE
 
+# star and optional argument, in which braces protect a bracket
+OPTIONS = (
+    r"\*?\s*(?:\[((?:[^\]{}\\]|\\.|{(?:[^{}\\]|\\.|{(?:[^{}\\]|\\.)*})*})*|[^\]]*)\])?\s*{"
+)
+
 PATTERNS = {
-    "author": re.compile(r"\\author(?:\s*\[(.*?)\])?\s*{", compile_as),
+    "author": re.compile(r"\\author" + OPTIONS, compile_as),
     # "correspondingauthor": re.compile(r"\\correspondingauthor\s*{", compile_as),
-    "email": re.compile(r"\\email\s*{", compile_as),
-    "affiliation": re.compile(
-        r"\\(?:affil|affiliation)(?:\s*\[(.*?)\])?\s*{", compile_as
-    ),
-    "address": re.compile(r"\\address\s*{", compile_as),
+    "email": re.compile(r"\\email" + OPTIONS, compile_as),
+    "affiliation": re.compile(r"\\(?:affil|affiliation)" + OPTIONS, compile_as),
+    "address": re.compile(r"\\address" + OPTIONS, compile_as),
     "curraddr": re.compile(r"\\curraddr(?:\{\}|\b)"),
     # \thanks usually found inside author block
     "thanks": re.compile(r"\\thanks\s*{", compile_as),
@@ -36,32 +41,49 @@ class AuthorHandler(TokenHandler):
                 return True
         return False
 
-    def _parse_author_content(self, content: str) -> Tuple[List[str], int]:
+    def _parse_author_content(self, content: str) -> List[str]:
+        r"""Split at each \and that is not in braces"""
         authors = []
-        # First split by \and
-        and_parts = AND_PATTERN.split(content)
-
-        # Then process each part for possible \\ separators
-        for part in and_parts:
-            # Split by \\ and filter out empty strings
-            # backslash_parts = [p.strip() for p in BACKSLASH_PATTERN.split(part)]
-            part = part.strip()
-            if part:
-                authors.append(part)
-
-        return authors
-
-    def _parse_author_tokens(self, content: str) -> Tuple[Optional[Dict], int]:
+        depth = 0
+        start = 0
+        for match in AND_PATTERN.finditer(content):
+            if match.group("open"):
+                depth += 1
+            elif match.group("close"):
+                depth -= 1
+            elif match.group("and") and depth == 0:
+                authors.append(content[start : match.start()].strip())
+                start = match.end()
+        authors.append(content[start:].strip())
+        return [author for author in authors if author]
+
+    def _parse_author_tokens(self, content: str) -> List:
         # short_author = match.group(1)  # Will be None if no [] present
-        tokens = self._parse_author_content(content)
-        if self.process_content_fn:
-            parsed_tokens = []
-            for token in tokens:
-                processed = self.process_content_fn(token)
-                if processed:
-                    parsed_tokens.append(processed)
-            tokens = parsed_tokens
-        return tokens
+        authors = self._parse_author_content(content)
+        if not self.process_content_fn:
+            return authors
+
+        tokens = []
+        for author in authors:
+            row = []
+            for token in self.process_content_fn(author) or []:
+                # \and of an expanded command
+                if self._is_and(token):
+                    tokens.append(row)
+                    row = []
+                else:
+                    row.append(token)
+            tokens.append(row)
+        return [row for row in tokens if row]
+
+    @staticmethod
+    def _is_and(token: Dict) -> bool:
+        return (
+            isinstance(token, dict)
+            and token.get("type") == "command"
+            and token.get("command", "").lower() == "\\and"
+            and not token.get("content")
+        )
 
     def handle(
         self, content: str, prev_token: Optional[Dict] = None
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 8fff696..0884e12 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -443,7 +443,7 @@ class LatexParser:
             elif token["type"] == "citation":
                 if "title" in token:
                     token["title"] = self.parse(token["title"])
-            elif token["type"] == "title":
+            elif token["type"] in ["title", "keywords"]:
                 token["content"] = self.parse(token["content"])
             elif token["type"] in ["section", "paragraph"]:
                 self.current_env = token
-- 
2.43.0


From d5e24c2112676fffd0180331d3b6e46043459c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:57 +0000
Subject: [PATCH 124/156] fix: included files are read in their place, files
 that include themselves are skipped and nothing is read after the end of a
 document

---
 latex2json/parser/handlers/content_command.py |   6 +
 latex2json/parser/patterns.py                 |   4 +
 latex2json/parser/sty_parser.py               |  19 +-
 latex2json/parser/tex_parser.py               |  47 +++--
 latex2json/parser/tex_preprocessor.py         | 164 ++++++++++++++++--
 latex2json/utils/tex_utils.py                 |  58 +++++--
 6 files changed, 240 insertions(+), 58 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 082214a..a8d0337 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -42,6 +42,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         # input
         ("input_file", r"\\(?:input|include)\s*{"),
+        ("input_line", r"\\input\s+([^\s{}\\$&#~^%]+)"),
         # REFs
         ("ref", r"\\(?:auto|eq|page)?ref\*?\s*{"),
         ("cref", r"\\[cC]ref\*?\s*{"),
@@ -126,6 +127,11 @@ class ContentCommandHandler(TokenHandler):
                         "type": "footnote",
                         "content": match.group(1).strip() if match.group(1) else "*",
                     }, match.end()
+                elif pattern_name == "input_line":
+                    return {
+                        "type": "input_file",
+                        "content": match.group(1),
+                    }, match.end()
                 elif pattern_name == "appendix":
                     return {"type": "appendix"}, match.end()
                 else:
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 6ecd05a..15239a5 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -34,6 +34,10 @@ USEPACKAGE_PATTERN = re.compile(
     % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
 )
+# with the name in braces or, for \input only, up to the next blank
+INPUT_PATTERN = re.compile(
+    r"\\(?:input|include)\s*\{([^{}]+)\}|\\input\s+([^\s{}\\$&#~^%]+)"
+)
 LOADCLASS_PATTERN = re.compile(
     r"\\LoadClass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index e13fe4c..9a8e533 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -20,6 +20,7 @@ from latex2json.parser.handlers import (
 )
 from latex2json.utils.tex_utils import (
     extract_nested_content,
+    find_tex_file,
     read_tex_file_content,
     strip_latex_comments,
 )
@@ -27,12 +28,11 @@ from latex2json.parser.patterns import (
     USEPACKAGE_PATTERN,
     WHITELISTED_COMMANDS,
     DELIM_PATTERN,
+    INPUT_PATTERN,
     LOADCLASS_PATTERN,
 )
 from latex2json.parser.handlers.command_manager import CommandManager
 
-INCLUDE_PATTERN = re.compile(r"\\input\s*\{([^}]+)\}", re.DOTALL)
-
 AT_BEGIN_DOC_PATTERN = re.compile(r"\\AtBeginDocument\s*{", re.IGNORECASE)
 
 
@@ -91,7 +91,15 @@ class LatexStyParser:
         Returns:
             tuple: (list of tokens from sty files, end_position)
         """
-        match = USEPACKAGE_PATTERN.match(content) or INCLUDE_PATTERN.match(content)
+        match = INPUT_PATTERN.match(content)
+        if match:
+            path = (match.group(1) or match.group(2)).strip()
+            if self.current_file_dir:
+                path = os.path.join(self.current_file_dir, path)
+            path = find_tex_file(path)
+            return self.parse_file(path) if path else [], match.end()
+
+        match = USEPACKAGE_PATTERN.match(content)
         if match:
             package_names = match.group(1).strip()
             tokens = self._parse_packages(package_names.split(","))
@@ -257,6 +265,7 @@ class LatexStyParser:
     def parse_file(
         self, file_path: str, extension: str = ".sty"
     ) -> List[Dict[str, str]]:
+        current_file_dir = self.current_file_dir
         try:
             file_path = os.path.abspath(file_path)
             if file_path in self.parsed_files:
@@ -264,7 +273,6 @@ class LatexStyParser:
                 return []
 
             self.logger.info(f"Parsing file: {file_path}, ext: {extension}")
-            current_file_dir = self.current_file_dir
 
             content = read_tex_file_content(file_path, extension=extension)
             self.parsed_files.add(file_path)
@@ -274,7 +282,6 @@ class LatexStyParser:
             for token in tokens:
                 token["is_sty"] = True
 
-            self.current_file_dir = current_file_dir
             self.logger.info(f"Finished parsing file: {file_path}")
             return tokens
         except Exception as e:
@@ -282,6 +289,8 @@ class LatexStyParser:
                 f"Failed to parse file: {file_path}, error: {str(e)}", exc_info=True
             )
             return []
+        finally:
+            self.current_file_dir = current_file_dir
 
 
 if __name__ == "__main__":
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 0884e12..dc9804f 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -32,8 +32,10 @@ from latex2json.parser.handlers.command_manager import CommandManager
 from latex2json.parser.handlers.command_processor import ExpansionGuard
 from latex2json.utils.tex_utils import (
     extract_nested_content,
+    find_tex_file,
     is_escaped,
     read_tex_file_content,
+    should_preprocess_file,
     splice_expansion,
     strip_latex_comments,
 )
@@ -64,6 +66,7 @@ class LatexParser:
         self.current_file_dir = None
         self.current_str = ""
         self._nesting_level = 0
+        self._open_files = []  # absolute paths of the files being parsed
 
         # color definitions via \definecolor
         self.colors = {}  # e.g. {"mycolor": {"format": "HTML", "value": "FF0000"}}
@@ -780,7 +783,7 @@ class LatexParser:
     def preprocess(self, content: str) -> str:
         # Preprocess content before parsing
         content, definition_tokens = self.preprocessor.preprocess(
-            content, self.current_file_dir
+            content, self.current_file_dir, self._open_files
         )
 
         # Process any definition tokens
@@ -802,11 +805,21 @@ class LatexParser:
         Returns:
             List[Dict[str, str]]: List of parsed tokens
         """
+        outer_file_dir = self.current_file_dir
+        is_main_file = self._nesting_level == 0
+        n_open_files = len(self._open_files)
         try:
             self.logger.info(f"Parsing file: {file_path}, ext: {extension}")
 
-            file_abspath = os.path.abspath(file_path)
-            if not self.current_file_dir:
+            file_abspath = find_tex_file(file_path, extension) or os.path.abspath(
+                file_path
+            )
+            if file_abspath in self._open_files:
+                self.logger.error(f"File includes itself, skipping: {file_path}")
+                return []
+            self._open_files.append(file_abspath)
+            # included files are relative to the folder of the main file
+            if is_main_file or not self.current_file_dir:
                 self.current_file_dir = os.path.dirname(file_abspath)
 
             try:
@@ -825,30 +838,10 @@ class LatexParser:
             )
             self.logger.warning(f"Continuing from failed parse at {file_path}")
             return []
-
-
-def should_preprocess_file(file_path: str) -> bool:
-    """
-    Determine if a file should be preprocessed based on its extension.
-
-    Args:
-        file_path: Path to the file
-
-    Returns:
-        bool: True if file should be preprocessed, False otherwise
-    """
-    NO_PREPROCESS_EXTENSIONS = {
-        ".pgf",  # PGF/TikZ graphics
-        ".tikz",  # TikZ graphics
-        ".sty",  # LaTeX style files
-        ".cls",  # LaTeX class files
-        ".def",  # LaTeX definition files
-        ".clo",  # Class option files
-        ".fd",  # Font definition files
-        ".cfg",  # Configuration files
-        ".ist",  # MakeIndex style files
-    }
-    return not any(str(file_path).endswith(ext) for ext in NO_PREPROCESS_EXTENSIONS)
+        finally:
+            del self._open_files[n_open_files:]
+            if not is_main_file:
+                self.current_file_dir = outer_file_dir
 
 
 if __name__ == "__main__":
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 643078e..378f044 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -10,6 +10,7 @@ from latex2json.parser.patterns import (
     WHITELISTED_COMMANDS,
     DELIM_PATTERN,
     DOCUMENTCLASS_PATTERN,
+    INPUT_PATTERN,
 )
 
 sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
@@ -21,6 +22,9 @@ from latex2json.parser.handlers import (
 )
 from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
+    find_tex_file,
+    read_tex_file_content,
+    should_preprocess_file,
     strip_latex_comments,
     normalize_whitespace_and_lines,
     splice_expansion,
@@ -88,6 +92,13 @@ def convert_quotes(content: str) -> str:
     return "".join(out)
 
 
+# what follows does not belong to the file any more
+END_OF_FILE_PATTERN = re.compile(r"\\endinput(?![a-zA-Z@])|\\end\s*\{document\}")
+
+FILECONTENTS_PATTERN = re.compile(
+    r"\\begin\s*\{(filecontents\*?)\}.*?\\end\s*\{\1\}", re.DOTALL
+)
+
 # definitions of commands that are replaced by other text
 MACRO_TYPES = ("newcommand", "def", "let")
 
@@ -124,25 +135,34 @@ class LatexPreprocessor:
         self.command_manager.clear()
         self.sty_parser.clear()
 
-    def preprocess(self, content: str, file_dir=None) -> tuple[str, list[Dict]]:
+    def preprocess(
+        self, content: str, file_dir=None, open_files=()
+    ) -> tuple[str, list[Dict]]:
         """Main preprocessing pipeline
 
+        Args:
+            content: The LaTeX content
+            file_dir: Folder that the files it includes are relative to
+            open_files: Absolute paths of the file it is from and of those that include it
+
         Returns:
             tuple: (processed_content, list of definition tokens)
         """
         # 1. Strip comments
         content = strip_latex_comments(content)
 
-        # 2. Check for documentclass (only once at the start)
-        end_pos, out_tokens = self._check_documentclass(content, file_dir)
-        if end_pos > 0:
-            content = content[end_pos:]
-
-        # 3. Process all definitions and expand commands, but not in literal material
+        # 2. Take out literal material, where nothing is defined nor expanded
         content, literal_blocks = self._extract_verbatim_blocks(
             content, LITERAL_PATTERNS, "__LITERAL_BLOCK__"
         )
-        content, tokens = self._process_definitions_and_expand(content, file_dir)
+
+        # 3. Check for documentclass (only once at the start)
+        content, out_tokens = self._check_documentclass(content, file_dir)
+
+        # 4. Process all definitions and expand commands
+        content, tokens = self._process_definitions_and_expand(
+            content, file_dir, open_files, literal_blocks
+        )
         for token in tokens:
             if isinstance(token.get("content"), str):
                 token["content"] = restore_placeholder_blocks(
@@ -150,7 +170,7 @@ class LatexPreprocessor:
                 )
         out_tokens.extend(tokens)
 
-        # 4. After all expansions, normalize whitespace and lines
+        # 5. After all expansions, normalize whitespace and lines
         # But make sure to not normalize verbatim environments (VERBATIM_PATTERNS)
         # so we first need to find all verbatim environments, extract them out, normalize the rest, then put the verbatim environments back in
         content, verbatim_blocks = self._extract_verbatim_blocks(content)
@@ -190,18 +210,80 @@ class LatexPreprocessor:
 
     def _check_documentclass(
         self, content: str, file_dir: str = None
-    ) -> tuple[int, list[Dict]]:
+    ) -> tuple[str, list[Dict]]:
         """Check for documentclass command
 
         Returns:
-            int: end position of the match
+            tuple: (content from there on, list of tokens from cls file)
         """
         match = DOCUMENTCLASS_PATTERN.search(content)
         if match:
             cls_name = match.group(1).strip()
             tokens = self._parse_packages([cls_name], file_dir, ".cls")
-            return match.end(), tokens
-        return 0, []
+            preamble = self._extract_definitions(content[: match.start()])
+            return preamble + content[match.end() :], tokens
+        return content, []
+
+    def _extract_definitions(self, content: str) -> str:
+        """The definitions and packages in the content, and nothing else"""
+        content = FILECONTENTS_PATTERN.sub("", content)
+        definitions = []
+        pos = content.find("\\")
+        while pos >= 0:
+            match = USEPACKAGE_PATTERN.match(content, pos)
+            if match:
+                end_pos = match.end() - pos
+            else:
+                _, end_pos = self.command_manager.process_definition(
+                    content[pos:], register=False
+                )
+            if end_pos > 0:
+                definitions.append(content[pos : pos + end_pos] + "\n")
+            pos = content.find("\\", pos + max(end_pos, 2))
+        return "".join(definitions)
+
+    def _check_input(
+        self, content: str, pos: int, file_dir: Optional[str]
+    ) -> tuple[Optional[str], int]:
+        """Check for a command that includes a file to preprocess
+
+        Returns:
+            tuple: (absolute path of the file, end_position)
+        """
+        match = INPUT_PATTERN.match(content, pos)
+        if not match:
+            return None, 0
+        path = (match[1] or match[2]).strip()
+        if file_dir:
+            path = os.path.join(file_dir, path)
+        path = find_tex_file(path)
+        if path is None or not should_preprocess_file(path):
+            return None, 0  # the parser takes care of it
+        return path, match.end()
+
+    def _read_input(
+        self, path: str, following: str, file_dir: Optional[str], literal_blocks: dict
+    ) -> tuple[str, list[Dict]]:
+        """Read a file that is included before the text that follows
+
+        Returns:
+            tuple: (content of the file, list of tokens from its document class)
+        """
+        content = strip_latex_comments(read_tex_file_content(path))
+        content, blocks = self._extract_verbatim_blocks(
+            content, LITERAL_PATTERNS, f"__LITERAL_BLOCK_{len(literal_blocks)}_"
+        )
+        literal_blocks.update(blocks)
+        content, tokens = self._check_documentclass(content, file_dir)
+
+        # the last line ends, which makes no paragraph with the end of the line outside
+        if content.endswith("\n"):
+            content = content[:-1]
+        if content.endswith("\n"):
+            content += "\n"
+        elif content and following.strip() and following[0] not in " \t\n}":
+            content += " "
+        return content, tokens
 
     def _check_usepackage(
         self, content: str, file_dir: str = None
@@ -244,13 +326,19 @@ class LatexPreprocessor:
             self.command_manager.forget_command(name)
 
     def _process_definitions_and_expand(
-        self, content: str, file_dir: str = None
+        self,
+        content: str,
+        file_dir: str = None,
+        open_files=(),
+        literal_blocks: dict = None,
     ) -> tuple[str, list[Dict]]:
         """Handle all definitions and command expansions
 
         Returns:
             tuple: (processed_content, list of definition tokens)
         """
+        if literal_blocks is None:
+            literal_blocks = {}
         current_pos = 0
         tokens = []  # Store all definition tokens
         # names that commands with arguments may define anew wherever they are used
@@ -258,8 +346,13 @@ class LatexPreprocessor:
 
         math_blocks = {}
         guard = ExpansionGuard(content)
+        # included files: path, length of the text after it, guard of that text
+        inputs = []
 
         while current_pos < len(content):
+            while inputs and len(content) - current_pos <= inputs[-1][1]:
+                guard = inputs.pop()[2]
+
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
             # without it, we would have to parse the entire content string character by character. which would be slower.)
             # if next delimiter exists, we need to store the text before the next delimiter (or all remaining text if no delimiter)
@@ -342,6 +435,49 @@ class LatexPreprocessor:
                 content = self._splice(content, current_pos, end_pos, "")
                 continue
 
+            # included files are part of the content
+            path, end_pos = self._check_input(content, current_pos, file_dir)
+            if end_pos > 0:
+                text = ""
+                following = content[end_pos:]
+                if path in open_files or any(path == p for p, *_ in inputs):
+                    self.logger.error(f"File includes itself, skipping: {path}")
+                elif guard.is_runaway(0, len(following)):
+                    self.logger.warning("Runaway command expansion, skipping")
+                else:
+                    try:
+                        text, cls_tokens = self._read_input(
+                            path, following, file_dir, literal_blocks
+                        )
+                        tokens.extend(cls_tokens)
+                    except Exception as e:
+                        self.logger.error(
+                            f"Failed to read file: {path}, error: {str(e)}",
+                            exc_info=True,
+                        )
+                content = self._splice(
+                    content, current_pos, end_pos - current_pos, text
+                )
+                if text:
+                    inputs.append((path, len(following), guard))
+                    guard = ExpansionGuard(content)
+                continue
+
+            # nothing is read after the end of a file
+            match = END_OF_FILE_PATTERN.match(content, current_pos)
+            if match:
+                file_end = len(content) - (inputs[-1][1] if inputs else 0)
+                if match[0].startswith("\\endinput"):
+                    # but for the rest of its line
+                    line_end = content.find("\n", current_pos, file_end)
+                    line_end = line_end if line_end >= 0 else file_end
+                    rest = content[match.end() : line_end]
+                    content = content[:current_pos] + rest + content[file_end:]
+                else:
+                    current_pos = match.end()
+                    content = content[:current_pos] + content[file_end:]
+                continue
+
             # boxes are known to the parser only
             box_match = BOX_REGISTER_PATTERN.match(content, current_pos)
             if box_match:
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index b37e70f..932544b 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -373,6 +373,27 @@ def substitute_patterns(
     return text
 
 
+def find_tex_file(file_path: str, extension: str = ".tex") -> Optional[str]:
+    """
+    Find an input file, whose name may come without its extension.
+
+    Returns:
+        Optional[str]: Absolute path of the file, or None if there is none
+    """
+    # Clean up input
+    file_path = str(file_path).strip()
+
+    # Try both with and without extension
+    paths_to_try = [file_path]
+    if not file_path.endswith(extension):
+        paths_to_try.append(file_path + extension)
+
+    for path in paths_to_try:
+        if os.path.exists(path) and not os.path.isdir(path):
+            return os.path.abspath(path)
+    return None
+
+
 def read_tex_file_content(file_path: str, extension: str = ".tex") -> str:
     """
     Attempts to read content from an input file.
@@ -387,21 +408,34 @@ def read_tex_file_content(file_path: str, extension: str = ".tex") -> str:
     Raises:
         FileNotFoundError: If file doesn't exist or is a directory
     """
-    # Clean up input
-    file_path = str(file_path).strip()
+    path = find_tex_file(file_path, extension)
+    if path is None:
+        raise FileNotFoundError(f"Failed to read input file '{file_path}'")
+    return read_file(path)
 
-    # Try both with and without extension
-    paths_to_try = [file_path]
-    if not file_path.endswith(extension):
-        paths_to_try.append(file_path + extension)
 
-    for path in paths_to_try:
-        if os.path.exists(path):
-            if os.path.isdir(path):
-                continue
-            return read_file(path)
+def should_preprocess_file(file_path: str) -> bool:
+    """
+    Determine if a file should be preprocessed based on its extension.
 
-    raise FileNotFoundError(f"Failed to read input file '{file_path}'")
+    Args:
+        file_path: Path to the file
+
+    Returns:
+        bool: True if file should be preprocessed, False otherwise
+    """
+    NO_PREPROCESS_EXTENSIONS = {
+        ".pgf",  # PGF/TikZ graphics
+        ".tikz",  # TikZ graphics
+        ".sty",  # LaTeX style files
+        ".cls",  # LaTeX class files
+        ".def",  # LaTeX definition files
+        ".clo",  # Class option files
+        ".fd",  # Font definition files
+        ".cfg",  # Configuration files
+        ".ist",  # MakeIndex style files
+    }
+    return not any(str(file_path).endswith(ext) for ext in NO_PREPROCESS_EXTENSIONS)
 
 
 def has_comment_on_sameline(content: str, pos: int) -> bool:
-- 
2.43.0


From 739cbc93f2ade960edd33b51117c36a50b8e5ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:35 +0000
Subject: [PATCH 125/156] fix: links of an archive do not lead out of the
 folder and names with dots are extracted

---
 latex2json/tex_file_extractor.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index 973f527..e27c92b 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -79,9 +79,27 @@ class TexFileExtractor:
             )
         if member.islnk():
             # a hard link target is relative to the archive root
-            return inside(path) and inside(os.path.join(root, member.linkname))
+            # (tarfile extracts a copy of a target that is missing, e.g. as it was skipped)
+            target = os.path.join(root, member.linkname)
+            return inside(path) and os.path.lexists(target) and inside(target)
         return (member.isfile() or member.isdir()) and inside(path)
 
+    @staticmethod
+    def _remove_outside_links(temp_dir):
+        """Remove links that lead outside temp_dir now that all members are extracted.
+
+        Members that come later can change where a link leads.
+        """
+        top = os.path.realpath(temp_dir)
+        for root, dirs, files in os.walk(temp_dir):
+            for name in dirs + files:
+                path = os.path.join(root, name)
+                if os.path.islink(path) and not os.path.realpath(path).startswith(
+                    top + os.sep
+                ):
+                    print(f"[WARNING] Removing link to outside of tar.gz: {name}")
+                    os.unlink(path)
+
     @staticmethod
     @contextmanager
     def process_compressed_file(compressed_path, cleanup: bool = True):
@@ -112,7 +130,7 @@ class TexFileExtractor:
                         # Prevent path traversal and absolute paths
                         if (
                             os.path.isabs(member)
-                            or ".." in member
+                            or ".." in member.split("/")
                             or not os.path.abspath(member_path).startswith(
                                 os.path.abspath(temp_dir)
                             )
@@ -142,7 +160,7 @@ class TexFileExtractor:
                             # Prevent path traversal and absolute paths
                             if (
                                 os.path.isabs(member.name)
-                                or ".." in member.name
+                                or ".." in member.name.split("/")
                                 or not os.path.abspath(member_path).startswith(
                                     os.path.abspath(temp_dir)
                                 )
@@ -163,6 +181,7 @@ class TexFileExtractor:
                                 )
                                 continue
                             tar.extract(member, temp_dir)
+                        TexFileExtractor._remove_outside_links(temp_dir)
 
                     main_tex, main_folder_abs = TexFileExtractor.find_main_tex_file(
                         temp_dir
-- 
2.43.0


From 8c6b549c37a400ae73384e7e1d5e0a945cf104b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:19 +0000
Subject: [PATCH 126/156] fix: a tar archive named .gz is extracted

---
 latex2json/tex_file_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/latex2json/tex_file_extractor.py b/latex2json/tex_file_extractor.py
index e27c92b..5fd4898 100644
--- a/latex2json/tex_file_extractor.py
+++ b/latex2json/tex_file_extractor.py
@@ -149,8 +149,9 @@ class TexFileExtractor:
                 )
                 processed = True
 
-            elif compressed_path.endswith((".tar.gz", ".tgz")):
+            elif compressed_path.endswith((".gz", ".tgz")):
                 try:
+                    # arXiv names tar archives .gz, too
                     # Open .tar.gz directly using tarfile
                     with tarfile.open(compressed_path, "r:gz") as tar:
                         # Security check for unsafe paths before extraction
-- 
2.43.0


From 55caec061c26cd0e587c1201da53b9283aa08e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:23 +0000
Subject: [PATCH 127/156] fix: valid UTF-8 is not left to a guess of the
 encoding and files in one byte encodings keep their letters

---
 latex2json/utils/encoding.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/latex2json/utils/encoding.py b/latex2json/utils/encoding.py
index 53cc0e2..a5cce60 100644
--- a/latex2json/utils/encoding.py
+++ b/latex2json/utils/encoding.py
@@ -1,3 +1,5 @@
+import codecs
+
 import chardet
 from chardet.universaldetector import UniversalDetector
 
@@ -15,14 +17,22 @@ def detect_encoding(path: str) -> str:
 
     # Read the file in binary mode
     with open(path, "rb") as file:
-        # Read a sample of the file for faster detection
-        # For larger files, reading the first few KB is usually sufficient
-        raw_data = file.read(10000)  # Read first 10KB
+        raw_data = file.read()
         if len(raw_data) == 0:  # Empty file
             return "utf-8"
 
-    # Detect encoding
-    result = chardet.detect(raw_data)
+    # Text that is valid UTF-8 is hardly ever anything else, so it is not left to a guess
+    # (escape characters and NULs are signs of ISO-2022 and UTF-16)
+    if b"\x1b" not in raw_data and b"\0" not in raw_data:
+        try:
+            raw_data.decode("utf-8")
+            return "utf-8-sig" if raw_data.startswith(codecs.BOM_UTF8) else "utf-8"
+        except UnicodeDecodeError:
+            pass
+
+    # Detect encoding from a sample of the file for faster detection
+    # For larger files, the first few KB (10KB) are usually sufficient
+    result = chardet.detect(raw_data[:10000])
     encoding = result.get("encoding", "utf-8")
 
     # Handle None or very low confidence results
@@ -56,13 +66,15 @@ def read_file(path):
             return f.read()
     except (UnicodeError, LookupError):
         # First fallback: try utf-8 with error handling
-        try:
-            with open(path, "r", encoding="utf-8", errors="replace") as f:
-                return f.read()
-        except UnicodeDecodeError:
-            # Last resort: latin-1 can read any byte sequence
-            with open(path, "r", encoding="latin-1") as f:
-                return f.read()
+        with open(path, "r", encoding="utf-8", errors="replace") as f:
+            content = f.read()
+        bad = content.count("\ufffd")
+        if bad <= sum(not c.isascii() for c in content) - bad:
+            return content
+        # Last resort: latin-1 can read any byte sequence
+        # (text in a one byte encoding has hardly any valid utf-8 sequences)
+        with open(path, "r", encoding="latin-1") as f:
+            return f.read()
 
 
 # Usage
-- 
2.43.0


From fa3cb70b4fb6ab000a8e27261a5095e07e9a7c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:40 +0000
Subject: [PATCH 128/156] fix: \def macros take empty delimited arguments,
 commands and deeply nested braces as arguments

---
 latex2json/parser/handlers/new_definition.py | 53 ++++++++++++++------
 1 file changed, 37 insertions(+), 16 deletions(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 94512c8..a63ba27 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -132,6 +132,23 @@ PATTERNS = {
 
 USAGE_SUFFIX = r"(?![a-zA-Z@])"
 
+# patterns of the arguments of \def commands
+CONTROL_SEQUENCE_PATTERN = r"\\(?:[a-zA-Z@]+%s|[^a-zA-Z@])" % USAGE_SUFFIX
+
+
+def _balanced_patterns(max_depth: int) -> Tuple[str, str]:
+    """Patterns of one unit of text (a character, a command or {..}) and of a run of them"""
+    unit = rf"(?:[^{{}}\\]|{CONTROL_SEQUENCE_PATTERN})"
+    for _ in range(max_depth):
+        unit = rf"(?:[^{{}}\\]|{CONTROL_SEQUENCE_PATTERN}|\{{{unit}*\}})"
+    return unit, unit + "*"
+
+
+BALANCED_UNIT_PATTERN, BALANCED_PATTERN = _balanced_patterns(max_depth=8)
+
+# {xxx}, a command or a single character
+UNDELIMITED_ARG_PATTERN = rf"\s*(?:\{{({BALANCED_PATTERN})\}}|({CONTROL_SEQUENCE_PATTERN}|[^{{}}\\\s]))"
+
 
 def extract_and_concat_nested_csname(content: str) -> Tuple[str, int]:
     match = START_CSNAME_PATTERN.match(content)
@@ -630,24 +647,28 @@ class NewDefinitionHandler(TokenHandler):
 
             # Add the args pattern to capture delimiters and args e.g. {xxx} or x
             # e.g. \def\foo#1{bar #1} \foo{xxx} will match 'xxx' arg, \foo xaaa will match 'x' arg
-            # Update regex to handle escaped braces and normal braces
-            args_part_pattern = r"\s*(?:\{((?:[^{}]|\\\{|\\\}|{[^{}]*})*)\}|([^\}]+?))"
-
-            current_pos = 0
-            for param in re.finditer(r"#(\d+)", args):
-                # Add everything before the parameter as escaped text
-                before_param = args[current_pos : param.start()]
-                if before_param:
-                    parts.append(re.escape(before_param))
-
-                parts.append(args_part_pattern)
+            params = list(re.finditer(r"#(\d+)", args))
+            for i, param in enumerate(params):
+                # the text up to the next parameter delimits this one
+                next_start = params[i + 1].start() if i + 1 < len(params) else len(args)
+                delimiter = re.escape(args[param.end() : next_start])
+                if re.search(r"\\[a-zA-Z@]+$", delimiter):
+                    delimiter += USAGE_SUFFIX
+
+                if not delimiter:
+                    parts.append(UNDELIMITED_ARG_PATTERN)
+                else:
+                    if i == 0 or not args[param.end()].isspace():
+                        parts.append(r"\s*")
+                    # up to the first delimiter outside of braces, without the braces
+                    # if there is nothing else
+                    parts.append(
+                        rf"(?:(?=\{{{BALANCED_PATTERN}\}}{delimiter})\{{({BALANCED_PATTERN})\}}"
+                        rf"|((?:(?!{delimiter}){BALANCED_UNIT_PATTERN})*))"
+                    )
+                    parts.append(delimiter)
 
-                current_pos = param.end()
                 param_count += 1
-
-            # Add any remaining text after the last parameter
-            if current_pos < len(args):
-                parts.append(re.escape(args[current_pos:]))
         else:
             parts.append(re.escape(pattern) + USAGE_SUFFIX)
 
-- 
2.43.0


From 9600bac64d484395addbf6a3ed4b786a98328fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:16 +0000
Subject: [PATCH 129/156] fix: in math, a macro takes a single character or
 command as its argument

---
 .../parser/handlers/command_processor.py      | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/handlers/command_processor.py b/latex2json/parser/handlers/command_processor.py
index 8da6e22..5d2d87d 100644
--- a/latex2json/parser/handlers/command_processor.py
+++ b/latex2json/parser/handlers/command_processor.py
@@ -28,6 +28,12 @@ CSNAME_PATTERN = re.compile(
 # stands between a command and the letters after it while commands are expanded
 SEPARATOR = "\0"
 
+# a single character or command in the place of an argument e.g. $\foo a$, $\foo\alpha$
+UNBRACED_ARG_PATTERN = re.compile(
+    r"\s*(\\(?!(?:begin|end|left|right)(?![a-zA-Z@]))(?:[a-zA-Z@]+|[^a-zA-Z@\s\\()\[\]])"
+    r"|[^\s\\{}$&%#^_\0])"
+)
+
 # COMPARISON_OP_PATTERN = re.compile(r"\s*=\s*%s" % command_or_dim)
 
 
@@ -284,15 +290,19 @@ class CommandProcessor:
                     for i, block in enumerate(blocks):
                         args[i] = block
 
-                args_left = num_args - num_optional
-                if args_left > 0:
-                    start_pos = end_pos
-                    blocks, end_pos = extract_nested_content_sequence_blocks(
-                        text[start_pos:], "{", "}", args_left
+                for _ in range(num_args - num_optional):
+                    blocks, arg_end = extract_nested_content_sequence_blocks(
+                        text[end_pos:], "{", "}", 1
                     )
-                    end_pos += start_pos
-                    for block in blocks:
-                        args.append(block)
+                    if blocks:
+                        args.append(blocks[0])
+                        end_pos += arg_end
+                        continue
+                    unbraced = math_mode and UNBRACED_ARG_PATTERN.match(text, end_pos)
+                    if not unbraced:
+                        break
+                    args.append(unbraced.group(1))
+                    end_pos = unbraced.end()
 
                 # fill remaining args with empty strings
                 args.extend([""] * (num_args - len(args)))
-- 
2.43.0


From bc5fbe653c777b3e760519fc5eff410fb5fc7f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:16 +0000
Subject: [PATCH 130/156] fix: packages and classes loaded with their options
 are read, and release dates are no text

---
 latex2json/parser/patterns.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 15239a5..4ef4ce4 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -25,13 +25,17 @@ DELIM_PATTERN = re.compile(
     r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\[\^~]|\\(?![$%&_#{}^~\\]))"
 )
 
+# the date of the version asked for, behind the name of a class or package
+RELEASE_DATE_PATTERN = r"(?:[ \t]*\n?[ \t]*\[[^\[\]{}\\\n]*\])?"
+
 DOCUMENTCLASS_PATTERN = re.compile(
-    r"\\documentclass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
+    r"\\documentclass\s*%s\s*%s%s"
+    % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN, RELEASE_DATE_PATTERN),
     re.DOTALL,
 )
 USEPACKAGE_PATTERN = re.compile(
-    r"\\(?:usepackage|RequirePackage)\s*%s\s*%s"
-    % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
+    r"\\(?:usepackage|RequirePackage(?:WithOptions)?)\s*%s\s*%s%s"
+    % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN, RELEASE_DATE_PATTERN),
     re.DOTALL,
 )
 # with the name in braces or, for \input only, up to the next blank
@@ -39,7 +43,8 @@ INPUT_PATTERN = re.compile(
     r"\\(?:input|include)\s*\{([^{}]+)\}|\\input\s+([^\s{}\\$&#~^%]+)"
 )
 LOADCLASS_PATTERN = re.compile(
-    r"\\LoadClass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
+    r"\\LoadClass(?:WithOptions)?\s*%s\s*%s"
+    % (OPTIONAL_BRACE_PATTERN, BRACE_CONTENT_PATTERN),
     re.DOTALL,
 )
 
-- 
2.43.0


From a7a6e9a49e204a7c5acf4813deb858e13ed743fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:47 +0000
Subject: [PATCH 131/156] fix: drawings and algorithms are kept as their source
 when preprocessing

---
 latex2json/parser/tex_preprocessor.py | 67 +++++++++++++++++++++++----
 1 file changed, 57 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 378f044..4275417 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -22,6 +22,7 @@ from latex2json.parser.handlers import (
 )
 from latex2json.utils.tex_utils import (
     check_string_has_hash_number,
+    find_matching_env_block,
     find_tex_file,
     read_tex_file_content,
     should_preprocess_file,
@@ -50,13 +51,9 @@ ALL_VERBATIM_PATTERNS = list(VERBATIM_PATTERNS.values())
 ALL_VERBATIM_PATTERNS.append(
     re.compile(r"\\begin\s*\{algorithm\}(.*?)\\end\s*\{algorithm\}", re.DOTALL)
 )
-ALL_VERBATIM_PATTERNS.append(
-    re.compile(r"\\begin\s*\{algorithmic\}(.*?)\\end\s*\{algorithmic\}", re.DOTALL)
-)
-ALL_VERBATIM_PATTERNS.append(
-    re.compile(
-        r"\\begin\s*\{(picture|tikzpicture|pgfpicture)\}(.*?)\\end\s*\{\1\}", re.DOTALL
-    )
+# environments that are kept as their source
+RAW_ENV_PATTERN = re.compile(
+    r"\\begin\s*\{(algorithmic|picture|tikzpicture|pgfpicture)\}"
 )
 
 # quotation marks, but not accents e.g. \`a, nor the keys and addresses of references
@@ -173,9 +170,11 @@ class LatexPreprocessor:
         # 5. After all expansions, normalize whitespace and lines
         # But make sure to not normalize verbatim environments (VERBATIM_PATTERNS)
         # so we first need to find all verbatim environments, extract them out, normalize the rest, then put the verbatim environments back in
+        content, raw_blocks = self._extract_raw_blocks(content)
         content, verbatim_blocks = self._extract_verbatim_blocks(content)
         content = normalize_whitespace_and_lines(content)
         content = restore_placeholder_blocks(content, verbatim_blocks)
+        content = restore_placeholder_blocks(content, raw_blocks)
         content = restore_placeholder_blocks(content, literal_blocks)
 
         return content, out_tokens
@@ -348,10 +347,14 @@ class LatexPreprocessor:
         guard = ExpansionGuard(content)
         # included files: path, length of the text after it, guard of that text
         inputs = []
+        # length of the text after the raw environment that this is in
+        after_raw_env = None
 
         while current_pos < len(content):
             while inputs and len(content) - current_pos <= inputs[-1][1]:
                 guard = inputs.pop()[2]
+            if after_raw_env is not None and len(content) - current_pos <= after_raw_env:
+                after_raw_env = None
 
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
             # without it, we would have to parse the entire content string character by character. which would be slower.)
@@ -368,9 +371,22 @@ class LatexPreprocessor:
                     break
                 continue
 
+            # only commands are expanded in e.g. a tikzpicture
+            is_raw = after_raw_env is not None
+            if not is_raw:
+                match = RAW_ENV_PATTERN.match(content, current_pos)
+                if match:
+                    _, end_pos, _ = find_matching_env_block(
+                        content[current_pos:], match.group(1)
+                    )
+                    if end_pos > 0:
+                        after_raw_env = len(content) - current_pos - end_pos
+                        current_pos = match.end()
+                        continue
+
             # Process addto by simply treating the content inside as {...}
             match = ADD_TO_PATTERN.match(content[current_pos:])
-            if match:
+            if match and not is_raw:
                 content = self._splice(content, current_pos, match.end() - 1, "")
                 continue
 
@@ -394,6 +410,11 @@ class LatexPreprocessor:
             token, end_pos = self.command_manager.process_definition(
                 content[current_pos:], register=False
             )
+            if token and is_raw:
+                # belongs to the source, and what it defines is for the rest of it
+                self.command_manager.forget_command(token.get("name", ""))
+                current_pos += max(end_pos, 1)
+                continue
             if token:
                 if token.get("type", "").startswith("keyval"):
                     self._make_changeable(token.get("codeblock"), changeable_names)
@@ -485,7 +506,7 @@ class LatexPreprocessor:
                 continue
 
             # check for formatting (put formatting ahead so that we can ignore lots of unnecessary things)
-            if self.formatting_handler.can_handle(content[current_pos:]):
+            if not is_raw and self.formatting_handler.can_handle(content[current_pos:]):
                 token, end_pos = self.formatting_handler.handle(content[current_pos:])
                 if end_pos > 0:
                     if token and token.get("type") == "equation":
@@ -515,7 +536,9 @@ class LatexPreprocessor:
                     continue
 
             # check for if else blocks
-            if self.if_else_block_handler.can_handle(content[current_pos:]):
+            if not is_raw and self.if_else_block_handler.can_handle(
+                content[current_pos:]
+            ):
                 token, end_pos = self.if_else_block_handler.handle(
                     content[current_pos:]
                 )
@@ -531,13 +554,37 @@ class LatexPreprocessor:
             current_pos += 2 if content.startswith("\\\\", current_pos) else 1
 
         # with no primes of the math among the quotes
+        content, raw_blocks = self._extract_raw_blocks(content)
         content = convert_quotes(content)
+        content = restore_placeholder_blocks(content, raw_blocks)
 
         # restore math blocks
         content = restore_placeholder_blocks(content, math_blocks)
 
         return content, tokens
 
+    def _extract_raw_blocks(self, content: str) -> tuple[str, dict]:
+        """
+        Replaces the outermost raw environments with placeholders.
+        Returns the modified content and a dictionary mapping placeholders to them.
+        """
+        blocks = {}
+        output = []
+        pos = 0
+        match = RAW_ENV_PATTERN.search(content)
+        while match:
+            _, end_pos, _ = find_matching_env_block(
+                content[match.start() :], match.group(1)
+            )
+            end_pos = match.start() + end_pos if end_pos > 0 else match.end()
+            placeholder = f"__RAW_BLOCK__{len(blocks)}__"
+            blocks[placeholder] = content[match.start() : end_pos]
+            output.append(content[pos : match.start()] + placeholder)
+            pos = end_pos
+            match = RAW_ENV_PATTERN.search(content, pos)
+        output.append(content[pos:])
+        return "".join(output), blocks
+
     def _extract_verbatim_blocks(
         self,
         content: str,
-- 
2.43.0


From 49a170790747770071cd507886274a2b224680b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:35 +0000
Subject: [PATCH 132/156] fix: labels in a subfloat go to its caption, and
 sub-captions of every package are captions

---
 latex2json/parser/handlers/text_formatting.py | 78 +++++++++++++------
 latex2json/parser/tex_parser.py               | 10 ++-
 2 files changed, 63 insertions(+), 25 deletions(-)

diff --git a/latex2json/parser/handlers/text_formatting.py b/latex2json/parser/handlers/text_formatting.py
index e5849a3..cab0290 100644
--- a/latex2json/parser/handlers/text_formatting.py
+++ b/latex2json/parser/handlers/text_formatting.py
@@ -67,10 +67,15 @@ PATTERNS = {
     "texorpdfstring": re.compile(r"\\texorpdfstring\s*\{", re.DOTALL),
     "color": re.compile(r"\\textcolor\s*(\[\w+\])?\s*{"),
     "columns": re.compile(r"\\(?:onecolumn(?![a-zA-Z@])|twocolumn(?![a-zA-Z@])\s*\[?)"),
-    "subfloat": re.compile(r"\\subfloat\s*\["),
+    # \subfloat[caption]{content}, \subcaptionbox{caption}{content}
+    "subfloat": re.compile(
+        r"\\(?:(?P<box>subcaptionbox)\*?|subfloat|subfigure|subtable)\s*(?=[\[{])"
+    ),
     "roman_numerals": re.compile(r"\\romannumeral\s+(\d+)"),
 }
 
+SUBCAPTION_OPTIONS_PATTERN = re.compile(r"\s*(?:\[[^\[\]{}]*\]\s*){0,2}")
+
 
 # Method 2: Using str.lstrip() with len comparison
 def find_first_nonspace(s):
@@ -94,10 +99,22 @@ def normalize_text_token(token: str | Dict | List) -> Dict:
 
 
 class TextFormattingHandler(TokenHandler):
+    def __init__(
+        self,
+        process_content_fn: Optional[Callable] = None,
+        process_env_content_fn: Optional[Callable] = None,
+    ):
+        super().__init__(process_content_fn)
+        # for content whose labels belong to the given token
+        self.process_env_content_fn = process_env_content_fn
+
     def can_handle(self, content: str) -> bool:
         return any(pattern.match(content) for pattern in PATTERNS.values())
 
-    def _process_content(self, content: str):
+    def _process_content(self, content: str, env: Optional[Dict] = None):
+        if env is not None and self.process_env_content_fn:
+            out = self.process_env_content_fn(content, env)
+            return normalize_text_token(out)
         if self.process_content_fn:
             out = self.process_content_fn(content)
             return normalize_text_token(out)
@@ -263,28 +280,41 @@ class TextFormattingHandler(TokenHandler):
         return None, total_pos
 
     def _handle_subfloat(self, content: str, match: re.Match) -> Tuple[str, int]:
-        start_pos = match.end() - 1
-        caption, end_pos = extract_nested_content(content[start_pos:], "[", "]")
-        if caption is None:
-            # unbalanced bracket
-            return None, match.end()
-        caption = caption.strip()
-
-        total_pos = start_pos + end_pos
-        block, end_pos = extract_nested_content(content[total_pos:])
-        if block:
-            total_pos += end_pos
-
-        caption = self._process_content(caption)
-        if not isinstance(caption, list):
-            caption = [caption]
-        caption_token = {
-            "type": "caption",
-            "content": caption,
-        }
-        out_tokens = [caption_token]
+        pos = match.end()
+        caption = None
+
+        # optional arguments: the caption, after a short one for the list of figures
+        while content[pos : pos + 1] == "[":
+            caption, end_pos = extract_nested_content(content[pos:], "[", "]")
+            if caption is None:
+                # unbalanced bracket
+                return None, pos + 1
+            pos += end_pos
+            pos += find_first_nonspace(content[pos:])
+
+        if match.group("box"):
+            caption, end_pos = extract_nested_content(content[pos:])
+            pos += end_pos
+            # width and position
+            options = SUBCAPTION_OPTIONS_PATTERN.match(content, pos)
+            pos = options.end()
+
+        block, end_pos = extract_nested_content(content[pos:])
+        if block is not None:
+            pos += end_pos
+
+        # labels in it are those of its caption
+        out_tokens = []
+        caption_token = None
+        if caption is not None:
+            caption_token = {"type": "caption", "content": []}
+            caption = self._process_content(caption.strip(), caption_token)
+            if not isinstance(caption, list):
+                caption = [caption]
+            caption_token["content"] = caption
+            out_tokens.append(caption_token)
         if block:
-            block = self._process_content(block)
+            block = self._process_content(block, caption_token)
             if not isinstance(block, list):
                 block = [block]
             out_tokens.extend(block)
@@ -292,7 +322,7 @@ class TextFormattingHandler(TokenHandler):
         return {
             "type": "group",
             "content": out_tokens,
-        }, total_pos
+        }, pos
 
     def _handle_roman_numerals(self, content: str, match: re.Match) -> Tuple[str, int]:
         numeral = int(match.group(1))
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index dc9804f..9575faf 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -109,7 +109,7 @@ class LatexParser:
             self.env_handler,
             ForLoopHandler(),
             # add formatting stuffs last
-            TextFormattingHandler(self.parse),
+            TextFormattingHandler(self.parse, self._parse_within),
             FormattingHandler(),
             DiacriticsHandler(),
             # self.legacy_formatting_handler,
@@ -176,6 +176,14 @@ class LatexParser:
             else:
                 self.add_token({"type": "label", "content": content}, tokens)
 
+    def _parse_within(self, content: str, env: Dict) -> List[Dict]:
+        """Parse content whose labels belong to this token"""
+        prev_env = self.current_env
+        self.current_env = env
+        tokens = self.parse(content)
+        self.current_env = prev_env
+        return tokens
+
     def add_token(
         self,
         token: str | Dict | List[Dict],
-- 
2.43.0


From 9c0c9e734574142c32539501214e8a60ad984798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:20 +0000
Subject: [PATCH 133/156] fix: rotated and wrapped tables are tables, and the
 arguments of sub-tables and wrapped figures are no text

---
 latex2json/parser/handlers/environment.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index fe29287..9da9a12 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -88,6 +88,9 @@ ENV_TYPES = {
     "subfigure": "subfigure",
     "subfloat": "subfigure",  # another common figure subdivision
     "wrapfigure": "figure",
+    "sidewaysfigure": "figure",
+    "wraptable": "table",
+    "sidewaystable": "table",
     "algorithm": "algorithm",
     "algorithmic": "algorithmic",
     "quote": "quote",
@@ -109,8 +112,12 @@ ENV_ARGS = {
     # "tabular": {"mandatory": 1},          # Expects 1 mandatory argument for column spec
     "table": {"optional": 1},  # Expects 1 optional argument for placement
     "figure": {"optional": 1},  # Expects 1 optional argument for placement
-    "subfigure": {"optional": 1, "mandatory": 1},
-    "wrapfigure": {"optional": 1, "mandatory": 2},
+    # like a minipage
+    "subfigure": {"optional": 3, "mandatory": 1},
+    "subtable": {"optional": 3, "mandatory": 1},
+    # number of lines, position and overhang, then width
+    "wrapfigure": {"optional": 1, "mandatory": 2, "between": 1},
+    "wraptable": {"optional": 1, "mandatory": 2, "between": 1},
     "adjustbox": {"mandatory": 1},  # Expects 1 mandatory argument for width
     # ... other environments with known argument patterns
     "CJK": {"mandatory": 2},
@@ -267,10 +274,17 @@ class BaseEnvironmentHandler(TokenHandler):
                     opt_args -= 1
 
             req_args = d.get("mandatory", 0)
-            args, end_pos = extract_args(inner_content, req_args, opt_args)
+            between = d.get("between", 0)  # optional ones after the first
+            args, end_pos = extract_args(
+                inner_content, 1 if between else req_args, opt_args
+            )
+            inner_content = inner_content[end_pos:]
+            if between and args["req"]:
+                more_args, end_pos = extract_args(inner_content, req_args - 1, between)
+                args["req"].extend(more_args["req"])
+                inner_content = inner_content[end_pos:]
             if args["req"]:
                 token["args"] = args["req"]
-            inner_content = inner_content[end_pos:]
 
         token["content"] = inner_content
 
-- 
2.43.0


From 38aba4f5f51fcb9e3f24925c05e253774cdad4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:47 +0000
Subject: [PATCH 134/156] fix: branches of @ifundefined, @ifpackageloaded and
 @ifclassloaded are kept when preprocessing

---
 latex2json/parser/tex_preprocessor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 4275417..a70ae97 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -545,8 +545,7 @@ class LatexPreprocessor:
                 if end_pos > 0:
                     block = ""
                     if token:
-                        if "@" not in token.get("type", ""):
-                            block = token.get("if_content", "")
+                        block = token.get("if_content", "")
                     content = self._splice(content, current_pos, end_pos, block)
                     continue
 
-- 
2.43.0


From 405a92b6e690c365d070040980d23d4a8ed0e9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:50 +0000
Subject: [PATCH 135/156] fix: colors take effect in the order of the document,
 also those provided, named again or defined with a type

---
 latex2json/parser/handlers/formatting.py     |  5 +--
 latex2json/parser/handlers/new_definition.py | 37 +++++++++++++++++---
 latex2json/parser/tex_parser.py              | 10 +++---
 latex2json/parser/tex_preprocessor.py        |  4 +++
 4 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 890be5e..ce6e604 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -19,10 +19,11 @@ import decimal
 COLOR_CELLS_PATTERN = re.compile(
     r"""
     \\(?:
-        (?:row|column|cell)color\*?\s*%s\s*{[^}]*}   # \rowcolor, \columncolor, \cellcolor
+        (?:row|column|cell|arrayrule)color\*?\s*%s\s*{[^}]*}   # \rowcolor, \columncolor, \cellcolor
+        |rowcolors\*?\s*%s\s*{[^}]*}\s*{[^}]*}\s*{[^}]*}
     )
     """
-    % OPTIONAL_BRACE_PATTERN,
+    % (OPTIONAL_BRACE_PATTERN, OPTIONAL_BRACE_PATTERN),
     re.VERBOSE,
 )
 
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index a63ba27..983743d 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -3,6 +3,7 @@ from typing import Callable, Dict, List, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.patterns import (
     BRACE_CONTENT_PATTERN,
+    OPTIONAL_BRACE_PATTERN,
     command_pattern,
     command_with_opt_brace_pattern,
 )
@@ -124,7 +125,10 @@ PATTERNS = {
     "expandafter": EXPAND_PATTERN,
     "endcsname": END_CSNAME_PATTERN,  # for trailing \endcsname?
     # color/font
-    "definecolor": re.compile(r"\\definecolor\s*{"),
+    "definecolor": re.compile(
+        r"\\(definecolor|providecolor|xdefinecolor)\s*%s\s*{" % OPTIONAL_BRACE_PATTERN
+    ),
+    "colorlet": re.compile(r"\\colorlet\s*{"),
     "font": re.compile(
         r"\\font\s*\\([^\s=]+)\s*=\s*([^\s]+)(?:\s+at\s+(\d+(?:\.\d+)?)(pt|cm|mm|in|ex|em|bp|dd|pc|sp))?"
     ),
@@ -214,6 +218,8 @@ class NewDefinitionHandler(TokenHandler):
                     return self._handle_namedef(content, match)
                 elif pattern_name == "definecolor":
                     return self._handle_definecolor(content, match)
+                elif pattern_name == "colorlet":
+                    return self._handle_colorlet(content, match)
                 elif pattern_name == "font":
                     return self._handle_font(match)
                 elif pattern_name == "newtoks":
@@ -706,9 +712,7 @@ class NewDefinitionHandler(TokenHandler):
         )
         if len(blocks) != 3:
             return None, start_pos
-        name = blocks[0]
-        format = blocks[1]
-        value = blocks[2]
+        name, format, value = (" ".join(block.split()) for block in blocks)
 
         token = {
             "type": "definecolor",
@@ -716,9 +720,34 @@ class NewDefinitionHandler(TokenHandler):
             "format": format,
             "value": value,
         }
+        if match.group(1) == "providecolor":
+            token["provide"] = True  # only if there is none yet
 
         return token, start_pos + end_pos
 
+    def _handle_colorlet(self, content: str, match) -> Tuple[Optional[Dict], int]:
+        r"""Handle \colorlet{name}[model]{color}, where the color is one or a mix of others"""
+        pos = match.end() - 1
+        name, end_pos = extract_nested_content(content[pos:])
+        if name is None:
+            return None, 0
+        pos += end_pos
+        model = re.compile(r"\s*%s\s*(?={)" % OPTIONAL_BRACE_PATTERN).match(content, pos)
+        color = None
+        if model:
+            pos = model.end()
+            color, end_pos = extract_nested_content(content[pos:])
+        if color is None:
+            return None, 0
+
+        token = {
+            "type": "definecolor",
+            "name": " ".join(name.split()),
+            "format": "named",
+            "value": " ".join(color.split()),
+        }
+        return token, pos + end_pos
+
     def _handle_newfam(self, match) -> Tuple[Optional[Dict], int]:
         r"""Handle \newfam definitions"""
         var_name = match.group(1).strip()
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 9575faf..2f2eb88 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -305,10 +305,12 @@ class LatexParser:
             typing = token["type"]
 
             if typing == "definecolor":
-                self.colors[cmd_name] = {
-                    "format": token["format"],
-                    "value": token["value"],
-                }
+                color = {"format": token["format"], "value": token["value"]}
+                if color["format"] == "named":
+                    # another name of a color
+                    color = dict(self.colors.get(color["value"], color))
+                if not (token.get("provide") and cmd_name in self.colors):
+                    self.colors[cmd_name] = color
                 return
 
             # handle envs first
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index a70ae97..eceb8a9 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -420,6 +420,10 @@ class LatexPreprocessor:
                     self._make_changeable(token.get("codeblock"), changeable_names)
                     current_pos += end_pos
                     continue
+                # colors stay in place, in order with those that commands define
+                if token.get("type") == "definecolor" and end_pos > 0:
+                    current_pos += end_pos
+                    continue
                 # Skip macro definitions that have parameters (#1, #2) or take arguments,
                 # as these need to be expanded later when actual values are provided
                 if token.get("num_args", 0) > 0 or check_string_has_hash_number(
-- 
2.43.0


From 877a8a7b197c095d6720eba5f1fe6010e7b5f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:18 +0000
Subject: [PATCH 136/156] fix: branches of @ifundefined, @ifpackageloaded and
 @ifclassloaded are kept in packages

---
 latex2json/parser/sty_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index 9a8e533..043c118 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -139,7 +139,7 @@ class LatexStyParser:
                                 )
                             if os.path.exists(file_path):
                                 block = token.get("if_content", "")
-                    elif "@" not in typing:
+                    else:
                         block = token.get("if_content", "")
                 return block, current_pos + end_pos
         return None, current_pos
-- 
2.43.0


From 3c41daf693a017c63f23c685479ab39cff123dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:16 +0000
Subject: [PATCH 137/156] fix: preambles keep environments, flags, conditions
 and definitions before the class, and end where the document begins

---
 latex2json/parser/tex_preamble.py | 86 ++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 25 deletions(-)

diff --git a/latex2json/parser/tex_preamble.py b/latex2json/parser/tex_preamble.py
index 930d73a..34e7f83 100644
--- a/latex2json/parser/tex_preamble.py
+++ b/latex2json/parser/tex_preamble.py
@@ -13,10 +13,18 @@ from latex2json.utils.tex_utils import read_tex_file_content, strip_latex_commen
 
 sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
 
-from latex2json.parser.handlers import NewDefinitionHandler
+from latex2json.parser.handlers import (
+    EnvironmentHandler,
+    IfElseBlockHandler,
+    NewDefinitionHandler,
+)
+from latex2json.parser.packages.etoolbox import EtoolboxHandler
+from latex2json.parser.tex_preprocessor import FILECONTENTS_PATTERN
 
 
 BEGIN_DOCUMENT_PATTERN = re.compile(r"\\begin\s*\{document\}", re.DOTALL)
+NEW_ENVIRONMENT_PATTERN = re.compile(r"\\(?:new|renew|provide)environment\*?\s*{")
+BOOLEAN_PATTERN = re.compile(r"\\(?:new|provide|set)bool\s*{|\\bool(?:true|false)\s*{")
 
 USE_PATTERN = re.compile(
     USEPACKAGE_PATTERN.pattern
@@ -36,18 +44,42 @@ class LatexPreamble:
         self.logger = logger or logging.getLogger(__name__)
 
         self.new_definition_handler = NewDefinitionHandler()
+        self.environment_handler = EnvironmentHandler(logger=self.logger)
+        self.if_else_block_handler = IfElseBlockHandler(logger=self.logger)
+        self.bool_handler = EtoolboxHandler()
+        self.flags = []  # names of the conditionals that \newif declares
 
     def clear(self):
         self.new_definition_handler.clear()
+        self.environment_handler.clear()
+        self.if_else_block_handler.clear()
+        self.bool_handler.clear()
+        self.flags = []
 
     def _preprocess_content(self, content: str) -> str:
         content = strip_latex_comments(content)
-
-        # get all content before begin document
-        begin_doc_search = re.search(BEGIN_DOCUMENT_PATTERN, content)
-        if begin_doc_search:
-            content = content[: begin_doc_search.start()]
-        return content.strip()
+        return FILECONTENTS_PATTERN.sub("", content).strip()
+
+    def _get_definition_end(self, content: str) -> int:
+        """Length of the definition that the content begins with, or 0"""
+        if self.new_definition_handler.can_handle(content):
+            token, end_pos = self.new_definition_handler.handle(content)
+            if token and token.get("type") == "newif":
+                self.if_else_block_handler.process_newif(token["name"])
+                # \xxtrue and \xxfalse from here on
+                self.flags.append(re.escape(token["name"]))
+            return end_pos
+        if NEW_ENVIRONMENT_PATTERN.match(content):
+            return self.environment_handler.handle(content)[1]
+        if BOOLEAN_PATTERN.match(content):
+            return self.bool_handler.handle(content)[1]
+        if self.flags:
+            match = re.match(
+                r"\\(?:%s)(?:true|false)(?![a-zA-Z@])" % "|".join(self.flags), content
+            )
+            if match:
+                return match.end()
+        return 0
 
     def get_preamble(
         self, content: str, file_dir: str = None
@@ -60,16 +92,11 @@ class LatexPreamble:
 
         content = self._preprocess_content(content)
 
+        self.clear()
         current_pos = 0
 
         output_preamble = ""
 
-        # find from documentclass onwards
-        doc_class_match = DOCUMENTCLASS_PATTERN.search(content)
-        if doc_class_match:
-            # output_preamble += doc_class_match.group(0) + "\n\n"
-            current_pos = doc_class_match.end()
-
         while current_pos < len(content):
             # find the next delimiter (this block allows us to quickly identify and process chunks of text between special LaTeX delimiters
             # without it, we would have to parse the entire content string character by character. which would be slower.)
@@ -86,6 +113,14 @@ class LatexPreamble:
                     break
                 continue
 
+            if BEGIN_DOCUMENT_PATTERN.match(content, current_pos):
+                break
+
+            doc_class_match = DOCUMENTCLASS_PATTERN.match(content, current_pos)
+            if doc_class_match:
+                current_pos = doc_class_match.end()
+                continue
+
             use_pattern_match = USE_PATTERN.match(content[current_pos:])
             if use_pattern_match:
                 end_pos = use_pattern_match.end()
@@ -98,7 +133,9 @@ class LatexPreamble:
             if makeatletter_match:
                 # Find the matching makeatother
                 makeatother_match = MAKEATOTHER_PATTERN.search(content[current_pos:])
-                if makeatother_match:
+                if makeatother_match and not BEGIN_DOCUMENT_PATTERN.search(
+                    content, current_pos, current_pos + makeatother_match.start()
+                ):
                     end_pos = makeatother_match.end()
                     output_preamble += (
                         content[current_pos : current_pos + end_pos] + "\n"
@@ -106,17 +143,16 @@ class LatexPreamble:
                     current_pos += end_pos
                     continue
 
-            # Expand commands using command_manager instead of command_processor
-            if self.new_definition_handler.can_handle(content[current_pos:]):
-                token, end_pos = self.new_definition_handler.handle(
-                    content[current_pos:]
-                )
-                if end_pos > 0:
-                    output_preamble += (
-                        content[current_pos : current_pos + end_pos] + "\n"
-                    )
-                    current_pos += end_pos
-                    continue
+            end_pos = self._get_definition_end(content[current_pos:])
+            if end_pos == 0 and self.if_else_block_handler.can_handle(
+                content[current_pos:]
+            ):
+                # what a condition selects is decided where the preamble is used
+                _, end_pos = self.if_else_block_handler.handle(content[current_pos:])
+            if end_pos > 0:
+                output_preamble += content[current_pos : current_pos + end_pos] + "\n"
+                current_pos += end_pos
+                continue
 
             current_pos += 1
 
-- 
2.43.0


From 3a226dadd9a94ab4ff2246ec9bb05842b75cd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:38 +0000
Subject: [PATCH 138/156] fix: spans with all their arguments, \makecell* and
 \tabularnewline are read in tables

---
 latex2json/parser/handlers/tabular.py | 54 +++++++++++++++++++--------
 1 file changed, 39 insertions(+), 15 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 4b4f214..0839953 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -7,6 +7,7 @@ from latex2json.utils.tex_utils import (
     extract_nested_content_pattern,
     extract_nested_content_sequence_blocks,
     find_matching_env_block,
+    mask_verbatim,
 )
 
 
@@ -19,14 +20,28 @@ TABULAR_PATTERN = re.compile(
     re.DOTALL,
 )
 
-MULTICOLUMN_PATTERN = re.compile(r"\\multicolumn\s*{(\d+)}\s*{", re.DOTALL)
-MULTIROW_PATTERN = re.compile(r"\\multirow\s*{(\d+)}\s*{", re.DOTALL)
+# up to the brace of the text
+MULTICOLUMN_PATTERN = re.compile(
+    r"\\multicolumn\s*(?:{\s*(\d+)\s*}|(\d))\s*%s\s*{"
+    % r"(?:{(?:[^{}]|{(?:[^{}]|{[^{}]*})*})*}|[a-zA-Z])",
+    re.DOTALL,
+)
+# with position, number of rows (negative: upwards), struts, width and shift
+MULTIROW_PATTERN = re.compile(
+    r"\\multirow\s*%s(?:{\s*(-?\d+)\s*}|(\d))\s*%s(?:\*|{(?:[^{}]|{[^{}]*})*})\s*%s{"
+    % ((r"(?:\[[^\]]*\]\s*)?",) * 3),
+    re.DOTALL,
+)
 
 
 MAKECELL_SHORTSTACK_PATTERN = re.compile(
-    r"\\(?:makecell|shortstack)(?:\s*\[[^\]]*\])?\s*{", re.DOTALL
+    r"\\(?:makecell|shortstack)(?![a-zA-Z@])\*?(?:\s*\[[^\]]*\])?\s*{",
+    re.DOTALL,
 )
 
+# does the same as two backslashes
+ROW_END_PATTERN = re.compile(r"\\tabularnewline(?![a-zA-Z@])")
+
 
 def split_latex_content(
     content: str, delimiter: str, is_row_split: bool = False
@@ -159,20 +174,21 @@ def parse_tabular(latex_table: str, cell_parser_fn=None) -> List[List[Dict]]:
                 # Handle multicolumn first
                 mcol_match = MULTICOLUMN_PATTERN.search(content)
                 if mcol_match:
-                    colspan = int(mcol_match.group(1))
+                    colspan = int(mcol_match.group(1) or mcol_match.group(2))
                     start_pos = mcol_match.end() - 1
                     blocks, end_pos = extract_nested_content_sequence_blocks(
-                        content[start_pos:], max_blocks=2
+                        content[start_pos:], max_blocks=1
                     )
                     content = replace_span(content, mcol_match, blocks, end_pos)
 
                 # Then handle multirow within the content
                 mrow_match = MULTIROW_PATTERN.search(content)
                 if mrow_match:
-                    rowspan = int(mrow_match.group(1))
+                    # the rows above are not known to be spanned from below
+                    rowspan = max(int(mrow_match.group(1) or mrow_match.group(2)), 1)
                     start_pos = mrow_match.end() - 1
                     blocks, end_pos = extract_nested_content_sequence_blocks(
-                        content[start_pos:], max_blocks=2
+                        content[start_pos:], max_blocks=1
                     )
                     content = replace_span(content, mrow_match, blocks, end_pos)
 
@@ -231,14 +247,13 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
     ref_counter = 0
     current_content = content
 
-    # Define patterns and their block counts
-    patterns = {
-        MULTICOLUMN_PATTERN: 2,
-        MULTIROW_PATTERN: 2,
-        MAKECELL_SHORTSTACK_PATTERN: 1,
-    }
+    patterns = [
+        MULTICOLUMN_PATTERN,
+        MULTIROW_PATTERN,
+        MAKECELL_SHORTSTACK_PATTERN,
+    ]
 
-    for pattern, block_count in patterns.items():
+    for pattern in patterns:
         pos = 0
         while True:
             match = pattern.search(current_content[pos:])
@@ -253,7 +268,7 @@ def extract_table_structures(content: str) -> Tuple[str, Dict[str, Dict]]:
 
             start_pos = pos + match.end() - 1
             blocks, end_pos = extract_nested_content_sequence_blocks(
-                current_content[start_pos:], max_blocks=block_count
+                current_content[start_pos:], max_blocks=1
             )
 
             if not blocks:
@@ -378,6 +393,15 @@ class TabularHandler(BaseEnvironmentHandler):
             # Get the table content after the column spec
             inner_content = inner_content[end_pos:]
 
+            for match in reversed(
+                list(ROW_END_PATTERN.finditer(mask_verbatim(inner_content)))
+            ):
+                inner_content = (
+                    inner_content[: match.start()]
+                    + "\\\\"
+                    + inner_content[match.end() :]
+                )
+
             # First extract table structures
             inner_content, table_structures = extract_table_structures(inner_content)
 
-- 
2.43.0


From 0fdef3ab2abc98edaa6c22ff37aecf45633d09ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:38 +0000
Subject: [PATCH 139/156] fix: what \protect protects is kept

---
 latex2json/parser/handlers/equation.py | 7 ++++++-
 latex2json/parser/patterns.py          | 3 +++
 latex2json/parser/tex_parser.py        | 6 ++++++
 latex2json/parser/tex_preprocessor.py  | 8 ++++++++
 4 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index e14033e..c804854 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -9,7 +9,7 @@ from latex2json.utils.tex_utils import (
     check_delimiter_balance,
     extract_equation_content,
 )
-from latex2json.parser.patterns import LABEL_PATTERN
+from latex2json.parser.patterns import LABEL_PATTERN, PROTECT_PATTERN
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.environment import convert_any_env_pairs_to_begin_end
 from latex2json.parser.handlers.formatting import FormattingHandler
@@ -93,6 +93,11 @@ class EquationHandler(TokenHandler):
                 # line break: its second backslash begins no command
                 backslash_pos = equation.find("\\", backslash_pos + 2)
                 continue
+            match = PROTECT_PATTERN.match(equation, backslash_pos)
+            if match:
+                equation = equation[:backslash_pos] + equation[match.end() :]
+                backslash_pos = equation.find("\\", backslash_pos)
+                continue
             incr = 1
             x, end_pos = self.formatter.handle(
                 equation[backslash_pos:], exclude_patterns=["spacing"]
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 4ef4ce4..8334505 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -25,6 +25,9 @@ DELIM_PATTERN = re.compile(
     r"(?<!\\)(?:\\\\|\$|%|(?:^|[ \t])\{|\s{|{}|\\[\^~]|\\(?![$%&_#{}^~\\]))"
 )
 
+# what is protected is read as if it stood alone
+PROTECT_PATTERN = re.compile(r"\\protect(?![a-zA-Z@])(?:[ \t]+(?=\\))?")
+
 # the date of the version asked for, behind the name of a class or package
 RELEASE_DATE_PATTERN = r"(?:[ \t]*\n?[ \t]*\[[^\[\]{}\\\n]*\])?"
 
diff --git a/latex2json/parser/tex_parser.py b/latex2json/parser/tex_parser.py
index 2f2eb88..6d9d4b2 100644
--- a/latex2json/parser/tex_parser.py
+++ b/latex2json/parser/tex_parser.py
@@ -43,6 +43,7 @@ from latex2json.parser.tex_preprocessor import LatexPreprocessor
 from latex2json.parser.patterns import (
     PATTERNS,
     DELIM_PATTERN,
+    PROTECT_PATTERN,
 )
 from latex2json.parser.packages import get_all_custom_handlers
 
@@ -628,6 +629,11 @@ class LatexParser:
             if current_pos >= len(content):
                 break
 
+            match = PROTECT_PATTERN.match(content, current_pos)
+            if match:
+                content = content[:current_pos] + content[match.end() :]
+                continue
+
             # Add handling for bare braces at the start i.e. latex grouping {content here}
             if content[current_pos] == "{":
                 # Find matching closing brace
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index eceb8a9..3237e60 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -9,6 +9,7 @@ from latex2json.parser.patterns import (
     USEPACKAGE_PATTERN,
     WHITELISTED_COMMANDS,
     DELIM_PATTERN,
+    PROTECT_PATTERN,
     DOCUMENTCLASS_PATTERN,
     INPUT_PATTERN,
 )
@@ -373,6 +374,13 @@ class LatexPreprocessor:
 
             # only commands are expanded in e.g. a tikzpicture
             is_raw = after_raw_env is not None
+
+            match = PROTECT_PATTERN.match(content, current_pos)
+            if match and not is_raw:
+                content = self._splice(
+                    content, current_pos, match.end() - current_pos, ""
+                )
+                continue
             if not is_raw:
                 match = RAW_ENV_PATTERN.match(content, current_pos)
                 if match:
-- 
2.43.0


From 59902870bd741ac9f67666bf7ea635572ce68c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:38 +0000
Subject: [PATCH 140/156] fix: layout commands leave none of their arguments
 and hyphenation points nothing behind

---
 latex2json/parser/handlers/formatting.py     | 94 +++++++++++++++-----
 latex2json/parser/handlers/new_definition.py | 13 ++-
 latex2json/parser/packages/titlesec.py       |  6 +-
 latex2json/parser/patterns.py                |  2 +
 4 files changed, 88 insertions(+), 27 deletions(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index ce6e604..858b847 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -7,6 +7,7 @@ from latex2json.parser.patterns import (
     NUMBER_PATTERN,
     OPTIONAL_BRACE_PATTERN,
     BRACE_CONTENT_PATTERN,
+    NESTED_BRACES_PATTERN,
     number_points_suffix,
     command_with_opt_brace_pattern,
 )
@@ -19,7 +20,7 @@ import decimal
 COLOR_CELLS_PATTERN = re.compile(
     r"""
     \\(?:
-        (?:row|column|cell|arrayrule)color\*?\s*%s\s*{[^}]*}   # \rowcolor, \columncolor, \cellcolor
+        (?:row|column|cell|arrayrule)color\*?\s*%s\s*{[^}]*}(?:\[[^\]]*\]){0,2}   # \rowcolor, \columncolor, \cellcolor
         |rowcolors\*?\s*%s\s*{[^}]*}\s*{[^}]*}\s*{[^}]*}
     )
     """
@@ -29,6 +30,22 @@ COLOR_CELLS_PATTERN = re.compile(
 
 number_regex = NUMBER_PATTERN
 
+# a length that may stretch e.g. 2pt, .5\baselineskip, 1em plus 2pt minus 1fil
+LENGTH_NAMES = (
+    r"(?:baselineskip|parskip|parindent|(?:text|line|column)width|textheight|[hv]size"
+    r"|unitlength|tabcolsep|topsep|itemsep|[pz]@)"
+)
+DIMEN_PATTERN = (
+    r"[-+]?\s*(?:(?:\d+[.,]?\d*|[.,]\d+)\s*"
+    r"(?:(?:true\s*)?(?:pt|mm|cm|in|em|ex|sp|bp|dd|cc|nd|nc|pc|mu|fil{1,3})(?:(?![a-zA-Z])|(?=plus|minus))"
+    r"|\\%s(?![a-zA-Z@]))|\\%s(?![a-zA-Z@]))" % (LENGTH_NAMES, LENGTH_NAMES)
+)
+STRETCH_PATTERN = r"(?:\s*plus\s*%s)?(?:\s*minus\s*%s)?" % (
+    DIMEN_PATTERN,
+    DIMEN_PATTERN,
+)
+GLUE_PATTERN = DIMEN_PATTERN + STRETCH_PATTERN
+
 declare_pattern_N_blocks = {
     "DeclareFontFamily": 3,
     "DeclareFontShape": 6,
@@ -49,11 +66,36 @@ RAW_PATTERNS = OrderedDict(
         (
             "class_setup",
             re.compile(
-                r"\\(?:NeedsTeXFormat\s*\{([^}]+)\}|(?:ProvidesClass|ProvidesPackage)\s*%s\s*\[)"
+                r"\\(?:NeedsTeXFormat\s*\{([^}]+)\}(?:\s*\[[^\]]*\])?|(?:ProvidesClass|ProvidesPackage)\s*%s\s*\[)"
                 % BRACE_CONTENT_PATTERN,
                 re.DOTALL,
             ),
         ),
+        # lengths and numbers of the layout that are set without braces
+        (
+            "length_assignment",
+            r"\\(?:(?:top|left|right)margin|(?:odd|even)sidemargin|text(?:width|height)|skip(?:\s*\\footins)?"
+            r"|(?:foot|bls|baseline|par|line|left|right|parfill|top|splittop|tab)skip|lineskiplimit|head(?:height|sep)"
+            r"|footnotesep|marginpar(?:sep|width|push)|(?:par|item|hang)indent|[hv](?:fuzz|offset|size)"
+            r"|(?:above|below)display(?:short)?skip|(?:above|below)captionskip|(?:text|dbltext)?floatsep|dblfloatsep|intextsep"
+            r"|(?:array|tab)colsep|arrayrulewidth|fbox(?:sep|rule)|columnsep(?:rule)?|columnseprule|unitlength"
+            r"|emergencystretch|overfullrule|mathsurround|(?:thin|med|thick)muskip|delimitershortfall"
+            r"|nulldelimiterspace|maxdepth|boxmaxdepth|(?:item|part?op|par|label)sep|labelwidth|linewidth|columnwidth|paper(?:width|height)"
+            r"|bibsep|bibindent|jot)(?![a-zA-Z@])\s*=?\s*" + GLUE_PATTERN,
+        ),
+        (
+            "number_assignment",
+            r"\\(?:(?:|club|widow|displaywidow|broken|hyphen|exhyphen|interfootnoteline|interdisplayline|binop|rel"
+            r"|line|predisplay|postdisplay)penalty|(?:pre)?tolerance|[hv]badness|looseness|hangafter|magnification|mag"
+            r"|maxdeadcycles|(?:left|right)hyphenmin|uchyph|language|errorcontextlines|(?:double|final)hyphendemerits"
+            r"|adjdemerits|pdf(?:output|minorversion|compresslevel|suppresswarningpagegroup))(?![a-zA-Z@])\s*=?\s*[-+]?\s*"
+            r"(?:\d+|\\@[mM](?![a-zA-Z@]))",
+        ),
+        (
+            "character_code",
+            r"\\(?:cat|lc|uc|sf|math|del)code\s*(?:`\\?[^\s\\]|\d+)\s*=?\s*"
+            r"(?:\d+|\"[0-9A-F]+|`\\?[^\s\\]|\\active(?![a-zA-Z@]))",
+        ),
         # pdf options
         ("pdf", r"\\(?:pdfoutput|pdfsuppresswarningpagegroup)\s*=\s*\d+"),
         ("pdfinfo", r"\\pdfinfo\s*{"),
@@ -64,29 +106,35 @@ RAW_PATTERNS = OrderedDict(
         # date
         ("date", r"\\date\s*\{"),
         ("today", r"\\today(?![a-zA-Z@])"),
-        ("subjclass", r"\\subjclass\s*%s\s*\{[^}]+\}" % OPTIONAL_BRACE_PATTERN),
+        ("subjclass", r"\\subjclass\s*%s\s*%s" % (OPTIONAL_BRACE_PATTERN, NESTED_BRACES_PATTERN)),
         # Formatting commands
         ("setup", r"\\(?:hypersetup|captionsetup)%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "make_or_contents",
             r"\\(?:(?:[a-zA-Z@]+)?maketitle|makeatletter|makeatother|tableofcontents|@title)(?![a-zA-Z@])",
         ),
-        ("addcontentsline", r"\\addcontentsline\s*\{[^}]*\}\s*\{[^}]*\}\s*\{[^}]*\}"),
+        ("addcontentsline", r"\\addcontentsline" + (r"\s*" + NESTED_BRACES_PATTERN) * 3),
         ("addtocontents", r"\\(?:addtocontents|addtocounter)\s*\{[^}]*\s*\}\s*{"),
         ("titlecontents", r"\\titlecontents\s*{"),
         ("contents", r"\\(?:contentspage|startcontents)(?![a-zA-Z@])"),
         ("printcontents", r"\\printcontents\s*{"),
         (
             "page",
-            r"\\enlargethispage\s*\{[^}]*\}|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|allowdisplaybreaks|samepage|thepage|noindent|par|clearpage|cleardoublepage|nopagebreak|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)(?![a-zA-Z@])",
+            r"\\enlargethispage\*?\s*%s|" % NESTED_BRACES_PATTERN
+            + r"\\(?:nopagebreak|allowdisplaybreaks|displaybreak)(?![a-zA-Z@])(?:\[\d\])?|\\nolinebreak\[\d\]|\\pagecolor\*?{[^}]*}|\\(?:centering|raggedright|raggedleft|samepage|thepage|noindent|par|clearpage|cleardoublepage|hss|hfill|hfil|vfill|vfil|break|sloppy|flushbottom|flushleft|flushright|flushtop)(?![a-zA-Z@])",
         ),
         (
             "pagebreak",
-            r"\\(?:pagebreak|filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)(?![a-zA-Z@])|\\linebreak(?:\[\d+\])?",
+            r"\\pagebreak(?![a-zA-Z@])(?:\[\d\])?|\\(?:filbreak|newpage|allowbreak|goodbreak|smallbreak|medbreak|bigbreak|break)(?![a-zA-Z@])|\\linebreak(?:\[\d+\])?",
         ),
         (
             "vskip",
-            r"\\vskip\s*(?:" + number_regex + r"\w+\b|-?\\[@a-zA-Z]+|\b)",
+            r"\\vskip\s*(?:"
+            + GLUE_PATTERN
+            + r"|"
+            + number_regex
+            + r"\w+\b|-?\\[@a-zA-Z]+|\b)"
+            + STRETCH_PATTERN,
         ),
         (
             "penalty",
@@ -100,9 +148,11 @@ RAW_PATTERNS = OrderedDict(
         ),
         (
             "style",
-            r"\\(?:pagestyle|urlstyle|thispagestyle|theoremstyle|bibliographystyle|documentstyle|setcitestyle)\s*\{[^}]*\}",
+            r"\\(?:pagestyle|urlstyle|thispagestyle|theoremstyle|bibliographystyle|documentstyle|setcitestyle)\s*"
+            + NESTED_BRACES_PATTERN,
         ),
-        ("bib", r"\\printbibliography(?![a-zA-Z@])"),
+        ("bib", r"\\printbibliography(?![a-zA-Z@])(?:\[(?:[^\]{}]|%s)*\])?"
+            % NESTED_BRACES_PATTERN),
         ("bibmacro", r"\\renewbibmacro\*?\s*%s\s*{" % (BRACE_CONTENT_PATTERN)),
         ("newstyle", r"\\(?:newpagestyle|renewpagestyle)\s*\{[^}]*\}\s*{"),
         # ("font", r"\\(?:mdseries|bfseries|itshape|slshape|normalfont|ttfamily)\b"),
@@ -140,8 +190,8 @@ RAW_PATTERNS = OrderedDict(
             "spacing",
             r"\\(?:"
             r"quad|qquad|xspace|space|,|;|:|\!|"  # \quad, \qquad, \, \; \:
-            r"hspace\*?\s*{([^}]+)}|"  # \hspace{length}
-            r"hskip\s*%s" % (number_points_suffix)  # \hskip 10pt
+            r"hspace\*?\s*%s|" % NESTED_BRACES_PATTERN  # \hspace{length}
+            + r"hskip\s*(?:%s|%s)" % (GLUE_PATTERN, number_points_suffix)  # \hskip 10pt
             + r"|linespread\s*\{[^}]*\}"  # Added \linespread{...}
             r")",
         ),
@@ -150,7 +200,7 @@ RAW_PATTERNS = OrderedDict(
             r"\\mathtoolsset\s*%s" % (BRACE_CONTENT_PATTERN),
         ),
         # \kern, which is technically spacing but more like a length between characters. so ignore
-        ("kern", r"\\kern\s*%s" % (number_points_suffix)),
+        ("kern", r"\\m?kern\s*(?:%s|%s)" % (DIMEN_PATTERN, number_points_suffix)),
         # tcb
         ("tcb", r"\\(?:tcbset|tcbuselibrary)\s*{"),
         # options
@@ -208,13 +258,16 @@ RAW_PATTERNS = OrderedDict(
             r"labelsep(?![a-zA-Z@])\s*(?:\{[^\}]*\}|=?\s*%s)?|" % number_points_suffix
             + r"(?:midrule|toprule|bottomrule)%s|"
             % (OPTIONAL_BRACE_PATTERN)  # optional [trim]
-            + r"cmidrule\s*(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
-            r"hdashline(?:\[[\d,\s]*\])?|"  # optional [length,space]
+            + r"cmidrule\s*(?:\[[^\]]*\]\s*)?(?:\(([^)]+)\)\s*)?(?:\[([^\]]*)\]\s*)?{([^}]+)}|"  # optional (lr)[trim] and {n-m}
+            r"hdashline(?:\[[^\]]*\])?|"  # optional [length,space]
             r"cdashline\s*{([^}]+)}|"  # {n-m}
             r"specialrule\s*{([^}]*)}\s*{([^}]*)}\s*{([^}]*)}|"  # {height}{above}{below}
             r"addlinespace(?:\[([^\]]*)\])?|"  # optional [length]
-            r"rule\s*{[^}]*}\s*{[^}]*}|"  # \rule{width}{height}
-            r"hrule(?![a-zA-Z@])|"
+            # \rule[raise]{width}{height}
+            r"rule\s*(?:\[[^\]]*\]\s*)?%s\s*%s|"
+            % (NESTED_BRACES_PATTERN, NESTED_BRACES_PATTERN)
+            + r"[hv]rule(?![a-zA-Z@])(?:\s*(?:width|height|depth)\s*%s)*|" % DIMEN_PATTERN
+            + r"hhline\s*{[^}]*}|"
             r"morecmidrules(?![a-zA-Z@])|"  # no args
             r"fboxsep\s*{([^}]+)}|"  # {length}
             r"Xhline\s*{([^}]+)}|"  # {length}
@@ -233,7 +286,7 @@ RAW_PATTERNS = OrderedDict(
         ("protect", r"\\protect\\[a-zA-Z]+(?:\s*(?:\[[^\]]*\]|\{[^}]*\})*)?"),
         (
             "counters",
-            r"\\c@page(?![a-zA-Z@])|\\(?:counterwithin|counterwithout)\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
+            r"\\c@page(?![a-zA-Z@])|\\(?:counterwithin|counterwithout)\*?\s*\{[^}]*}\s*\{[^}]*\}|\\refstepcounter{[^}]+}|\\@addtoreset\s*\{[^}]*\}\s*\{[^}]*\}",
         ),
         ("add_enumerate_counter", r"\\AddEnumerateCounter\s*\{"),
         ("arraybackslash", r"\\arraybackslash(?![a-zA-Z@])"),
@@ -242,7 +295,7 @@ RAW_PATTERNS = OrderedDict(
         ("stackmath", r"\\stackMath(?![a-zA-Z@])"),
         ("hyphenation", r"\\hyphenation\s*{"),
         # Handle vspace separately
-        ("vspace", r"\\vspace\*?\s*{[^}]*}"),
+        ("vspace", r"\\vspace\*?\s*" + NESTED_BRACES_PATTERN),
         ("phantom", r"\\(?:hphantom|vphantom|phantom)\s*{"),
         (
             "raise",
@@ -258,7 +311,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         ("newmdenv", re.compile(r"\\newmdenv\s*(?:\[(.*?)\])?\s*\{(.*?)\}", re.DOTALL)),
         ("pz@", r"(?:%s)?\\[pz]@(?![a-zA-Z@])" % number_regex),
-        ("slash", r"\\/"),  # \/ (in latex, this is like an empty space)
+        ("slash", r"\\[/-]"),  # \/ (in latex, this is like an empty space), \- in a word
         ("@empty", r"\\@empty(?![a-zA-Z@])"),
         (
             "advance",
@@ -266,7 +319,7 @@ RAW_PATTERNS = OrderedDict(
         ),
         ("typeout", r"\\typeout\s*{"),
         # other...
-        ("physics", r"\\pacs\s*\{(.*?)\}"),
+        ("physics", r"\\pacs\s*" + NESTED_BRACES_PATTERN),
         ("Hy@", r"\\Hy@[a-zA-Z]+\s*{"),
         ("unvbox", r"\\unvbox\s*(?:%s|\\[a-zA-Z@]+\b)" % (number_regex)),
         ("string_or_chars", r"\\string(?![a-zA-Z@])|\\escapechar(?![a-zA-Z@])"),
@@ -466,6 +519,7 @@ class FormattingHandler(TokenHandler):
                     return self._handle_declare(content, match)
                 elif pattern_name == "class_setup":
                     if match.group(0).endswith("["):
+                        # the date and version of the package
                         start_pos = match.end() - 1
                         extracted_content, end_pos = extract_nested_content(
                             content[start_pos:], "[", "]"
diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index 983743d..da4fa44 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -3,6 +3,7 @@ from typing import Callable, Dict, List, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.patterns import (
     BRACE_CONTENT_PATTERN,
+    NESTED_BRACES_PATTERN,
     OPTIONAL_BRACE_PATTERN,
     command_pattern,
     command_with_opt_brace_pattern,
@@ -108,7 +109,9 @@ PATTERNS = {
         re.DOTALL,
     ),
     "newcounter": re.compile(
-        r"\\(?:(?:re)?newcounter|stepcounter)\s*" + BRACE_CONTENT_PATTERN, re.DOTALL
+        r"\\(?:re)?newcounter\s*%s(?:\s*\[[^\[\]{}\\]*\])?|\\stepcounter\s*%s"
+        % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
+        re.DOTALL,
     ),
     "newother": re.compile(
         r"\\(?:re)?new(?:count|dimen|skip|muskip)\s*\\(%s)" % CONTROL_WORD_NAME
@@ -118,7 +121,7 @@ PATTERNS = {
     ),
     "newfam": re.compile(r"\\newfam\s*\\(%s)" % CONTROL_WORD_NAME),
     "setcounter": re.compile(
-        r"\\setcounter\s*%s\s*%s" % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
+        r"\\setcounter\s*%s\s*%s" % (BRACE_CONTENT_PATTERN, NESTED_BRACES_PATTERN),
         re.DOTALL,
     ),
     "floatname": re.compile(r"\\floatname\s*(?={)"),
@@ -130,7 +133,9 @@ PATTERNS = {
     ),
     "colorlet": re.compile(r"\\colorlet\s*{"),
     "font": re.compile(
-        r"\\font\s*\\([^\s=]+)\s*=\s*([^\s]+)(?:\s+at\s+(\d+(?:\.\d+)?)(pt|cm|mm|in|ex|em|bp|dd|pc|sp))?"
+        r"\\font\s*\\([a-zA-Z@]+|[^\s=])\s*=?\s*([^\s\\{}]+)"
+        r"(?:\s+at\s*(\d+(?:\.\d+)?)\s*(pt|cm|mm|in|ex|em|bp|dd|pc|sp)"
+        r"|\s+scaled\s*(?:\d+|\\magstep(?:half(?![a-zA-Z@])|\s*\d)))?"
     ),
 }
 
@@ -348,7 +353,7 @@ class NewDefinitionHandler(TokenHandler):
 
     def _handle_newcounter(self, match) -> Tuple[Optional[Dict], int]:
         r"""Handle \newcounter definitions"""
-        var_name = match.group(1).strip()
+        var_name = (match.group(1) or match.group(2)).strip()
         token = {"type": "newcounter", "name": var_name}
         return token, match.end()
 
diff --git a/latex2json/parser/packages/titlesec.py b/latex2json/parser/packages/titlesec.py
index f4a426c..eef7ca2 100644
--- a/latex2json/parser/packages/titlesec.py
+++ b/latex2json/parser/packages/titlesec.py
@@ -23,7 +23,7 @@ r"""
 """
 
 PATTERNS = {
-    "titleformat": re.compile(r"\\titleformat\s*{", re.DOTALL),
+    "titleformat": re.compile(r"\\titleformat\*?\s*{", re.DOTALL),
     "titlespacing": re.compile(r"\\titlespacing\*?\s*{", re.DOTALL),
     "titlelabel": re.compile(r"\\titlelabel\s*{", re.DOTALL),
     "titlecontents": re.compile(r"\\titlecontents\s*{", re.DOTALL),
@@ -34,8 +34,8 @@ PATTERNS = {
 }
 
 DELIMITERS = {
-    "titleformat": "{[" + "{" * 4,
-    "titlespacing": "{" * 4,
+    "titleformat": "{[" + "{" * 4 + "[",
+    "titlespacing": "{" * 4 + "[",
     "titlelabel": "{",
     "titleclass": "{{[",
     "titlecontents": "{[" + "{" * 4,
diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 8334505..06d1d7c 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -3,6 +3,8 @@ from collections import OrderedDict
 
 
 BRACE_CONTENT_PATTERN = r"\{([^}]+)\}"
+# {..} with braces in it
+NESTED_BRACES_PATTERN = r"\{(?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*\}"
 OPTIONAL_BRACE_PATTERN = r"(?:\[[^\]]*\])?"
 
 NUMBER_PATTERN = r"[-+]?\d*\.?\d+"
-- 
2.43.0


From d38d3877b9c6e4fa8dcf7922e8a5e24114806035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:29 +0000
Subject: [PATCH 141/156] fix: lengths set to other lengths, package options
 and bookmarks with braces leave nothing behind

---
 latex2json/parser/handlers/content_command.py |  5 +++--
 latex2json/parser/handlers/formatting.py      | 12 +++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index a8d0337..8aab3ef 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -2,6 +2,7 @@ import re
 from collections import OrderedDict
 from typing import Callable, Dict, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
+from latex2json.parser.patterns import NESTED_BRACES_PATTERN
 from latex2json.utils.tex_utils import extract_nested_content
 
 SECTION_LEVELS = {
@@ -52,8 +53,8 @@ RAW_PATTERNS = OrderedDict(
         ("bookmark", r"\\bookmark\s*%s\s*{" % OPTIONAL_BRACE_PATTERN),
         (
             "pdfbookmark",
-            r"\\(?:below|current)?pdfbookmark\s*%s\s*{([^}]*)}\s*{"
-            % OPTIONAL_BRACE_PATTERN,
+            r"\\(?:below|current|sub)?pdfbookmark\s*%s\s*%s\s*{"
+            % (OPTIONAL_BRACE_PATTERN, NESTED_BRACES_PATTERN),
         ),
         # footnotes
         ("footnotemark", r"\\footnotemark(?![a-zA-Z@])%s" % OPTIONAL_BRACE_PATTERN),
diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 858b847..32e600e 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -35,10 +35,12 @@ LENGTH_NAMES = (
     r"(?:baselineskip|parskip|parindent|(?:text|line|column)width|textheight|[hv]size"
     r"|unitlength|tabcolsep|topsep|itemsep|[pz]@)"
 )
+BOX_SIZE_PATTERN = r"\\(?:wd|ht|dp)\s*(?:\d+|\\[a-zA-Z@]+)"
 DIMEN_PATTERN = (
     r"[-+]?\s*(?:(?:\d+[.,]?\d*|[.,]\d+)\s*"
     r"(?:(?:true\s*)?(?:pt|mm|cm|in|em|ex|sp|bp|dd|cc|nd|nc|pc|mu|fil{1,3})(?:(?![a-zA-Z])|(?=plus|minus))"
-    r"|\\%s(?![a-zA-Z@]))|\\%s(?![a-zA-Z@]))" % (LENGTH_NAMES, LENGTH_NAMES)
+    r"|%s|\\[a-zA-Z@]+)|%s|\\%s(?![a-zA-Z@]))"
+    % (BOX_SIZE_PATTERN, BOX_SIZE_PATTERN, LENGTH_NAMES)
 )
 STRETCH_PATTERN = r"(?:\s*plus\s*%s)?(?:\s*minus\s*%s)?" % (
     DIMEN_PATTERN,
@@ -81,7 +83,11 @@ RAW_PATTERNS = OrderedDict(
             r"|(?:array|tab)colsep|arrayrulewidth|fbox(?:sep|rule)|columnsep(?:rule)?|columnseprule|unitlength"
             r"|emergencystretch|overfullrule|mathsurround|(?:thin|med|thick)muskip|delimitershortfall"
             r"|nulldelimiterspace|maxdepth|boxmaxdepth|(?:item|part?op|par|label)sep|labelwidth|linewidth|columnwidth|paper(?:width|height)"
-            r"|bibsep|bibindent|jot)(?![a-zA-Z@])\s*=?\s*" + GLUE_PATTERN,
+            r"|bibsep|bibindent|jot)(?![a-zA-Z@])\s*(?:=?\s*"
+            + GLUE_PATTERN
+            + r"|=\s*-?\\[a-zA-Z@]+"
+            + STRETCH_PATTERN
+            + r")",
         ),
         (
             "number_assignment",
@@ -208,7 +214,7 @@ RAW_PATTERNS = OrderedDict(
             "options",
             re.compile(
                 r"\\(?:ProcessOptions(?![a-zA-Z@])|(PassOptionsToPackage|PassOptionsToClass)\s*%s\s*%s)|\\ExecuteBibliographyOptions\s*%s"
-                % (BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN, BRACE_CONTENT_PATTERN),
+                % ((NESTED_BRACES_PATTERN,) * 3),
                 re.DOTALL,
             ),
         ),
-- 
2.43.0


From 36dde535ca0f2ad16775413e9c23899edbce0259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:53 +0000
Subject: [PATCH 142/156] fix: the star of a line break that forbids a page
 break is not text

---
 latex2json/parser/patterns.py | 2 +-
 latex2json/utils/tex_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 06d1d7c..9b06821 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -62,7 +62,7 @@ RAW_PATTERNS = OrderedDict(
         # Line break with optional spacing specification
         (
             "break_spacing",
-            r"\\\\(?:\s*\[([^]]*)\])?",
+            r"\\\\\*?(?:\s*\[([^]]*)\])?",
         ),  # Added \s* to handle optional whitespace
         (
             "line_continuation",
diff --git a/latex2json/utils/tex_utils.py b/latex2json/utils/tex_utils.py
index 932544b..875f920 100644
--- a/latex2json/utils/tex_utils.py
+++ b/latex2json/utils/tex_utils.py
@@ -240,7 +240,7 @@ def find_matching_env_block(
 
 def strip_latex_newlines(latex_str: str) -> str:
     # Replace LaTeX line break commands with a space
-    latex_str = re.sub(r"\\\\|\\newline", " ", latex_str)
+    latex_str = re.sub(r"\\\\\*?|\\newline", " ", latex_str)
 
     # Remove any remaining newline characters
     latex_str = latex_str.replace("\n", " ")
-- 
2.43.0


From a801991a93c258d1da6fe5aa9c6cdc309aa7dcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:53 +0000
Subject: [PATCH 143/156] fix: escaped braces do not join the cells and rows of
 a table

---
 latex2json/parser/handlers/tabular.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index 0839953..e2c4915 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -65,9 +65,9 @@ def split_latex_content(
     i = 0
 
     while i < len(content):
-        # Check for escaped delimiter
+        # Check for escaped delimiter or brace
         is_escaped = False
-        if content[i : i + len(delimiter)] == delimiter:
+        if content[i] in "{}" or content[i : i + len(delimiter)] == delimiter:
             # Count backslashes before delimiter
             backslash_count = 0
             pos = i - 1
@@ -77,10 +77,10 @@ def split_latex_content(
             # If odd number of backslashes, the delimiter is escaped
             is_escaped = (backslash_count % 2) == 1
 
-        if content[i] == "{":
+        if content[i] == "{" and not is_escaped:
             nesting_level += 1
             current_part.append(content[i])
-        elif content[i] == "}":
+        elif content[i] == "}" and not is_escaped:
             nesting_level -= 1
             current_part.append(content[i])
         elif (
-- 
2.43.0


From fc57152d83fe5d861941e70973138af73dcc77fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:58 +0000
Subject: [PATCH 144/156] fix: escaped braces do not end the arguments of
 layout commands

---
 latex2json/parser/patterns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/patterns.py b/latex2json/parser/patterns.py
index 9b06821..93fb9cd 100644
--- a/latex2json/parser/patterns.py
+++ b/latex2json/parser/patterns.py
@@ -4,7 +4,7 @@ from collections import OrderedDict
 
 BRACE_CONTENT_PATTERN = r"\{([^}]+)\}"
 # {..} with braces in it
-NESTED_BRACES_PATTERN = r"\{(?:[^{}]|\{(?:[^{}]|\{[^{}]*\})*\})*\}"
+NESTED_BRACES_PATTERN = r"\{(?:(?:[^{}\\]|\\[\s\S])|\{(?:(?:[^{}\\]|\\[\s\S])|\{(?:[^{}\\]|\\[\s\S])*\})*\})*\}"
 OPTIONAL_BRACE_PATTERN = r"(?:\[[^\]]*\])?"
 
 NUMBER_PATTERN = r"[-+]?\d*\.?\d+"
-- 
2.43.0


From 6c39ed387abb0b4ab50d4bd2f6d60e9d9210e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:18 +0000
Subject: [PATCH 145/156] fix: text with math in a box of an equation keeps its
 box and its dollars

---
 latex2json/parser/handlers/equation.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/equation.py b/latex2json/parser/handlers/equation.py
index c804854..65ea043 100644
--- a/latex2json/parser/handlers/equation.py
+++ b/latex2json/parser/handlers/equation.py
@@ -32,6 +32,9 @@ SINGLE_NUMBER_ENV = {"equation", "multline", "dmath"}
 
 NO_NUMBER_PATTERN = re.compile(r"\\(?:nonumber|notag|tag\*?)(?![a-zA-Z@])")
 
+# a box that holds nothing but math e.g. \mbox{$x$}
+BOXED_MATH_PATTERN = re.compile(r"\s*\$((?:\\.|[^$\\])*)\$\s*$", re.DOTALL)
+
 # Define equation patterns
 RAW_PATTERNS = OrderedDict(
     [
@@ -118,7 +121,16 @@ class EquationHandler(TokenHandler):
                 if end_pos > 0:
                     content = ""
                     if x and isinstance(x.get("content", ""), str):
-                        content = x.get("content").strip().strip("$")
+                        content = x.get("content")
+                    math_match = BOXED_MATH_PATTERN.match(content)
+                    if math_match:
+                        content = math_match.group(1)
+                    elif "$" in content.replace("\\$", ""):
+                        # text with math in it needs its box
+                        backslash_pos = equation.find(
+                            "\\", backslash_pos + end_pos
+                        )
+                        continue
                     equation = (
                         equation[:backslash_pos]
                         + content
-- 
2.43.0


From db6f02e5f375c24ea791caab2cb9bc3d3326cf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:21 +0000
Subject: [PATCH 146/156] fix: blanks at the ends of a box keep its text apart
 from the words around it

---
 latex2json/parser/packages/boxes.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/latex2json/parser/packages/boxes.py b/latex2json/parser/packages/boxes.py
index fcd1f0b..0969755 100644
--- a/latex2json/parser/packages/boxes.py
+++ b/latex2json/parser/packages/boxes.py
@@ -41,6 +41,8 @@ BOX_PATTERN = re.compile(
     re.DOTALL,
 )
 
+BLANK_START_PATTERN = re.compile(r"\s")
+BLANK_END_PATTERN = re.compile(r"\s$")
 LINE_BREAK_PATTERN = re.compile(r"\s*\n\s*")
 
 # Add fancyhead pattern
@@ -81,6 +83,20 @@ def extract_box_args(content: str, delimiters: str) -> Tuple[List[Optional[str]]
     return (args if len(args) == len(delimiters) else []), pos + end_pos
 
 
+def add_outer_blanks(content, left: bool, right: bool):
+    """Put a blank back at the ends of the text of a box that has one there"""
+    if not content:
+        return " " if left or right else content
+    if isinstance(content, str):
+        return (" " if left else "") + content.strip() + (" " if right else "")
+    if isinstance(content, list):
+        if left and is_plain_text(content[0]):
+            content[0]["content"] = " " + content[0]["content"].lstrip()
+        if right and is_plain_text(content[-1]):
+            content[-1]["content"] = content[-1]["content"].rstrip() + " "
+    return content
+
+
 def parse_varname_from_brace_or_backslash(var_name: str) -> Tuple[Optional[str], int]:
     if var_name.startswith("{"):
         _var_name, _ = extract_nested_content(var_name)
@@ -151,6 +167,8 @@ class BoxHandler(TokenHandler):
             return None, end_pos
 
         one_liner = s.startswith("\\mbox")
+        left = BLANK_START_PATTERN.match(extracted_content) is not None
+        right = BLANK_END_PATTERN.search(extracted_content) is not None
 
         if self.process_content_fn:
             extracted_content = self.process_content_fn(extracted_content)
@@ -168,6 +186,8 @@ class BoxHandler(TokenHandler):
                     ):
                         token["content"] = LINE_BREAK_PATTERN.sub(" ", token["content"])
 
+        extracted_content = add_outer_blanks(extracted_content, left, right)
+
         if isinstance(extracted_content, str):
             return {"type": "text", "content": extracted_content}, end_pos
         elif isinstance(extracted_content, dict):
-- 
2.43.0


From 8305ffecd21c7ffdf152ed999c180081cc342575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:44:31 +0000
Subject: [PATCH 147/156] fix: entries in parentheses and entries without
 fields of a BibTeX source are not lost

---
 latex2json/parser/bib/bibtex_parser.py | 41 ++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/latex2json/parser/bib/bibtex_parser.py b/latex2json/parser/bib/bibtex_parser.py
index c11381d..2c758ba 100644
--- a/latex2json/parser/bib/bibtex_parser.py
+++ b/latex2json/parser/bib/bibtex_parser.py
@@ -45,6 +45,14 @@ class BibTexEntry:
 
 # but not commands or addresses e.g. \@ifx{ or a@b{
 BibTexPattern = re.compile(r"(?<![\\\w.])@(\w+)\s*\{")
+# an entry may be in parentheses too e.g. @string(a = "b")
+BibTexEntryPattern = re.compile(
+    BibTexPattern.pattern + r"|(?<![^\s})])@(\w+)\s*\((?=\s*[^\s,={}()\"#%]+\s*[,=])"
+)
+BibTexParenthesesPattern = re.compile(
+    r"(?<![^\s})])@\w+\s*\(\s*[^\s,={}()\"#%]+\s*(?:,\s*[^\s,={}()\"#%]+\s*)?="
+)
+BibTexKeyPattern = re.compile(r"[^\s,={}\"#%]+$")
 BibTexFieldPattern = re.compile(r"([^\s,={}\"#]+)\s*=\s*")
 BibTexBareValuePattern = re.compile(r"[^\s,={}\"#]+")
 BibTexJoinPattern = re.compile(r"\s*#\s*")
@@ -65,6 +73,19 @@ def extract_quoted_content(text: str) -> Tuple[Optional[str], int]:
     return None, 0
 
 
+def extract_parenthesized_content(text: str) -> Tuple[Optional[str], int]:
+    """The content of the parentheses that the text starts with, which end outside of braces"""
+    level = 0
+    for i in range(1, len(text)):
+        if text[i] == ")" and level == 0:
+            return text[1:i], i + 1
+        if text[i] == "{":
+            level += 1
+        elif text[i] == "}":
+            level -= 1
+    return None, 0
+
+
 class BibTexParser:
     def __init__(self, logger: Logger = None):
         self.logger = logger or logging.getLogger(__name__)
@@ -91,7 +112,9 @@ class BibTexParser:
         Returns:
             bool: True if content is in BibTeX format, False otherwise
         """
-        return bool(BibTexPattern.search(content))
+        return bool(
+            BibTexPattern.search(content) or BibTexParenthesesPattern.search(content)
+        )
 
     @staticmethod
     def convert_fields_to_bibtex_str(
@@ -119,15 +142,20 @@ class BibTexParser:
         strings = {}
 
         # Find each entry starting with @
-        for match in re.finditer(BibTexPattern, content):
+        for match in re.finditer(BibTexEntryPattern, content):
             if match.start() < pos:
                 # part of a value
                 continue
-            entry_type = match.group(1).lower()
+            entry_type = (match.group(1) or match.group(2)).lower()
             start_pos = match.end() - 1  # Position of the opening brace
 
             # Get everything inside the braces
-            entry_content, next_pos = extract_nested_content(content[start_pos:])
+            extract = (
+                extract_nested_content
+                if content[start_pos] == "{"
+                else extract_parenthesized_content
+            )
+            entry_content, next_pos = extract(content[start_pos:])
             if entry_content is None:
                 continue
             pos = start_pos + next_pos
@@ -142,7 +170,10 @@ class BibTexParser:
             # Split into citation key and fields
             key_end = entry_content.find(",")
             if key_end == -1:
-                continue
+                # an entry without fields
+                key_end = len(entry_content)
+                if not BibTexKeyPattern.match(entry_content.strip()):
+                    continue
 
             citation_key = entry_content[:key_end].strip()
             fields = {}
-- 
2.43.0


From 776ad46bb49402b0679513fb1a85acc85ae804ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:58:43 +0000
Subject: [PATCH 148/156] fix: packages load other files from the folder of the
 main document

---
 latex2json/parser/sty_parser.py       | 39 +++++++++++++++------------
 latex2json/parser/tex_preprocessor.py |  4 ++-
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/latex2json/parser/sty_parser.py b/latex2json/parser/sty_parser.py
index 043c118..55728e8 100644
--- a/latex2json/parser/sty_parser.py
+++ b/latex2json/parser/sty_parser.py
@@ -42,6 +42,7 @@ class LatexStyParser:
         self.logger = logger or logging.getLogger(__name__)
 
         self.current_file_dir = None
+        self.main_dir = None  # folder of the main document
         self.parsed_files = set()
 
         self.command_manager = CommandManager(
@@ -53,6 +54,7 @@ class LatexStyParser:
 
     def clear(self):
         self.current_file_dir = None
+        self.main_dir = None
         self.parsed_files.clear()
         self.if_else_block_handler.clear()
         self.command_manager.clear()
@@ -73,16 +75,21 @@ class LatexStyParser:
             return token, end_pos
         return None, 0
 
+    def _get_paths(self, path: str) -> List[str]:
+        """Paths of a file in the folder of the main document and in the current one"""
+        dirs = [d for d in (self.main_dir, self.current_file_dir) if d]
+        return [os.path.join(d, path) for d in dirs] or [path]
+
     def _parse_packages(self, package_names: list[str], extension=".sty") -> list[Dict]:
         tokens = []
         for package_name in package_names:
-            package_path = package_name.strip()
-            if self.current_file_dir:
-                package_path = os.path.join(self.current_file_dir, package_path)
-            if not package_path.endswith(extension):
-                package_path += extension
-            if os.path.exists(package_path):
-                tokens.extend(self.parse_file(package_path))
+            package_name = package_name.strip()
+            if not package_name.endswith(extension):
+                package_name += extension
+            for package_path in self._get_paths(package_name):
+                if os.path.exists(package_path):
+                    tokens.extend(self.parse_file(package_path))
+                    break
         return tokens
 
     def _check_usepackage(self, content: str) -> Tuple[List[Dict], int]:
@@ -94,10 +101,10 @@ class LatexStyParser:
         match = INPUT_PATTERN.match(content)
         if match:
             path = (match.group(1) or match.group(2)).strip()
-            if self.current_file_dir:
-                path = os.path.join(self.current_file_dir, path)
-            path = find_tex_file(path)
-            return self.parse_file(path) if path else [], match.end()
+            for path in map(find_tex_file, self._get_paths(path)):
+                if path:
+                    return self.parse_file(path), match.end()
+            return [], match.end()
 
         match = USEPACKAGE_PATTERN.match(content)
         if match:
@@ -133,11 +140,7 @@ class LatexStyParser:
 
                         file_path = token.get("condition", "").strip()
                         if file_path:
-                            if self.current_file_dir:
-                                file_path = os.path.join(
-                                    self.current_file_dir, file_path
-                                )
-                            if os.path.exists(file_path):
+                            if any(map(os.path.exists, self._get_paths(file_path))):
                                 block = token.get("if_content", "")
                     else:
                         block = token.get("if_content", "")
@@ -263,8 +266,10 @@ class LatexStyParser:
         return tokens
 
     def parse_file(
-        self, file_path: str, extension: str = ".sty"
+        self, file_path: str, extension: str = ".sty", main_dir: str = None
     ) -> List[Dict[str, str]]:
+        if main_dir:
+            self.main_dir = os.path.abspath(main_dir)
         current_file_dir = self.current_file_dir
         try:
             file_path = os.path.abspath(file_path)
diff --git a/latex2json/parser/tex_preprocessor.py b/latex2json/parser/tex_preprocessor.py
index 3237e60..3056436 100644
--- a/latex2json/parser/tex_preprocessor.py
+++ b/latex2json/parser/tex_preprocessor.py
@@ -313,7 +313,9 @@ class LatexPreprocessor:
             if not package_path.endswith(extension):
                 package_path += extension
             if os.path.exists(package_path):
-                _tokens = self.sty_parser.parse_file(package_path)
+                _tokens = self.sty_parser.parse_file(
+                    package_path, main_dir=file_dir or "."
+                )
                 tokens.extend(_tokens)
                 for token in _tokens:
                     self._process_new_definition_token(token)
-- 
2.43.0


From f0d33184093364ddb07ee157fe13d4f37500f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:48 +0000
Subject: [PATCH 149/156] fix: brackets at the start of environments without
 options are text

---
 latex2json/parser/handlers/environment.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 9da9a12..5e0b470 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -47,6 +47,18 @@ LAYOUT_ENVIRONMENTS = [
     "subequations",
 ]
 
+# Environments whose text may start with a bracket
+ENVIRONMENTS_WITHOUT_OPTIONS = {
+    "document",
+    "center",
+    "flushleft",
+    "flushright",
+    "small",
+    "quote",
+    "quotation",
+    "verse",
+}
+
 # Mathematical/Proof environments - numbered ones
 NUMBERED_MATH_ENVIRONMENTS = [
     "theorem",
@@ -257,7 +269,9 @@ class BaseEnvironmentHandler(TokenHandler):
 
         # Extract title if present (text within square brackets after environment name)
         opt_found = False
-        title, end_pos = extract_nested_content(inner_content, "[", "]")
+        title, end_pos = None, 0
+        if env_name not in ENVIRONMENTS_WITHOUT_OPTIONS:
+            title, end_pos = extract_nested_content(inner_content, "[", "]")
         if end_pos > 0:
             inner_content = inner_content[end_pos:]
             opt_found = True
-- 
2.43.0


From f4c8c8b522a7ce47a203b338649f7455cbe2592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:27 +0000
Subject: [PATCH 150/156] fix: tables by commands end where their end command
 stands

---
 latex2json/parser/handlers/tabular.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index e2c4915..e60ed0f 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -20,6 +20,10 @@ TABULAR_PATTERN = re.compile(
     re.DOTALL,
 )
 
+# other commands e.g. \tabularnewline start alike
+TABULAR_BEGIN_PATTERN = re.compile(r"\\tabular(?![a-zA-Z@])")
+TABULAR_END_PATTERN = re.compile(r"\\endtabular(?![a-zA-Z@])")
+
 # up to the brace of the text
 MULTICOLUMN_PATTERN = re.compile(
     r"\\multicolumn\s*(?:{\s*(\d+)\s*}|(\d))\s*%s\s*{"
@@ -231,7 +235,7 @@ def find_nested_table_end(content: str, pos: int) -> int:
             )
         else:
             _, end_pos, _ = extract_nested_content_pattern(
-                content[match.start() :], r"\\tabular", r"\\endtabular"
+                content[match.start() :], TABULAR_BEGIN_PATTERN, TABULAR_END_PATTERN
             )
             if end_pos > 0:
                 end_pos += match.start()
@@ -358,7 +362,7 @@ class TabularHandler(BaseEnvironmentHandler):
             )
         else:
             start_pos, end_pos, inner_content = extract_nested_content_pattern(
-                content, r"\\tabular", r"\\endtabular"
+                content, TABULAR_BEGIN_PATTERN, TABULAR_END_PATTERN
             )
         if start_pos == -1:
             return None, match.end()
-- 
2.43.0


From 80bdf1a3f2a2ca3c3d3b10f99435b9561aeafeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:58 +0000
Subject: [PATCH 151/156] fix: ends of the heads and feet of long tables are no
 part of a cell

---
 latex2json/parser/handlers/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/formatting.py b/latex2json/parser/handlers/formatting.py
index 32e600e..133ba03 100644
--- a/latex2json/parser/handlers/formatting.py
+++ b/latex2json/parser/handlers/formatting.py
@@ -280,7 +280,7 @@ RAW_PATTERNS = OrderedDict(
             r"tabcolsep(?![a-zA-Z@])|"
             r"colrule(?![a-zA-Z@])|"
             r"noalign(?![a-zA-Z@])|"
-            r"endfirsthead(?![a-zA-Z@])"
+            r"end(?:first)?head(?![a-zA-Z@])|end(?:last)?foot(?![a-zA-Z@])"
             r")",
         ),
         (
-- 
2.43.0


From 2b9bd2b33eef26010d9fed50abe35e898a44ac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:02:19 +0000
Subject: [PATCH 152/156] fix: the position of tables with a width is no cell

---
 latex2json/parser/handlers/tabular.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/latex2json/parser/handlers/tabular.py b/latex2json/parser/handlers/tabular.py
index e60ed0f..e9a4212 100644
--- a/latex2json/parser/handlers/tabular.py
+++ b/latex2json/parser/handlers/tabular.py
@@ -382,10 +382,16 @@ class TabularHandler(BaseEnvironmentHandler):
 
         # Extract column spec using nested content extraction
         blocks, end_pos = extract_nested_content_sequence_blocks(
-            inner_content,
-            # tabular*, tabularx and tabulary take a width before the column spec
-            max_blocks=2 if env_type in ("tabular*", "tabularx", "tabulary") else 1,
+            inner_content, max_blocks=1
         )
+        if env_type in ("tabular*", "tabularx", "tabulary"):
+            # what came is the width, the column spec is after the optional arg
+            _, opt_end_pos = extract_nested_content(inner_content[end_pos:], "[", "]")
+            spec, spec_end_pos = extract_nested_content_sequence_blocks(
+                inner_content[end_pos + opt_end_pos :], max_blocks=1
+            )
+            if spec:
+                blocks, end_pos = spec, end_pos + opt_end_pos + spec_end_pos
         if not blocks:
             # no (balanced) column spec: all of it is table content
             blocks, end_pos = [""], 0
-- 
2.43.0


From 6f6277326d1f07c1f8abc5560f7f7ab7dc565bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:24 +0000
Subject: [PATCH 153/156] fix: provideenvironment keeps an environment that is
 defined already

---
 latex2json/parser/handlers/environment.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/latex2json/parser/handlers/environment.py b/latex2json/parser/handlers/environment.py
index 5e0b470..e5f2aaf 100644
--- a/latex2json/parser/handlers/environment.py
+++ b/latex2json/parser/handlers/environment.py
@@ -593,14 +593,17 @@ class EnvironmentHandler(BaseEnvironmentHandler):
             token["begin_def"] = blocks[0]
             token["end_def"] = blocks[1]
 
-            # Register this environment definition
-            self.process_newenvironment(
-                env_name,
-                blocks[0],
-                blocks[1],
-                token["num_args"],
-                token["optional_args"],
-            )
+            # Register this environment definition, unless it is there already
+            if not (
+                match.group(0).startswith(r"\provide") and env_name in self.environments
+            ):
+                self.process_newenvironment(
+                    env_name,
+                    blocks[0],
+                    blocks[1],
+                    token["num_args"],
+                    token["optional_args"],
+                )
         else:
             return None, current_pos
 
-- 
2.43.0


From 1dffe7f8dddce7159bdf58bf20df522dd09a2a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:43:22 +0000
Subject: [PATCH 154/156] fix: commands whose name ends in @ are not taken for
 the beginning of longer names

---
 latex2json/parser/handlers/new_definition.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/new_definition.py b/latex2json/parser/handlers/new_definition.py
index da4fa44..ffab6c7 100644
--- a/latex2json/parser/handlers/new_definition.py
+++ b/latex2json/parser/handlers/new_definition.py
@@ -431,7 +431,9 @@ class NewDefinitionHandler(TokenHandler):
             )
 
         # Don't add negative lookahead for commands ending in special chars
-        needs_lookahead = cmd_name[-1].isalnum()
+        needs_lookahead = cmd_name[-1].isalnum() or bool(
+            re.fullmatch(r"[a-zA-Z@]+@", cmd_name)
+        )
         postfix = USAGE_SUFFIX if needs_lookahead else ""
         pattern = r"\\" + re.escape(cmd_name) + postfix
 
-- 
2.43.0


From b43f16f4f70ddd25803588bc531f29c1388e3448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:48:36 +0000
Subject: [PATCH 155/156] fix: a word after a line break in a formula is no
 reference or input

---
 latex2json/parser/handlers/content_command.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/latex2json/parser/handlers/content_command.py b/latex2json/parser/handlers/content_command.py
index 8aab3ef..591cd05 100644
--- a/latex2json/parser/handlers/content_command.py
+++ b/latex2json/parser/handlers/content_command.py
@@ -3,7 +3,7 @@ from collections import OrderedDict
 from typing import Callable, Dict, Optional, Tuple
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.patterns import NESTED_BRACES_PATTERN
-from latex2json.utils.tex_utils import extract_nested_content
+from latex2json.utils.tex_utils import extract_nested_content, is_escaped_backslash
 
 SECTION_LEVELS = {
     "part": 0,
@@ -331,6 +331,10 @@ class ContentCommandHandler(TokenHandler):
                 return None
 
             current_pos = pos + search.start()
+            if is_escaped_backslash(content, current_pos):
+                # the second backslash of a line break begins no command
+                pos += search.end()
+                continue
             for pattern_name, pattern in PATTERNS.items():
                 if pattern.match(content[current_pos:]):
                     return current_pos
-- 
2.43.0


From b329118f245185d522c36a88bd2c145a1bfa18f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:30 +0000
Subject: [PATCH 156/156] fix: starred forms of commands can be chosen by
 commands without braces

---
 .../parser/handlers/if_else_statements.py     | 28 ++++++++++++++-----
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/latex2json/parser/handlers/if_else_statements.py b/latex2json/parser/handlers/if_else_statements.py
index 07dedf7..c75d876 100644
--- a/latex2json/parser/handlers/if_else_statements.py
+++ b/latex2json/parser/handlers/if_else_statements.py
@@ -6,6 +6,7 @@ import re
 from latex2json.parser.handlers.base import TokenHandler
 from latex2json.parser.handlers.new_definition import extract_and_concat_nested_csname
 from latex2json.utils.tex_utils import (
+    extract_nested_content,
     extract_nested_content_sequence_blocks,
     is_escaped,
 )
@@ -92,11 +93,14 @@ IF_PATTERNS_DEFAULT_LIST = OrderedDict(
         "@ifclassloaded": re.compile(r"\\@ifclassloaded\s*\{"),
         "@ifpackageloaded": re.compile(r"\\@ifpackageloaded\s*\{"),
         "@ifundefined": re.compile(r"\\@ifundefined\s*\{"),
-        "@ifstar": re.compile(r"\\@ifstar\s*\{"),
+        "@ifstar": re.compile(r"\\@ifstar\s*(?=\{|\\[a-zA-Z@])"),
         "if": IF_PATTERN,
     }
 )
 
+# a branch that is a single command, without braces
+BARE_BRANCH_PATTERN = re.compile(r"\s*(\\[a-zA-Z@]+)")
+
 # these have their branches in braces
 NO_FI_NAMES = {
     "ifthenelse",
@@ -312,20 +316,30 @@ class IfElseBlockHandler(TokenHandler):
     def _handle_ifstar(
         self, content: str, match: re.Match
     ) -> Tuple[Optional[Dict], int]:
-        start_pos = match.end() - 1
-        blocks, end_pos = extract_nested_content_sequence_blocks(
-            content[start_pos:], "{", "}", max_blocks=2
-        )
+        # each branch is in braces or a single command
+        end_pos = match.end()
+        blocks = []
+        while len(blocks) < 2:
+            command = BARE_BRANCH_PATTERN.match(content, end_pos)
+            if command:
+                blocks.append(command.group(1))
+                end_pos = command.end()
+                continue
+            block, block_end = extract_nested_content(content[end_pos:])
+            if block is None:
+                break
+            blocks.append(block)
+            end_pos += block_end
         if len(blocks) == 0:
             return None, 0
-        if_content = blocks[0] if len(blocks) > 0 else ""
+        if_content = blocks[0]
         else_content = blocks[1] if len(blocks) > 1 else ""
         return {
             "type": "conditional-ifstar",
             "condition": "@ifstar",
             "if_content": if_content,
             "else_content": else_content,
-        }, start_pos + end_pos
+        }, end_pos
 
     def _handle_iffileexists(
         self, content: str, match: re.Match
-- 
2.43.0

