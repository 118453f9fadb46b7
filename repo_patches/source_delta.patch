From 1de1f1481035be3de05964227dc50462a69d49db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 01/49] fix: evaluate != in #if expressions

'!' was rewritten to 'not' even when it was the first half of '!=', so any
#if using != was a syntax error and silently evaluated to false.
---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index e80c324..bbc5635 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1026,7 +1026,7 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            Literal("!").setParseAction(lambda: " not ")
+            Regex(r"!(?!=)").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
-- 
2.43.0


From 5fffcc0b62bf2f09318a3054270909839f202f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 02/49] fix: read hexadecimal and suffixed literals in #if
 expressions

The letters of '0x10' or '10L' were taken for an identifier and replaced by
0, giving '00' and '100'.
---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index bbc5635..915bb37 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1026,7 +1026,8 @@ class CParser(object):
     def eval_preprocessor_expr(self, expr):
         # Make a few alterations so the expression can be eval'd
         macro_diffs = (
-            Regex(r"!(?!=)").setParseAction(lambda: " not ")
+            integer
+            | Regex(r"!(?!=)").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
-- 
2.43.0


From 379d86dace971bdb3ca027f03dbf61c2d9eec11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 03/49] fix: accept lower case integer suffixes, leave
 identifiers alone

'1u' or '5ul' could not be evaluated, and the tail of an identifier such as
'CH1L' was mistaken for a suffixed literal and truncated.
---
 pyclibrary/c_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 915bb37..7f3d5f2 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1792,9 +1792,9 @@ lparen = Literal("(").ignore(quotedString).suppress()
 rparen = Literal(")").ignore(quotedString).suppress()
 
 # Numbers
-int_strip = lambda t: t[0].rstrip("UL")  # noqa
-hexint = Regex(r"[+-]?\s*0[xX][{}]+[UL]*".format(hexnums)).setParseAction(int_strip)
-decint = Regex(r"[+-]?\s*[0-9]+[UL]*").setParseAction(int_strip)
+int_strip = lambda t: t[0].rstrip("uUlL")  # noqa
+hexint = Regex(r"[+-]?\s*\b0[xX][{}]+[uUlL]*".format(hexnums)).setParseAction(int_strip)
+decint = Regex(r"[+-]?\s*\b[0-9]+[uUlL]*").setParseAction(int_strip)
 integer = hexint | decint
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-- 
2.43.0


From f955316056cee0b7f6815db17b65db5929fe0315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:12 +0000
Subject: [PATCH 04/49] fix: use integer division in #if expressions

---
 pyclibrary/c_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 7f3d5f2..3b30fb1 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1030,6 +1030,7 @@ class CParser(object):
             | Regex(r"!(?!=)").setParseAction(lambda: " not ")
             | Literal("&&").setParseAction(lambda: " and ")
             | Literal("||").setParseAction(lambda: " or ")
+            | Literal("/").setParseAction(lambda: "//")
             | Word(alphas + "_", alphanums + "_").setParseAction(lambda: "0")
         )
         expr2 = macro_diffs.transformString(expr).strip()
-- 
2.43.0


From 35777e074c752e47b48550e15bd107fabdd6daf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:57 +0000
Subject: [PATCH 05/49] fix: use the library's lock in locked calls

---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index c5fa7e9..8cbb90b 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -490,7 +490,7 @@ class CFunction(object):
 
         try:
             if self.lock_call:
-                with self.lib.lock:
+                with self.lib._lock_:
                     res = self.func(*arg_list)
             else:
                 res = self.func(*arg_list)
-- 
2.43.0


From 94784a30985a707e6b8436058d956b7f6131a87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:24 +0000
Subject: [PATCH 06/49] fix: return an already built object when the prefix is
 omitted

---
 pyclibrary/c_library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 8cbb90b..ba39a66 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -266,7 +266,7 @@ class CLibrary(object, metaclass=CLibraryMeta):
 
         for n in names:
             if n in objs:
-                return self.objs[n]
+                return objs[n]
 
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
-- 
2.43.0


From ad222ec1434f6463455dfa1dea6e069b5bc7aad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:34 +0000
Subject: [PATCH 07/49] fix: do not alter stored definitions when building an
 array type

---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index e9d6ebf..3404bb8 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -224,7 +224,7 @@ class CTypesCLibrary(CLibrary):
                 seen = mods[0]
                 for m in mods[1:]:
                     if isinstance(seen, list) and isinstance(m, list):
-                        seen += m
+                        seen = seen + m
                     else:
                         n_mods.append(seen)
                         seen = m
-- 
2.43.0


From 499b33f7f4b9b75bc8e7a9a057951d854b538229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:43 +0000
Subject: [PATCH 08/49] fix: give bit fields the width declared in the header

---
 pyclibrary/backends/ctypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 3404bb8..86b1dab 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -339,8 +339,8 @@ class CTypesCLibrary(CLibrary):
             # fashion.
             s._fields_ = [
                 (m[0], self._get_type(m[1]))
-                if m[2] is None
-                else (m[0], self._get_type(m[1]), m[2])
+                if len(m) < 4
+                else (m[0], self._get_type(m[1]), m[3])
                 for m in defs
             ]
             s._defaults_ = [m[2] for m in defs]
-- 
2.43.0


From 7139ad404d9e5020f2036d695739568a82684bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 09/49] fix: build one class per structure whatever alias is
 used

---
 pyclibrary/backends/ctypes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 86b1dab..991bd04 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -292,9 +292,8 @@ class CTypesCLibrary(CLibrary):
             raise
 
     def _get_struct(self, str_type, str_name):
+        str_name = self._resolve_struct_alias(str_type, str_name)
         if str_name not in self._structs_:
-            str_name = self._resolve_struct_alias(str_type, str_name)
-
             # Pull struct definition
             defn = self._defs_[str_type][str_name]
 
-- 
2.43.0


From 213689f13485021fd21d921a121032578c4d1f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:04 +0000
Subject: [PATCH 10/49] fix: keep the type qualifiers in
 remove_compatibility_hack

---
 pyclibrary/c_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3b30fb1..be7b7ff 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -241,7 +241,10 @@ class Type(tuple):
 
         """
         if len(self) == 2 and isinstance(self[0], Type):
-            return Type(*(self[0] + (self[1],)))
+            return Type(
+                *(self[0] + (self[1],)),
+                type_quals=(*self[0].type_quals, self.type_quals[1]),
+            )
         else:
             return self
 
-- 
2.43.0


From 9cc3a5180c896d83410443ddc0b0682460766bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:28 +0000
Subject: [PATCH 11/49] fix: do not extend the caller's list of search
 directories

---
 pyclibrary/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index a3f92cd..33a3aab 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -68,7 +68,7 @@ def find_header(h_name, dirs=None):
 
     """
     if dirs:
-        dirs += HEADER_DIRS[::-1]
+        dirs = list(dirs) + HEADER_DIRS[::-1]
     else:
         dirs = HEADER_DIRS[::-1]
 
@@ -135,7 +135,7 @@ def find_library(name, dirs=None):
 
     """
     if dirs:
-        dirs += LIBRARY_DIRS[::-1]
+        dirs = list(dirs) + LIBRARY_DIRS[::-1]
     else:
         dirs = LIBRARY_DIRS[::-1]
 
-- 
2.43.0


From 6f1170c126d19bac2de63d4670738e7c723781b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:38 +0000
Subject: [PATCH 12/49] fix: search the standard header locations on linux

---
 pyclibrary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/utils.py b/pyclibrary/utils.py
index 33a3aab..4722924 100644
--- a/pyclibrary/utils.py
+++ b/pyclibrary/utils.py
@@ -85,7 +85,7 @@ def find_header(h_name, dirs=None):
             )
         )
 
-    if sys.platform == "linux2":
+    if sys.platform.startswith("linux"):
         dirs.extend(("/usr/local/include", "/usr/target/include", "/usr/include"))
 
     for d in dirs:
-- 
2.43.0


From 3dbda4917294a6e0eb5ca326d9dfbe24b7619237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 13/49] fix: do not alter the arguments given to init and
 auto_init

---
 pyclibrary/init.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/init.py b/pyclibrary/init.py
index ef58c67..6747542 100644
--- a/pyclibrary/init.py
+++ b/pyclibrary/init.py
@@ -33,8 +33,8 @@ def init(extra_types=None, extra_modifiers=None):
     if CParser._init or CLibrary._init:
         raise RuntimeError("Can only initialise the parser once")
 
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+    extra_types = dict(extra_types) if extra_types else {}
+    extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     _init_cparser(extra_types.keys(), extra_modifiers)
     init_libraries(extra_types)
@@ -71,8 +71,8 @@ def auto_init(extra_types=None, extra_modifiers=None, os=None):
         identify the OS.
 
     """
-    extra_types = extra_types if extra_types else {}
-    extra_modifiers = extra_modifiers if extra_modifiers else []
+    extra_types = dict(extra_types) if extra_types else {}
+    extra_modifiers = list(extra_modifiers) if extra_modifiers else []
 
     if os == "win32" or sys.platform == "win32":
         extra_types.update(WIN_TYPES)
-- 
2.43.0


From a6b1a0cf52b855a2888e635cebe7df1aae94b928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:54 +0000
Subject: [PATCH 14/49] fix: expand the macros following a string literal

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index be7b7ff..d74edd6 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1131,7 +1131,7 @@ class CParser(object):
                 parts.append(exp)
 
             else:
-                start = m.end(N)
+                start = m.end()
                 parts.append(line[:start])
                 line = line[start:]
 
-- 
2.43.0


From 16c5f06bfa3b22e57ab2e66914ea117dd409c6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:02 +0000
Subject: [PATCH 15/49] fix: replace each comment by one space

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index d74edd6..0c4e199 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -812,7 +812,9 @@ class CParser(object):
         cplusplus_line_comment = Literal("//") + restOfLine
         # match quoted strings first to prevent matching comments inside quotes
         comment_remover = (
-            quotedString | cStyleComment.suppress() | cplusplus_line_comment.suppress()
+            quotedString
+            | cStyleComment.copy().setParseAction(lambda: " ")
+            | cplusplus_line_comment.suppress()
         )
         self.files[path] = comment_remover.transformString(text)
 
-- 
2.43.0


From 7324f0e582fcd824a707de34aff8b83598ab4065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:34 +0000
Subject: [PATCH 16/49] fix: leave character literals and strings ending in a
 backslash alone

---
 pyclibrary/c_parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0c4e199..3920134 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1081,12 +1081,12 @@ class CParser(object):
         """Turn a function macro spec into a compiled description."""
         # Find all instances of each arg in text.
         args_str = "|".join(args)
-        arg_regex = re.compile(r'("(\\"|[^"])*")|(\b({})\b)'.format(args_str))
+        arg_regex = re.compile(literals + r"|(\b({})\b)".format(args_str))
         start = 0
         parts = []
         arg_order = []
         # The group number to check for macro names
-        N = 3
+        N = 1
         for m in arg_regex.finditer(text):
             arg = m.groups()[N]
             if arg is not None:
@@ -1102,10 +1102,10 @@ class CParser(object):
         Faulty calls to macro function are left untouched.
 
         """
-        reg = re.compile(r'("(\\"|[^"])*")|(\b(\w+)\b)')
+        reg = re.compile(literals + r"|(\b(\w+)\b)")
         parts = []
         # The group number to check for macro names
-        N = 3
+        N = 1
         macros = self.defs["macros"]
         fnmacros = self.defs["fnmacros"]
         while True:
@@ -1797,6 +1797,9 @@ rbrack = Literal("]").ignore(quotedString).suppress()
 lparen = Literal("(").ignore(quotedString).suppress()
 rparen = Literal(")").ignore(quotedString).suppress()
 
+# String and character literals, in which no macro is expanded
+literals = r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
+
 # Numbers
 int_strip = lambda t: t[0].rstrip("uUlL")  # noqa
 hexint = Regex(r"[+-]?\s*\b0[xX][{}]+[uUlL]*".format(hexnums)).setParseAction(int_strip)
-- 
2.43.0


From d2aab44d158655adb50a6e9e6bba98a9cfa4aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:11 +0000
Subject: [PATCH 17/49] fix: a macro is function-like only if ( directly
 follows its name

---
 pyclibrary/c_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 3920134..7f8a35c 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -849,7 +849,9 @@ class CParser(object):
 
         # Define the structure of a macro definition
         name = Word(alphas + "_", alphanums + "_")("name")
-        deli_list = Optional(lparen + delimitedList(name) + rparen)
+        # The opening parenthesis must directly follow the macro name
+        fn_lparen = Suppress(Literal("(").leaveWhitespace())
+        deli_list = Optional(fn_lparen + delimitedList(name) + rparen)
         self.pp_define = (
             name.setWhitespaceChars(" \t")("macro")
             + deli_list.setWhitespaceChars(" \t")("args")
@@ -956,7 +958,7 @@ class CParser(object):
                     )
                     try:
                         # Macro is registered here
-                        self.pp_define.parseString(macroName + " " + rest)
+                        self.pp_define.parseString(macroName + rest)
                     except Exception:
                         logger.exception(
                             "Error processing macro definition:"
-- 
2.43.0


From 31cffdc60f70b066c7e14a72a6b188cec26b1ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:20 +0000
Subject: [PATCH 18/49] fix: expand function-like macros whose body contains
 braces

---
 pyclibrary/c_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 7f8a35c..912910f 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1092,10 +1092,10 @@ class CParser(object):
         for m in arg_regex.finditer(text):
             arg = m.groups()[N]
             if arg is not None:
-                parts.append(text[start : m.start(N)] + "{}")
+                parts.append(escape_braces(text[start : m.start(N)]) + "{}")
                 start = m.end(N)
                 arg_order.append(args.index(arg))
-        parts.append(text[start:])
+        parts.append(escape_braces(text[start:]))
         return ("".join(parts), arg_order)
 
     def expand_macros(self, line):
@@ -1757,6 +1757,11 @@ def kwl(strs):
     return Regex(r"\b({})\b".format("|".join(strs)))
 
 
+def escape_braces(text):
+    """Escape the braces of a text which will be passed to str.format."""
+    return text.replace("{", "{{").replace("}", "}}")
+
+
 def flatten(lst):
     res = []
     for i in lst:
-- 
2.43.0


From 8898bc0665461aa6f8f20bac1a7460450bbb3a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:29 +0000
Subject: [PATCH 19/49] fix: split macro call arguments at top level commas
 only

---
 pyclibrary/c_parser.py | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 912910f..b5c43ad 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1148,9 +1148,7 @@ class CParser(object):
         defn = self.defs["fnmacros"][name]
 
         try:
-            args, end = text.split(")", 1)
-            _, args = args.split("(", 1)
-            args = [a.strip() for a in args.split(",")]
+            args, end = split_macro_args(text)
         except Exception:
             mess = "Function macro {} argument analysis failed :\n{}"
             raise DefinitionError(0, mess.format(name, format_exc()))
@@ -1757,6 +1755,30 @@ def kwl(strs):
     return Regex(r"\b({})\b".format("|".join(strs)))
 
 
+def split_macro_args(text):
+    """Split a text starting by the arguments of a function macro into the list
+    of the arguments and the text following the closing parenthesis.
+
+    """
+    text = text.lstrip()
+    if not text.startswith("("):
+        raise ValueError("no argument list")
+    args = []
+    depth = 1
+    start = 1
+    for m in re.compile(literals + r"|[(),]").finditer(text, 1):
+        if m.group() == "(":
+            depth += 1
+        elif m.group() == ")":
+            depth -= 1
+        if depth == 0 or (depth == 1 and m.group() == ","):
+            args.append(text[start : m.start()].strip())
+            start = m.end()
+        if depth == 0:
+            return args, text[start:]
+    raise ValueError("unbalanced parentheses")
+
+
 def escape_braces(text):
     """Escape the braces of a text which will be passed to str.format."""
     return text.replace("{", "{{").replace("}", "}}")
-- 
2.43.0


From f71ac19a3fffc4996f9d9f56c4083dbc34eb3f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:54 +0000
Subject: [PATCH 20/49] fix: undefine a macro in the file which defined it too

---
 pyclibrary/c_parser.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b5c43ad..1ac6a23 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1688,16 +1688,13 @@ class CParser(object):
         self.file_defs[base_name][typ][name] = val
 
     def rem_def(self, typ, name):
-        """Remove a definition of a specific type to both the definition set
-        for the current file and the global definition set.
+        """Remove a definition of a specific type from both the global definition
+        set and the definition set of the file(s) it came from.
 
         """
-        if self.current_file is None:
-            base_name = None
-        else:
-            base_name = os.path.basename(self.current_file)
         del self.defs[typ][name]
-        del self.file_defs[base_name][typ][name]
+        for defs in self.file_defs.values():
+            defs[typ].pop(name, None)
 
     def is_fund_type(self, typ):
         """Return True if this type is a fundamental C type, struct, or
-- 
2.43.0


From 0baaf341dd66fc99bba1feaa4c05161e61610da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:02 +0000
Subject: [PATCH 21/49] fix: undefine function-like macros

---
 pyclibrary/c_parser.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 1ac6a23..bd0c5c8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -968,12 +968,13 @@ class CParser(object):
                 elif d == "undef":
                     if not if_true[-1]:
                         continue
-                    try:
-                        self.rem_def("macros", macroName.strip())
-                    except Exception:
-                        if sys.exc_info()[0] is not KeyError:
-                            mess = "Error removing macro definition '{}'"
-                            logger.exception(mess.format(macroName.strip()))
+                    for typ in ("macros", "fnmacros"):
+                        try:
+                            self.rem_def(typ, macroName.strip())
+                        except Exception:
+                            if sys.exc_info()[0] is not KeyError:
+                                mess = "Error removing macro definition '{}'"
+                                logger.exception(mess.format(macroName.strip()))
 
                 # Check for changes in structure packing
                 # Support only for #pragme pack (with all its variants
-- 
2.43.0


From 73d4e6a7adae3adc28fb8b290a8a76be36c7da65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:09 +0000
Subject: [PATCH 22/49] fix: keep the current packing on #pragma pack(push)

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index bd0c5c8..2cc0387 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1002,7 +1002,8 @@ class CParser(object):
                         else:
                             id = o
 
-                    packing = val
+                    if pushpop != "push" or val is not None:
+                        packing = val
 
                     if pushpop == "push":
                         pack_stack.append((packing, id))
-- 
2.43.0


From ab0d0d261a055c8a70fca474303b0be445c9cc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 23/49] fix: ignore a #pragma pack(pop) without matching push

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2cc0387..28bca2c 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1009,7 +1009,9 @@ class CParser(object):
                         pack_stack.append((packing, id))
                     elif opts[0] == "pop":
                         if id is None:
-                            pack_stack.pop()
+                            # The first record is the default packing
+                            if len(pack_stack) > 1:
+                                pack_stack.pop()
                         else:
                             ind = None
                             for j, s in enumerate(pack_stack):
-- 
2.43.0


From 1582371a82d9578da41e973446af9979f860bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 24/49] fix: apply #pragma pack from the next line on

---
 pyclibrary/c_parser.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 28bca2c..2fc2229 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -948,9 +948,11 @@ class CParser(object):
                     if_true.append(ev)
                     if_hit.append(ev)
 
+                elif d in ("define", "undef", "pragma") and not if_true[-1]:
+                    # Inside a skipped section of an IF block
+                    pass
+
                 elif d == "define":
-                    if not if_true[-1]:
-                        continue
                     logger.debug(
                         "  " * (len(if_true) - 1)
                         + "define: "
@@ -966,8 +968,6 @@ class CParser(object):
                         )
 
                 elif d == "undef":
-                    if not if_true[-1]:
-                        continue
                     for typ in ("macros", "fnmacros"):
                         try:
                             self.rem_def(typ, macroName.strip())
@@ -985,10 +985,10 @@ class CParser(object):
                 # http://msdn.microsoft.com/fr-fr/library/2e70t5y1.aspx
                 # The current implementation follows the MSVC doc.
                 elif d == "pragma":
-                    if not if_true[-1]:
-                        continue
                     m = re.match(r"\s+pack\s*\(([^\)]*)\)", rest)
                     if not m:
+                        # Keep one output line per input line
+                        result.append(new_line)
                         continue
                     if m.groups():
                         opts = [s.strip() for s in m.groups()[0].split(",")]
@@ -1025,7 +1025,8 @@ class CParser(object):
 
                     mess = ">> Packing changed to {} at line {}"
                     logger.debug(mess.format(str(packing), i))
-                    self.pack_list[path].append((i, packing))
+                    # i counts from 0, the lines of a struct from 1
+                    self.pack_list[path].append((i + 1, packing))
                 else:
                     # Ignore any other directives
                     mess = "Ignored directive {} at line {}"
-- 
2.43.0


From eac5ae103bc491973c932fbb31a79e5273d25f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:06 +0000
Subject: [PATCH 25/49] fix: evaluate the type specifier 'signed' wherever it
 appears

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 2fc2229..f9ed544 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -183,8 +183,9 @@ class Type(tuple):
 
         if self.is_fund_type():
             # Remove 'signed' before returning evaluated type
+            words = [w for w in self.type_spec.split() if w != "signed"]
             return Type(
-                re.sub(r"\bsigned\b", "", self.type_spec).strip(),
+                " ".join(words) or "int",
                 *self.declarators,
                 type_quals=self.type_quals,
             )
-- 
2.43.0


From f495fa78b5b19647622ccf6c7e206128ab990234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:15 +0000
Subject: [PATCH 26/49] fix: keep an enum having a member that cannot be
 evaluated

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index f9ed544..b858cd3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1514,7 +1514,8 @@ class CParser(object):
                             pass
                     enum[v.name] = i
                     self.add_def("values", v.name, i)
-                    i += 1
+                    # What follows an unknown value is unknown too
+                    i = i + 1 if isinstance(i, int) else None
                 logger.debug("  members: {}".format(enum))
                 self.add_def("enums", name, enum)
                 self.add_def("types", "enum " + name, Type("enum", name))
-- 
2.43.0


From 580ee4f0adcc564f39f5d49e4807416a05b0eb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:24 +0000
Subject: [PATCH 27/49] fix: order the dimensions of an array of typedef'd
 arrays

---
 pyclibrary/c_parser.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b858cd3..b29d8f3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -201,15 +201,22 @@ class Type(tuple):
             raise DefinitionError(m.format(parent, " -> ".join(used)))
 
         pt = type_map[parent]
+        # Consecutive array declarators list the outermost dimension first, so
+        # the dimensions of this type go before the ones of its parent.
+        i = len(pt)
+        while isinstance(pt[i - 1], list):
+            i -= 1
+        j = 1
+        while j < len(self) and isinstance(self[j], list):
+            j += 1
+        quals = (*pt.type_quals[:-1], pt.type_quals[-1] + self.type_quals[0])
         evaled_type = Type(
-            pt.type_spec,
-            *(pt.declarators + self.declarators),
+            *(pt[:i] + self[1:j] + pt[i:] + self[j:]),
             type_quals=(
-                (
-                    *pt.type_quals[:-1],
-                    pt.type_quals[-1] + self.type_quals[0],
-                    *self.type_quals[1:],
-                )
+                *quals[:i],
+                *self.type_quals[1:j],
+                *quals[i:],
+                *self.type_quals[j:],
             ),
         )
 
-- 
2.43.0


From 15b4202d89d4b58715948c3c26441b70a374d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:44 +0000
Subject: [PATCH 28/49] fix: wrap functions declared with a calling convention

---
 pyclibrary/c_library.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index ba39a66..96f89ea 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -18,7 +18,7 @@ from inspect import cleandoc
 from threading import RLock
 from weakref import WeakValueDictionary
 
-from .c_parser import CParser
+from .c_parser import CParser, Type
 from .utils import LibraryPath, find_library
 
 logger = logging.getLogger(__name__)
@@ -409,7 +409,7 @@ class CFunction(object):
         self.sig[1] = [s for s in sig[1] if s[1] != ("void",)]
         for conv in ["__stdcall", "__cdecl"]:
             if conv in self.sig[0]:
-                self.sig[0].remove(conv)
+                self.sig[0] = Type(*[t for t in self.sig[0] if t != conv])
         self.name = name
         self.res_type = lib._get_type(self.sig[0])
         self.arg_types = [lib._get_type(s[1]) for s in self.sig[1]]
-- 
2.43.0


From e017170eed9c153a28d4de5f219c9ada8f08d4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:19 +0000
Subject: [PATCH 29/49] fix: invalidate the cache when copy_from or encoding
 changes

---
 pyclibrary/c_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b29d8f3..6dac9d3 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -504,6 +504,8 @@ class CParser(object):
         self.init_opts = kwargs.copy()
         self.init_opts["files"] = []
         self.init_opts["replace"] = {}
+        self.init_opts["encoding"] = encoding
+        self.init_opts["copy_from"] = []
 
         self.data_list = [
             "types",
@@ -548,6 +550,7 @@ class CParser(object):
                 copy_from = [copy_from]
             for p in copy_from:
                 self.import_dict(p.file_defs)
+                self.init_opts["copy_from"].append(p.file_defs)
 
         if process_all:
             self.process_all(cache=cache, check_cache_validity=check_cache_validity)
-- 
2.43.0


From 9a5c92a5ce6e01a3196d251cc84e72dcc6d4702b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:24 +0000
Subject: [PATCH 30/49] fix: keep object-like macros with a parenthesised body
 object-like

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 6dac9d3..b91c16d 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -861,7 +861,7 @@ class CParser(object):
         # Define the structure of a macro definition
         name = Word(alphas + "_", alphanums + "_")("name")
         # The opening parenthesis must directly follow the macro name
-        fn_lparen = Suppress(Literal("(").leaveWhitespace())
+        fn_lparen = Suppress(Regex(r"(?<=\w)\("))
         deli_list = Optional(fn_lparen + delimitedList(name) + rparen)
         self.pp_define = (
             name.setWhitespaceChars(" \t")("macro")
-- 
2.43.0


From 901e1a6fa8ab0eefcea343f2ac3a5671c726370a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:27 +0000
Subject: [PATCH 31/49] fix: parse ~ and ! in the expressions of declarations

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index b91c16d..17fe61c 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1856,7 +1856,7 @@ number = floating | integer
 # Miscelaneous
 bi_operator = oneOf("+ - / * | & || && ! ~ ^ % == != > < >= <= -> . :: << >> = ? :")
 uni_right_operator = oneOf("++ --")
-uni_left_operator = oneOf("++ -- - + * sizeof new")
+uni_left_operator = oneOf("++ -- - + * ~ ! sizeof new")
 wordchars = alphanums + "_$"
 name = WordStart(wordchars) + Word(alphas + "_", alphanums + "_$") + WordEnd(wordchars)
 size_modifiers = ["short", "long"]
-- 
2.43.0


From 414b2397d5b7c455de2a40c9dace225d58bca26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:37 +0000
Subject: [PATCH 32/49] fix: parse unnamed parameters of pointer to function or
 array type

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 17fe61c..c095c49 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1247,8 +1247,8 @@ class CParser(object):
             type_qualifier("first_typequal")
             + Group(ZeroOrMore(Group(Suppress("*") + type_qualifier)))("ptrs")
             + (
-                (Optional("&")("ref"))
-                | (lparen + self.abstract_declarator + rparen)("center")
+                (lparen + ~rparen + self.abstract_declarator + rparen)("center")
+                | (Optional("&")("ref"))
             )
             + Optional(
                 lparen
-- 
2.43.0


From a9430554c86f88249e5fd7ecf9a155d0bb5f7131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:12 +0000
Subject: [PATCH 33/49] fix: record the parameters of unnamed pointers to
 functions

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index c095c49..96fb7f8 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1256,7 +1256,7 @@ class CParser(object):
                     delimitedList(
                         Group(
                             self.type_spec("type")
-                            + self.abstract_declarator("decl")
+                            + Group(self.declarator | self.abstract_declarator)("decl")
                             + Optional(
                                 Literal("=").suppress() + expression, default=None
                             )("val")
-- 
2.43.0


From 300b56fe21ec83131a7c6e999afb3e7e16e2ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:34 +0000
Subject: [PATCH 34/49] fix: build pointers to function pointers

---
 pyclibrary/backends/ctypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 991bd04..5323c32 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -261,7 +261,7 @@ class CTypesCLibrary(CLibrary):
                     for i in [0, 1]:
                         if len(mods) < 1:
                             break
-                        if mods[0] == "*":
+                        if mods[0] == "*" and not is_ptr:
                             mods.pop(0)
                             is_ptr = True
                         elif mods[0] in ["__stdcall", "__cdecl"]:
-- 
2.43.0


From dd32482bd02e2a31156ed4335b7593810c93585c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:44 +0000
Subject: [PATCH 35/49] fix: build pointers to functions without arguments

---
 pyclibrary/backends/ctypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 5323c32..6f59e9a 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -279,7 +279,8 @@ class CTypesCLibrary(CLibrary):
                     else:
                         mkfn = CFUNCTYPE
 
-                    args = [self._get_type(arg[1]) for arg in m]
+                    # A lone void means that there is no argument
+                    args = [self._get_type(arg[1]) for arg in m if arg[1] != ("void",)]
                     cls = mkfn(cls, *args)
 
                 else:
-- 
2.43.0


From ac1cbfcffe951ab8abb8c5b3c77b028b784becab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:11 +0000
Subject: [PATCH 36/49] fix: build structures having unnamed bit fields

---
 pyclibrary/backends/ctypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 6f59e9a..0ac620d 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -328,7 +328,9 @@ class CTypesCLibrary(CLibrary):
                         if name not in members:
                             d = (name, *d[1:])
                             defs[i] = d
-                            anon.append(name)
+                            # An unnamed bit field has no member to expose
+                            if len(d) < 4:
+                                anon.append(name)
                             break
                         c += 1
                 members.append(d[0])
-- 
2.43.0


From a534dbcde1fe323145bd82a327e66b17ea644521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:30 +0000
Subject: [PATCH 37/49] fix: do not let an object used before hide one without
 prefix

---
 pyclibrary/c_library.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 96f89ea..821548a 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -264,16 +264,15 @@ class CLibrary(object, metaclass=CLibraryMeta):
         names = self._all_names_(name)
         objs = self._objs_[typ]
 
-        for n in names:
-            if n in objs:
-                return objs[n]
-
         for n in names:  # try with and without prefix
             if n not in self._defs_[typ] and not (
                 typ in ["structs", "unions", "enums"] and n in self._defs_["types"]
             ):
                 continue
 
+            if n in objs:
+                return objs[n]
+
             if typ == "values":
                 return self._defs_[typ][n]
             elif typ == "functions":
-- 
2.43.0


From d9cfadc90dd6e4b02afdfe536983437f9dcb1dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:44 +0000
Subject: [PATCH 38/49] fix: recognise an open library whatever way it is
 designated

---
 pyclibrary/c_library.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyclibrary/c_library.py b/pyclibrary/c_library.py
index 821548a..8ddc746 100644
--- a/pyclibrary/c_library.py
+++ b/pyclibrary/c_library.py
@@ -76,6 +76,7 @@ class CLibraryMeta(type):
             lib_path = get_library_path(lib, backend)
 
         # Check whether or not this library has already been opened.
+        lib_path = os.path.realpath(lib_path)
         if lib_path in cls.libs:
             return cls.libs[lib_path]
 
-- 
2.43.0


From d181f1e393c8ff7d001cc7a41cb1b5d7825ca48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:35 +0000
Subject: [PATCH 39/49] fix: do not name an unnamed member as one declared
 after it

---
 pyclibrary/backends/ctypes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 0ac620d..8415484 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -318,7 +318,7 @@ class CTypesCLibrary(CLibrary):
                 s._pack_ = defn["pack"]
 
             # Assign names to anonymous members
-            members = []
+            members = [d[0] for d in defs]
             anon = []
             for i, d in enumerate(defs):
                 if d[0] is None:
@@ -331,9 +331,9 @@ class CTypesCLibrary(CLibrary):
                             # An unnamed bit field has no member to expose
                             if len(d) < 4:
                                 anon.append(name)
+                            members[i] = name
                             break
                         c += 1
-                members.append(d[0])
 
             s._anonymous_ = anon
             # Handle bit field specifications, ctypes only supports bit fields
-- 
2.43.0


From 8b8ff3345216fbd419cf17b5480e6531bdfa46d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:58 +0000
Subject: [PATCH 40/49] fix: do not keep the class of a struct which could not
 be built

---
 pyclibrary/backends/ctypes.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyclibrary/backends/ctypes.py b/pyclibrary/backends/ctypes.py
index 8415484..60db556 100644
--- a/pyclibrary/backends/ctypes.py
+++ b/pyclibrary/backends/ctypes.py
@@ -339,12 +339,17 @@ class CTypesCLibrary(CLibrary):
             # Handle bit field specifications, ctypes only supports bit fields
             # for integer but I am not sure how to test for it in a nice
             # fashion.
-            s._fields_ = [
-                (m[0], self._get_type(m[1]))
-                if len(m) < 4
-                else (m[0], self._get_type(m[1]), m[3])
-                for m in defs
-            ]
+            try:
+                s._fields_ = [
+                    (m[0], self._get_type(m[1]))
+                    if len(m) < 4
+                    else (m[0], self._get_type(m[1]), m[3])
+                    for m in defs
+                ]
+            except Exception:
+                # Do not give an unfinished class at the next look up
+                del self._structs_[str_name]
+                raise
             s._defaults_ = [m[2] for m in defs]
 
         return self._structs_[str_name]
-- 
2.43.0


From e7e06448a1cd334b8c41187f735f4268a65cd6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:09 +0000
Subject: [PATCH 41/49] fix: drop null directives and line markers

---
 pyclibrary/c_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 96fb7f8..9b3d1ff 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -875,7 +875,7 @@ class CParser(object):
 
         result = []
 
-        directive = re.compile(r"\s*#\s*([a-zA-Z]+)(.*)$")
+        directive = re.compile(r"\s*#\s*([a-zA-Z]*)(.*)$")
         if_true = [True]
         if_hit = []
         for i, line in enumerate(lines):
-- 
2.43.0


From 7b164da17274873e18d67e4e8e7c51061c9cca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 42/49] fix: do not take the beginning of an identifier with $
 for a keyword

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 9b3d1ff..823d769 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1766,7 +1766,8 @@ class CParser(object):
 
 def kwl(strs):
     """Generate a match-first list of keywords given a list of strings."""
-    return Regex(r"\b({})\b".format("|".join(strs)))
+    # $ is part of identifiers as well
+    return Regex(r"\b({})\b(?!\$)".format("|".join(strs)))
 
 
 def split_macro_args(text):
-- 
2.43.0


From 3b93dac2cf125743a0a73d8f7a2a7cf224a85d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:48 +0000
Subject: [PATCH 43/49] fix: join adjacent string literals in declarations

---
 pyclibrary/c_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 823d769..09ac2a7 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1971,7 +1971,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
                 | ident + OneOrMore("[" + expression + "]")
                 | ident
                 | number
-                | quotedString
+                | OneOrMore(quotedString)
             )
             | ("(" + expression + ")")
         )
@@ -1986,7 +1986,7 @@ def _init_cparser(extra_types=None, extra_modifiers=None):
                 | ident + OneOrMore("[" + expression + "]")
                 | ident
                 | number
-                | quotedString
+                | OneOrMore(quotedString)
             )
             | ("(" + expression + ")")
         )
-- 
2.43.0


From 5b4e3aa6adb1694998cc2919b63ea64c3b10b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 44/49] fix: read floating constants with several digits or a
 suffix

---
 pyclibrary/c_parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 09ac2a7..a787c94 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1851,7 +1851,9 @@ decint = Regex(r"[+-]?\s*\b[0-9]+[uUlL]*").setParseAction(int_strip)
 integer = hexint | decint
 # The floating regex is ugly but it is because we do not want to match
 # integer to it.
-floating = Regex(r"[+-]?\s*((((\d(\.\d*)?)|(\.\d+))[eE][+-]?\d+)|((\d\.\d*)|(\.\d+)))")
+floating = Regex(
+    r"[+-]?\s*(?<![\w$.])((\d+(\.\d*)?|\.\d+)[eE][+-]?\d+|\d+\.\d*|\.\d+)[fFlL]?"
+).setParseAction(lambda t: t[0].rstrip("fFlL"))
 number = floating | integer
 
 # Miscelaneous
-- 
2.43.0


From 2a7a1ac51eafc97a08e73a5f775de6ddd0b618e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:03 +0000
Subject: [PATCH 45/49] fix: read octal constants

---
 pyclibrary/c_parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index a787c94..fe01974 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1600,14 +1600,14 @@ class CParser(object):
                     if len(m[0].decl_list) == 0:  # anonymous member
                         member = [None, Type(typ[0]), None]
                         if m[0].bit:
-                            member.append(int(m[0].bit))
+                            member.append(int(m[0].bit, 0))
                         struct.append(tuple(member))
 
                     for d in m[0].decl_list:
                         (name, decl) = self.process_type(typ, d)
                         member = [name, decl, val]
                         if m[0].bit:
-                            member.append(int(m[0].bit))
+                            member.append(int(m[0].bit, 0))
                         struct.append(tuple(member))
                         logger.debug(
                             "      {} {} {} {}".format(name, decl, val, m[0].bit)
@@ -1845,7 +1845,11 @@ rparen = Literal(")").ignore(quotedString).suppress()
 literals = r"""(?:"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*')"""
 
 # Numbers
-int_strip = lambda t: t[0].rstrip("uUlL")  # noqa
+def int_strip(t):
+    """Strip the suffix of an integer and write an octal one as Python does."""
+    return re.sub(r"^([+-]?\s*)0+(?=[0-7]+$)", r"\g<1>0o", t[0].rstrip("uUlL"))
+
+
 hexint = Regex(r"[+-]?\s*\b0[xX][{}]+[uUlL]*".format(hexnums)).setParseAction(int_strip)
 decint = Regex(r"[+-]?\s*\b[0-9]+[uUlL]*").setParseAction(int_strip)
 integer = hexint | decint
-- 
2.43.0


From c3fbd8768450df797291159904a780d257c4eea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:54 +0000
Subject: [PATCH 46/49] fix: read an initialiser for each declarator

---
 pyclibrary/c_parser.py | 41 ++++++++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index fe01974..0ff4a8b 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1318,22 +1318,25 @@ class CParser(object):
         self.type_decl.setParseAction(self.process_typedef)
 
         # Variable declaration
+        init_declarator = Group(
+            self.declarator("decl")
+            + Optional(
+                Literal("=").suppress()
+                + (
+                    expression("value")
+                    | (
+                        lbrace
+                        + Group(delimitedList(expression))("array_values")
+                        + rbrace
+                    )
+                )
+            )
+        )
         self.variable_decl = (
             Group(
                 storage_class_spec
                 + self.type_spec("type")
-                + Optional(self.declarator_list("decl_list"))
-                + Optional(
-                    Literal("=").suppress()
-                    + (
-                        expression("value")
-                        | (
-                            lbrace
-                            + Group(delimitedList(expression))("array_values")
-                            + rbrace
-                        )
-                    )
-                )
+                + Optional(Group(delimitedList(init_declarator))("decl_list"))
             )
             + semi
         )
@@ -1361,7 +1364,11 @@ class CParser(object):
             Group(
                 Group(
                     self.type_spec("type")
-                    + Optional(self.declarator_list("decl_list"))
+                    + Optional(
+                        Group(delimitedList(Group(self.declarator("decl"))))(
+                            "decl_list"
+                        )
+                    )
                     + colon
                     + integer("bit")
                     + semi
@@ -1592,7 +1599,6 @@ class CParser(object):
                 struct = []
                 for m in t.members:
                     typ = m[0].type
-                    val = self.eval_expr(m[0].value)
                     logger.debug(
                         "    member: {}, {}, {}".format(m, m[0].keys(), m[0].decl_list)
                     )
@@ -1604,7 +1610,8 @@ class CParser(object):
                         struct.append(tuple(member))
 
                     for d in m[0].decl_list:
-                        (name, decl) = self.process_type(typ, d)
+                        val = self.eval_expr(d.value)
+                        (name, decl) = self.process_type(typ, d.decl[0])
                         member = [name, decl, val]
                         if m[0].bit:
                             member.append(int(m[0].bit, 0))
@@ -1625,9 +1632,9 @@ class CParser(object):
         """ """
         logger.debug("VARIABLE: {}".format(t))
         try:
-            val = self.eval_expr(t[0])
             for d in t[0].decl_list:
-                (name, typ) = self.process_type(t[0].type, d)
+                val = self.eval_expr(d)
+                (name, typ) = self.process_type(t[0].type, d.decl[0])
                 # This is a function prototype
                 if type(typ[-1]) is tuple:
                     logger.debug(
-- 
2.43.0


From d8e1edb33320dc138ff77916734af04ddde644c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:29 +0000
Subject: [PATCH 47/49] fix: keep the type of an unnamed member with a
 qualifier

---
 pyclibrary/c_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 0ff4a8b..7674ae5 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1604,7 +1604,8 @@ class CParser(object):
                     )
 
                     if len(m[0].decl_list) == 0:  # anonymous member
-                        member = [None, Type(typ[0]), None]
+                        quals = tuple(typ.get("pre_qual", []))
+                        member = [None, Type(typ["name"], type_quals=(quals,)), None]
                         if m[0].bit:
                             member.append(int(m[0].bit, 0))
                         struct.append(tuple(member))
-- 
2.43.0


From a1c9ed9b93bd7b43279232521e48246cc42e205a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:58 +0000
Subject: [PATCH 48/49] fix: read a bit width for each declarator

---
 pyclibrary/c_parser.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index 7674ae5..aaccf20 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1357,6 +1357,9 @@ class CParser(object):
         # Struct definition
         self.struct_decl = Forward()
         struct_kw = Keyword("struct") | Keyword("union")
+        bit_declarator = Group(
+            Optional(self.declarator("decl")) + colon + integer("bit")
+        ) | Group(self.declarator("decl"))
         self.struct_member = (
             Group(self.variable_decl.copy().setParseAction(lambda: None))
             |
@@ -1364,13 +1367,7 @@ class CParser(object):
             Group(
                 Group(
                     self.type_spec("type")
-                    + Optional(
-                        Group(delimitedList(Group(self.declarator("decl"))))(
-                            "decl_list"
-                        )
-                    )
-                    + colon
-                    + integer("bit")
+                    + Group(delimitedList(bit_declarator))("decl_list")
                     + semi
                 )
             )
@@ -1603,22 +1600,24 @@ class CParser(object):
                         "    member: {}, {}, {}".format(m, m[0].keys(), m[0].decl_list)
                     )
 
-                    if len(m[0].decl_list) == 0:  # anonymous member
-                        quals = tuple(typ.get("pre_qual", []))
-                        member = [None, Type(typ["name"], type_quals=(quals,)), None]
-                        if m[0].bit:
-                            member.append(int(m[0].bit, 0))
-                        struct.append(tuple(member))
+                    # anonymous members, bit fields among them
+                    quals = tuple(typ.get("pre_qual", []))
+                    anonymous = Type(typ["name"], type_quals=(quals,))
+                    if len(m[0].decl_list) == 0:
+                        struct.append((None, anonymous, None))
 
                     for d in m[0].decl_list:
                         val = self.eval_expr(d.value)
-                        (name, decl) = self.process_type(typ, d.decl[0])
+                        if "decl" in d:
+                            (name, decl) = self.process_type(typ, d.decl[0])
+                        else:
+                            (name, decl) = (None, anonymous)
                         member = [name, decl, val]
-                        if m[0].bit:
-                            member.append(int(m[0].bit, 0))
+                        if d.bit:
+                            member.append(int(d.bit, 0))
                         struct.append(tuple(member))
                         logger.debug(
-                            "      {} {} {} {}".format(name, decl, val, m[0].bit)
+                            "      {} {} {} {}".format(name, decl, val, d.bit)
                         )
 
                 str_cls = Struct if str_typ == "struct" else Union
-- 
2.43.0


From e1b68dec04ee76ab1e3edbc9004739ffd32a61aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:32 +0000
Subject: [PATCH 49/49] fix: give every declarator the qualifier after the base
 type

---
 pyclibrary/c_parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyclibrary/c_parser.py b/pyclibrary/c_parser.py
index aaccf20..89e559a 100644
--- a/pyclibrary/c_parser.py
+++ b/pyclibrary/c_parser.py
@@ -1223,7 +1223,9 @@ class CParser(object):
         if extra_modifier is not None:
             type_ += extra_modifier
         type_.setParseAction(recombine)
-        self.type_spec = Group(type_qualifier("pre_qual") + type_("name"))
+        self.type_spec = Group(
+            type_qualifier("pre_qual") + type_("name") + type_qualifier("post_qual")
+        )
 
         # --- Abstract declarators for use in function pointer arguments
         #   Thus begins the extremely hairy business of parsing C declarators.
@@ -1492,10 +1494,10 @@ class CParser(object):
         """
         logger.debug("PROCESS TYPE/DECL: {}/{}".format(typ["name"], decl))
         (name, decl, quals) = self.process_declarator(decl)
-        pre_typequal = tuple(typ.get("pre_qual", []))
+        base_typequal = (*typ.get("pre_qual", []), *typ.get("post_qual", []))
         return (
             name,
-            Type(typ["name"], *decl, type_quals=(pre_typequal + quals[0], *quals[1:])),
+            Type(typ["name"], *decl, type_quals=(base_typequal + quals[0], *quals[1:])),
         )
 
     def process_enum(self, s, line, t):
@@ -1601,7 +1603,7 @@ class CParser(object):
                     )
 
                     # anonymous members, bit fields among them
-                    quals = tuple(typ.get("pre_qual", []))
+                    quals = (*typ.get("pre_qual", []), *typ.get("post_qual", []))
                     anonymous = Type(typ["name"], type_quals=(quals,))
                     if len(m[0].decl_list) == 0:
                         struct.append((None, anonymous, None))
-- 
2.43.0

