From 5997fa6f2132227afe052f0d90a1bba5dea4db43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:44 +0000
Subject: [PATCH 01/93] fix: lexer word and dereference patterns used the range
 A-z

The range [A-z] also matches [ \ ] ^ and backtick, so that an argument such
as \( or [x] was split or taken for a variable name.
---
 cmakelang/lex/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index f7ddcb9..c8bae80 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -147,14 +147,14 @@ def tokenize(contents):
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-z_][a-zA-Z0-9_]*(?![^\s\)\(])",
+      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])@[a-zA-z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
+      (r"(?<![^\s\(])@[a-zA-Z_][a-zA-Z0-9_]*@(?![^\s\)\(])",
        lambda s, t: (TokenType.ATWORD, t)),
       # A variable dereference ${<word>}
-      (r"(?<![^\s\(])\${[a-zA-z_][a-zA-Z0-9_]*}(?![^\s\)])",
+      (r"(?<![^\s\(])\${[a-zA-Z_][a-zA-Z0-9_]*}(?![^\s\)])",
        lambda s, t: (TokenType.DEREF, t)),
       # unquoted_legacy
       (legacy_pattern,
-- 
2.43.0


From 51d7269ffa99bedafb93c6300a63c162c72da829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:29 +0000
Subject: [PATCH 02/93] fix: accept a command with fewer arguments than its
 exact positional count

---
 cmakelang/parse/argument_nodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 7974758..25f4a11 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -161,6 +161,9 @@ class StandardArgTree(ArgGroupNode):
         if not npargs_is_exact(pspec.nargs) or pspec.nargs == 0:
           break
 
+        if tokens[0].type == lex.TokenType.RIGHT_PAREN:
+          break
+
       ntokens = len(tokens)
       word = get_normalized_kwarg(tokens[0])
       if word in kwargs:
-- 
2.43.0


From 9c2fd8d279d786616356ff27d84b1b1f7cb761d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:52 +0000
Subject: [PATCH 03/93] fix: accept set() and foreach() without values and
 add_library(name) at end of file

---
 cmakelang/parse/funs/add_library.py |  4 +++-
 cmakelang/parse/funs/foreach.py     | 10 +++++-----
 cmakelang/parse/funs/set.py         |  4 ++--
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index bff1df7..ac01c17 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -264,7 +264,9 @@ def parse_add_library(ctx, tokens, breakstack):
   # sortability unless it is a word that doesn't match any of the descriminator
   # flags
   sortable = True
-  if "${" in second_token.spelling or "${" in third_token.spelling:
+  if "${" in second_token.spelling:
+    sortable = False
+  elif third_token is not None and "${" in third_token.spelling:
     sortable = False
   return parse_add_library_standard(ctx, tokens, breakstack, sortable)
 
diff --git a/cmakelang/parse/funs/foreach.py b/cmakelang/parse/funs/foreach.py
index 17bf40f..aad024c 100644
--- a/cmakelang/parse/funs/foreach.py
+++ b/cmakelang/parse/funs/foreach.py
@@ -40,14 +40,14 @@ def parse_foreach_standard(ctx, tokens, breakstack):
   # Consume the loop variable and any attached comments
   ntokens = len(tokens)
   subtree = PositionalGroupNode.parse(ctx, tokens, 1, [], breakstack)
-  assert len(tokens) < ntokens
-  tree.children.append(subtree)
+  if len(tokens) < ntokens:
+    tree.children.append(subtree)
 
-  # Consume the items of iteration
+  # Consume the items of iteration, if there are any
   ntokens = len(tokens)
   subtree = PositionalGroupNode.parse(ctx, tokens, '+', [], breakstack)
-  assert len(tokens) < ntokens
-  tree.children.append(subtree)
+  if len(tokens) < ntokens:
+    tree.children.append(subtree)
 
   return tree
 
diff --git a/cmakelang/parse/funs/set.py b/cmakelang/parse/funs/set.py
index c877bbe..c3219b4 100644
--- a/cmakelang/parse/funs/set.py
+++ b/cmakelang/parse/funs/set.py
@@ -50,8 +50,8 @@ def parse_set(ctx, tokens, breakstack):
   ntokens = len(tokens)
   subtree = PositionalGroupNode.parse(
       ctx, tokens, 1, flags, positional_breakstack)
-  assert len(tokens) < ntokens
-  tree.children.append(subtree)
+  if len(tokens) < ntokens:
+    tree.children.append(subtree)
   for token in subtree.get_semantic_tokens():
     tree.varname = token
     break
-- 
2.43.0


From 10edfff541a81669833eb59023808c4c36aef7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 04/93] fix: drop blank lines at the start of a file

Two or more leading blank lines became one, and the next run removed that
one as well, so that formatting was not idempotent.
---
 cmakelang/format/formatter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 06a345b..2e0489a 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1773,6 +1773,11 @@ def layout_tree(parsetree_root, config, linewidth=None, first_token=None):
     linewidth = config.format.linewidth
 
   root_box = create_box_tree(parsetree_root)
+  # NOTE: blank lines at the start of the file separate nothing. If they were
+  # preserved they would be counted differently the next time around.
+  while (root_box.children
+         and root_box.children[0].node_type == NodeType.WHITESPACE):
+    root_box.children.pop(0)
   root_box.lock(config)
   stack_context = StackContext(config, first_token)
   root_box.reflow(stack_context, Cursor(0, 0))
-- 
2.43.0


From b4dee19d219697b63c47e8c653f8c2ebe90c0a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 05/93] fix: a trailing bracket comment next to a line comment
 was dropped

---
 cmakelang/parse/simple_nodes.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/cmakelang/parse/simple_nodes.py b/cmakelang/parse/simple_nodes.py
index c971e19..6502bae 100644
--- a/cmakelang/parse/simple_nodes.py
+++ b/cmakelang/parse/simple_nodes.py
@@ -136,10 +136,18 @@ class CommentNode(TreeNode):
     node = cls()
     node.is_implicit_trailing = True
     parent.children.append(node)
-    comment_tokens = node.children
+
+    if tokens[0].type == lex.TokenType.BRACKET_COMMENT:
+      # Bracket comments get their own node, see `consume()`.
+      node.children.append(tokens.pop(0))
+      return
+
+    def is_line(token):
+      return (token.type == lex.TokenType.COMMENT
+              and is_valid_trailing_comment(token))
 
     comment_tokens = []
-    while tokens and is_valid_trailing_comment(tokens[0]):
+    while tokens and is_line(tokens[0]):
       if (comment_tokens and
           not are_column_aligned(comment_tokens[-1], tokens[0])):
         break
@@ -152,7 +160,7 @@ class CommentNode(TreeNode):
       # a single block
       if (len(tokens) > 1 and
           tokens[0].type == lex.TokenType.NEWLINE and
-          is_valid_trailing_comment(tokens[1])):
+          is_line(tokens[1])):
         node.children.append(tokens.pop(0))
 
       # Multiple comments separated only by one newline and some whitespace are
@@ -162,7 +170,7 @@ class CommentNode(TreeNode):
       elif (len(tokens) > 2 and
             tokens[0].type == lex.TokenType.NEWLINE and
             tokens[1].type == lex.TokenType.WHITESPACE and
-            is_valid_trailing_comment(tokens[2])):
+            is_line(tokens[2])):
         node.children.append(tokens.pop(0))
         node.children.append(tokens.pop(0))
 
-- 
2.43.0


From dba3b9795f6d0800c8c8fa58e4a878b8659fda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:11 +0000
Subject: [PATCH 06/93] fix: keep trailing whitespace inside of multi-line
 arguments

It is part of the value of the argument.
---
 cmakelang/format/formatter.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 2e0489a..adb0b4e 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -110,6 +110,14 @@ def normalize_line_endings(instr):
   return re.sub('[ \t\f\v]*((\r?\n)|(\r\n?))', '\n', instr)
 
 
+def normalize_newlines(instr):
+  """
+  Replace line endings with unix line endings, without any other change. They
+  will be replaced with config.endl during output
+  """
+  return instr.replace('\r\n', '\n')
+
+
 def count_indentation(linestr):
   """return the number of spaces at the start of the line"""
   for idx, char in enumerate(linestr):
@@ -659,7 +667,7 @@ class ScalarNode(LayoutNode):
 
     # This might be a multiline string or a multiline bracket argument. In
     # that case we need to normalize line endings and flow each line
-    lines = normalize_line_endings(token.spelling).split('\n')
+    lines = normalize_newlines(token.spelling).split('\n')
     line = lines.pop(0)
     cursor[1] += len(line)
     self._colextent = cursor[1]
@@ -698,7 +706,7 @@ class ScalarNode(LayoutNode):
     token = self.pnode.children[0]
     assert isinstance(token, lex.Token)
 
-    spelling = normalize_line_endings(token.spelling)
+    spelling = normalize_newlines(token.spelling)
     if self.node_type == NodeType.FUNNAME:
       command_case = config.resolve_for_command(
           token.spelling, "format.command_case")
-- 
2.43.0


From 9705321ea4237e1a8dd10b35836473e9aeecbb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 07/93] fix: cmake-format: off regions lost text

An off that is never turned on dropped the rest of the file, a second off
dropped the text between the two, and a byte order mark shifted every copied
region by three bytes.
---
 cmakelang/format/formatter.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index adb0b4e..c325fa8 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -788,6 +788,9 @@ class OnOffSwitchNode(LayoutNode):
         ctx.offswitch_location = None
         ctx.outfile.forge_cursor(self.position)
     elif token.type == TokenType.FORMAT_OFF:
+      if not ctx.is_active():
+        # Already off, this one is part of what is copied verbatim
+        return
       spelling = "# cmake-format: off"
       ctx.offswitch_location = token.end
 
@@ -1987,8 +1990,10 @@ class CursorFile(object):
       self._cursor[0] += copy_text.count('\n')
       self._cursor[1] = len(copy_text.split('\n')[-1])
 
-  def getvalue(self):
-    return self._fobj.getvalue() + self._config.format.endl
+  def getvalue(self, with_endl=True):
+    if with_endl:
+      return self._fobj.getvalue() + self._config.format.endl
+    return self._fobj.getvalue()
 
 
 class WriteContext(object):
@@ -2005,6 +2010,9 @@ class WriteContext(object):
 
     # NOTE(josh): must be BytesIO because we use byte-offsets for raw
     # transcription (i.e. between cmake-format: off and cmake-format: on)
+    # NOTE: the byte offsets of tokens don't count the byte order mark
+    if infile_content.startswith("\ufeff"):
+      infile_content = infile_content[1:]
     self.infile = io.BytesIO(bytearray(infile_content, 'utf-8'))
     self.outfile = CursorFile(config)
 
@@ -2023,4 +2031,10 @@ def write_tree(root_box, config, infile_content):
     logging.warning("'# cmake-format: off' is never turned back 'on'"
                     "at %d:%d", ctx.offswitch_location.line,
                     ctx.offswitch_location.col)
+    # Everything up to the end of the file is protected
+    ctx.infile.seek(ctx.offswitch_location.offset, 0)
+    remainder = ctx.infile.read().decode('utf-8')
+    ctx.outfile.write(remainder)
+    if remainder.endswith("\n"):
+      return ctx.outfile.getvalue(with_endl=False)
   return ctx.outfile.getvalue()
-- 
2.43.0


From bd669f0cb3685f17e1adf5a8a90d8b6921602bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 08/93] fix: line ending of off/on tags, and first comment
 after a byte order mark

The carriage return of a CRLF file was taken for a part of the tag and lost,
and with a byte order mark the first comment was not recognised as such.
---
 cmakelang/lex/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index c8bae80..7033f1a 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -172,9 +172,10 @@ def tokenize(contents):
       # NOTE(josh): don't match '\s' here or we'll miss some newline tokens
       # TODO(josh): should we match unicode whitespace too?
       (r"[ \t\f\v]+", lambda s, t: (TokenType.WHITESPACE, t)),
-      (r"#\s*(cmake-format|cmf): off[^\n]*",
+      # NOTE: the line ending is not part of the tag, whichever it is
+      (r"#\s*(cmake-format|cmf): off[^\n]*?(?=\r*(?:\n|\Z))",
        lambda s, t: (TokenType.FORMAT_OFF, t)),
-      (r"#\s*(cmake-format|cmf): on[^\n]*",
+      (r"#\s*(cmake-format|cmf): on[^\n]*?(?=\r*(?:\n|\Z))",
        lambda s, t: (TokenType.FORMAT_ON, t)),
       # bracket comment
       (r"#\[(=*)\[.*?\]\1\]", lambda s, t: (TokenType.BRACKET_COMMENT, t)),
@@ -252,6 +253,7 @@ def get_first_non_whitespace_token(tokens):
   Return the first token in the list that is not whitespace, or None
   """
   for token in tokens:
-    if token.type not in (TokenType.WHITESPACE, TokenType.NEWLINE):
+    if token.type not in (TokenType.WHITESPACE, TokenType.NEWLINE,
+                          TokenType.BYTEORDER_MARK):
       return token
   return None
-- 
2.43.0


From 3f7ec7257c95239c7c8750adccdf2601d6d36832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:30 +0000
Subject: [PATCH 09/93] fix: use_tabchars replaced spaces inside of multi-line
 arguments

Only indentation is made of tabs, not the content of strings, bracket
arguments and protected regions.
---
 cmakelang/format/__main__.py  |  1 -
 cmakelang/format/formatter.py | 52 ++++++++++++++---------------------
 2 files changed, 21 insertions(+), 32 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index bbcbf98..89086f8 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -172,7 +172,6 @@ def process_file(config, infile_content, dump=None):
   if config.encode.emit_byteorder_mark:
     outstr = "\ufeff" + outstr
 
-  outstr = formatter.replace_with_tabs(outstr, config)
   return (outstr, box_tree.reflow_valid)
 
 
diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index c325fa8..e6472eb 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -118,40 +118,27 @@ def normalize_newlines(instr):
   return instr.replace('\r\n', '\n')
 
 
-def count_indentation(linestr):
-  """return the number of spaces at the start of the line"""
-  for idx, char in enumerate(linestr):
-    if char != ' ':
-      return idx
-  return 0
-
-
-def replace_with_tabs(content, config):
+def get_indentation(num_spaces, config):
   """
-  Apply the tab policy to `content`. If config.use_tabchars is true, then
-  replace spaces at the beginning of every line with tabs according to
+  Return the indentation equivalent to `num_spaces`, according to the tab
+  policy: if config.use_tabchars is true then it is made of tabs according to
   config.tab_size and config.fractional_tab_policy.
   """
   if not config.format.use_tabchars:
-    return content
-
-  outlines = []
-  for inline in content.split("\n"):
-    num_spaces = count_indentation(inline)
-    num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
-    outline = "\t" * num_tabs
-    if fractional:
-      if config.format.fractional_tab_policy == "use-space":
-        outline += " " * fractional
-      elif config.format.fractional_tab_policy == "round-up":
-        outline += "\t"
-      else:
-        raise UserError(
-            "Invalid fractional_tab_policy='{}'"
-            .format(config.format.fractional_tab_policy))
-    outline += inline[num_spaces:]
-    outlines.append(outline)
-  return "\n".join(outlines)
+    return " " * num_spaces
+
+  num_tabs, fractional = divmod(num_spaces, config.format.tab_size)
+  indentation = "\t" * num_tabs
+  if fractional:
+    if config.format.fractional_tab_policy == "use-space":
+      indentation += " " * fractional
+    elif config.format.fractional_tab_policy == "round-up":
+      indentation += "\t"
+    else:
+      raise UserError(
+          "Invalid fractional_tab_policy='{}'"
+          .format(config.format.fractional_tab_policy))
+  return indentation
 
 
 def need_paren_space(spelling, config):
@@ -1963,7 +1950,10 @@ class CursorFile(object):
 
     cols = (cursor[1] - self._cursor[1])
     if cols:
-      self._fobj.write(' ' * cols)
+      if self._cursor[1]:
+        self._fobj.write(' ' * cols)
+      else:
+        self._fobj.write(get_indentation(cols, self._config))
       self._cursor[1] += cols
 
     lines = text.split('\n')
-- 
2.43.0


From f0965a1ec6d802682f23358b11e501a19c35e3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:37 +0000
Subject: [PATCH 10/93] fix: a flag or argument where no positional arguments
 are declared was an error

ctest_memcheck(APPEND), and an argument after a keyword declared with zero
arguments, were rejected as internal error.
---
 cmakelang/parse/argument_nodes.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 25f4a11..ebf77eb 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -177,6 +177,14 @@ class StandardArgTree(ArgGroupNode):
         else:
           pspec = default_spec
 
+        if npargs_is_exact(pspec.nargs) and pspec.nargs == 0:
+          # There is an argument where the specification doesn't allow any. If
+          # we are a keyword, then it belongs to the parent. Otherwise it is
+          # either a flag, or something we don't know.
+          if ctx.argstack and isinstance(ctx.argstack[-1], KeywordGroupNode):
+            break
+          pspec = pspec.replace(nargs="*")
+
         other_flags = []
         for otherspec in pargspecs:
           for flag in otherspec.flags:
-- 
2.43.0


From 457062a01d5a9a81480da76c0b24df2cdca0cc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 11/93] fix: a number at the start of a line within an
 enumeration was lost

---
 cmakelang/markup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 1432ff1..4e32a0e 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -134,7 +134,7 @@ def parse(lines, config=None):
         # TODO(josh) We want to match lines with either the same number of
         # spaces or with the colon in the same column
         bullet_regex = re.compile(
-            r'^{}\d+{}( .*)$'.format(indent_str, bullet_punctuation))
+            r'^{}\d+{}( .*)$'.format(indent_str, re.escape(bullet_punctuation)))
         continue
 
       if NOTE_REGEX.match(line):
-- 
2.43.0


From 57f27ac20145ebd62b3fd2148f73b287b3d5ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 12/93] fix: alignment of enumerations of 1, 10 or 100 items

---
 cmakelang/markup.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 4e32a0e..94d8a43 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -3,7 +3,6 @@
 Functions for parsing comments in markup
 """
 from __future__ import unicode_literals
-import math
 import textwrap
 import re
 from cmakelang import common
@@ -231,7 +230,7 @@ def format_item(config, line_width, item):
     outlines = []
     wrapper = textwrap.TextWrapper(width=line_width - 2, **COMMON_KWARGS)
 
-    digits = int(math.ceil(math.log(len(item.lines), 10)))
+    digits = len(str(len(item.lines)))
     fmt = '{:%dd}%s ' % (digits, config.markup.enum_char)
     indent = ' ' * (digits + 2)
 
-- 
2.43.0


From 2ed01087e1a1a6a23b2098b324e6485382913ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:28 +0000
Subject: [PATCH 13/93] fix: comments between the members of a tuple moved
 behind the tuple

---
 cmakelang/parse/additional_nodes.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index d843353..17f314a 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -38,7 +38,6 @@ class TupleGroupNode(ArgGroupNode):
     tree = cls()
     tree.spec = PositionalSpec(ntup, flags=flags, legacy=True)
     subtree = None
-    active_depth = tree
 
     npargs_consumed = 0
     ntup_consumed = 0
@@ -54,6 +53,16 @@ class TupleGroupNode(ArgGroupNode):
       if should_break(tokens[0], breakstack):
         break
 
+      # While a tuple is incomplete, whatever comes between its members belongs
+      # to it.
+      active_depth = tree if subtree is None else subtree
+
+      # If it's a sentinel comment, then add it at the current depth
+      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
+                            lex.TokenType.FORMAT_ON):
+        active_depth.children.append(OnOffNode.consume(ctx, tokens))
+        continue
+
       # Otherwise we will consume the token
       token = tokens.pop(0)
 
@@ -68,16 +77,10 @@ class TupleGroupNode(ArgGroupNode):
       if token.type in (lex.TokenType.COMMENT,
                         lex.TokenType.BRACKET_COMMENT):
         child = CommentNode()
-        tree.children.append(child)
+        active_depth.children.append(child)
         child.children.append(token)
         continue
 
-      # If it's a sentinel comment, then add it at the current depth
-      if tokens[0].type in (lex.TokenType.FORMAT_OFF,
-                            lex.TokenType.FORMAT_ON):
-        tree.children.append(OnOffNode.consume(ctx, tokens))
-        continue
-
       if subtree is None:
         subtree = PositionalGroupNode()
         subtree.spec = PositionalSpec(2, False, [], flags)
-- 
2.43.0


From 3a3d634c606b3305f638fe576829ff03e54264f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:54 +0000
Subject: [PATCH 14/93] fix: layout of a statement depended on the statements
 after it

---
 cmakelang/parse/util.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index 2f060be..a760239 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -340,12 +340,21 @@ def get_next_syntactic_token(tokens):
 def iter_semantic_tokens(tokens):
   """
   Return a generator over the list of tokens yielding only those that
-  have semantic meaning
+  have semantic meaning, up to and including the parenthesis which closes the
+  current argument list.
   """
 
+  depth = 0
   for token in tokens:
-    if is_semantic_token(token):
-      yield token
+    if not is_semantic_token(token):
+      continue
+    yield token
+    if token.type == lex.TokenType.LEFT_PAREN:
+      depth += 1
+    elif token.type == lex.TokenType.RIGHT_PAREN:
+      if depth == 0:
+        break
+      depth -= 1
 
 
 def get_nth_semantic_token(tokens, nth):
-- 
2.43.0


From 5d7a9bc375afa87eeb8bd56749557b31853705eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:21 +0000
Subject: [PATCH 15/93] fix: off and on tags in add_library and add_executable
 were taken for arguments

---
 cmakelang/parse/funs/add_executable.py | 8 +++++++-
 cmakelang/parse/funs/add_library.py    | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 3a59c63..e8dc523 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -4,9 +4,10 @@ from cmakelang import lex
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 
 from cmakelang.parse.util import (
+    ONOFF_TOKENS,
     WHITESPACE_TOKENS,
     get_tag,
     get_normalized_kwarg,
@@ -104,6 +105,11 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in ONOFF_TOKENS:
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index ac01c17..cbcc105 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -4,8 +4,9 @@ from cmakelang.lex import TokenType
 from cmakelang.parse.argument_nodes import (
     ArgGroupNode, PositionalGroupNode, StandardArgTree)
 from cmakelang.parse.common import NodeType, TreeNode
-from cmakelang.parse.simple_nodes import CommentNode
+from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 from cmakelang.parse.util import (
+    ONOFF_TOKENS,
     WHITESPACE_TOKENS,
     get_tag,
     get_normalized_kwarg,
@@ -78,6 +79,11 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
       child.children.append(tokens.pop(0))
       continue
 
+    # If it's a sentinel comment, then add it at the current depth
+    if tokens[0].type in ONOFF_TOKENS:
+      active_depth.children.append(OnOffNode.consume(ctx, tokens))
+      continue
+
     if state_ is parsing_name:
       token = tokens.pop(0)
       parg_group = PositionalGroupNode()
-- 
2.43.0


From 9b26aafdeb8a2ea5353fe4857515f9d489c414cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 16/93] fix: the sort tag was ignored in add_executable

---
 cmakelang/parse/funs/add_executable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index e8dc523..967d5a1 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -98,7 +98,7 @@ def parse_add_executable_standard(ctx, tokens, breakstack, sortable):
       if state_ > parsing_name:
         if get_tag(tokens[0]) in ("unsort", "unsortable"):
           sortable = False
-        elif get_tag(tokens[0]) in ("unsort", "unsortable"):
+        elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
       child = TreeNode(NodeType.COMMENT)
       active_depth.children.append(child)
-- 
2.43.0


From 08d25e72b4c0278ca8918dabf41e4ffdd1341189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 17/93] fix: format regions which begin and end at different
 depths of a statement

---
 cmakelang/format/formatter.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index e6472eb..fa76fbe 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -619,6 +619,9 @@ class ParenNode(LayoutNode):
     return cursor + (0, 1)
 
   def write(self, config, ctx):
+    if not ctx.is_active():
+      return
+
     if self.node_type == NodeType.LPAREN:
       ctx.outfile.write_at(self.position, '(')
     elif self.node_type == NodeType.RPAREN:
@@ -980,11 +983,6 @@ class StatementNode(LayoutNode):
     self._colextent = max(self._colextent, rparen.colextent)
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(StatementNode, self).write(config, ctx)
-
 
 class AtWordStatementNode(LayoutNode):
   """
@@ -1462,11 +1460,6 @@ class ArgGroupNode(LayoutNode):
 
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ArgGroupNode, self).write(config, ctx)
-
 
 class ParenGroupNode(LayoutNode):
   """
@@ -1570,11 +1563,6 @@ class ParenGroupNode(LayoutNode):
       column_cursor[0] = cursor[0]
     return cursor
 
-  def write(self, config, ctx):
-    if not ctx.is_active():
-      return
-    super(ParenGroupNode, self).write(config, ctx)
-
 
 class BodyNode(LayoutNode):
   """
-- 
2.43.0


From 068d1368132c2104dee8293c91e833c7ae8412c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 18/93] fix: declared nargs of a positional specification was
 ignored

---
 cmakelang/parse/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index a760239..bb03f4b 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -64,6 +64,9 @@ class PositionalSpec(tuple):
       tags = []
     if not flags:
       flags = []
+    if isinstance(nargs, STRING_TYPES) and nargs.isdigit():
+      # A string like "3" is an exact number of arguments
+      nargs = int(nargs)
     return tuple.__new__(
         cls, (nargs, sortable, tags, flags, legacy, max_pargs_hwrap,
               always_wrap))
@@ -454,7 +457,7 @@ def parse_pspec(pargs, flags):
 
     if isinstance(pargdecl, dict):
         # A dictionary is interpreted as init kwargs
-      if "npargs" not in pargdecl:
+      if "nargs" not in pargdecl:
         pargdecl = dict(pargdecl)
         pargdecl["nargs"] = ZERO_OR_MORE
       out.append(PositionalSpec(**pargdecl))
-- 
2.43.0


From 934c6cb4cad3a13d5ee50478ffb4375a36b01dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:39 +0000
Subject: [PATCH 19/93] fix: flags of a command with an exact positional count
 were not recognised after them

---
 cmakelang/parse/argument_nodes.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index ebf77eb..a8aaca1 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -107,9 +107,12 @@ class StandardArgTree(ArgGroupNode):
     # TODO(josh): double check the reasoning for this. I think it might be
     # mistaken and unnecessary
     default_spec = DEFAULT_PSPEC
-    if (len(pargspecs) == 1 and pargspecs[0].legacy
-        and not npargs_is_exact(pargspecs[0].nargs)):
-      default_spec = pargspecs.pop(0)
+    if len(pargspecs) == 1 and pargspecs[0].legacy:
+      if npargs_is_exact(pargspecs[0].nargs):
+        # The flags of a legacy specification are valid anywhere
+        default_spec = DEFAULT_PSPEC.replace(flags=pargspecs[0].flags)
+      else:
+        default_spec = pargspecs.pop(0)
 
     all_flags = list(default_spec.flags)
     for pspec in pargspecs:
-- 
2.43.0


From 100a41d16f600ffb57431a6ffa62850dce0b3544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:20 +0000
Subject: [PATCH 20/93] fix: flags declared for a keyword without positional
 arguments ended the keyword

---
 cmakelang/parse/argument_nodes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index a8aaca1..27ea1a5 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -184,7 +184,8 @@ class StandardArgTree(ArgGroupNode):
           # There is an argument where the specification doesn't allow any. If
           # we are a keyword, then it belongs to the parent. Otherwise it is
           # either a flag, or something we don't know.
-          if ctx.argstack and isinstance(ctx.argstack[-1], KeywordGroupNode):
+          if (ctx.argstack and isinstance(ctx.argstack[-1], KeywordGroupNode)
+              and word not in pspec.flags):
             break
           pspec = pspec.replace(nargs="*")
 
-- 
2.43.0


From f84f25b1eda156528590c926ae9cebe12df68c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:22 +0000
Subject: [PATCH 21/93] fix: no partial output or temporary file is left behind
 by an error

---
 cmakelang/format/__main__.py | 40 +++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 89086f8..2516cab 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -534,35 +534,33 @@ def onefile_main(infile_path, args, argparse_dict):
       raise common.FormatError("Check failed: {}".format(infile_path))
     return
 
+  # NOTE: encode before anything is opened for write, so that text which can't
+  # be encoded doesn't leave a truncated file behind.
+  outbytes = outtext.encode(cfg.encode.output_encoding)
+
   if args.in_place:
     if intext == outtext:
       logger.debug("No delta for %s", infile_path)
       return
     tempfile_path = infile_path + ".cmf-temp"
-    outfile = io.open(
-        tempfile_path, 'w', encoding=cfg.encode.output_encoding, newline='')
+    try:
+      with io.open(tempfile_path, 'wb') as outfile:
+        outfile.write(outbytes)
+      shutil.copymode(infile_path, tempfile_path)
+      shutil.move(tempfile_path, infile_path)
+    except:
+      if os.path.exists(tempfile_path):
+        os.remove(tempfile_path)
+      raise
+    return
+
+  if args.outfile_path == '-':
+    outfile = io.open(os.dup(sys.stdout.fileno()), mode='wb')
   else:
-    if args.outfile_path == '-':
-      # NOTE(josh): The behavior of sys.stdout is different in python2 and
-      # python3. sys.stdout is opened in 'w' mode which means that write()
-      # takes strings in python2 and python3 and, in particular, in python3
-      # it does not take byte arrays. io.StreamWriter will write to
-      # it with byte arrays (assuming it was opened with 'wb'). So we use
-      # io.open instead of open in this case
-      outfile = io.open(
-          os.dup(sys.stdout.fileno()),
-          mode='w', encoding=cfg.encode.output_encoding, newline='')
-    else:
-      outfile = io.open(
-          args.outfile_path, 'w', encoding=cfg.encode.output_encoding,
-          newline='')
+    outfile = io.open(args.outfile_path, 'wb')
 
   with outfile:
-    outfile.write(outtext)
-
-  if args.in_place:
-    shutil.copymode(infile_path, tempfile_path)
-    shutil.move(tempfile_path, infile_path)
+    outfile.write(outbytes)
 
 
 def inner_main():
-- 
2.43.0


From 5041393f6075ab81c59a7ab89c5f1462135c47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:56 +0000
Subject: [PATCH 22/93] fix: an error in one file kept the other files from
 being formatted

---
 cmakelang/format/__main__.py      | 9 +++++++--
 cmakelang/parse/argument_nodes.py | 9 +++++++--
 cmakelang/parse/body_nodes.py     | 8 ++++++--
 cmakelang/parse/statement_node.py | 8 +++++++-
 4 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 2516cab..8c84a20 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -519,7 +519,11 @@ def onefile_main(infile_path, args, argparse_dict):
     infile = io.open(
         infile_path, 'r', encoding=cfg.encode.input_encoding, newline='')
   with infile:
-    intext = infile.read()
+    try:
+      intext = infile.read()
+    except UnicodeDecodeError as ex:
+      raise common.UserError("Unable to read {} as {}: {}".format(
+          infile_path, cfg.encode.input_encoding, ex))
 
   try:
     outtext, reflow_valid = process_file(cfg, intext, args.dump)
@@ -611,7 +615,8 @@ def inner_main():
   for infile_path in args.infilepaths:
     try:
       onefile_main(infile_path, args, argparse_dict)
-    except common.FormatError as ex:
+    except (common.FormatError, common.UserError) as ex:
+      # NOTE: go on with the other files
       logger.error(ex.msg)
       returncode = 1
 
diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 27ea1a5..5eb63b9 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 import logging
 
 from cmakelang import lex
-from cmakelang.common import InternalError
+from cmakelang.common import InternalError, UserError
 from cmakelang.parse.printer import dump_tree_tostr
 from cmakelang.parse.util import (
     comment_belongs_up_tree,
@@ -504,8 +504,13 @@ class ParenGroupNode(TreeNode):
       subtree = ConditionalGroupNode.parse(ctx, tokens, [ParenBreaker()])
     tree.children.append(subtree)
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of file, expecting r-paren for the l-paren at {}"
+          .format(lparen.get_location()))
+
     if tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      raise ValueError(
+      raise UserError(
           "Unexpected {} token at {}, expecting r-paren, got {}"
           .format(tokens[0].type.name, tokens[0].get_location(),
                   tokens[0].content))
diff --git a/cmakelang/parse/body_nodes.py b/cmakelang/parse/body_nodes.py
index 4b7cef5..e70bf2c 100644
--- a/cmakelang/parse/body_nodes.py
+++ b/cmakelang/parse/body_nodes.py
@@ -6,7 +6,7 @@ from __future__ import unicode_literals
 import collections
 import logging
 
-from cmakelang.common import InternalError
+from cmakelang.common import UserError
 from cmakelang import lex
 from cmakelang.parse.util import (
     COMMENT_TOKENS, ONOFF_TOKENS, WHITESPACE_TOKENS
@@ -72,7 +72,7 @@ class BodyNode(TreeNode):
       elif token.type == lex.TokenType.BYTEORDER_MARK:
         tokens.pop(0)
       else:
-        raise InternalError(
+        raise UserError(
             "Unexpected {} token at {}:{}"
             .format(tokens[0].type.name,
                     tokens[0].begin.line, tokens[0].begin.col))
@@ -120,6 +120,10 @@ class FlowControlNode(TreeNode):
     node.children.append(open_stmt)
     body = BodyNode.consume(ctx, tokens, (endflow,))
     node.children.append(body)
+    if not tokens:
+      raise UserError(
+          "Unexpected end of file, expecting {} for the {} at {}"
+          .format(endflow, flowtype.name, open_stmt.get_location()))
     close_stmt = StatementNode.consume(ctx, tokens)
     node.children.append(close_stmt)
 
diff --git a/cmakelang/parse/statement_node.py b/cmakelang/parse/statement_node.py
index 256e33f..15c7169 100644
--- a/cmakelang/parse/statement_node.py
+++ b/cmakelang/parse/statement_node.py
@@ -59,10 +59,16 @@ class StatementNode(TreeNode):
     while tokens and tokens[0].type in WHITESPACE_TOKENS:
       node.children.append(tokens.pop(0))
 
+    if not tokens:
+      raise UserError(
+          "Unexpected end of file at {}, expecting l-paren after {}"
+          .format(funnode.token.get_location(),
+                  repr(funnode.token.content)))
+
     # TODO(josh): should the parens belong to the statement node or the
     # group node?
     if tokens[0].type != lex.TokenType.LEFT_PAREN:
-      raise ValueError(
+      raise UserError(
           "Unexpected {} token at {}, expecting l-paren, got {}"
           .format(tokens[0].type.name, tokens[0].get_location(),
                   repr(tokens[0].content)))
-- 
2.43.0


From 524740057960709e0c264f54f312b3eeab5eea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:56 +0000
Subject: [PATCH 23/93] fix: command line switches applied only to the first of
 several files

---
 cmakelang/format/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 8c84a20..9587657 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -507,7 +507,9 @@ def onefile_main(infile_path, args, argparse_dict):
     config_dict = get_config(infile_path, args.config_files)
 
   cfg = configuration.Configuration(**config_dict)
-  cfg.legacy_consume(argparse_dict)
+  # NOTE: legacy_consume() pops what it uses and the same dictionary is needed
+  # for the next file
+  cfg.legacy_consume(dict(argparse_dict))
 
   if cfg.format.disable:
     return
-- 
2.43.0


From 626c75629aebd107678a6f477a47b51d2ee52426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 24/93] fix: disabled formatting emitted nothing on stdout or
 to the output file

---
 cmakelang/format/__main__.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 9587657..1ef26ee 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -495,6 +495,25 @@ def get_argdict(args):
   return out
 
 
+def copy_file(infile_path, outfile_path):
+  """
+  Write the content of the input file to the output, as it is
+  """
+  if infile_path == '-':
+    infile = io.open(os.dup(sys.stdin.fileno()), mode='rb')
+  else:
+    infile = io.open(infile_path, 'rb')
+  with infile:
+    content = infile.read()
+
+  if outfile_path == '-':
+    outfile = io.open(os.dup(sys.stdout.fileno()), mode='wb')
+  else:
+    outfile = io.open(outfile_path, 'wb')
+  with outfile:
+    outfile.write(content)
+
+
 def onefile_main(infile_path, args, argparse_dict):
   """
   Find config, open file, process, write result
@@ -512,6 +531,8 @@ def onefile_main(infile_path, args, argparse_dict):
   cfg.legacy_consume(dict(argparse_dict))
 
   if cfg.format.disable:
+    if not (args.check or args.in_place or args.dump):
+      copy_file(infile_path, args.outfile_path)
     return
 
   if infile_path == '-':
-- 
2.43.0


From 3e8aa3947c6bab68b61eb0c31e9da5ea4d40018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 25/93] fix: an unreadable file or an internal error kept the
 other files from being formatted

---
 cmakelang/format/__main__.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 1ef26ee..446bb6c 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -642,6 +642,14 @@ def inner_main():
       # NOTE: go on with the other files
       logger.error(ex.msg)
       returncode = 1
+    except EnvironmentError as ex:
+      logger.error("%s: %s", infile_path, ex)
+      returncode = 1
+    except (common.InternalError, AssertionError):
+      logger.exception(
+          "An internal error occured. Please consider filing a bug report at "
+          "github.com/cheshirekow/cmakelang/issues")
+      returncode = 1
 
   return returncode
 
-- 
2.43.0


From 76824da943a14da2d7c4fd55997040ba6edf0e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 26/93] fix: infinite loop on a keyword next to a parenthesis
 or comment, as in if((A)AND(B))

---
 cmakelang/lex/__init__.py | 2 +-
 cmakelang/parse/common.py | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 7033f1a..5fbadad 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -147,7 +147,7 @@ def tokenize(contents):
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
       # Either a valid function name or variable name.
-      (r"(?<![^\s\(])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(])",
+      (r"(?<![^\s\(\)])[a-zA-Z_][a-zA-Z0-9_]*(?![^\s\)\(#])",
        lambda s, t: (TokenType.WORD, t)),
       # A configure_file replacement @<word>@
       # Either a valid function name or variable name.
diff --git a/cmakelang/parse/common.py b/cmakelang/parse/common.py
index bbb9315..a1636b2 100644
--- a/cmakelang/parse/common.py
+++ b/cmakelang/parse/common.py
@@ -8,7 +8,8 @@ import logging
 from cmakelang import common
 from cmakelang import lex
 from cmakelang.parse.util import (
-    is_semantic_token, is_syntactic_token, is_whitespace_token, is_comment_token
+    get_normalized_kwarg, is_comment_token, is_semantic_token,
+    is_syntactic_token, is_whitespace_token
 )
 
 logger = logging.getLogger(__name__)
@@ -146,7 +147,10 @@ class KwargBreaker(object):
     self.kwargs = [kwarg.upper() for kwarg in kwargs]
 
   def __call__(self, token):
-    return token.spelling.upper() in self.kwargs
+    # NOTE: only what get_normalized_kwarg() takes for a keyword, otherwise
+    # nobody consumes it
+    return (get_normalized_kwarg(token) is not None
+            and token.spelling.upper() in self.kwargs)
 
   def __repr__(self):
     return "KwargBreaker({})".format(",".join(self.kwargs))
-- 
2.43.0


From 6431d6de69a1fbd1c334f2922ab5503c33f14bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 27/93] fix: layout time grew exponentially with the depth of
 nested parentheses

---
 cmakelang/format/formatter.py | 38 +++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index fa76fbe..f018584 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -359,6 +359,12 @@ class LayoutNode(object):
     # when viewing the tree for debugging.
     self._wrap = False
 
+    # Layouts which have been computed already, see `reflow()`, and the key of
+    # the current one. Without it the number of layouts of a subtree grows
+    # exponentially with the depth of the tree.
+    self._layouts = {}
+    self._layout_key = None
+
     assert isinstance(pnode, TreeNode)
 
   def _index_in_parent(self):
@@ -528,6 +534,24 @@ class LayoutNode(object):
 
     return True
 
+  # Names of the members which hold the result of a `reflow()`
+  _layout_members = (
+      "_position", "_reflow_valid", "_passno", "_colextent", "_rowextent",
+      "_wrap")
+
+  def _restore_layout(self, key):
+    """
+    Restore the layout that was computed by `reflow()` for `key`
+    """
+    self._layout_key = key
+    _, members, child_keys = self._layouts[key]
+    for name, value in zip(self._layout_members, members):
+      setattr(self, name, value)
+    for child, child_key in zip(self._children, child_keys):
+      if child_key is not None:
+        # pylint: disable=protected-access
+        child._restore_layout(child_key)
+
   def reflow(self, stack_context, cursor, parent_passno=0):
     """
     (re-)compute the layout of this node under the assumption that it should
@@ -537,6 +561,11 @@ class LayoutNode(object):
     assert self._locked
     assert isinstance(self.pnode, TreeNode)
 
+    key = (cursor[0], cursor[1], parent_passno, self.statement_terminal)
+    if key in self._layouts:
+      self._restore_layout(key)
+      return self._layouts[key][0].clone()
+
     self._position = cursor.clone()
     outcursor = None
 
@@ -560,6 +589,13 @@ class LayoutNode(object):
         if self._reflow_valid:
           break
     assert outcursor is not None
+
+    # pylint: disable=protected-access
+    self._layout_key = key
+    self._layouts[key] = (
+        outcursor.clone(),
+        [getattr(self, name) for name in self._layout_members],
+        [child._layout_key for child in self._children])
     return outcursor
 
   def write(self, config, ctx):
@@ -1646,6 +1682,8 @@ class CommentNode(LayoutNode):
   acts like an argument comment.
   """
 
+  _layout_members = LayoutNode._layout_members + ("_lines",)
+
   def __init__(self, pnode):
     super(CommentNode, self).__init__(pnode)
     self._lines = []
-- 
2.43.0


From f7031a018ec5082444e4e9ed848d23994287ed8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 28/93] fix: text which can't be encoded kept the other files
 from being formatted

---
 cmakelang/format/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 446bb6c..685d327 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -563,7 +563,11 @@ def onefile_main(infile_path, args, argparse_dict):
 
   # NOTE: encode before anything is opened for write, so that text which can't
   # be encoded doesn't leave a truncated file behind.
-  outbytes = outtext.encode(cfg.encode.output_encoding)
+  try:
+    outbytes = outtext.encode(cfg.encode.output_encoding)
+  except UnicodeEncodeError as ex:
+    raise common.UserError("Unable to write {} as {}: {}".format(
+        infile_path, cfg.encode.output_encoding, ex))
 
   if args.in_place:
     if intext == outtext:
-- 
2.43.0


From b5f9550e04845651c0e6dda85785053188f498ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 29/93] fix: no arguments for one of several positional
 specifications was an internal error

---
 cmakelang/parse/argument_nodes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 5eb63b9..13d8212 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -201,7 +201,12 @@ class StandardArgTree(ArgGroupNode):
         with ctx.pusharg(tree):
           subtree = PositionalGroupNode.parse2(
               ctx, tokens, pspec, positional_breakstack)
-          tree.parg_groups.append(subtree)
+
+        if len(tokens) >= ntokens and pargspecs:
+          # There is nothing for this specification, the next token is a flag
+          # of a later one
+          continue
+        tree.parg_groups.append(subtree)
 
       if len(tokens) >= ntokens:
         raise InternalError(
-- 
2.43.0


From 416fdde2f402cf256328719bdc9d5c96992c6ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:03 +0000
Subject: [PATCH 30/93] fix: always_wrap had no effect inside of blocks

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index f018584..c4a033b 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -184,7 +184,7 @@ def get_pathstr(node_path):
   for node in node_path:
     if isinstance(node, BodyNode):
       continue
-    if isinstance(node, ArgGroupNode):
+    if isinstance(node, (ArgGroupNode, FlowControlNode)):
       continue
     pathcopy.append(node)
 
-- 
2.43.0


From 2dedb71fe9762d4a286d41da38ca4fc42257d489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 31/93] fix: lint pragmas had no effect on the last line of a
 scope and inside of other suppressions

---
 cmakelang/lint/basic_checker.py | 18 ++++++++++++++++--
 cmakelang/lint/lint_util.py     | 13 ++++++++-----
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index f4dd779..86a4f49 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -100,6 +100,21 @@ def get_prefix_comment(prevchild):
   return prevchild[1]
 
 
+def get_line_after(node):
+  """
+  Return the number of the first line after the (non-empty) body `node`, which
+  is usually the line of the statement that closes the block.
+  """
+  lineno = 0
+  for token in node.get_tokens():
+    lineno = token.get_location().line
+    if token.spelling.strip():
+      # There is something on this line which belongs to the body
+      lineno += 1
+    lineno += token.spelling.count("\n")
+  return lineno
+
+
 def get_list_outvar(node):
   """Given a statement parse node for a `list()` command, inspect the
      subcommand and extract the token corresponding to the output
@@ -543,9 +558,8 @@ class LintChecker(object):
       prevchild[1] = prevchild[0]
       prevchild[0] = child
 
-    lineno = node.get_tokens()[-1].get_location().line
     if suppressions:
-      local_ctx.unsuppress(lineno, suppressions)
+      local_ctx.unsuppress(get_line_after(node), suppressions)
 
   def check_arggroup(self, node):
     (_, local_ctx) = self.context
diff --git a/cmakelang/lint/lint_util.py b/cmakelang/lint/lint_util.py
index cca7224..1df0f21 100644
--- a/cmakelang/lint/lint_util.py
+++ b/cmakelang/lint/lint_util.py
@@ -100,9 +100,12 @@ class FileContext(object):
 
     # Remove any lint records that were suppressed at the line number where
     # they were recorded
+    # NOTE: the body of a block is visited after all of the statements of the
+    # enclosing body, so events are not recorded in the order of the lines, and
+    # suppressions of the same lint may overlap.
     out = []
-    events = list(self._suppression_events)
-    active_suppressions = set()
+    events = sorted(self._suppression_events, key=lambda event: event.lineno)
+    active_suppressions = collections.defaultdict(int)
 
     for record in records:
       if record.location:
@@ -110,13 +113,13 @@ class FileContext(object):
           event = events.pop(0)
           if event.mode == "add":
             for idstr in event.suppressions:
-              active_suppressions.add(idstr)
+              active_suppressions[idstr] += 1
           elif event.mode == "remove":
             for idstr in event.suppressions:
-              active_suppressions.discard(idstr)
+              active_suppressions[idstr] -= 1
           else:
             raise ValueError("Illegal suppression event {}".format(event.mode))
-      if record.spec.idstr in active_suppressions:
+      if active_suppressions[record.spec.idstr] > 0:
         continue
       out.append(record)
 
-- 
2.43.0


From d3dbc3a405059f0804106fe1958b00211378f71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:36 +0000
Subject: [PATCH 32/93] fix: lint counted carriage returns as text and wanted
 one after the last line

---
 cmakelang/lint/basic_checker.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 86a4f49..a8723d0 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -229,16 +229,18 @@ class LintChecker(object):
       # NOTE(josh): The tokenizer starts lineno at "1", so we must do the same
       # here in order to be consistent.
       lineno += 1
-      if len(line) > cfg.format.line_width:
+      linelen = len(line[:-1] if line.endswith("\r") else line)
+      if linelen > cfg.format.line_width:
         local_ctx.record_lint(
-            "C0301", len(line), cfg.format.line_width, location=(lineno,))
+            "C0301", linelen, cfg.format.line_width, location=(lineno,))
 
       if line.endswith("\r"):
         if cfg.format.line_ending == "unix":
           local_ctx.record_lint(
               "C0327", "windows", location=(lineno,))
         line = line[:-1]
-      else:
+      elif lineno < len(lines):
+        # NOTE: there is no line ending at all after the last item
         if cfg.format.line_ending == "windows":
           local_ctx.record_lint(
               "C0327", "unix", location=(lineno,))
-- 
2.43.0


From f4f4f20f1f7b6700501953cd67f1abe27dd9bdaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:47 +0000
Subject: [PATCH 33/93] fix: cmake-lint crashed if line_ending is auto

---
 cmakelang/lint/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index a172290..5423c07 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -32,7 +32,7 @@ def process_file(config, local_ctx, infile_content):
   if config.format.line_ending == 'auto':
     detected = __main__.detect_line_endings(infile_content)
     config = config.clone()
-    config.set_line_ending(detected)
+    config.format.line_ending = detected
 
   checker = basic_checker.LintChecker(config, local_ctx)
   checker.check_basics(infile_content)
-- 
2.43.0


From 58d9f76e86b697dba376fa4ba9ac47f8d32fe49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:51 +0000
Subject: [PATCH 34/93] fix: cmake-lint crashed on set() and list() without
 arguments

---
 cmakelang/lint/basic_checker.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index a8723d0..7ca46e7 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -119,7 +119,11 @@ def get_list_outvar(node):
   """Given a statement parse node for a `list()` command, inspect the
      subcommand and extract the token corresponding to the output
      variable name."""
+  if not node.argtree.parg_groups:
+    return None
   semtoks = node.argtree.parg_groups[0].get_tokens(kind="semantic")
+  if not semtoks:
+    return None
   listcmd = semtoks[0].spelling
   if listcmd.upper() in ("LENGTH", "GET", "JOIN", "SUBLIST"):
     return semtoks[-1]
@@ -626,12 +630,13 @@ class LintChecker(object):
       varname = node.argtree.varname
     elif node.get_funname() == "list":
       varname = get_list_outvar(node)
-      if varname is None:
-        return
     else:
       logger.warning("Unexpected node %s (%s)", node, node.get_funname())
       return
 
+    if varname is None:
+      return
+
     resolved = mock_varrefs(varname.spelling, "")
 
     # The variable name is hidden behind a variable reference so we can't
@@ -724,9 +729,15 @@ class LintChecker(object):
       if stmt.get_funname() == "set":
         token = stmt.argtree.varname
       elif stmt.get_funname() == "list":
-        token = stmt.argtree.parg_groups[0].get_tokens(kind="semantic")[1]
+        token = None
+        for parg_group in stmt.argtree.parg_groups[:1]:
+          for token in parg_group.get_tokens(kind="semantic")[1:2]:
+            break
       else:
         continue
+      if token is None:
+        # there are not enough arguments for an assignment
+        continue
       self.check_varname(token.spelling, token, "Assignment to")
 
   def check_variable_references(self, tree):
-- 
2.43.0


From ad43b25310a29b6ad0a42a348dfb151f514934fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:28 +0000
Subject: [PATCH 35/93] fix: W0105 was reported for names which only begin like
 a built-in variable

---
 cmakelang/lint/basic_checker.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 7ca46e7..3e0cc7a 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -20,6 +20,11 @@ from cmakelang.parse.funs.set import SetFnNode
 
 logger = logging.getLogger(__name__)
 
+# Match the whole of a variable name, not just the start of it
+WHOLE_NAME_REGEX = re.compile(
+    "(?:{})$".format(variables.CASE_SENSITIVE_REGEX.pattern))
+UNCASE_WHOLE_NAME_REGEX = re.compile(WHOLE_NAME_REGEX.pattern, re.IGNORECASE)
+
 
 def find_statements_in_subtree(subtree, funnames):
   """
@@ -703,7 +708,7 @@ class LintChecker(object):
     """
     (_, local_ctx) = self.context
 
-    imatch = variables.CASE_INSENSITIVE_REGEX.match(varname)
+    imatch = UNCASE_WHOLE_NAME_REGEX.match(varname)
     if not imatch:
       # variable name isn't a match for any builtins
       return
@@ -714,7 +719,7 @@ class LintChecker(object):
         # yet to actually compare against these
         return
 
-    if not variables.CASE_SENSITIVE_REGEX.match(varname):
+    if not WHOLE_NAME_REGEX.match(varname):
       # variable name is a match for a builtin except for case
       local_ctx.record_lint(
           "W0105", contextstr, varname,
-- 
2.43.0


From 805f452752793707bc26553cd82dccc7f42d992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:48 +0000
Subject: [PATCH 36/93] fix: W0106 named the wrong end of a variable reference,
 escaped references were reported

---
 cmakelang/lint/basic_checker.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 3e0cc7a..7271098 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -290,7 +290,7 @@ class LintChecker(object):
 
     missing_prefix = re.compile(
         r"(?<!\\)(?:\\\\)*"
-        r"(\$|\{)((?:(?:[A-Za-z0-9_./+-])|(?:\\[^A-Za-z0-9_./+-]))+)")
+        r"(\$|(?<!\$)\{)((?:(?:[A-Za-z0-9_./+-])|(?:\\[^A-Za-z0-9_./+-]))+)")
 
     match_types = (
         TokenType.QUOTED_LITERAL,
@@ -319,7 +319,8 @@ class LintChecker(object):
       match = missing_suffix.search(resolved)
       if match and variables.CASE_SENSITIVE_REGEX.match(match.group(2)):
         local_ctx.record_lint(
-            "W0106", "closing", catmatch, location=token.get_location())
+            "W0106", "closing", "".join(match.group(1, 2)),
+            location=token.get_location())
         continue
 
   def check_for_custom_parse_logic(self, stmt_node):
-- 
2.43.0


From b3965966d57e29a099b52c7abb2c555fcdafc873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 37/93] fix: cmake-lint crashed when reading from standard
 input

---
 cmakelang/lint/__main__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 5423c07..f1cde81 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -144,12 +144,14 @@ def inner_main():
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
+    infile_or_fd = infile_path
     if infile_path == '-':
-      infile_path = os.dup(sys.stdin.fileno())
+      infile_or_fd = os.dup(sys.stdin.fileno())
 
     try:
       infile = io.open(
-          infile_path, mode='r', encoding=cfg.encode.input_encoding, newline='')
+          infile_or_fd, mode='r', encoding=cfg.encode.input_encoding,
+          newline='')
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
-- 
2.43.0


From 8a6f62b909e9112575b0d2a39347262567766bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:31 +0000
Subject: [PATCH 38/93] fix: cmake-lint exited with status 0 for bad arguments

---
 cmakelang/lint/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index f1cde81..bf58944 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -186,7 +186,8 @@ def main():
   try:
     return inner_main()
   except SystemExit:
-    return 0
+    # NOTE: argparse exits with nonzero status for bad arguments
+    raise
   except common.UserError as ex:
     logger.fatal(ex.msg)
     return 1
-- 
2.43.0


From d579b07230b5d6357cb8f2b21df011dbf77cf0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 39/93] fix: a file which can't be parsed kept the other files
 from being linted

---
 cmakelang/lint/__main__.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index bf58944..45365cf 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -154,7 +154,7 @@ def inner_main():
           newline='')
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
-      returncode = 1
+      returncode = max(returncode, 1)
       continue
 
     try:
@@ -163,18 +163,29 @@ def inner_main():
     except UnicodeDecodeError:
       logger.error(
           "Unable to read %s as %s", infile_path, cfg.encode.input_encoding)
-      returncode = 1
+      returncode = max(returncode, 1)
       continue
 
     local_ctx = global_ctx.get_file_ctx(infile_path, cfg)
-    process_file(cfg, local_ctx, intext)
+    try:
+      process_file(cfg, local_ctx, intext)
+    except common.UserError as ex:
+      # NOTE: report what was found so far and go on with the other files
+      logger.error("%s: %s", infile_path, ex.msg)
+      returncode = max(returncode, 1)
+    except (common.InternalError, AssertionError):
+      logger.exception(
+          "An internal error occured while processing %s. Please consider "
+          "filing a bug report at github.com/cheshirekow/cmakelang/issues",
+          infile_path)
+      returncode = 2
     if not args.suppress_decorations:
       outfile.write("{}\n{}\n".format(infile_path, "=" * len(infile_path)))
     local_ctx.writeout(outfile)
     if not args.suppress_decorations:
       outfile.write("\n")
     if local_ctx.has_lint():
-      returncode = 1
+      returncode = max(returncode, 1)
 
   if not args.suppress_decorations:
     global_ctx.write_summary(outfile)
-- 
2.43.0


From 0e11a61f083a64556fbee7354596f091537f5cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:11 +0000
Subject: [PATCH 40/93] fix: lint of a file which is named twice was reported
 three times

---
 cmakelang/lint/__main__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 45365cf..4624ef4 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -134,7 +134,11 @@ def inner_main():
   returncode = 0
   argdict = __main__.get_argdict(args)
 
-  for infile_path in args.infilepaths:
+  for idx, infile_path in enumerate(args.infilepaths):
+    if infile_path in args.infilepaths[:idx]:
+      # NOTE: lint is recorded by path, so each file is scanned only once
+      continue
+
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-- 
2.43.0


From fb2344bac06aaee7aa397994106c64f4d3cd0559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:22 +0000
Subject: [PATCH 41/93] fix: lint crashed on an unexpected argument of
 add_custom_target

---
 cmakelang/parse/funs/add_xxx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/add_xxx.py b/cmakelang/parse/funs/add_xxx.py
index 59dc699..20dcd1e 100644
--- a/cmakelang/parse/funs/add_xxx.py
+++ b/cmakelang/parse/funs/add_xxx.py
@@ -249,7 +249,7 @@ def parse_add_custom_target(ctx, tokens, breakstack):
       tree.children.append(subtree)
       continue
 
-    ctx.lint_ctx.record_lint("E1122", location=tokens[0].get_location())
+    ctx.lint_ctx.record_lint("E1121", location=tokens[0].get_location())
     # logger.warning(
     #     "Unexpected positional argument %s at %s",
     #     tokens[0].spelling, tokens[0].location())
-- 
2.43.0


From 5a5abbcef6dfa8fd5703ba76ead23abc4090e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:32 +0000
Subject: [PATCH 42/93] fix: lint crashed on build_command, its keywords were
 not recognised

---
 cmakelang/parse/funs/miscellaneous.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index 2ab3e56..bddf09e 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -30,9 +30,11 @@ def parse_build_command(ctx, tokens, breakstack):
   }
 
   second_token = get_nth_semantic_token(tokens, 1)
-  if second_token is not None and second_token.spelling.upper not in kwargs:
+  if (second_token is not None
+      and second_token.type is not lex.TokenType.RIGHT_PAREN
+      and second_token.spelling.upper() not in kwargs):
     ctx.lint_ctx.record_lint(
-        "W0106", "build_command(<cachevariable> <makecommand>)",
+        "W0104", "build_command(<cachevariable> <makecommand>)",
         location=tokens[0].get_location())
     return StandardArgTree.parse(ctx, tokens, "2", {}, [], breakstack)
 
-- 
2.43.0


From b6b35899b38a8fa2e23da7afb1fadebee7aa1b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 43/93] fix: the PARSE_ARGV keyword was not recognised

---
 cmakelang/parse/funs/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index bddf09e..cabe870 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -55,7 +55,7 @@ def parse_cmake_parse_arguments(ctx, tokens, breakstack):
   """
 
   first_token = get_nth_semantic_token(tokens, 0)
-  if first_token is not None and first_token.spelling.upper == "PARSE_ARGV":
+  if first_token is not None and first_token.spelling.upper() == "PARSE_ARGV":
     return StandardArgTree.parse(
         ctx, tokens, "6", {}, ["PARSE_ARGV"], breakstack)
   return StandardArgTree.parse(
-- 
2.43.0


From 2b4ebfc94ad3c5034cce4d5090ebf77a0c84a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:23 +0000
Subject: [PATCH 44/93] fix: lint crashed on if(arg) in a loop over ARGN

---
 cmakelang/lint/basic_checker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 7271098..1724bed 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -345,7 +345,7 @@ class LintChecker(object):
         for conditional in find_nodes_in_subtree(
             loop_body, ConditionalGroupNode):
           tokens = conditional.get_semantic_tokens()
-          if not tokens:
+          if len(tokens) < 2:
             continue
           if tokens[0].spelling == loopvar.spelling:
             if tokens[1].spelling in ("STREQUAL", "MATCHES"):
-- 
2.43.0


From 41900d31086359ddc375413863b41fa2d13d863b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:33 +0000
Subject: [PATCH 45/93] fix: references inside of composite arguments were not
 checked by lint W0105

---
 cmakelang/lint/basic_checker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 1724bed..a48cb41 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -756,7 +756,8 @@ class LintChecker(object):
     # assignment, shadowing, etc
     for token in tree.get_tokens(kind="semantic"):
       if token.type not in (
-          TokenType.QUOTED_LITERAL, TokenType.DEREF):
+          TokenType.QUOTED_LITERAL, TokenType.DEREF,
+          TokenType.UNQUOTED_LITERAL):
         continue
       for varname in re.findall(r"\$\{([\w_]+)\}", token.spelling):
         self.check_varname(varname, token, "Reference to")
-- 
2.43.0


From a9cf121f837850648537fbdd0d8c1d10e302dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:51 +0000
Subject: [PATCH 46/93] fix: lint pragmas inside of some statements were
 ignored

---
 cmakelang/lint/basic_checker.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index a48cb41..fe33859 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -10,7 +10,6 @@ from cmakelang.parse.argument_nodes import (
     ArgGroupNode, ConditionalGroupNode, PositionalGroupNode
 )
 from cmakelang.parse.body_nodes import BodyNode, FlowControlNode
-from cmakelang.parse.simple_nodes import CommentNode
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.statement_node import StatementNode
 from cmakelang.parse.util import get_min_npargs
@@ -846,7 +845,7 @@ class LintChecker(object):
       self.check_statement(node)
     elif isinstance(node, PositionalGroupNode):
       self.check_positional_group(node)
-    elif isinstance(node, CommentNode):
+    elif node.node_type is NodeType.COMMENT:
       self.check_comment(node)
 
     for child in node.children:
-- 
2.43.0


From 4115be581be18815be8f9d1099e71bc7e404955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 47/93] fix: lint counted the byte order mark as a part of the
 first line

---
 cmakelang/lint/basic_checker.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index fe33859..1b5cffe 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -230,6 +230,9 @@ class LintChecker(object):
     """Perform  basic checks before even lexing the file
     """
     (cfg, local_ctx) = self.context
+    if infile_content.startswith("\ufeff"):
+      # A byte order mark is not a part of the first line
+      infile_content = infile_content[1:]
     lines = infile_content.split("\n")
     indent_regex = re.compile(r"([ \t]*)(.*)")
 
-- 
2.43.0


From e95a7d33d59494d454257865b4ffaee0544cf2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:42 +0000
Subject: [PATCH 48/93] fix: cmake-annotate did not escape the text of the
 listfile

---
 cmakelang/render.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/render.py b/cmakelang/render.py
index a7f77fe..d522d78 100644
--- a/cmakelang/render.py
+++ b/cmakelang/render.py
@@ -9,6 +9,7 @@ from __future__ import unicode_literals
 import io
 import logging
 import os
+from xml.sax.saxutils import escape
 
 from cmakelang import lex
 from cmakelang.parse.common import TreeNode
@@ -27,7 +28,7 @@ def dump_html(node, outfile):
     outfile.write('</span>')
   elif isinstance(node, lex.Token):
     outfile.write('<span class="cmf-{}">'.format(node.type.name))
-    outfile.write(node.spelling)
+    outfile.write(escape(node.spelling))
     outfile.write('</span>')
 
 
-- 
2.43.0


From 50657c789595c331bcbbe8d80ad68b6f8775440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 49/93] fix: cmake-annotate crashed if a configuration file was
 given

---
 cmakelang/annotate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index c8f387f..20a0574 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -102,7 +102,8 @@ def setup_argparser(arg_parser):
   arg_parser.add_argument('-o', '--outfile-path', default=None,
                           help='Where to write the formatted file. '
                                'Default is stdout.')
-  arg_parser.add_argument('-c', '--config-file',
+  arg_parser.add_argument('-c', '--config-file', action="append",
+                          dest="config_files", metavar="CONFIG_FILE",
                           help='path to configuration file')
   arg_parser.add_argument('infilepaths', nargs='*')
 
@@ -141,9 +142,9 @@ def main():
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
     if infile_path == '-':
-      config_dict = __main__.get_config(os.getcwd(), args.config_file)
+      config_dict = __main__.get_config(os.getcwd(), args.config_files)
     else:
-      config_dict = __main__.get_config(infile_path, args.config_file)
+      config_dict = __main__.get_config(infile_path, args.config_files)
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-- 
2.43.0


From 3df4685db8c9303525439c072e011507df1ccbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:05 +0000
Subject: [PATCH 50/93] fix: cmake-annotate ignored the parse options of the
 configuration

---
 cmakelang/annotate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/annotate.py b/cmakelang/annotate.py
index 20a0574..0d3f72f 100644
--- a/cmakelang/annotate.py
+++ b/cmakelang/annotate.py
@@ -53,7 +53,7 @@ def annotate_file(config, infile, outfile, outfmt=None):
   tokens = lex.tokenize(infile_content)
   parse_db = parse.funs.get_parse_db()
   parse_db.update(parse.funs.get_funtree(config.parse.fn_spec))
-  ctx = parse.ParseContext(parse_db)
+  ctx = parse.ParseContext(parse_db, config=config)
   parse_tree = parse.parse(tokens, ctx)
 
   if outfmt == "page":
-- 
2.43.0


From 13857fea15b2b872de30b603383eb57b176bab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:23 +0000
Subject: [PATCH 51/93] fix: an override for the positional group after the
 last one was an internal error

---
 cmakelang/parse/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/util.py b/cmakelang/parse/util.py
index bb03f4b..bafcdca 100644
--- a/cmakelang/parse/util.py
+++ b/cmakelang/parse/util.py
@@ -570,7 +570,7 @@ def apply_overrides(spectree, pathkeystr, value):
         raise UserError(
             "Invalid override key {} contains non-int pspec"
             .format(pathkeystr))
-      if idx > len(spectree.pargs):
+      if idx >= len(spectree.pargs):
         raise UserError(
             "Invalid override key {} is out of bounds"
             .format(pathkeystr))
-- 
2.43.0


From ada76bae96ddfb2a2144791a96ec8feba90c1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 52/93] fix: cmake-lint crashed if the set command is declared
 by the user

---
 cmakelang/lint/basic_checker.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lint/basic_checker.py b/cmakelang/lint/basic_checker.py
index 1b5cffe..024f63e 100644
--- a/cmakelang/lint/basic_checker.py
+++ b/cmakelang/lint/basic_checker.py
@@ -144,6 +144,13 @@ class Scope(enum.IntEnum):
   ARGUMENT = 6  # argument variable name
 
 
+def get_set_var(node):
+  """Given a statement parse node for a `set()` command, return the token of
+     the variable name, if there is one. There is none if the command has no
+     arguments or if the user has declared the command otherwise."""
+  return getattr(node.argtree, "varname", None)
+
+
 def get_scope_of_assignment(set_node):
   """Return the scope of the assignment."""
   args = set_node.argtree
@@ -635,7 +642,7 @@ class LintChecker(object):
     scope = get_scope_of_assignment(node)
 
     if node.get_funname() == "set":
-      varname = node.argtree.varname
+      varname = get_set_var(node)
     elif node.get_funname() == "list":
       varname = get_list_outvar(node)
     else:
@@ -735,7 +742,7 @@ class LintChecker(object):
     """
     for stmt in find_statements_in_subtree(tree, ["set", "list"]):
       if stmt.get_funname() == "set":
-        token = stmt.argtree.varname
+        token = get_set_var(stmt)
       elif stmt.get_funname() == "list":
         token = None
         for parg_group in stmt.argtree.parg_groups[:1]:
-- 
2.43.0


From f4d27511f17cf4825dd459466e7dffd930e65c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 53/93] fix: comparison operators of conditions, SYSTEM and
 EXPR were not taken for keywords

---
 cmakelang/parse/argument_nodes.py         | 7 +++++++
 cmakelang/parse/funs/miscellaneous.py     | 2 +-
 cmakelang/parse/funs/standard_builtins.py | 1 +
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index 13d8212..d71c7c6 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -536,7 +536,10 @@ CONDITIONAL_FLAGS = [
     "EQUAL",
     "EXISTS",
     "GREATER",
+    "GREATER_EQUAL",
+    "IN_LIST",
     "LESS",
+    "LESS_EQUAL",
     "IS_ABSOLUTE",
     "IS_DIRECTORY",
     "IS_NEWER_THAN",
@@ -545,13 +548,17 @@ CONDITIONAL_FLAGS = [
     "NOT",
     "POLICY",
     "STRLESS",
+    "STRLESS_EQUAL",
     "STRGREATER",
+    "STRGREATER_EQUAL",
     "STREQUAL",
     "TARGET",
     "TEST",
     "VERSION_EQUAL",
     "VERSION_GREATER",
+    "VERSION_GREATER_EQUAL",
     "VERSION_LESS",
+    "VERSION_LESS_EQUAL",
 ]
 
 
diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index cabe870..d6ad923 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -329,7 +329,7 @@ def parse_math(ctx, tokens, breakstack):
   kwargs = {
       "OUTPUT_FORMAT": PositionalParser(1)
   }
-  return StandardArgTree.parse(ctx, tokens, "3", kwargs, [], breakstack)
+  return StandardArgTree.parse(ctx, tokens, "3", kwargs, ["EXPR"], breakstack)
 
 
 def parse_option(ctx, tokens, breakstack):
diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index 8d9563c..78c8e4f 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -333,6 +333,7 @@ FUNSPECS = {
     }
   },
   "target_include_directories": {
+    "flags": ["SYSTEM", "BEFORE", "AFTER"],
     "kwargs": {
       "PRIVATE": "+",
       "PUBLIC": "+",
-- 
2.43.0


From ee3af033b3b53183eba5e8cfe85ebc52df2ada91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:23 +0000
Subject: [PATCH 54/93] fix: the command of the default additional_commands
 stayed declared when the option was set

---
 cmakelang/configuration.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/configuration.py b/cmakelang/configuration.py
index 7ecebc5..2ea528e 100644
--- a/cmakelang/configuration.py
+++ b/cmakelang/configuration.py
@@ -398,6 +398,7 @@ class ParseConfig(ConfigObject):
     super(ParseConfig, self).__init__(**kwargs)
 
   def _update_derived(self):
+    self.fn_spec = parse_util.CommandSpec("<root>")
     if self.additional_commands is not None:
       for command_name, spec in self.additional_commands.items():
         self.fn_spec.add(command_name, **spec)
-- 
2.43.0


From aae86c0dacda7f5cfe550c637903fa39bf4019ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:06 +0000
Subject: [PATCH 55/93] fix: overrides for commands with a canonical spelling
 were missing in dumped configurations

---
 cmakelang/format/__main__.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 685d327..44ae7eb 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -39,7 +39,6 @@ from cmakelang import parse
 from cmakelang.parse.argument_nodes import StandardParser2
 from cmakelang.parse.common import NodeType, TreeNode
 from cmakelang.parse.printer import dump_tree as dump_parse
-from cmakelang.parse.funs import standard_funs
 
 
 logger = logging.getLogger(__name__)
@@ -380,9 +379,6 @@ def dump_config(args, config_dict, outfile):
   outfmt = args.dump_config
   config_dict.update(get_argdict(args))
   cfg = configuration.Configuration(**config_dict)
-  # Don't dump default per-command configs
-  for key in standard_funs.get_default_config():
-    cfg.misc.per_command.pop(key, None)
 
   if outfmt == 'yaml':
     import yaml
-- 
2.43.0


From d9386528bb5fcd364178cff0e5fa4f2423ee7c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:55 +0000
Subject: [PATCH 56/93] fix: a python configuration file without extension was
 taken for yaml and ignored

---
 cmakelang/format/__main__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 44ae7eb..fe12676 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -25,6 +25,7 @@ import io
 import json
 import logging
 import os
+import re
 import shutil
 import sys
 
@@ -242,7 +243,12 @@ def try_get_configdict(configfile_path):
 
   try:
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
-      return load_yaml(config_file)
+      config_dict = load_yaml(config_file)
+    # NOTE: most python files are valid yaml too (a text, or a mapping with
+    # odd keys such as 'with section("format")')
+    if (isinstance(config_dict, Mapping)
+        and all(re.match(r"^[\w-]+$", str(key)) for key in config_dict)):
+      return config_dict
   except:  # pylint: disable=bare-except
     pass
 
-- 
2.43.0


From 13e04758992b3a52eb7aec723c3170185d337602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:20 +0000
Subject: [PATCH 57/93] fix: endless loop if a configuration file includes
 itself

---
 cmakelang/format/__main__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index fe12676..e2d5ee5 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -308,18 +308,22 @@ def get_one_config_dict(configfile_path):
 
 
 def get_configdict(configfile_paths):
-  include_queue = list(configfile_paths)
+  include_queue = [(path, ()) for path in configfile_paths]
   config_dict = {}
   while include_queue:
-    configfile_path = include_queue.pop(0)
+    configfile_path, includers = include_queue.pop(0)
     configfile_path = os.path.expanduser(configfile_path)
+    realpath = os.path.realpath(configfile_path)
+    if realpath in includers:
+      raise common.UserError(
+          "Config file includes itself: {}".format(configfile_path))
     increment_dict = get_one_config_dict(configfile_path)
 
     for include_path in increment_dict.pop("include", []):
       if not os.path.isabs(include_path):
         include_path = os.path.join(
             os.path.dirname(configfile_path), include_path)
-      include_queue.append(include_path)
+      include_queue.append((include_path, includers + (realpath,)))
     map_merge(config_dict, increment_dict)
   return config_dict
 
-- 
2.43.0


From 5f8409a33065aac69c5ae6c3c8a055701aff7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:31 +0000
Subject: [PATCH 58/93] fix: a malformed yaml configuration file was not
 reported as such

---
 cmakelang/format/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index e2d5ee5..e295ab0 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -289,7 +289,7 @@ def get_one_config_dict(configfile_path):
     with io.open(configfile_path, 'r', encoding='utf-8') as config_file:
       try:
         return load_yaml(config_file)
-      except ValueError as ex:
+      except Exception as ex:
         message = (
             "Failed to parse yaml config file {}: {}"
             .format(configfile_path, ex))
-- 
2.43.0


From ca58b55060669c2f16593b7ba832e9f0bb3328eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 59/93] fix: options without a section in one file won over
 those of later files

---
 cmakelang/format/__main__.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index e295ab0..10b18ec 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -324,10 +324,26 @@ def get_configdict(configfile_paths):
         include_path = os.path.join(
             os.path.dirname(configfile_path), include_path)
       include_queue.append((include_path, includers + (realpath,)))
+    nest_options(increment_dict)
     map_merge(config_dict, increment_dict)
   return config_dict
 
 
+def nest_options(config_dict):
+  """
+  Move options from the root of the dictionary (the legacy style) to their
+  section, so that files of both styles can be merged.
+  """
+  for name, section in vars(configuration.Configuration).items():
+    if not isinstance(section, config_util.SubtreeDescriptor):
+      continue
+    for option in section.subtree_class.get_field_names():
+      if (option in config_dict
+          and isinstance(config_dict.get(name, {}), Mapping)):
+        value = config_dict.pop(option)
+        config_dict.setdefault(name, {})[option] = value
+
+
 def map_merge(output_map, increment_map):
   """
   Merge `increment_map` into `output_map` recursively.
-- 
2.43.0


From 8996f97bc8d79dd373e02020020336922b6bb3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:09 +0000
Subject: [PATCH 60/93] fix: cmake-lint skipped the remaining files if the
 configuration of one can't be loaded

---
 cmakelang/lint/__main__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 4624ef4..1a5e66a 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -141,10 +141,15 @@ def inner_main():
 
     # NOTE(josh): have to load config once for every file, because we may pick
     # up a new config file location for each path
-    if infile_path == '-':
-      config_dict = __main__.get_config(os.getcwd(), args.config_files)
-    else:
-      config_dict = __main__.get_config(infile_path, args.config_files)
+    try:
+      if infile_path == '-':
+        config_dict = __main__.get_config(os.getcwd(), args.config_files)
+      else:
+        config_dict = __main__.get_config(infile_path, args.config_files)
+    except common.UserError as ex:
+      logger.error("%s: %s", infile_path, ex.msg)
+      returncode = max(returncode, 1)
+      continue
     config_dict.update(argdict)
 
     cfg = configuration.Configuration(**config_dict)
-- 
2.43.0


From bef9eed702103bc841d4084041cb98ecb576e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 61/93] fix: cmake-lint ignored all but the last of several -c
 options

---
 cmakelang/lint/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 1a5e66a..8891534 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -48,6 +48,7 @@ def process_file(config, local_ctx, infile_content):
 
 
 def setup_argparse(argparser):
+  argparser.register('action', 'extend', __main__.ExtendAction)
   argparser.add_argument('-v', '--version', action='version',
                          version=cmakelang.__version__)
   argparser.add_argument(
@@ -79,7 +80,7 @@ def setup_argparse(argparser):
       help="Suppress the file title decoration and summary statistics")
 
   argparser.add_argument(
-      '-c', '--config-files', nargs='+',
+      '-c', '--config-files', nargs='+', action='extend',
       help='path to configuration file(s)')
   argparser.add_argument('infilepaths', nargs='*')
 
-- 
2.43.0


From 78e413ed141831f4466814ed6fd3b9f6f5784496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 62/93] fix: always_wrap was case-sensitive for command names

---
 cmakelang/format/formatter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index c4a033b..17e243f 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -528,8 +528,9 @@ class LayoutNode(object):
           return False
 
       # Or if this nodepath is marked to always be vertical layout
-      pathstr = get_pathstr(stack_context.node_path)
-      if pathstr in config.format.always_wrap:
+      # NOTE: command names and keywords are not case-sensitive
+      pathstr = get_pathstr(stack_context.node_path).lower()
+      if pathstr in [path.lower() for path in config.format.always_wrap]:
         return False
 
     return True
-- 
2.43.0


From 12c066a9a6bd773f21e6e93d7db2faaaac8532da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 63/93] fix: a column was reserved for the parenthesis after
 every argument of the last group

---
 cmakelang/format/formatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 17e243f..f27cf9a 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1321,7 +1321,7 @@ class PargGroupNode(LayoutNode):
         # statement then we need to extra character (the closing parenthesis)
         # on the last line. If we overlow that extra character slot, then
         # wrap to a new line
-        if self.statement_terminal:
+        if child.statement_terminal:
           if cursor[1] + 1 > config.format.linewidth:
             needs_wrap = True
 
-- 
2.43.0


From de044bae08773e56ad4c7c2ce42da36125c7b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:18 +0000
Subject: [PATCH 64/93] fix: enable_sort had no effect

---
 cmakelang/format/formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index f27cf9a..f91411f 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1251,7 +1251,8 @@ class PargGroupNode(LayoutNode):
     return self.children[-1].has_terminal_comment()
 
   def lock(self, config, stmt_depth=0):
-    if (config.format.autosort and
+    if (config.format.enable_sort and
+        config.format.autosort and
         isinstance(self.pnode, PositionalGroupNode) and
         self.pnode.sortable):
       self._children = sort_arguments(self._children)
-- 
2.43.0


From 2f83402fbe9709e0ddd7e33fcaa2b4003853b511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 65/93] fix: sort tags were ignored in the positional arguments
 of most commands

---
 cmakelang/parse/argument_nodes.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/argument_nodes.py b/cmakelang/parse/argument_nodes.py
index d71c7c6..e788380 100644
--- a/cmakelang/parse/argument_nodes.py
+++ b/cmakelang/parse/argument_nodes.py
@@ -12,9 +12,11 @@ from cmakelang.parse.util import (
     comment_belongs_up_tree,
     get_normalized_kwarg,
     get_tag,
+    iter_semantic_tokens,
     npargs_is_exact,
     pargs_are_full,
     IMPLICIT_PARG_TYPES,
+    ONOFF_TOKENS,
     CommandSpec,
     PositionalSpec,
     WHITESPACE_TOKENS,
@@ -40,6 +42,21 @@ class ArgGroupNode(TreeNode):
     self.spec = None
 
 
+def is_tag_of_positional_group(tokens, breakstack):
+  """
+  Return true if tokens[0] is a comment which annotates whether or not the
+  positional arguments that follow it are sortable.
+  """
+  if get_tag(tokens[0]) not in ("sort", "sortable", "unsort", "unsortable"):
+    return False
+
+  next_token = next(iter_semantic_tokens(tokens), None)
+  return (next_token is not None
+          and next_token.type not in ONOFF_TOKENS
+          and next_token.type is not lex.TokenType.RIGHT_PAREN
+          and not should_break(next_token, breakstack))
+
+
 class StandardArgTree(ArgGroupNode):
   """Argument tree for most cmake-statement commands. Generically arguments
      are composed of a positional argument list, followed by one or more
@@ -128,9 +145,11 @@ class StandardArgTree(ArgGroupNode):
         tree.children.append(tokens.pop(0))
         continue
 
-      # If it's a comment, then add it at the current depth
-      if tokens[0].type in (lex.TokenType.COMMENT,
-                            lex.TokenType.BRACKET_COMMENT):
+      # If it's a comment, then add it at the current depth, unless it is a
+      # tag annotating sortability of the positional group that it begins
+      if (tokens[0].type in (lex.TokenType.COMMENT,
+                             lex.TokenType.BRACKET_COMMENT)
+          and not is_tag_of_positional_group(tokens, kwarg_breakstack)):
         if comment_belongs_up_tree(ctx, tokens, tree, breakstack):
           break
         tree.children.append(CommentNode.consume(ctx, tokens))
-- 
2.43.0


From a8790b31847419c58ba620f18be97cb32cc5fb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:30 +0000
Subject: [PATCH 66/93] fix: add_library ignored a sort tag after
 EXCLUDE_FROM_ALL

---
 cmakelang/parse/funs/add_library.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index cbcc105..b86b2de 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -74,6 +74,9 @@ def parse_add_library_standard(ctx, tokens, breakstack, sortable):
           sortable = False
         elif get_tag(tokens[0]) in ("sort", "sortable"):
           sortable = True
+        if src_group is not None and not src_group.get_semantic_tokens():
+          # The tag follows the last flag, the group has no source yet
+          src_group.sortable = sortable
       child = TreeNode(NodeType.COMMENT)
       active_depth.children.append(child)
       child.children.append(tokens.pop(0))
-- 
2.43.0


From b5ca867d7ac35d57822fd4146e9c53922b84f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:31 +0000
Subject: [PATCH 67/93] fix: literal comments lost all but one of their leading
 hash characters

---
 cmakelang/format/formatter.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index f91411f..80dbac7 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -42,9 +42,10 @@ def clamp(value, min_value, max_value):
   return value
 
 
-def get_comment_lines(config, node):
+def get_comment_lines(config, node, literal=False):
   """Given a comment node, iterate through it's tokens and generate a list
-  of textual lines."""
+  of textual lines. If `literal` is true then preserve the entire lines
+  regardless of content."""
   inlines = []
   for token in node.children:
     assert isinstance(token, lex.Token), (
@@ -57,7 +58,7 @@ def get_comment_lines(config, node):
         inlines.append(inline[len(config.markup.explicit_trailing_pattern):])
         continue
 
-      if not config.markup.enable_markup:
+      if literal or not config.markup.enable_markup:
         # If markup processing is disabled, preserve the entire line regardless
         # of content
         inlines.append(inline[1:])
@@ -90,12 +91,14 @@ def format_comment_lines(node, stack_context, line_width):
   if config.markup.literal_comment_pattern is not None:
     literal_comment_regex = re.compile(config.markup.literal_comment_pattern)
     if literal_comment_regex.match('\n'.join(inlines)):
-      return [prefix + line.rstrip() for line in inlines]
+      return [prefix + line.rstrip()
+              for line in get_comment_lines(config, node, literal=True)]
 
   if node.children[0] is stack_context.first_token and (
       config.markup.first_comment_is_literal
       or stack_context.first_token.spelling.startswith("#!")):
-    return [prefix + line.rstrip() for line in inlines]
+    return [prefix + line.rstrip()
+            for line in get_comment_lines(config, node, literal=True)]
 
   items = markup.parse(inlines, config)
   markup_lines = markup.format_items(config, max(10, line_width - 2), items)
-- 
2.43.0


From 1fdabd2c6af1d70189e3c9e354fd85f651c17b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:28 +0000
Subject: [PATCH 68/93] fix: the items of an enumeration of ten or more were
 merged by the next run

---
 cmakelang/markup.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 94d8a43..86e75df 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -22,6 +22,8 @@ BULLET_REGEX = re.compile(r'^(\s*)([\*-])( .+)$')
 # Matches lines that start an itemized list
 ENUM_REGEX = re.compile(r'^(\s*)\d+([.:])( .+)$')
 
+NEXT_ENUM_REGEX = re.compile(r'^(\s*)\d+([.:])( .*)$')
+
 # Matches a verbatim fence
 FENCE_PATTERN = r'^\s*([`~]{3}[`~]*)(.*)$'
 FENCE_REGEX = re.compile(FENCE_PATTERN)
@@ -52,6 +54,21 @@ class CommentItem(object):
     return "{}".format(self.kind.name)
 
 
+def match_next_enum(line, previous):
+  """
+  Return the match object if `line` is the next item of an enumeration, and
+  None if it is not. The first digit or the punctuation must be in the same
+  column as that of the `previous` item.
+  """
+  match = NEXT_ENUM_REGEX.match(line)
+  if match is None or match.group(2) != previous.group(2):
+    return None
+  if (match.end(1) == previous.end(1)
+      or match.start(2) == previous.start(2)):
+    return match
+  return None
+
+
 def parse(lines, config=None):
   """
   Parse comment lines. Returns objects of different formatable entities
@@ -61,6 +78,7 @@ def parse(lines, config=None):
   obj_list = []
   state = None
   bullet_regex = None
+  enum_match = None
 
   if config is None:
     fence_re = FENCE_REGEX
@@ -125,15 +143,11 @@ def parse(lines, config=None):
       if match:
         obj_list.append(CommentItem(CommentType.ENUM_LIST))
         indent_str = match.group(1)
-        bullet_punctuation = match.group(2)
         obj_list[-1].lines.append(match.group(3).strip())
         obj_list[-1].indent = len(indent_str)
         state = CommentType.ENUM_LIST
 
-        # TODO(josh) We want to match lines with either the same number of
-        # spaces or with the colon in the same column
-        bullet_regex = re.compile(
-            r'^{}\d+{}( .*)$'.format(indent_str, re.escape(bullet_punctuation)))
+        enum_match = match
         continue
 
       if NOTE_REGEX.match(line):
@@ -162,9 +176,17 @@ def parse(lines, config=None):
       obj_list[-1].lines.append(line.strip())
 
     elif state in (CommentType.BULLET_LIST, CommentType.ENUM_LIST):
-      match = bullet_regex.match(line)
+      if state == CommentType.BULLET_LIST:
+        match = bullet_regex.match(line)
+      else:
+        match = match_next_enum(line, enum_match)
       if match:
-        obj_list[-1].lines.append(match.group(1).strip())
+        obj_list[-1].lines.append(match.group(match.lastindex).strip())
+        if state == CommentType.ENUM_LIST:
+          enum_match = match
+          # The numbers are aligned to the right, so it's the widest of them
+          # that tells the indentation of the list
+          obj_list[-1].indent = min(obj_list[-1].indent, match.end(1))
       else:
         obj_list[-1].lines[-1] += '\n' + line.strip()
 
-- 
2.43.0


From 779e0c41361f8b57534f9f508cbca85de87f3341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:10 +0000
Subject: [PATCH 69/93] fix: a bracket argument was not recognised before a
 comment or parenthesis

---
 cmakelang/lex/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cmakelang/lex/__init__.py b/cmakelang/lex/__init__.py
index 5fbadad..cb09839 100644
--- a/cmakelang/lex/__init__.py
+++ b/cmakelang/lex/__init__.py
@@ -136,13 +136,14 @@ def tokenize(contents):
       # double quoted string
       # NOTE(josh): regex borrowed from
       # https://stackoverflow.com/a/37379449/141023
-      (r'(?<![^\s\(])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\)])',
+      (r'(?<![^\s\(])"[^"\\]*(?:\\.[^"\\]*)*"(?![^\s\(\)#])',
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # single quoted string
       (r"(?<![^\s\(])'[^'\\]*(?:\\.[^'\\]*)*'(?![^\s\)])",
        lambda s, t: (TokenType.QUOTED_LITERAL, t)),
       # bracket argument
-      (r"(?<![^\s\(])\[(=*)\[.*?\]\1\](?![^\s\)])",
+      # NOTE: it ends at the first closing bracket, whatever comes next
+      (r"(?<![^\s\(])\[(=*)\[(?:(?!\]\1\]).)*\]\1\](?![^\s\(\)#])",
        lambda s, t: (TokenType.BRACKET_ARGUMENT, t)),
       (r"(?<![^\s\(])-?[0-9]+(?![^\s\)\(])",
        lambda s, t: (TokenType.NUMBER, t)),
-- 
2.43.0


From e503af9cf8cd81b2f3ac4a1b25b6e6113c3f6a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:00 +0000
Subject: [PATCH 70/93] fix: text after an off or on tag was dropped

---
 cmakelang/format/formatter.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index 80dbac7..be21a7a 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -779,6 +779,16 @@ class OnOffSwitchNode(LayoutNode):
   def has_terminal_comment(self):
     return True
 
+  @staticmethod
+  def get_spelling(token):
+    """
+    Canonicalize the output. The input regex may be more generous than this
+    exact string, but any text that follows the tag is kept.
+    """
+    return re.sub(
+        r"^#\s*(cmake-format|cmf): ", "# cmake-format: ",
+        token.spelling.rstrip())
+
   def _reflow(self, stack_context, cursor, passno):
     """
     There is only one possible flow as this is a single-token
@@ -786,13 +796,7 @@ class OnOffSwitchNode(LayoutNode):
     assert self.pnode.children
     token = self.pnode.children[0]
     assert isinstance(token, lex.Token)
-
-    # Canonicalize the output. The input regex may be more generous than this
-    # exact string.
-    if token.type == TokenType.FORMAT_ON:
-      spelling = "# cmake-format: on"
-    elif token.type == TokenType.FORMAT_OFF:
-      spelling = "# cmake-format: off"
+    spelling = self.get_spelling(token)
 
     cursor = cursor + (0, len(spelling))
     self._colextent = cursor[1]
@@ -803,8 +807,8 @@ class OnOffSwitchNode(LayoutNode):
     token = self.pnode.children[0]
     assert isinstance(token, lex.Token)
 
+    spelling = self.get_spelling(token)
     if token.type == TokenType.FORMAT_ON:
-      spelling = "# cmake-format: on"
       if ctx.offswitch_location is None:
         logging.warning(
             "'#cmake-format: on' with no corresponding 'off' at %d:%d",
@@ -821,7 +825,6 @@ class OnOffSwitchNode(LayoutNode):
       if not ctx.is_active():
         # Already off, this one is part of what is copied verbatim
         return
-      spelling = "# cmake-format: off"
       ctx.offswitch_location = token.end
 
     ctx.outfile.write_at(self.position, spelling)
-- 
2.43.0


From 31a7775654f82fb3739acd4f633bb2192b8a9c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 71/93] fix: the ruler pattern of the configuration was ignored
 within paragraphs

---
 cmakelang/markup.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 86e75df..265ca5c 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -170,9 +170,6 @@ def parse(lines, config=None):
       if NOTE_REGEX.match(line):
         obj_list.append(CommentItem(CommentType.NOTE))
         state = CommentType.NOTE
-      elif RULER_REGEX.match(line):
-        obj_list.append(CommentItem(CommentType.RULER))
-        state = CommentType.RULER
       obj_list[-1].lines.append(line.strip())
 
     elif state in (CommentType.BULLET_LIST, CommentType.ENUM_LIST):
-- 
2.43.0


From a5b0c9b4e6865cac4239b43bab47f50ea8550e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:17 +0000
Subject: [PATCH 72/93] fix: assertion failure for deeply nested lists in
 narrow comments

---
 cmakelang/markup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 265ca5c..3f84f10 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -276,7 +276,7 @@ def format_items(config, line_width, items):
         indent_history.pop(-1)
       indent_history.append(item.indent)
       nindent = 2 * (len(indent_history) - 1)
-      ilines = format_item(config, line_width - nindent, item)
+      ilines = format_item(config, max(10, line_width - nindent), item)
       outlines.extend(' ' * nindent + iline for iline in ilines)
     else:
       outlines.extend(format_item(config, line_width, item))
-- 
2.43.0


From 74aa7e0b6f32d027a3aaf3e232359a7fea920787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:32 +0000
Subject: [PATCH 73/93] fix: cmake-genparsers mixed the names of the input
 files with its output

---
 cmakelang/genparsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 410f541..08b4746 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -246,7 +246,7 @@ def main():
   returncode = 0
   outdict = collections.OrderedDict()
   for infile_path in args.infilepaths:
-    print(infile_path)
+    logger.info("Processing %s", infile_path)
     cfg = configuration.Configuration()
     if infile_path == '-':
       infile_path = os.dup(sys.stdin.fileno())
-- 
2.43.0


From a0800234984f93d5366803706f7669a64c9e7266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:43 +0000
Subject: [PATCH 74/93] fix: cmake-genparsers crashed or used stale content for
 unreadable files

---
 cmakelang/genparsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 08b4746..47e473d 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -257,6 +257,7 @@ def main():
     except (IOError, OSError):
       logger.error("Failed to open %s for read", infile_path)
       returncode = 1
+      continue
 
     try:
       with infile:
@@ -264,6 +265,8 @@ def main():
     except UnicodeDecodeError:
       logger.error(
           "Unable to read %s as %s", infile_path, cfg.encode.input_encoding)
+      returncode = 1
+      continue
 
     try:
       parse_tree = process_file(cfg, intext)
-- 
2.43.0


From 21876fc9446747193528e6f2bfc67307d86b38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 75/93] fix: cmake-genparsers took the keywords of nested
 definitions for those of the outer one

---
 cmakelang/genparsers.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 47e473d..1b82483 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -20,7 +20,7 @@ from cmakelang.format import __main__
 from cmakelang import configuration
 from cmakelang import lex
 from cmakelang import parse
-from cmakelang.parse.body_nodes import BodyNode
+from cmakelang.parse.body_nodes import BodyNode, FlowControlNode
 from cmakelang.parse.common import TreeNode
 from cmakelang.parse.statement_node import StatementNode
 from cmakelang.parse.funs.set import SetFnNode
@@ -28,10 +28,20 @@ from cmakelang.parse.funs.set import SetFnNode
 logger = logging.getLogger(__name__)
 
 
-def find_statements_in_subtree(subtree, funnames):
+def is_definition(node):
+  """
+  Return true if the node is the definition of a function or a macro.
+  """
+  return (isinstance(node, FlowControlNode)
+          and node.children
+          and node.children[0].get_funname() in ("function", "macro"))
+
+
+def find_statements_in_subtree(subtree, funnames, skip_definitions=False):
   """
   Return a generator that yields all statements in the `subtree` which match
-  the provided set of `funnames`.
+  the provided set of `funnames`. If `skip_definitions` is true then the
+  definitions of functions and macros within the subtree are left out.
   """
   if isinstance(subtree, (list, tuple)):
     queue = subtree
@@ -51,6 +61,8 @@ def find_statements_in_subtree(subtree, funnames):
         continue
 
     for child in node.children:
+      if skip_definitions and is_definition(child):
+        continue
       if isinstance(child, TreeNode):
         queue.append(child)
 
@@ -93,7 +105,7 @@ def process_defn_body(body, out):
   assert isinstance(body, BodyNode)
   variables = {}
   for child in find_statements_in_subtree(
-      body, ["list", "cmake_parse_arguments", "set"]):
+      body, ["list", "cmake_parse_arguments", "set"], skip_definitions=True):
 
     if isinstance(child, StatementNode):
       if child.get_funname() == "set":
-- 
2.43.0


From 9a0a80910cde87bb03523508422c75b789b5c6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 76/93] fix: cmake-genparsers misread the PARSE_ARGV form of
 cmake_parse_arguments

---
 cmakelang/genparsers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 1b82483..6fa1aaa 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -118,6 +118,13 @@ def process_defn_body(body, out):
 
       if child.get_funname() == "cmake_parse_arguments":
         pargs = child.argtree.get_tokens(kind="semantic")
+        if pargs and pargs[0].spelling == "PARSE_ARGV":
+          # cmake_parse_arguments(PARSE_ARGV <N> <prefix> ...)
+          pargs = pargs[2:]
+        if len(pargs) < 4:
+          logger.warning("Can't process cmake_parse_arguments() at %s",
+                         child.get_location())
+          return
         pargs.pop(0)
         kwvargs = replace_varrefs(
             pargs.pop(0).spelling.strip('"'), variables).split(";")
-- 
2.43.0


From b3d2ac76ccef240b822f596ab8959c8ab4fe5be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:31 +0000
Subject: [PATCH 77/93] fix: cmake-genparsers did not remove quotes from names
 or brackets from keywords

---
 cmakelang/genparsers.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 6fa1aaa..9a9b094 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -75,6 +75,17 @@ class VarSub(object):
     return self._vars.get(match.group(1), "")
 
 
+def get_value(token):
+  """
+  Return the content of an argument: the spelling without quotes or brackets
+  """
+  if token.type is lex.TokenType.QUOTED_LITERAL:
+    return token.spelling[1:-1]
+  if token.type is lex.TokenType.BRACKET_ARGUMENT:
+    return lex.parse_bracket_argument(token.spelling)[1]
+  return token.spelling
+
+
 def replace_varrefs(value, variables):
   """
   Replace cmake variable dereferences in the string, given a dictionary of
@@ -97,7 +108,7 @@ def process_set_statement(argtree, variables):
     return
 
   setargs = argtree.value_group.get_tokens(kind="semantic")
-  valuestr = ";".join(arg.spelling.strip('"') for arg in setargs)
+  valuestr = ";".join(get_value(arg) for arg in setargs)
   variables[varname] = replace_varrefs(valuestr, variables)
 
 
@@ -127,11 +138,11 @@ def process_defn_body(body, out):
           return
         pargs.pop(0)
         kwvargs = replace_varrefs(
-            pargs.pop(0).spelling.strip('"'), variables).split(";")
+            get_value(pargs.pop(0)), variables).split(";")
         onevargs = replace_varrefs(
-            pargs.pop(0).spelling.strip('"'), variables).split(";")
+            get_value(pargs.pop(0)), variables).split(";")
         multivargs = replace_varrefs(
-            pargs.pop(0).spelling.strip('"'), variables).split(";")
+            get_value(pargs.pop(0)), variables).split(";")
 
         pargs = out["pargs"]
         nargs = pargs["nargs"]
@@ -166,7 +177,7 @@ def process_defn(statement):
   """
   semantic_tokens = statement.argtree.parg_groups[0].get_tokens(kind="semantic")
 
-  canonical_spelling = semantic_tokens[0].spelling
+  canonical_spelling = get_value(semantic_tokens[0])
   fnname = canonical_spelling.lower()
   argnames = [token.spelling.lower() for token in semantic_tokens[1:]]
 
-- 
2.43.0


From 83b0898bb98793a6fbf348e931beb5a9a04d7f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:37 +0000
Subject: [PATCH 78/93] fix: cmake-genparsers did not process statements in the
 order of the file

---
 cmakelang/genparsers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 9a9b094..8458564 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -60,11 +60,11 @@ def find_statements_in_subtree(subtree, funnames, skip_definitions=False):
         yield node
         continue
 
-    for child in node.children:
-      if skip_definitions and is_definition(child):
-        continue
-      if isinstance(child, TreeNode):
-        queue.append(child)
+    # NOTE: depth first, so that the statements are in the order of the file
+    queue[:0] = [
+        child for child in node.children
+        if isinstance(child, TreeNode)
+        and not (skip_definitions and is_definition(child))]
 
 
 class VarSub(object):
-- 
2.43.0


From 88862976f516ab9e421487f3685f4c2c620ddf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 79/93] fix: ctest-to could not parse any file, and merged
 tests of the same name

---
 cmakelang/ctest_to.py | 134 ++++++++++++++++++++----------------------
 1 file changed, 63 insertions(+), 71 deletions(-)

diff --git a/cmakelang/ctest_to.py b/cmakelang/ctest_to.py
index 9d93661..799ae3f 100644
--- a/cmakelang/ctest_to.py
+++ b/cmakelang/ctest_to.py
@@ -11,12 +11,11 @@ import io
 import json
 import logging
 import os
+import re
 import sys
 from xml.etree import ElementTree as ET
 
-from cmakelang.format import __main__
 from cmakelang import lex
-from cmakelang import parse
 
 
 logger = logging.getLogger(__name__)
@@ -42,7 +41,9 @@ class TestSpec(object):
       if key == "LABELS":
         value = value.split(";")
       if key == "TIMEOUT":
-        value = int(value)
+        value = float(value)
+        if value == int(value):
+          value = int(value)
       if key.startswith("_"):
         continue
       props[key.lower()] = value
@@ -88,6 +89,41 @@ class TestSpec(object):
     return elem
 
 
+def unescape(text):
+  """Evaluate the escape sequences of a quoted or unquoted argument.
+  """
+  special = {"t": "\t", "r": "\r", "n": "\n", ";": "\\;", "\n": ""}
+  return re.sub(
+      r"\\(.)", lambda match: special.get(match.group(1), match.group(1)), text,
+      flags=re.DOTALL)
+
+
+def consume_args(tokens):
+  """Consume all tokens up to the end of the statement and return the list of
+     values of the arguments.
+  """
+  args = []
+  depth = 0
+  while tokens:
+    token = tokens.pop(0)
+    if token.type is lex.TokenType.LEFT_PAREN:
+      depth += 1
+    elif token.type is lex.TokenType.RIGHT_PAREN:
+      depth -= 1
+      if depth < 1:
+        break
+    elif token.type is lex.TokenType.QUOTED_LITERAL:
+      args.append(unescape(token.spelling[1:-1]))
+    elif token.type is lex.TokenType.BRACKET_ARGUMENT:
+      _, content, _ = lex.parse_bracket_argument(token.spelling)
+      args.append(re.sub("^\n", "", content))
+    elif token.type not in (
+        lex.TokenType.WHITESPACE, lex.TokenType.NEWLINE,
+        lex.TokenType.COMMENT, lex.TokenType.BRACKET_COMMENT):
+      args.append(unescape(token.spelling))
+  return args
+
+
 class ParseContext(object):
   """Persistent context for testfile parsing. Stores a queue of directories
      to process, and callbacks for each of the different cmake statements.
@@ -98,88 +134,37 @@ class ParseContext(object):
     self.dirqueue = []
     self.tests = {}
 
-  # pylint: disable=W0613
-  def parse_add_test(self, tokens, _breakstack):
+  def parse_add_test(self, args):
     """Parse an add_test() statement. This statement contains the test name
        and the command for the test.
     """
-    if not tokens:
+    if not args:
       raise RuntimeError("Ran out of tokens while processing add_test")
-    if tokens[0].type not in (
-        lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL):
-      raise RuntimeError("Expected a WORD token but got {}".format(tokens[0]))
-    test_name = tokens[0].spelling
-    tokens.pop(0)
-    test_argv = []
-    while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.WHITESPACE:
-        continue
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
-      else:
-        spelling = token.spelling
-      test_argv.append(spelling)
-
+    test_name = args[0]
     logger.debug("Adding test %s", test_name)
-    self.tests[test_name] = TestSpec(test_name, test_argv, self.cwd)
+    self.tests[(test_name, self.cwd)] = TestSpec(test_name, args[1:], self.cwd)
 
-  def parse_set_tests_properties(self, tokens, _breakstack):
+  def parse_set_tests_properties(self, args):
     """Parse a set_tests_properties() statement. This statement can set
        properties (key/value strings) on one or more tests.
     """
-    test_names = []
-    properties = {}
-
-    while (tokens
-           and tokens[0].spelling != "PROPERTIES"
-           and tokens[0].type != lex.TokenType.RIGHT_PAREN):
-      token = tokens.pop(0)
-      if token.type == lex.TokenType.WHITESPACE:
-        continue
-      assert token.type in (
-          lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL), (
-              "Unexpected {}".format(token))
-      test_names.append(token.spelling)
-
-    token = tokens.pop(0)
-    assert token.spelling == "PROPERTIES"
-
-    while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.WHITESPACE:
-        token = tokens.pop(0)
-      assert token.type in (
-          lex.TokenType.WORD, lex.TokenType.UNQUOTED_LITERAL), (
-              "Unexpected {}".format(token))
-      key = token.spelling
-
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.WHITESPACE:
-        token = tokens.pop(0)
-
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        value = token.spelling[1:-1]
-      else:
-        value = token.spelling
-
-      properties[key] = value
+    split = args.index("PROPERTIES")
+    test_names = args[:split]
+    properties = dict(zip(args[split + 1::2], args[split + 2::2]))
 
     for test_name in test_names:
       logger.debug("Updating properties for %s", test_name)
-      self.tests[test_name].props.update(properties)
+      if (test_name, self.cwd) not in self.tests:
+        logger.warning("%s has no test %s", self.cwd, test_name)
+        continue
+      self.tests[(test_name, self.cwd)].props.update(properties)
 
-  def parse_subdirs(self, tokens, _breakstack):
+  def parse_subdirs(self, args):
     """Parse a subdirs() statement. This statement is actually deprecated in
        cmake but it appears it is still in use by ctest.
     """
-    while tokens and tokens[0].type != lex.TokenType.RIGHT_PAREN:
-      token = tokens.pop(0)
-      if token.type is lex.TokenType.QUOTED_LITERAL:
-        spelling = token.spelling[1:-1]
-      else:
-        spelling = token.spelling
-      fullpath = os.path.join(self.cwd, spelling)
+    for arg in args:
+      fullpath = os.path.join(self.cwd, arg)
       logger.debug("pushing directory %s", fullpath)
       self.dirqueue.append(fullpath)
 
@@ -203,7 +188,14 @@ class ParseContext(object):
     with io.open(filepath, "r", encoding="utf-8") as infile:
       infile_content = infile.read()
     tokens = lex.tokenize(infile_content)
-    _ = parse.parse(tokens, self.get_db())
+    parse_db = self.get_db()
+    while tokens:
+      token = tokens.pop(0)
+      if token.type is not lex.TokenType.WORD:
+        continue
+      args = consume_args(tokens)
+      if token.spelling.lower() in parse_db:
+        parse_db[token.spelling.lower()](args)
 
   def start(self, firstdir):
     """Main entry-point into the parse. Pushes the first directory onto the
@@ -252,7 +244,7 @@ def main():
   ctx = ParseContext()
   ctx.start(args.directory)
 
-  out_type = getattr(args, "out_type", "json")
+  out_type = args.out_type or "json"
   if out_type == "json":
     sys.stdout.write(ctx.get_json())
   elif out_type == "xml":
-- 
2.43.0


From 88b3818ec2aeeb4d4633b622a5bdda07a32ba7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:18 +0000
Subject: [PATCH 80/93] fix: assertion failure for long comments with many
 double spaces

---
 cmakelang/common.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakelang/common.py b/cmakelang/common.py
index 610b545..938432b 100644
--- a/cmakelang/common.py
+++ b/cmakelang/common.py
@@ -78,7 +78,8 @@ def stable_wrap(wrapper, paragraph_text):
   history = [paragraph_text]
   prev_text = paragraph_text
   wrap_text = paragraph_text
-  for _ in range(8):
+  # NOTE: every pass but the last removes white space at the end of some line
+  for _ in range(len(paragraph_text) + 2):
     lines = wrapper.wrap(wrap_text)
     next_text = '\n'.join(line for line in lines)
     if next_text == prev_text:
-- 
2.43.0


From efe597f10c92d899205ba115902c8a6e93697730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:02 +0000
Subject: [PATCH 81/93] fix: space before the closing parenthesis after an
 empty group of arguments

---
 cmakelang/format/formatter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmakelang/format/formatter.py b/cmakelang/format/formatter.py
index be21a7a..406a014 100644
--- a/cmakelang/format/formatter.py
+++ b/cmakelang/format/formatter.py
@@ -1790,7 +1790,11 @@ def create_box_tree(pnode):
       continue
 
     if pchild.node_type in MATCH_TYPES:
-      layout_root.children.append(create_box_tree(pchild))
+      child = create_box_tree(pchild)
+      if pchild.node_type is NodeType.PARGGROUP and not child.children:
+        # There is nothing in it, so there's nothing to separate
+        continue
+      layout_root.children.append(child)
   return layout_root
 
 
-- 
2.43.0


From 2e20f3e03eb4e65e392df4db82918dc66820eb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 82/93] fix: add_library and add_executable with parenthetical
 groups were rejected

---
 cmakelang/parse/funs/add_executable.py | 6 ++++++
 cmakelang/parse/funs/add_library.py    | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/cmakelang/parse/funs/add_executable.py b/cmakelang/parse/funs/add_executable.py
index 967d5a1..4ef188f 100644
--- a/cmakelang/parse/funs/add_executable.py
+++ b/cmakelang/parse/funs/add_executable.py
@@ -174,6 +174,12 @@ def parse_add_executable(ctx, tokens, breakstack):
     return StandardArgTree.parse(ctx, tokens, npargs='*', kwargs={}, flags=[],
                                  breakstack=breakstack)
 
+  if any(token.type is lex.TokenType.LEFT_PAREN
+         for token in iter_semantic_tokens(tokens)):
+    # None of the forms has parenthetical groups, but cmake accepts them
+    return StandardArgTree.parse(ctx, tokens, npargs='+', kwargs={}, flags=[],
+                                 breakstack=breakstack)
+
   descriminator = second_token.spelling.upper()
   parsemap = {
       "ALIAS": parse_add_executable_alias,
diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index b86b2de..4403d23 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -252,6 +252,12 @@ def parse_add_library(ctx, tokens, breakstack):
     return StandardArgTree.parse(ctx, tokens, npargs='*', kwargs={}, flags=[],
                                  breakstack=breakstack)
 
+  if any(token.type is TokenType.LEFT_PAREN
+         for token in iter_semantic_tokens(tokens)):
+    # None of the forms has parenthetical groups, but cmake accepts them
+    return StandardArgTree.parse(ctx, tokens, npargs='+', kwargs={}, flags=[],
+                                 breakstack=breakstack)
+
   descriminator = second_token.spelling.upper()
   parsemap = {
       "OBJECT": parse_add_library_object,
-- 
2.43.0


From 09c714deb5dd7189b31af944c65172d016575655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:34 +0000
Subject: [PATCH 83/93] fix: parenthetical groups among properties were
 rejected

---
 cmakelang/parse/additional_nodes.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/additional_nodes.py b/cmakelang/parse/additional_nodes.py
index 17f314a..6479031 100644
--- a/cmakelang/parse/additional_nodes.py
+++ b/cmakelang/parse/additional_nodes.py
@@ -13,8 +13,8 @@ from cmakelang.parse.common import (
 )
 from cmakelang.parse.simple_nodes import CommentNode, OnOffNode
 from cmakelang.parse.argument_nodes import (
-    ArgGroupNode, PositionalGroupNode, PositionalParser, PositionalSpec,
-    StandardArgTree)
+    ArgGroupNode, ParenGroupNode, PositionalGroupNode, PositionalParser,
+    PositionalSpec, StandardArgTree)
 
 logger = logging.getLogger(__name__)
 
@@ -63,6 +63,13 @@ class TupleGroupNode(ArgGroupNode):
         active_depth.children.append(OnOffNode.consume(ctx, tokens))
         continue
 
+      # If this is the start of a parenthetical group, then parse the group
+      if tokens[0].type == lex.TokenType.LEFT_PAREN:
+        with ctx.pusharg(active_depth):
+          group = ParenGroupNode.parse(ctx, tokens, breakstack)
+        active_depth.children.append(group)
+        continue
+
       # Otherwise we will consume the token
       token = tokens.pop(0)
 
-- 
2.43.0


From 4ddd9a09b39a39b059e800a0d25a04f805a429d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 84/93] fix: too deeply nested text kept the other files from
 being processed

---
 cmakelang/format/__main__.py | 2 +-
 cmakelang/lint/__main__.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/format/__main__.py b/cmakelang/format/__main__.py
index 10b18ec..9802643 100644
--- a/cmakelang/format/__main__.py
+++ b/cmakelang/format/__main__.py
@@ -671,7 +671,7 @@ def inner_main():
     except EnvironmentError as ex:
       logger.error("%s: %s", infile_path, ex)
       returncode = 1
-    except (common.InternalError, AssertionError):
+    except Exception:  # pylint: disable=broad-except
       logger.exception(
           "An internal error occured. Please consider filing a bug report at "
           "github.com/cheshirekow/cmakelang/issues")
diff --git a/cmakelang/lint/__main__.py b/cmakelang/lint/__main__.py
index 8891534..0c6060b 100644
--- a/cmakelang/lint/__main__.py
+++ b/cmakelang/lint/__main__.py
@@ -183,7 +183,7 @@ def inner_main():
       # NOTE: report what was found so far and go on with the other files
       logger.error("%s: %s", infile_path, ex.msg)
       returncode = max(returncode, 1)
-    except (common.InternalError, AssertionError):
+    except Exception:  # pylint: disable=broad-except
       logger.exception(
           "An internal error occured while processing %s. Please consider "
           "filing a bug report at github.com/cheshirekow/cmakelang/issues",
-- 
2.43.0


From 7ff24fcac41f6bee46fc68ae6fa8e1a33116208b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:01 +0000
Subject: [PATCH 85/93] fix: fence_pattern other than the default lost the
 fences

---
 cmakelang/markup.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmakelang/markup.py b/cmakelang/markup.py
index 3f84f10..b14c649 100644
--- a/cmakelang/markup.py
+++ b/cmakelang/markup.py
@@ -91,8 +91,12 @@ def parse(lines, config=None):
     fence_match = fence_re.match(line)
     if fence_match:
       obj_list.append(CommentItem(CommentType.FENCE))
-      obj_list[-1].lines.append(fence_match.group(1).strip())
-      content = fence_match.group(2).strip()
+      if fence_re.groups > 1:
+        fence, content = fence_match.group(1, 2)
+      else:
+        fence, content = fence_match.group(0), line[fence_match.end():]
+      obj_list[-1].lines.append((fence or "").strip())
+      content = (content or "").strip()
       line = content
       if state == CommentType.VERBATIM:
         state = None
@@ -224,7 +228,10 @@ def format_item(config, line_width, item):
   if item.kind == CommentType.SEPARATOR:
     return ['']
   if item.kind == CommentType.FENCE:
-    return ['~~~']
+    if re.match(config.markup.fence_pattern, '~~~'):
+      return ['~~~']
+    # NOTE: anything else would not be a fence the next time
+    return list(item.lines)
   if item.kind == CommentType.VERBATIM:
     return [line.rstrip() for line in item.lines]
   if is_hashruler(item) and config.markup.canonicalize_hashrulers:
-- 
2.43.0


From 246880be18e7538fd8199b89032c9c2abc68d8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:10 +0000
Subject: [PATCH 86/93] fix: cmake-genparsers took set(PARENT_SCOPE) for an
 assignment in the definition

---
 cmakelang/genparsers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmakelang/genparsers.py b/cmakelang/genparsers.py
index 8458564..22b447e 100644
--- a/cmakelang/genparsers.py
+++ b/cmakelang/genparsers.py
@@ -102,6 +102,10 @@ def process_set_statement(argtree, variables):
   """
   Process a set() statement, updating the variable assignments accordingly
   """
+  if argtree.parent_scope:
+    # It is the variable of the caller which is assigned
+    return
+
   varname = replace_varrefs(argtree.varname.spelling, variables)
   if not argtree.value_group:
     variables.pop(varname, None)
-- 
2.43.0


From da33b33eca8636f2205b233cda42ac13e2d2a754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 87/93] fix: some keywords of the documented signatures were
 not recognized

---
 cmakelang/parse/funs/add_library.py   | 2 +-
 cmakelang/parse/funs/file.py          | 1 +
 cmakelang/parse/funs/install.py       | 4 +++-
 cmakelang/parse/funs/miscellaneous.py | 2 +-
 4 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/cmakelang/parse/funs/add_library.py b/cmakelang/parse/funs/add_library.py
index 4403d23..d470b99 100644
--- a/cmakelang/parse/funs/add_library.py
+++ b/cmakelang/parse/funs/add_library.py
@@ -142,7 +142,7 @@ def parse_add_library_imported(ctx, tokens, breakstack):
   return StandardArgTree.parse(
       ctx, tokens, npargs='+',
       kwargs={},
-      flags=["SHARED", "STATIC", "MODULE", "OBJECT", "UNKOWN", "IMPORTED",
+      flags=["SHARED", "STATIC", "MODULE", "OBJECT", "UNKNOWN", "IMPORTED",
              "GLOBAL"],
       breakstack=breakstack)
 
diff --git a/cmakelang/parse/funs/file.py b/cmakelang/parse/funs/file.py
index 87cf397..b0d1fdb 100644
--- a/cmakelang/parse/funs/file.py
+++ b/cmakelang/parse/funs/file.py
@@ -250,6 +250,7 @@ def parse_file_create_link(ctx, tokens, breakstack):
           "RESULT": PositionalParser(1),
       },
       flags=[
+          "CREATE_LINK",
           "COPY_ON_ERROR",
           "SYMBOLIC",
       ],
diff --git a/cmakelang/parse/funs/install.py b/cmakelang/parse/funs/install.py
index b91bb73..ab07e92 100644
--- a/cmakelang/parse/funs/install.py
+++ b/cmakelang/parse/funs/install.py
@@ -217,9 +217,10 @@ def parse_install_directory(ctx, tokens, breakstack):
           "REGEX": PatternNode.parse,
       },
       flags=[
-          "USER_SOURCE_PERMISSIONS",
+          "USE_SOURCE_PERMISSIONS",
           "OPTIONAL",
           "MESSAGE_NEVER",
+          "EXCLUDE_FROM_ALL",
           "FILES_MATCHING",
       ],
       breakstack=breakstack)
@@ -275,6 +276,7 @@ def parse_install_export(ctx, tokens, breakstack):
           "COMPONENT": PositionalParser(1),
       },
       flags=[
+          "EXPORT_LINK_INTERFACE_LIBRARIES",
           "EXCLUDE_FROM_ALL"
       ],
       breakstack=breakstack)
diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index d6ad923..edfdf99 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -249,7 +249,7 @@ def parse_include_guard(ctx, tokens, breakstack):
 
   :see: https://cmake.org/cmake/help/latest/command/include_guard.html
   """
-  return StandardArgTree.parse(ctx, tokens, "*", {}, [], breakstack)
+  return StandardArgTree.parse(ctx, tokens, "*", {}, ["DIRECTORY", "GLOBAL"], breakstack)
 
 
 def parse_include_regular_expression(ctx, tokens, breakstack):
-- 
2.43.0


From d6965a7b2725a435f440ce204c0d9fb18c97f7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:52 +0000
Subject: [PATCH 88/93] fix: directories of install(TARGETS ... INCLUDES
 DESTINATION) were torn apart

---
 cmakelang/parse/funs/install.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/cmakelang/parse/funs/install.py b/cmakelang/parse/funs/install.py
index ab07e92..bfb0678 100644
--- a/cmakelang/parse/funs/install.py
+++ b/cmakelang/parse/funs/install.py
@@ -106,6 +106,12 @@ def parse_install_targets(ctx, tokens, breakstack):
       list(kwargs.keys()) + list(designated_kwargs) + list(flags)
   )]
 
+  # the DESTINATION of INCLUDES is not one of them
+  includes_breakstack = breakstack + [KwargBreaker(
+      [key for key in kwargs if key != "DESTINATION"]
+      + list(designated_kwargs) + list(flags)
+  )]
+
   # and flags at this depth break only on kwargs
   positional_breakstack = breakstack + [KwargBreaker(
       list(kwargs.keys()) + list(designated_kwargs)
@@ -140,6 +146,10 @@ def parse_install_targets(ctx, tokens, breakstack):
     if word in designated_kwargs:
       subtree = KeywordGroupNode.parse(
           ctx, tokens, word, parse_install_targets, subtree_breakstack)
+    elif word == "INCLUDES":
+      # NOTE: "INCLUDES DESTINATION" takes any number of directories
+      subtree = KeywordGroupNode.parse(
+          ctx, tokens, word, kwargs[word], includes_breakstack)
     elif word in kwargs:
       subtree = KeywordGroupNode.parse(
           ctx, tokens, word, kwargs[word], kwarg_breakstack)
-- 
2.43.0


From 613f92640ec29e8e9292ab7378f047f2177231f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:42 +0000
Subject: [PATCH 89/93] fix: find_library and find_path know the flag
 NO_CMAKE_SYSTEM_PATH

---
 cmakelang/parse/funs/standard_builtins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmakelang/parse/funs/standard_builtins.py b/cmakelang/parse/funs/standard_builtins.py
index 78c8e4f..b4a5947 100644
--- a/cmakelang/parse/funs/standard_builtins.py
+++ b/cmakelang/parse/funs/standard_builtins.py
@@ -125,7 +125,7 @@ FUNSPECS = {
       "NO_CMAKE_ENVIRONMENT_PATH",
       "NO_CMAKE_FIND_ROOT_PATH",
       "NO_CMAKE_PATH",
-      "NO_CMKE_SYSTEM_PATH",
+      "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
@@ -158,7 +158,7 @@ FUNSPECS = {
       "NO_CMAKE_ENVIRONMENT_PATH",
       "NO_CMAKE_FIND_ROOT_PATH",
       "NO_CMAKE_PATH",
-      "NO_CMKE_SYSTEM_PATH",
+      "NO_CMAKE_SYSTEM_PATH",
       "NO_DEFAULT_PATH",
       "NO_SYSTEM_ENVIRONMENT_PATH",
       "ONLY_CMAKE_FIND_ROOT_PATH"
-- 
2.43.0


From 4aa6b8025a7857459566db36c2bcbe44f4c702d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:37 +0000
Subject: [PATCH 90/93] fix: list(TRANSFORM) knows the keyword OUTPUT_VARIABLE

---
 cmakelang/parse/funs/list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/list.py b/cmakelang/parse/funs/list.py
index e418386..aac5b25 100644
--- a/cmakelang/parse/funs/list.py
+++ b/cmakelang/parse/funs/list.py
@@ -31,7 +31,9 @@ TRANSFORM_KWARGS = {
     # selectors
     "AT": StandardParser("+"),
     "FOR": StandardParser("2+"),
-    "REGEX": StandardParser(1)
+    "REGEX": StandardParser(1),
+    # where the result goes
+    "OUTPUT_VARIABLE": StandardParser(1)
 }
 
 
-- 
2.43.0


From 3e04e789fea9cf3ca76327e2d8fa4b870b6d0bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:51 +0000
Subject: [PATCH 91/93] fix: CACHE is a keyword in every form of
 get_filename_component

---
 cmakelang/parse/funs/miscellaneous.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index edfdf99..b886591 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -184,6 +184,7 @@ def parse_get_filename_component(ctx, tokens, breakstack):
       "ABSOLUTE",
       "REALPATH",
       "PATH",
+      "CACHE",
   ]
   return StandardArgTree.parse(ctx, tokens, "3+", {}, flags, breakstack)
 
-- 
2.43.0


From a768889c1d86850ebc4950912291393bdcb0c93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:04 +0000
Subject: [PATCH 92/93] fix: TREE is a keyword of source_group

---
 cmakelang/parse/funs/miscellaneous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakelang/parse/funs/miscellaneous.py b/cmakelang/parse/funs/miscellaneous.py
index b886591..5eb790c 100644
--- a/cmakelang/parse/funs/miscellaneous.py
+++ b/cmakelang/parse/funs/miscellaneous.py
@@ -444,7 +444,7 @@ def parse_source_group(ctx, tokens, breakstack):
         "PREFIX": PositionalParser(1),
         "FILES": PositionalParser("+")
     }
-    return StandardArgTree.parse(ctx, tokens, 2, kwargs, [], breakstack)
+    return StandardArgTree.parse(ctx, tokens, 2, kwargs, ["TREE"], breakstack)
 
   kwargs = {
       "FILES": PositionalParser("+"),
-- 
2.43.0


From e3a0512977b297593b6cd6bc5ad2355233452de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:27 +0000
Subject: [PATCH 93/93] fix: the module list does not hide the signature of
 enable_language

---
 cmakelang/parse/funs/standard_modules.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmakelang/parse/funs/standard_modules.py b/cmakelang/parse/funs/standard_modules.py
index afa38a1..59cae06 100644
--- a/cmakelang/parse/funs/standard_modules.py
+++ b/cmakelang/parse/funs/standard_modules.py
@@ -983,11 +983,6 @@ FUNSPECS = {
       "nargs": 0
     }
   },
-  "enable_language": {
-    "pargs": {
-      "nargs": 0
-    }
-  },
   "export_jars": {
     "kwargs": {
       "FILE": 1,
-- 
2.43.0

