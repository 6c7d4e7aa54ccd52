# -*- coding: utf-8 -*-
"""Generators of CMake listfiles (as text) and of cmake-format configurations.

Everything produced by Gen.listfile() is valid CMake in the sense of
vf.cmref (checked by the callers), and uses only constructs the formatter is
documented or observed to accept."""
import json
import os

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
VOCAB = json.load(open(os.path.join(DATA, "vocab.json")))
CORPUS = json.load(open(os.path.join(DATA, "corpus.json")))
BLOCKS = ("if", "elseif", "else", "endif", "foreach", "endforeach", "while",
          "endwhile", "function", "endfunction", "macro", "endmacro", "break",
          "continue")
COMMANDS = sorted(k for k in VOCAB if k not in BLOCKS)
COMMON = ["set", "message", "add_library", "add_executable", "list", "install",
          "target_link_libraries", "add_custom_command", "add_custom_target",
          "set_target_properties", "file", "string", "include", "find_package",
          "execute_process", "set_property", "export", "option", "project",
          "add_test", "configure_file", "cmake_parse_arguments", "return",
          "target_include_directories", "math", "get_property", "unset",
          "externalproject_add", "fetchcontent_declare", "add_definitions",
          "set_source_files_properties", "include_directories", "try_compile",
          "target_sources", "target_compile_definitions", "find_library",
          "find_path", "find_program", "separate_arguments", "cmake_policy",
          "get_filename_component", "add_subdirectory", "link_directories",
          "add_dependencies", "cmake_minimum_required", "enable_testing",
          "get_target_property", "set_directory_properties", "source_group"]
CORPUS_NAMES = sorted(k for k in CORPUS if k in VOCAB and k not in BLOCKS)
# names that begin, end or read like those of control flow
LIKE = ["endpoint_add", "end", "if_found", "ifdef", "else_if", "elsewhere", "foreach_target", "whilex", "function_doc", "macros", "endif_",
        "end_if", "set_if", "endset", "my_endif", "endblock", "returns", "breakpoint"]
UNKNOWN = ["my_func", "foo", "do_something_very_special", "x", "Zed_1", "_p",
           "pkg_check_modules", "add_unit_test", "catch_discover_tests"] + LIKE

WORDS = ["a", "foo", "bar", "src", "main", "hello", "target", "name", "value",
         "config", "build", "debug", "x1", "some_variable", "MY_VAR", "TRUE",
         "ON", "OFF", "library", "PROJECT_NAME", "sourcefile", "an", "of",
         "the", "include", "longer_identifier_name", "CMAKE_BUILD_TYPE",
         "very_long_variable_name_number_one", "_private", "B", "zlib"]
EXTS = [".cc", ".h", ".cpp", ".cmake", ".txt.in", ".c", ".py"]
UNI = ["é", "日本語", "naïve", "Ω≈ç", "🚀", "ß", "да", "a\u0301", "\u00a0x".strip("\u00a0"), "中"]
PROSE = ["the", "quick", "brown", "fox", "jumps", "over", "lazy", "dog", "a",
         "configuration", "is", "used", "to", "build", "(see", "below)", "e.g.",
         "foo()", "note", "that", "library,", "which", "and", "or", "value.",
         "don't", "set", "${VAR}", "path/to/file.cc", "42", "TODO", "x=y",
         "https://example.com/a/b?c=d", "\"quoted\"", "internationalization",
         "-", "--flag", "@AT@", "if(X)", "semi;colon", "<tag>", "&amp;"]


# words that can not be taken for markup wherever a line is wrapped
SAFE_PROSE = [w for w in PROSE if w not in ("-",)]


class Prof(object):
  """What a generated listfile may contain; percentages unless noted."""
  comments = 35        # chance of comments between statements
  argcomments = 12     # chance of a comment after an argument
  bracket_comments = True
  kinds = dict(trail=6, own=4, bracket=2, explicit=2, block=1)   # comments among arguments
  tail_comments = True # comments between the last argument and the parenthesis
  head_comments = True # comments between the parenthesis and the first argument
  aligned = False      # own-line comments are indented by their depth
  trailing = 8         # chance of a comment after the closing parenthesis
  trailing_more = 15   # chance that it goes on in the next line
  arg_words = 0        # longest comment among and after arguments (0: any)
  safe_prose = False   # no words that look like markup at the start of a line
  markup = 40          # chance that a comment block uses markup
  onoff = 0
  unterminated_off = False
  weird = 15           # chance of unusual argument kinds
  unicode = 6
  multiline = 6        # chance of multi-line argument
  noise = True         # irregular white space
  blocks = 30
  max_depth = 3
  stmts = (1, 5)
  at_stmt = 2
  nested_parens = 6
  case_noise = True
  cont_noise = True
  sort_tags = 4
  trailing_ws_in_multiline = False
  tabs = True
  pragma = 3
  final_newline = True
  comment_depth = 2
  commands = None      # fixed list of commands
  functions = True

  def __init__(self, **kw):
    for k, v in kw.items():
      assert hasattr(Prof, k), k
      setattr(self, k, v)


class Gen(object):
  def __init__(self, src, prof=None):
    self.s = src
    self.prof = prof or Prof()
    self.messy = self.prof.noise and src.p(60)
    self.counter = 0

  # ---------------------------------------------------------------- words
  def ident(self):
    s = self.s
    w = s.pick(WORDS)
    if s.p(15):
      w += s.w((3, "_"), (2, "2"), (1, "_long_suffix_to_make_it_wider")) + s.pick(["x", "y", "3"])
    return w

  def path(self):
    s = self.s
    parts = [s.pick(WORDS) for _ in range(s.many(1, 4, 55))]
    return "/".join(parts) + s.pick(EXTS)

  def unquoted(self):
    s = self.s
    kind = s.w((30, "id"), (20, "path"), (12, "deref"), (6, "num"), (5, "flag"),
               (4, "list"), (4, "genex"), (self.prof.weird, "weird"),
               (self.prof.unicode, "uni"), (2, "long"))
    if kind == "id":
      return self.ident()
    if kind == "path":
      return self.path()
    if kind == "num":
      return s.pick(["1", "0", "42", "-1", "3.14", "1.2.3", "0x1F", "007", "10e5"])
    if kind == "deref":
      v = self.ident()
      return s.w((6, "${%s}" % v), (2, "${%s}/%s" % (v, self.path())),
                 (2, "${%s_${%s}}" % (v, self.ident())), (2, "$ENV{%s}" % v),
                 (1, "$CACHE{%s}" % v), (2, "@%s@" % v), (1, "${%s}${%s}" % (v, v)),
                 (1, "lib${%s}.so" % v))
    if kind == "flag":
      return s.pick(["-Wall", "--opt=val", "-O2", "/W4", "-DFOO=1", "-I.", "-j8",
                     "--", "-", "+x", "~/x", "..", ".", "*.cc", "?", "!", "%d", "^a", "|", "&&", ">", "<", "2>&1", ":", ","])
    if kind == "list":
      return ";".join(self.ident() for _ in range(s.i(2, 4)))
    if kind == "genex":
      return s.pick(["$<TARGET_FILE:foo>", "$<$<CONFIG:Debug>:-g>", "$<0:x>",
                     "$<BUILD_INTERFACE:${A}/inc>", "$<TARGET_OBJECTS:x>",
                     "$<$<AND:$<BOOL:${X}>,$<NOT:1>>:a;b>"])
    if kind == "weird":
      return self.weird()
    if kind == "uni":
      return s.pick(UNI) + s.w((3, ""), (1, "x"), (1, "/" + self.path()))
    return self.ident() + "_" + "x" * s.pick([10, 25, 40, 60, 79, 85, 110])

  def weird(self):
    s = self.s
    v = self.ident()
    if s.p(40):
      return self.composite()
    return s.pick([
        "a\\;b", "a\\ b", "\\\"q\\\"", "\\(x\\)", "\\#no", "c:\\\\dir", "\\n", "\\t\\r",
        "a=b", "=", "==", "x[0]", "[x]", "[a=]", "\\${%s}" % v, "\\@x", "a\\\\b",
        "$(MAKE)", "-L$(DIR)/lib", "don't", "it's", "a'b'c", "'sq'", "x\\\\",
        "-D%s=\"a b\"" % v, "x\"y z\"w", "-DX=\"\"", "--a=\"b\"/c", "%s=\"${%s} x\"" % (v, v),
        "$", "$x", "${", "}", "{}", "a,b", "a:b", "\\\\", "^[a-z]+$", "(".replace("(", "\\("),
        "[a-z]*", "].*", "@", "@a", "a@b", "<a>", "`x`", "a|b", "~", "\\^x", "\\$x"])

  def composite(self):
    """an unquoted argument made of pieces of every kind"""
    s = self.s
    out = s.pick(["a", "-D", "x=", "${A}", "/p/", "\\(", "--f=", "$<", "_"])
    last = ""
    for _ in range(s.many(1, 5, 65)):
      kind = s.w((4, "word"), (3, "escape"), (3, "quoted"), (1, "make"), (1, "deref"), (1, "bracket"), (2, "punct"))
      if kind == last == "quoted":
        kind = "word"
      last = kind
      if kind == "word":
        out += self.ident()
      elif kind == "escape":
        out += s.pick(["\\ ", "\\;", "\\(", "\\)", "\\#", "\\\"", "\\\\", "\\$", "\\@", "\\^", "\\t", "\\n", "\\r"])
      elif kind == "quoted":
        inner = ""
        for _ in range(s.many(0, 4, 65)):
          inner += s.pick(["b", " ", "\\\"", "\\\\", ";", "${v}", "  c", "\\n", "'", "\\(", "\\#"])
        out += '"' + inner + '"'
      elif kind == "make":
        out += "$(%s)" % s.pick(["MAKE", "dir_x", "A"])
      elif kind == "deref":
        out += "${%s}" % s.pick(["v", "a_b", "A1"])
      elif kind == "bracket":
        out += s.pick(["[x]", "[", "]", "[=[", "]]"])
      else:
        out += s.pick(["=", ",", ":", "+", "*", "<", ">", "/", "@", "'", "~", "|"])
    return out

  def qtext(self):
    """content of a one-line quoted string"""
    s = self.s
    parts = []
    for _ in range(s.many(0, 8, 70)):
      parts.append(s.w((20, s.pick(PROSE).replace('"', "'")), (5, self.ident()),
                       (3, "${%s}" % self.ident()), (2, "\\\""), (1, "\\\\"), (1, "\\n"),
                       (1, ";"), (1, "#"), (1, "(x"), (1, ")"), (1, "[["), (1, "]]"), (1, "# not a comment"),
                       (1, "'"), (1, "\\;"), (1, "$"), (1, "\\$\\@"),
                       (max(0, self.prof.unicode) // 3 or 0, s.pick(UNI)) if self.prof.unicode else (1, "u")))
    sep = s.w((8, " "), (1, ""), (1, "  "), (1, "\t") if self.prof.tabs else (1, " "))
    return sep.join(parts)

  def mltext(self, quoted):
    """content of a multi-line literal"""
    s = self.s
    lines = []
    for _ in range(s.i(2, 4)):
      if s.p(15):
        lines.append("")
        continue
      ind = s.w((4, ""), (3, "  "), (2, "    "), (1, "\t") if self.prof.tabs else (1, "   "), (1, "          "))
      body = self.qtext() if quoted else self.btext()
      body = body.strip(" \t")
      if quoted and s.p(10):
        body += "\\"     # line continuation
      elif self.prof.trailing_ws_in_multiline and s.p(20):
        body += s.pick([" ", "  ", "\t"])
      lines.append(ind + body)
    if quoted and lines[-1].endswith("\\") and not lines[-1].endswith("\\\\"):
      lines[-1] = lines[-1][:-1]
    if not self.prof.trailing_ws_in_multiline:
      lines = [l.rstrip(" \t") if not l.rstrip(" \t").endswith("\\") else l for l in lines]
    return "\n".join(lines)

  def quoted(self):
    s = self.s
    if s.p(self.prof.multiline):
      t = self.mltext(True)
    else:
      t = self.qtext()
    # an odd number of backslashes at the end would escape the quote
    n = len(t) - len(t.rstrip("\\"))
    if n % 2:
      t += "\\"
    return '"' + t + '"'

  def btext(self):
    s = self.s
    parts = [s.w((10, s.pick(PROSE)), (2, '"'), (1, "\\"), (1, "#"), (1, "("), (1, ")"),
                 (1, "[="), (1, "]"), (1, "]="), (1, "${x}"), (1, "${a}\"b"), (1, "'"),
                 (1, s.pick(UNI) if self.prof.unicode else "u"))
             for _ in range(s.many(0, 5, 60))]
    return " ".join(parts)

  def bracket(self):
    s = self.s
    if s.p(self.prof.multiline * 4):
      body = self.mltext(False)
      if s.p(30):
        body = "\n" + body
    else:
      body = self.btext()
    return self.wrap_bracket(body)

  def wrap_bracket(self, body):
    eq = "=" * self.s.w((5, 0), (3, 1), (1, 2), (1, 4))
    while "]" + eq + "]" in body or body.endswith("]" + eq):
      eq += "="
    return "[" + eq + "[" + body + "]" + eq + "]"

  def arg(self):
    s = self.s
    return s.w((14, self.unquoted), (5, self.quoted), (1, self.bracket))()

  # ------------------------------------------------------------- comments
  def prose(self, lo=1, hi=14):
    s = self.s
    n = s.many(lo, hi, 82)
    ws = []
    for _ in range(n):
      ws.append(s.pick(UNI) if (self.prof.unicode and s.p(self.prof.unicode)) else s.pick(
          SAFE_PROSE if self.prof.safe_prose else PROSE))
    return " ".join(ws)

  def line_comment(self, arg=False):
    """a one-line comment, plain"""
    s = self.s
    if s.p(4) and not (arg and self.prof.arg_words):
      return "#"
    text = self.prose(1, self.prof.arg_words or 14) if arg else self.prose()
    if text.startswith("cmake-format"):
      text = "x " + text
    pre = s.w((10, "# "), (2, "#"), (1, "#  "), (1, "## "), (1, "#\t") if self.prof.tabs else (1, "# "))
    if pre == "#" and text[:1] in "[<":
      pre = "# "
    return pre + text + s.w((8, ""), (1, " "), (1, "  "), (1, "\t") if self.prof.tabs else (1, ""))

  def bracket_comment(self, multiline=True):
    s = self.s
    if multiline and s.p(self.prof.multiline * 5):
      body = self.mltext(False)
    else:
      body = self.btext()
    return "#" + self.wrap_bracket(body)

  def markup_block(self):
    """lines of a comment block with markup items"""
    s = self.s
    lines = []
    for _ in range(s.many(1, 4, 60)):
      kind = s.w((6, "para"), (4, "bullet"), (3, "enum"), (2, "ruler"), (2, "note"),
                 (2, "fence"), (2, "blank"), (1, "hash"), (1, "nested"))
      if lines and kind in ("bullet", "enum", "nested") and s.p(80):
        lines.append("")
      if kind == "para":
        for _ in range(s.i(1, 3)):
          lines.append(self.prose(1, 16))
      elif kind == "bullet":
        ch = s.w((4, "*"), (2, "-"))
        for _ in range(s.i(1, 4)):
          lines.append(ch + " " + self.prose(1, 16))
          if s.p(30):
            lines.append("  " + self.prose(1, 6))
      elif kind == "nested":
        lines += ["* " + self.prose(), "", "  * " + self.prose(), "  * " + self.prose(), "", "* " + self.prose()]
      elif kind == "enum":
        p = s.w((4, "."), (1, ":"))
        for k in range(s.w((6, s.i(1, 4)), (2, s.i(5, 12)), (1, 101))):
          lines.append("%d%s %s" % (k + 1 if s.p(90) else 1, p, self.prose(1, 3)))
      elif kind == "ruler":
        lines.append(s.pick(["======", "----------", "=== Title ===", "--- a b ---", "******", "~~~~x~~~".replace("~", "+"), "-" * 90]))
      elif kind == "note":
        lines.append(s.pick(["TODO(josh): ", "NOTE(a_b): ", "FIXME(x y): "]) + self.prose(0, 14))
        if s.p(30):
          lines.append(self.prose())
      elif kind == "fence":
        f = s.w((3, "~~~"), (2, "```"), (1, "~~~~~"), (1, ":::"))
        # text may follow the fence at the begin and at the end of the block
        lines.append(f + s.w((6, ""), (1, " python"), (1, "cmake"), (1, " " + self.prose(1, 3))))
        for _ in range(s.i(0, 3)):
          lines.append(s.w((4, ""), (2, "  "), (1, "      ")) + self.prose())
        lines.append(f + s.w((9, ""), (1, " " + self.prose(1, 12))))
      elif kind == "hash":
        lines.append("#" * s.pick([9, 10, 12, 40, 79, 100]))
      else:
        lines.append("")
    return lines

  def comment_block(self):
    """a scope-level comment block: list of physical comment lines"""
    s = self.s
    p = self.prof
    if p.bracket_comments and s.p(12):
      return [self.bracket_comment()]
    if s.p(p.pragma):
      return [s.pick(["# cmake-lint: disable=C0103", "# cmake-lint: disable=C0111,E1120",
                      "#!/usr/bin/cmake -P"])]
    if s.p(p.markup):
      out = []
      for l in self.markup_block():
        if l.startswith("#####"):
          out.append("#" + l if s.p(50) else "# " + l)
        else:
          out.append(("# " + l).rstrip() if l else "#")
      return out
    return [self.line_comment() for _ in range(s.many(1, 4, 45))]

  # ------------------------------------------------------------ statements
  def case(self, name):
    s = self.s
    if not self.prof.case_noise:
      return name
    return s.w((6, name), (2, name.upper()), (1, name.capitalize()), (1, name.swapcase()))

  def gap(self, first=False):
    """white space between arguments"""
    s = self.s
    if not self.messy:
      return "" if first else " "
    lo = "" if first else " "
    return s.w((12, lo), (3, "\n"), (3, "\n  "), (2, "\n      "), (1, "  "),
               (1, "\t") if self.prof.tabs else (1, "   "), (1, "\n\n"),
               (1, " \n\t") if self.prof.tabs else (1, " \n "))

  def join_args(self, args, tail_comment=True):
    """Render an argument list (strings, '(' and ')') with noise and comments,
    without the outer parentheses."""
    s = self.s
    out = []
    need = False   # a separator is required
    p = self.prof
    n = len(args)
    for idx in range(n + 1):
      # comment before argument idx
      if p.argcomments and (idx < n or (tail_comment and p.tail_comments)) and (
          idx or p.head_comments) and not (
              p.aligned and (args[:idx].count("(") != args[:idx].count(")") or args[idx - 1:idx] == [")"])) and (
              s.p(p.argcomments)):
        kind = s.w(*[(v, k) for k, v in p.kinds.items() if k != "bracket" or p.bracket_comments] +
                   [(p.sort_tags, "tag")])
        if kind == "trail":
          out.append((" " if s.p(88 if idx else 50) or p.aligned and idx else "") + self.line_comment(True) + "\n")
          out.append(s.w((3, ""), (2, "   "), (1, "\n")) if self.messy else "")
        elif kind == "own":
          out.append("\n" + s.w((2, ""), (2, "  "), (1, "      ")) + self.line_comment(True) + "\n")
        elif kind == "block":
          out.append("\n" + "\n".join("  " + self.line_comment(True) for _ in range(s.i(2, 3))) + "\n")
        elif kind == "explicit":
          out.append(s.w((3, " "), (1, "  "), (1, "\n")) + "#< " + self.prose(1, 6) + "\n")
        elif kind == "tag":
          out.append("\n" + s.pick(["# cmake-format: sortable", "# cmf: sort", "# cmake-format: unsort",
                                    "# cmf: unsortable", "# cmake-format: sort", "# cmake-format: unsortable"]) + "\n")
        else:
          out.append((" " if p.aligned else self.gap()) + self.bracket_comment(not p.aligned) + s.w((4, " "), (1, "\n")))
        need = False
      if idx < n:
        a = args[idx]
        if need or self.messy:
          g = self.gap(first=not need)
          out.append(g)
        out.append(a)
        need = True
    if self.messy and s.p(25):
      out.append(s.pick([" ", "\n", "  \n", "\n\n"]))
    return "".join(out)

  def kwargs_of(self, name, first=None):
    v = VOCAB.get(name, [])
    if isinstance(v, dict):
      return v.get(first) or v[""]
    return v

  def args_for(self, name):
    """an argument list for command `name`: list of strings"""
    s = self.s
    if name in CORPUS and s.p(22):
      args = [a for _, a in s.pick(CORPUS[name])]
      if s.p(60):
        return args
      # mutate: drop, duplicate, replace or insert one argument
      args = list(args)
      safe = [k for k, a in enumerate(args) if a not in "()"]
      if not safe:
        return args
      k = s.pick(safe)
      op = s.i(0, 3)
      if op == 0:
        args[k] = self.arg()
      elif op == 1:
        args.insert(k, self.arg())
      elif op == 2:
        args.insert(k, args[k])
      else:
        del args[k]
      return args
    v = VOCAB.get(name)
    args = []
    first = None
    if isinstance(v, dict) and s.p(85):
      first = s.pick(sorted(k for k in v if k))
      if name in ("add_library", "add_executable"):
        args.append(self.ident())
      if name == "foreach":
        args.append(self.ident())
      args.append(first)
    kws = self.kwargs_of(name, first)
    groups = s.many(0, 4, 60)
    for _ in range(s.w((5, s.i(1, 3)), (2, 0), (1, s.i(4, 9)))):
      args.append(self.arg())
    for _ in range(groups):
      if kws and s.p(85):
        kw = s.pick(kws)
        if self.prof.case_noise and s.p(4):
          kw = kw.lower()
        args.append(kw)
      for _ in range(s.w((4, 1), (2, 2), (2, 0), (2, s.i(3, 9)))):
        args.append(self.arg())
    if self.prof.nested_parens and s.p(self.prof.nested_parens):
      k = s.i(0, len(args))
      args[k:k] = ["("] + [self.arg() for _ in range(s.i(0, 3))] + [")"]
    return args

  def condition(self, depth=0):
    s = self.s
    kind = s.w((6, "val"), (4, "unary"), (5, "binary"), (4, "bool"), (3, "paren") if depth < 2 else (1, "val"),
               (1, "not"))
    if kind == "val":
      return [s.w((4, self.ident()), (2, "${%s}" % self.ident()), (1, self.quoted() if self.prof.multiline == 0 else '"' + self.qtext_safe() + '"'))]
    if kind == "unary":
      return [s.pick(["DEFINED", "EXISTS", "TARGET", "COMMAND", "IS_DIRECTORY", "POLICY", "TEST", "IS_ABSOLUTE"]), self.ident()]
    if kind == "binary":
      return [self.simple(), s.pick(["STREQUAL", "EQUAL", "MATCHES", "VERSION_LESS", "IN_LIST", "LESS", "GREATER", "STRLESS", "VERSION_GREATER", "IS_NEWER_THAN"]), self.simple()]
    if kind == "bool":
      out = self.condition(depth + 1)
      for _ in range(s.many(1, 4, 40)):
        out = out + [s.pick(["AND", "OR"])] + self.condition(depth + 1)
      return out
    if kind == "not":
      return ["NOT"] + self.condition(depth + 1)
    return ["("] + self.condition(depth + 1) + [")"]

  def qtext_safe(self):
    t = self.qtext()
    n = len(t) - len(t.rstrip("\\"))
    return t + "\\" if n % 2 else t

  def simple(self):
    s = self.s
    return s.w((4, self.ident()), (3, "${%s}" % self.ident()), (2, '"' + self.qtext_safe() + '"'), (2, s.pick(["1", "3.5", "abc"])))

  def call(self, name, args, trailing=True):
    """one command invocation as text, without indentation"""
    s = self.s
    out = self.case(name)
    if self.messy:
      out += s.w((10, ""), (2, " "), (1, "  "))
    out += "(" + self.join_args(args) + ")"
    if trailing and self.prof.comments and s.p(self.prof.trailing):
      if self.prof.bracket_comments and s.p(15):
        out += s.pick([" ", "", "  "]) + self.bracket_comment(False)
      else:
        out += s.pick([" ", "  ", ""]) + self.line_comment(True).rstrip()
        if s.p(self.prof.trailing_more):
          out += "\n   " + self.line_comment(True).rstrip()
    elif self.messy and s.p(5):
      out += s.pick([" ", "\t" if self.prof.tabs else "  "])
    return out

  def command_name(self):
    s = self.s
    if self.prof.commands:
      return s.pick(self.prof.commands)
    return s.w((10, lambda: s.pick(COMMON)), (5, lambda: s.pick(COMMANDS)),
               (4, lambda: s.pick(CORPUS_NAMES)), (3, lambda: s.pick(UNKNOWN)))()

  def fun_args(self):
    s = self.s
    return [s.pick(["my_fn", "do_it", "Helper", "FOO_macro", "_impl"])] + [self.ident() for _ in range(s.many(0, 6, 55))]

  def indent(self, depth, comment=False):
    s = self.s
    if not self.messy or (comment and self.prof.aligned):
      return "  " * depth
    return s.w((8, "  " * depth), (2, ""), (2, "    " * depth), (1, " "), (1, "\t" * depth) if self.prof.tabs else (1, ""))

  def onoff_region(self, depth):
    s = self.s
    tag = s.w((3, "cmake-format"), (1, "cmf"))
    off = s.w((6, "# %s: off" % tag), (1, "#%s: off" % tag), (1, "#  %s: off" % tag), (1, "# %s: off  because" % tag))
    on = s.w((6, "# %s: on" % tag), (1, "#%s: on" % tag), (1, "# %s: on again" % tag))
    save = self.messy
    self.messy = s.p(70)
    body = []
    for _ in range(s.i(0, 3)):
      k = s.w((6, "stmt"), (2, "comment"), (1, "blank"), (1, "ws"))
      if k == "stmt":
        name = self.command_name()
        body.append(self.indent(depth) + self.call(name, self.args_for(name)))
      elif k == "comment":
        body += [self.indent(depth) + l for l in self.comment_block()]
      elif k == "blank":
        body.append("")
      else:
        body.append(s.pick(["   ", "\t" if self.prof.tabs else " "]))
    out = [self.indent(depth) + off] + body + [self.indent(depth) + on]
    self.messy = save
    return out

  def separate(self, out):
    """a comment below a trailing comment may be read as a continuation of it:
    keep them apart if asked for"""
    if self.prof.aligned and (not out or out[-1]):
      out.append("")

  def body(self, depth, lo, hi):
    """list of physical text chunks, each to be followed by a newline"""
    s = self.s
    p = self.prof
    out = []
    for _ in range(s.i(lo, hi)):
      for _ in range(s.w((8, 0), (3, 1), (1, 2), (1, 4))):
        out.append("" if not self.messy or s.p(80) else s.pick([" ", "    "]))
      if p.comments and s.p(p.comments):
        self.separate(out)
        ind = self.indent(depth, True)
        out += [ind + l for l in self.comment_block()]
        if s.p(25):
          out.append("")
      if p.onoff and s.p(p.onoff):
        out += self.onoff_region(depth)
        continue
      if p.at_stmt and s.p(p.at_stmt):
        out.append(self.indent(depth) + "@%s@" % s.pick(["PACKAGE_INIT", "foo"]))
        continue
      if depth < p.max_depth and s.p(p.blocks):
        out += self.block(depth)
        continue
      name = self.command_name()
      out.append(self.indent(depth) + self.call(name, self.args_for(name)))
    if p.comments and s.p(10):
      self.separate(out)
      ind = self.indent(depth, True)
      out += [ind + l for l in self.comment_block()]
    return out

  def block(self, depth):
    s = self.s
    p = self.prof
    kind = s.w((6, "if"), (3, "foreach"), (1, "while"), (2, "function" if p.functions else "if"), (1, "macro" if p.functions else "while"))
    ind = self.indent
    lo, hi = 0, 3
    out = []
    if kind == "if":
      cond = self.condition()
      out.append(ind(depth) + self.call("if", cond))
      out += self.body(depth + 1, lo, hi)
      for _ in range(s.many(0, 3, 25)):
        out.append(ind(depth) + self.call("elseif", self.condition()))
        out += self.body(depth + 1, lo, hi)
      if s.p(30):
        out.append(ind(depth) + self.call("else", []))
        out += self.body(depth + 1, lo, hi)
      out.append(ind(depth) + self.call("endif", s.w((5, []), (1, cond if len(cond) < 5 else []))))
    elif kind == "foreach":
      v = self.ident()
      args = s.w((4, lambda: [v, "IN", "LISTS", "A", "ITEMS", self.arg(), self.arg()]),
                 (3, lambda: [v, "RANGE", "1", "10", "2"]), (1, lambda: [v, "RANGE", "5"]),
                 (4, lambda: [v] + [self.arg() for _ in range(s.i(1, 9))]),
                 (2, lambda: [v, "IN", "ITEMS"] + [self.arg() for _ in range(s.i(0, 4))]),
                 (1, lambda: [v, "IN", "LISTS"] + [self.ident() for _ in range(s.i(1, 4))]))()
      out.append(ind(depth) + self.call("foreach", args))
      out += self.body(depth + 1, lo, hi)
      out.append(ind(depth) + self.call("endforeach", s.w((4, []), (1, [v]))))
    elif kind == "while":
      out.append(ind(depth) + self.call("while", self.condition()))
      out += self.body(depth + 1, lo, hi)
      out.append(ind(depth) + self.call("endwhile", []))
    else:
      args = self.fun_args()
      out.append(ind(depth) + self.call(kind, args))
      out += self.body(depth + 1, lo, hi)
      out.append(ind(depth) + self.call("end" + kind, s.w((4, []), (1, args[:1]))))
    return out

  def listfile(self, depth=0):
    s = self.s
    p = self.prof
    lines = self.body(depth, *p.stmts)
    text = "\n".join(lines)
    if p.final_newline and s.p(88):
      text += "\n" * s.w((8, 1), (1, 2), (1, 3))
    return text


# ------------------------------------------------------------- configurations
def declarations(s):
  """The parse section: declared commands, tags of variables and properties."""
  out = {}
  if s.p(60):
    add = {}
    for name in s.sub(UNKNOWN, 15):
      spec = {"pargs": s.w((3, "*"), (2, "+"), (1, {"nargs": "*", "flags": ["QUIET", "a"]}), (1, [{"nargs": "+", "sortable": s.p(50)}]))}
      if s.p(40) and isinstance(spec["pargs"], str):
        spec["flags"] = s.sub(["ON", "OFF", "REQUIRED", "foo"], 40)
      if s.p(60):
        spec["kwargs"] = {k: s.w((3, "*"), (3, "+"), (1, {"pargs": "*", "flags": ["value"]}), (1, {"pargs": "*", "kwargs": {"NAME": "+"}}))
                          for k in s.sub(["SOURCES", "NAME", "PUBLIC", "FILES", "DEPENDS", "MAIN", "TRUE", "DEBUG"], 40)}
      if s.p(15):
        spec["spelling"] = name.title()
      if s.p(10):
        spec["max_subgroups_hwrap"] = s.i(0, 6)
      if s.p(10):
        spec["always_wrap"] = s.p(70)
      if s.p(5):
        out.setdefault("override_spec", {})[name.lower() + ".max_subgroups_hwrap"] = s.i(0, 6)
      add[name] = spec
    out["additional_commands"] = add
  if s.p(40):
    out["vartags"] = [[s.pick([".*", "MY_.*", "[a-z]+", ".*_"]), [s.pick(["cmdline", "file-list"])]] for _ in range(s.i(1, 2))]
  if s.p(40):
    out["proptags"] = [[s.pick([".*", "MY_.*", "[a-z]+", ".*S"]), [s.pick(["cmdline", "file-list"])]] for _ in range(s.i(1, 2))]
  return out


def layout_passes(s):
  out = {}
  for k in s.sub(["StatementNode", "ArgGroupNode", "KwargGroupNode", "PargGroupNode", "ParenGroupNode"], 50):
    out[k] = [[0, s.p(50)]]
    for n in range(1, 6):
      if s.p(30):
        out[k].append([n, s.p(50)])
  return out


def config(s, full=True, exclude=(), width=None, rare=0):
  """A cmake-format configuration as nested dict, only documented values. With `rare`, options that change what is known about commands and
  how layouts are searched are included in that percentage of the cases."""
  fmt, mk, enc, misc, parse = {}, {}, {}, {}, {}

  def opt(section, name, fn, percent=22):
    if name in exclude:
      return
    if s.p(percent):
      section[name] = fn()

  opt(fmt, "line_width", lambda: width() if width else s.w(
      (4, 80), (3, s.i(30, 79)), (3, s.i(81, 140)), (2, s.i(12, 30)), (1, 200)), 45)
  opt(fmt, "tab_size", lambda: s.w((4, 4), (3, 2), (1, 3), (1, 8), (1, 1)))
  opt(fmt, "use_tabchars", lambda: True, 10)
  opt(fmt, "fractional_tab_policy", lambda: s.pick(["use-space", "round-up"]), 12)
  opt(fmt, "max_subgroups_hwrap", lambda: s.i(0, 6))
  opt(fmt, "max_pargs_hwrap", lambda: s.i(0, 12))
  opt(fmt, "max_rows_cmdline", lambda: s.i(1, 4))
  opt(fmt, "separate_ctrl_name_with_space", lambda: True, 15)
  opt(fmt, "separate_fn_name_with_space", lambda: True, 15)
  opt(fmt, "dangle_parens", lambda: True, 25)
  opt(fmt, "dangle_align", lambda: s.pick(["prefix", "prefix-indent", "child"]), 25)
  opt(fmt, "min_prefix_chars", lambda: s.i(0, 12), 15)
  opt(fmt, "max_prefix_chars", lambda: s.i(0, 30), 15)
  opt(fmt, "max_lines_hwrap", lambda: s.i(0, 5), 15)
  opt(fmt, "line_ending", lambda: s.pick(["unix", "windows", "auto"]), 15)
  opt(fmt, "command_case", lambda: s.pick(["canonical", "lower", "upper", "unchanged"]), 25)
  opt(fmt, "keyword_case", lambda: s.pick(["unchanged", "upper", "lower"]), 25)
  opt(fmt, "always_wrap", lambda: s.sub(["set", "message", "add_library", "install", "if", "foo"], 40), 10)
  opt(fmt, "autosort", lambda: True, 15)
  opt(fmt, "enable_sort", lambda: s.p(50), 6)
  if full:
    opt(mk, "bullet_char", lambda: s.pick(["*", "-"]), 10)
    opt(mk, "enum_char", lambda: s.pick([".", ":"]), 10)
    opt(mk, "first_comment_is_literal", lambda: True, 15)
    opt(mk, "literal_comment_pattern", lambda: s.pick(["^ the", ".*config", r"^\s*[A-Z]+", "^!"]), 10)
    opt(mk, "hashruler_min_length", lambda: s.i(3, 20), 8)
    opt(mk, "canonicalize_hashrulers", lambda: False, 10)
    opt(mk, "enable_markup", lambda: False, 15)
    opt(mk, "explicit_trailing_pattern", lambda: "#<", 3)
    opt(enc, "emit_byteorder_mark", lambda: True, 6)
    opt(misc, "per_command", lambda: {s.pick(["set", "message", "ADD_LIBRARY"]): {"command_case": s.pick(["upper", "lower"])}}, 8)
  if rare and s.p(rare):
    parse.update(declarations(s))
    opt(fmt, "layout_passes", lambda: layout_passes(s), 20)
    if full:
      opt(mk, "fence_pattern", lambda: s.pick([r"^\s*(:::+)(.*)$", r"^\s*:::", r"^\s*([~:]{3,})(.*)$", r"^\s*(`{3})(.*)$"]), 25)
      opt(mk, "ruler_pattern", lambda: s.pick([r"^\s*[=-]{3,}$", r"^\s*[^\w\s]{5}$", r"^$a", r"^\s*#{4,}$", r"^\s*={3} .* ={3}$"]), 25)
  out = {}
  for key, val in (("format", fmt), ("markup", mk), ("encode", enc), ("misc", misc), ("parse", parse)):
    if val:
      out[key] = val
  return out
