"""C31 naming and structure lints match their definition"""
import re

from vf.checks.lintcommon import lint, multiset_diff
from vf.engine import Sub, Violation
from vf import gen, sut  # noqa: F401

ID = "C31"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated programs (nested functions, macros, loops, conditions, assignments, references, custom commands) as a tree; "
             "the expected findings are computed from the tree by a reference implementation of each check and compared with cmake-lint's")
LEVEL_NOTE = "Random exploration against a reference model of C0103, C0111, C0112, C0201, C0202, E0103, E0108, E0109, E1122, R0911, R0912, R0913, R0915, W0101, W0105 and W0106."
RULE = "A case is a program tree with a lint configuration; non-trivial when findings of at least two codes are expected."
ASSUMPTIONS = ["Patterns are matched at the beginning of a name (as the existing tests require: badArgName matches [a-z][a-z0-9_]+)."]

CODES = ("C0103", "C0111", "C0112", "C0201", "C0202", "E0103", "E0108", "E0109", "E1122", "R0911", "R0912",
         "R0913", "R0915", "W0101", "W0105", "W0106")

NAMES = ["foo", "bar_baz", "x", "FOO", "BAR_BAZ", "X", "_foo", "_FOO", "Foo", "fooBar", "f1", "_", "A1", "_9a", "ZLIB_x", "aB"]
BUILTIN = ["CMAKE_CXX_STANDARD", "CMAKE_INSTALL_PREFIX", "WIN32", "APPLE", "BUILD_SHARED_LIBS", "PROJECT_NAME", "CMAKE_BUILD_TYPE"]
NEAR = ["CMAKE_Cxx_STANDARD", "cmake_install_prefix", "Win32", "apple", "build_shared_libs", "Project_Name",
        "apple_pie", "win32x", "WIN32_LEAN", "unixish", "my_apple", "cmake_build_types", "foo_VERSION", "Project_name_x"]
PATTERNS = {
    "function_pattern": ["[0-9a-z_]+", "[a-z]+$", "_?[A-Z][a-zA-Z]+$", "foo|bar"],
    "macro_pattern": ["[0-9A-Z_]+", "[a-z_]+$", "M_"],
    "global_var_pattern": ["[A-Z][0-9A-Z_]+", "G_.*"],
    "internal_var_pattern": ["_[A-Z][0-9A-Z_]+", "[a-z]+$"],
    "local_var_pattern": ["[a-z][a-z0-9_]+", "l_"],
    "private_var_pattern": ["_[0-9a-z_]+", "p_"],
    "public_var_pattern": ["[A-Z][0-9A-Z_]+", "[a-z]+$"],
    "argument_var_pattern": ["[a-z][a-z0-9_]+", "[A-Z]+$", "a"],
}
CMD = {"pargs": "*", "flags": ["FLAG"], "kwargs": {"ONE": 1, "MANY": "*", "PATTERN": 1, "OTHER": "+"}}


def ident(s):
  return s.w((6, s.pick(NAMES)), (1, s.pick(NEAR)))


def word(s, name):
  """letter case of a command name"""
  return s.w((8, name), (1, name.upper()), (1, name.capitalize()))


def body(s, depth, infun):
  out = []
  for _ in range(s.i(0, 4) if depth else s.i(1, 5)):
    kinds = [(5, "set"), (2, "list"), (3, "msg"), (2, "ctl"), (2, "cmd"), (1, "comment")]
    if depth < 4:
      kinds += [(4, "fn"), (3, "loop"), (3, "if")]
    kind = s.w(*kinds)
    gap = s.w((6, 0), (2, 1), (1, 2))
    if kind == "fn":
      args = []
      for _ in range(s.many(0, 9, 60)):
        args.append(s.w((8, ident(s)), (1, '"quoted"'), (1, "${x}"), (1, "a-b"), (1, "42"), (2, args[s.i(0, len(args) - 1)] if args else "arg")))
      if args and s.p(15):
        args.append(args[-1].swapcase() if re.match(r"[A-Za-z]\w*$", args[-1]) else "zz")
      doc = s.w((4, "# some text"), (2, None), (1, "#"), (1, "#  "), (1, "# text\n#"), (1, "#\n# text"))
      inner = body(s, depth + 1, True)
      if s.p(8):
        # around the default limits
        more = s.w((2, ("return", 4, 8)), (2, ("if", 10, 14)), (1, ("msg", 46, 52)))
        for _ in range(s.i(more[1], more[2])):
          inner.append({"return": {"t": "ctl", "gap": 0, "what": "return"}, "msg": {"t": "msg", "gap": 0, "arg": '"x"'},
                        "if": {"t": "if", "gap": 0, "case": 0, "bodies": [[]], "conds": ["X"], "else": False}}[more[0]])
      out.append({"t": "fn", "gap": gap, "kind": s.pick(["function", "macro"]), "case": s.i(0, 9), "name": ident(s), "args": args,
                  "doc": doc, "docgap": s.w((8, 0), (1, 1), (1, 2)), "split": s.p(15), "body": inner,
                  "trail": s.p(10)})
    elif kind == "loop":
      what = s.w((4, "foreach"), (2, "while"))
      over = s.w((3, "a b"), (3, "${ARGN}"), (1, "IN LISTS ARGN"), (1, "IN ITEMS ${ARGN} x"), (1, "ARGN"), (1, '"${ARGN}"'),
                 (1, s.pick(OTHER_LISTS)))
      n = {"t": "loop", "gap": gap, "what": what, "case": s.i(0, 9), "var": ident(s), "over": over, "body": body(s, depth + 1, infun)}
      if s.p(30):
        n["body"] = [parser_if(s, n["var"]) for _ in range(s.i(1, 2))] + n["body"]
      out.append(n)
    elif kind == "if":
      bs = [body(s, depth + 1, infun) for _ in range(s.many(1, 4, 40))]
      out.append({"t": "if", "gap": gap, "case": s.i(0, 9), "bodies": bs, "conds": [cond(s) for _ in bs], "else": len(bs) > 1 and s.p(50)})
    elif kind == "set":
      out.append({"t": "set", "gap": gap, "case": s.i(0, 9),
                  "name": s.w((7, ident(s)), (1, s.pick(BUILTIN)), (1, "${x}"), (1, "${x}_%s" % ident(s)), (1, "%s_${x}" % ident(s))),
                  "mode": s.w((5, ""), (2, 'v CACHE STRING "doc"'), (1, 'v CACHE BOOL "doc" FORCE'), (2, 'v CACHE INTERNAL "doc"'),
                              (1, "v PARENT_SCOPE"), (1, "v w"), (1, "PARENT_SCOPE")),
                  "split": s.p(10)})
    elif kind == "list":
      sub = s.pick(["LENGTH", "GET", "JOIN", "SUBLIST", "APPEND", "length", "REMOVE_ITEM", "SORT", "FIND"])
      n = {"LENGTH": 0, "GET": 1, "JOIN": 1, "SUBLIST": 2, "APPEND": 2, "REMOVE_ITEM": 1, "SORT": -1, "FIND": 1}[sub.upper()]
      out.append({"t": "list", "gap": gap, "case": s.i(0, 9), "sub": sub, "var": s.w((4, ident(s)), (1, s.pick(BUILTIN))),
                  "mid": ["1"] * max(n, 0), "out": ident(s) if n >= 0 else None})
    elif kind == "ctl":
      out.append({"t": "ctl", "gap": gap, "what": word(s, s.pick(["return", "break", "continue"]))})
    elif kind == "cmd":
      parts = []
      for _ in range(s.many(0, 5, 65)):
        parts.append([s.pick(["ONE", "MANY", "PATTERN", "OTHER", "one", "Many", "FLAG"]), s.pick(["a", "b"])])
      out.append({"t": "cmd", "gap": gap, "name": word(s, "my_cmd"), "parts": parts})
    elif kind == "comment":
      out.append({"t": "comment", "gap": gap, "text": s.pick(["# text", "#", "# cmake is fun"])})
    else:
      out.append({"t": "msg", "gap": gap, "arg": ref(s)})
  return out


OTHER_LISTS = ["${MY_ARGN}", "${ARGN_MY}", "${ARGV}", "${argn}", "a${ARGN}", "${ARGN};x", "$ENV{ARGN}", "${${ARGN}}", "${ARGN}${ARGN}"]


def parser_if(s, var):
  return {"t": "if", "gap": 0, "case": 0, "bodies": [[] for _ in range(s.i(1, 4))], "else": False,
          "conds": [s.w((4, '%s STREQUAL "A"' % var), (2, '%s MATCHES "B.*"' % var), (1, var), (1, 'NOT %s' % var),
                        (1, '"${%s}" STREQUAL "C"' % var), (1, "%s EQUAL 3" % var), (1, "other STREQUAL x")) for _ in range(4)]}


def cond(s):
  return s.pick(["X", "A STREQUAL b", "NOT X", "${Win32}", "foo MATCHES x"])


def ref(s):
  v = s.w((3, s.pick(BUILTIN)), (4, s.pick(NEAR)), (2, s.pick(NAMES)))
  return s.w((4, '"${%s}"' % v), (3, "${%s}" % v), (2, '"a ${%s} b ${%s}/c"' % (v, s.pick(NEAR))), (1, '"plain"'),
             (1, '"$%s}"' % s.pick(BUILTIN)), (1, '"${%s"' % s.pick(BUILTIN)), (1, '"{%s}"' % s.pick(BUILTIN)),
             (1, '"\\${%s}"' % s.pick(BUILTIN)), (1, '"$ENV{%s}"' % v), (1, "[[${%s}]]" % s.pick(NAMES)), (1, "${${%s}}" % v))


def gen_case(s):
  lnt = {}
  for k, vals in sorted(PATTERNS.items()):
    if s.p(15):
      lnt[k] = s.pick(vals)
  for k in ("max_returns", "max_branches", "max_arguments", "max_statements", "max_conditionals_custom_parser"):
    if s.p(45):
      lnt[k] = s.i(0, 4)
  return {"body": body(s, 0, False), "lint": lnt}


# ---------------------------------------------------------------- reference
class Model(object):
  """Renders the tree and collects what has to be found"""

  def __init__(self, lnt):
    self.lines = []
    self.want = []
    self.loopline = {}
    self.conf = {k: v[0] for k, v in PATTERNS.items()}
    self.conf.update(max_returns=6, max_branches=12, max_arguments=5, max_statements=50, max_conditionals_custom_parser=2)
    self.conf.update(lnt)
    from cmakelang.parse import variables
    self.patterns = [re.sub(r"\?P<\w+>", "", p) for p in variables.PATTERNS]

  def put(self, depth, text):
    """-> line number of the first line"""
    n = len(self.lines) + 1
    parts = text.split("\n")
    self.lines += ["  " * depth + parts[0]] + ["  " * depth + "    " + p for p in parts[1:]]
    return n

  def found(self, code, line, name=""):
    self.want.append((code, line, name))

  def pattern(self, key, name, line, shown=None, alternatives=()):
    keys = alternatives or (key,)
    if not any(re.compile(self.conf[k]).match(name) for k in keys):
      self.found("C0103", line, shown or name)

  def varname(self, name, line):
    """a name that is a builtin variable but for its case"""
    for p in self.patterns:
      if re.fullmatch(p, name, re.I):
        if "(" not in p and not any(re.fullmatch(q, name) for q in self.patterns):
          self.found("W0105", line, name)
        return

  def refs(self, text, line):
    if text.startswith("[["):
      return
    for v in re.findall(r"\$\{(\w+)\}", text):
      self.varname(v, line)

  def nearmiss(self, text, line):
    m = re.fullmatch(r'"(\$|\{|\$\{)([A-Z0-9_]+)\}?"', text)
    if m and not re.fullmatch(r'"\$\{\w+\}"', text) and not text.startswith('"$ENV'):
      end = "closing" if m.group(1) == "${" else "open"
      self.found("W0106", line, end)

  def body(self, items, depth, scopes):
    for k, it in enumerate(items):
      for _ in range(it["gap"] if self.lines else 0):
        self.lines.append("")
      t = it["t"]
      first = len(self.lines)
      getattr(self, "do_" + t)(it, depth, scopes)
      if t == "ctl" and any(o["t"] != "comment" for o in items[k + 1:]):
        self.found("W0101", first + 1)

  def name(self, it, name):
    return name.upper() if it["case"] == 8 else name.capitalize() if it["case"] == 9 else name

  def do_comment(self, it, depth, scopes):
    self.put(depth, it["text"])

  def do_msg(self, it, depth, scopes):
    n = self.put(depth, "message(%s)" % it["arg"])
    self.refs(it["arg"], n)
    self.nearmiss(it["arg"], n)

  def do_ctl(self, it, depth, scopes):
    n = self.put(depth, it["what"] + "()")
    if it["what"].lower() != "return" and "loop" not in scopes:
      self.found("E0103", n, it["what"].lower())

  def do_cmd(self, it, depth, scopes):
    n = self.put(depth, "%s(%s)" % (it["name"], " ".join(k if k == "FLAG" else k + " " + v for k, v in it["parts"])))
    seen = set()
    for k, _ in it["parts"]:
      k = k.upper()
      if k in ("FLAG", "PATTERN"):
        continue
      if k in seen:
        self.found("E1122", n, k)
      seen.add(k)

  def assigned(self, name, line, kind, scopes):
    resolved = re.sub(r"\$\{\w+\}", "", name)
    if not resolved:
      return
    fun = [x for x in scopes if x in ("function", "macro")]
    if kind == "cache":
      self.pattern("global_var_pattern", resolved, line, name)
    elif kind == "internal":
      self.pattern("internal_var_pattern", resolved, line, name)
    elif kind == "parent" or (fun and fun[-1] == "macro"):
      self.pattern(None, resolved, line, name, ("public_var_pattern", "private_var_pattern", "local_var_pattern"))
    elif fun:
      self.pattern("local_var_pattern", resolved, line, name)
    else:
      self.pattern(None, resolved, line, name, ("public_var_pattern", "private_var_pattern"))

  def do_set(self, it, depth, scopes):
    sep = "\n" if it["split"] else ""
    n = self.put(depth, "%s(%s%s %s)" % (self.name(it, "set"), sep, it["name"], it["mode"] or "value"))
    if it["split"]:
      n += 1
    mode = it["mode"]
    kind = "internal" if "INTERNAL" in mode else "cache" if "CACHE" in mode else "parent" if "PARENT_SCOPE" in mode else ""
    self.assigned(it["name"], n, kind, scopes)
    self.varname(it["name"], n)
    self.refs(it["name"], n) if it["name"].startswith("${x}") and it["name"] == "${x}" else None

  def do_list(self, it, depth, scopes):
    args = [it["sub"], it["var"]] + it["mid"] + ([it["out"]] if it["out"] else [])
    n = self.put(depth, "%s(%s)" % (self.name(it, "list"), " ".join(args)))
    if it["sub"].upper() in ("LENGTH", "GET", "JOIN", "SUBLIST"):
      self.assigned(it["out"], n, "", scopes)
    self.varname(it["var"], n)

  def do_loop(self, it, depth, scopes):
    if it["what"] == "foreach":
      n = self.put(depth, "%s(%s %s)" % (self.name(it, "foreach"), it["var"], it["over"]))
      self.pattern("argument_var_pattern", it["var"], n)
    else:
      over = it["over"] if it["over"] in ("ARGN", "${ARGN}", '"${ARGN}"') else '"${ARGN}"'
      n = self.put(depth, "%s(%s STREQUAL %s)" % (self.name(it, "while"), it["var"], over))
    self.body(it["body"], depth + 1, scopes + ["loop"])
    self.put(depth, "end%s()" % it["what"])
    self.loopline[id(it)] = n

  def do_if(self, it, depth, scopes):
    for k, b in enumerate(it["bodies"]):
      if k and it["else"] and k == len(it["bodies"]) - 1:
        self.put(depth, "else()")
      else:
        n = self.put(depth, "%s(%s)" % (self.name(it, "elseif" if k else "if"), it["conds"][k]))
        self.refs(it["conds"][k], n)
      self.body(b, depth + 1, scopes)
    self.put(depth, "endif()")

  def do_fn(self, it, depth, scopes):
    doc = it["doc"]
    if doc:
      for l in doc.split("\n"):
        self.put(depth, l)
      for _ in range(it["docgap"]):
        self.lines.append("")
    sep = "\n" if it["split"] else " "
    n = self.put(depth, "%s(%s)%s" % (self.name(it, it["kind"]), sep.join([it["name"]] + it["args"]), " # trailing" if it["trail"] else ""))
    above = self.lines[n - 2].strip() if n > 1 else ""
    if not above.startswith("#"):
      self.found("C0111", n)
    else:
      k = n - 2
      block = []
      while k >= 0 and self.lines[k].strip().startswith("#"):
        block.append(self.lines[k].strip().lstrip("#").strip())
        k -= 1
      if not any(block):
        self.found("C0112", n)
    self.pattern(it["kind"] + "_pattern", it["name"], n)
    seen = []
    for k, a in enumerate(it["args"]):
      at = n + 1 + k if it["split"] else n
      if not re.fullmatch(r"[A-Za-z_]\w*", a):
        self.found("E0109", at, a)
        self.refs(a, at)
        continue
      if a in seen:
        self.found("E0108", at, a)
      elif a.lower() in [x.lower() for x in seen]:
        self.found("C0202", at, a)
      else:
        self.pattern("argument_var_pattern", a, at)
      seen.append(a)
    if len(it["args"]) > self.conf["max_arguments"]:
      self.found("R0913", n, "%d/%d" % (len(it["args"]), self.conf["max_arguments"]))
    start = len(self.lines) + 1
    self.body(it["body"], depth + 1, scopes + [it["kind"]])
    self.put(depth, "end%s()" % it["kind"])
    rets, branches, stmts = count(it["body"])
    for code, n, limit in (("R0911", rets, "max_returns"), ("R0912", branches, "max_branches"), ("R0915", stmts, "max_statements")):
      if n > self.conf[limit]:
        # at the body: on any line of it
        self.found(code, (start - 1, len(self.lines)), "%d/%d" % (n, self.conf[limit]))
    # custom parsers: the first loop (breadth first) over ARGN with many comparisons
    for loop in breadth_first(it["body"], "loop"):
      over = loop["over"]
      if loop["what"] == "while" and over not in ("ARGN", "${ARGN}", '"${ARGN}"'):
        continue
      if "${ARGN}" not in over.split():
        continue
      n = comparisons(loop["body"], loop["var"])
      if n > self.conf["max_conditionals_custom_parser"]:
        self.found("C0201", self.loopline[id(loop)])
        break


def children(it):
  if it["t"] == "if":
    return [x for b in it["bodies"] for x in b]
  return it.get("body", [])


def walk(items):
  for it in items:
    yield it
    for x in walk(children(it)):
      yield x


def breadth_first(items, t):
  level = list(items)
  while level:
    for it in level:
      if it["t"] == t:
        yield it
    level = [x for it in level for x in children(it)]


def count(items):
  rets = branches = stmts = 0
  for it in walk(items):
    t = it["t"]
    if t == "ctl" and it["what"].lower() == "return":
      rets += 1
    if t == "if":
      branches += len(it["bodies"])
      stmts += len(it["bodies"]) + 1
    elif t in ("fn", "loop"):
      stmts += 2
    elif t != "comment":
      stmts += 1
  return rets, branches, stmts


def comparisons(items, var):
  n = 0
  for it in walk(items):
    if it["t"] == "if":
      conds = [c for k, c in enumerate(it["conds"][:len(it["bodies"])]) if not (it["else"] and k == len(it["bodies"]) - 1)]
    elif it["t"] == "loop" and it["what"] == "while":
      conds = ["%s STREQUAL x" % it["var"]]
    else:
      continue
    for c in conds:
      w = c.split()
      if len(w) > 1 and w[0] == var and w[1] in ("STREQUAL", "MATCHES"):
        n += 1
  return n


def oracle(case, rec):
  m = Model(case["lint"])
  m.body(case["body"], 0, [])
  text = "\n".join(m.lines) + "\n"
  cfg = {"lint": case["lint"], "parse": {"additional_commands": {"my_cmd": CMD}}}
  got = lint(text, cfg)
  found = [(c, l, msg) for c, l, _, msg in got if c in CODES]
  rest = list(found)
  missing = []
  for code, line, name in m.want:
    for r in rest:
      if r[0] == code and at_line(r[1], line) and (not name or mentions(r[2], name)):
        rest.remove(r)
        break
    else:
      missing.append((code, line, name))
  if missing or rest:
    raise Violation("findings differ from the definition: missing %r, unexpected %r\n%s" % (missing[:5], rest[:5], text))
  codes = {c for c, _, _ in m.want}
  rec.label(*codes)
  rec.nontrivial(len(codes) > 1)


def at_line(got, want):
  return want[0] <= got <= want[1] if isinstance(want, tuple) else got == want


def mentions(msg, name):
  return re.search(r"(?<![\w])" + re.escape(name) + r"(?![\w])", msg) is not None or name in msg.split("'") or name in msg.split('"')


# ------------------------------------------------------- forms of commands
FORM_CODES = ("C0113", "C0114", "E1120", "E1121", "E1125", "E1126", "W0104")
LISTS = ["LENGTH l out", "append l x", "FIND l x out", "SORT l", "sort l ORDER ASCENDING", "REVERSE l"]
FILES = ["READ f var", "write f x", "GLOB v *.c", "REMOVE f g", "touch f", "RENAME a b"]
POLICIES = ["VERSION 3.10", "SET CMP0001 NEW", "GET CMP0001 v", "push", "POP"]
NPARGS = {"c0": 0, "c1": 1, "c2": 2, "c3": 3, "cstar": "*", "cplus": "+", "c2plus": "2+", "copt": "?"}
MINARGS = {"c0": 0, "c1": 1, "c2": 2, "c3": 3, "cstar": 0, "cplus": 1, "c2plus": 2, "copt": 0}


def gen_forms(s):
  out = []
  for _ in range(s.i(1, 4)):
    kind = s.w((3, "form"), (3, "custom_command"), (2, "custom_target"), (3, "pargs"), (1, "ctl"), (1, "build"), (1, "cache"))
    want = []
    if kind == "form":
      name = s.pick(["list", "file", "cmake_policy", "add_custom_command"])
      how = s.w((3, "ok"), (2, "deref"), (2, "bad"), (1, "empty"))
      if name == "cmake_policy" and how == "empty":
        how = "bad"
      if how == "ok":
        pool = {"list": LISTS, "file": FILES, "cmake_policy": POLICIES,
                "add_custom_command": ["OUTPUT x COMMAND y COMMENT z", "target t post_build COMMAND y COMMENT z"]}[name]
        args = s.pick(pool).split()
      elif how == "deref":
        args = ["${x}"] + (["COMMAND", "y", "COMMENT", "z"] if name == "add_custom_command" else ["a"] * s.i(0, 2))
        want = ["C0114"]
      elif how == "bad":
        args = [s.pick(["FOO", "bar", "LENGTHY", "out_put"])] + (["COMMAND", "y", "COMMENT", "z"] if name == "add_custom_command" else [])
        want = ["E1126"]
      else:
        args = []
        want = ["E1120"]
    elif kind == "custom_command":
      name = "add_custom_command"
      parts = [["DEPENDS", "d"], ["VERBATIM"], ["WORKING_DIRECTORY", "w"], ["BYPRODUCTS", "b"]]
      event = s.p(40)
      if event:
        parts = [["VERBATIM"], ["WORKING_DIRECTORY", "w"], ["BYPRODUCTS", "b"]]
      parts = [p for p in parts if s.p(40)]
      have = {}
      for k, v in (("COMMAND", ["run", "x"]), ("COMMENT", ['"c"'])):
        have[k] = s.p(60)
        if have[k]:
          parts.insert(s.i(0, len(parts)), [k if s.p(80) else k.lower()] + v)
      head = ["TARGET", "t", "POST_BUILD"] if event else ["OUTPUT", "o"]
      args = head + [a for p in parts for a in p]
      want = (["E1125"] if not have["COMMAND"] else []) + (["C0113"] if not have["COMMENT"] else [])
    elif kind == "custom_target":
      name = "add_custom_target"
      parts = [p for p in ([["DEPENDS", "d"], ["VERBATIM"], ["COMMAND", "run"], ["SOURCES", "f"]]) if s.p(40)]
      have = s.p(60)
      if have:
        parts.insert(s.i(0, len(parts)), ["COMMENT", "c"])
      args = ["tgt"] + (["ALL"] if s.p(30) else []) + [a for p in parts for a in p]
      want = [] if have else ["C0113"]
    elif kind == "pargs":
      name = s.pick(sorted(NPARGS))
      n = s.i(0, 4)
      top = NPARGS[name] if isinstance(NPARGS[name], int) else 1 if name == "copt" else 9
      n = min(n, top)
      if n == 0 and MINARGS[name]:
        n = 1       # (no group at all is not looked at)
      args = [s.pick(["a", '"b"', "${c}", "d"]) for _ in range(n)]
      want = ["E1120"] if n < MINARGS[name] else []
    elif kind == "ctl":
      name = s.pick(["break", "continue"])
      args = ["x"] if s.p(50) else []
      want = ["E1121"] if args else []
      name = "loop:" + name
    elif kind == "build":
      name = "build_command"
      how = s.p(50)
      args = ["v", "make"] if how else ["v"] + (["CONFIGURATION", "c"] if s.p(50) else []) + (["target", "c"] if s.p(50) else [])
      want = ["W0104"] if how else []
    else:
      name = "set"
      args = ["VAR", "v", "CACHE", "STRING", "doc"] + s.w((2, []), (2, ["FORCE"]), (1, ["more"]))
      want = ["E1121"] if args[-1] == "more" else []
    out.append({"name": name, "args": args, "want": want, "case": s.i(0, 4), "gap": s.i(0, 2),
                "seps": [s.w((5, " "), (1, "\n"), (1, "  ")) for _ in args], "comment": s.p(10)})
  return {"stmts": out}


def oracle_forms(case, rec):
  text = ""
  want = []
  for st in case["stmts"]:
    text += "\n" * st["gap"]
    first = text.count("\n") + 1
    name = st["name"]
    loop = name.startswith("loop:")
    if loop:
      name = name[5:]
      text += "while(x)\n"
    shown = name.upper() if st["case"] == 1 and name not in NPARGS else name
    text += shown + "("
    if st["comment"]:
      text += "# comment\n"
    for k, a in enumerate(st["args"]):
      text += a if k == 0 else st["seps"][k] + a
    text += ")\n"
    if loop:
      text += "endwhile()\n"
    last = text.count("\n")
    for code in st["want"]:
      want.append((code, first, last))
  cfg = {"parse": {"additional_commands": {k: {"pargs": v} for k, v in NPARGS.items()}}}
  got = [(c, l, m) for c, l, _, m in lint(text, cfg) if c in FORM_CODES]
  rest = list(got)
  missing = []
  for code, first, last in want:
    for r in rest:
      if r[0] == code and (r[1] is None or first <= r[1] <= last):
        rest.remove(r)
        break
    else:
      missing.append((code, first, last))
  if missing or rest:
    raise Violation("findings differ from the definition: missing %r, unexpected %r\n%s" % (missing[:5], rest[:5], text))
  rec.label(*[w[0] for w in want])
  rec.nontrivial(bool(want))


# keywords by level: those of one level are only known within a group of the level above
LEVELS = [["ALPHA", "BETA", "COMMAND", "PATTERN"], ["XX", "YY", "REGEX", "ZZ"], ["IN1", "IN2"]]
REPEATABLE = ("AND", "OR", "COMMAND", "PATTERN", "REGEX")


def level_spec(k):
  if k == len(LEVELS):
    return {"pargs": "*"}
  return {"pargs": "*", "kwargs": {w: level_spec(k + 1) for w in LEVELS[k]}}


def gen_groups(s, k):
  if k == len(LEVELS):
    return []
  out = []
  for _ in range(s.many(0, 4, 60)):
    w = s.pick(LEVELS[k])
    out.append([s.w((5, w), (1, w.lower())), [s.pick(["a", "b", "${c}"]) for _ in range(s.i(0, 2))],
                # (COMMAND has a shell command, whatever it is declared with)
                gen_groups(s, k + 1) if w != "COMMAND" else []])
  return out


INSTALL = [["RUNTIME", "LIBRARY", "ARCHIVE", "BUNDLE"], ["DESTINATION", "COMPONENT", "PERMISSIONS", "CONFIGURATIONS"]]


def gen_repeats(s):
  calls = []
  for _ in range(s.i(1, 3)):
    if s.p(35):
      groups = [[s.pick(INSTALL[0]), [], [[s.pick(INSTALL[1]), ["x"], []] for _ in range(s.i(1, 4))]] for _ in range(s.i(1, 4))]
      calls.append(["install", ["TARGETS", ["a", "b"][:s.i(1, 2)]], groups])
    else:
      calls.append(["nested_cmd", None, gen_groups(s, 0)])
  return {"calls": calls, "sep": s.w((3, "\n"), (1, "\n  "))}


def oracle_repeats(case, rec):
  """a keyword is given twice if it is twice in the same group"""
  lines, want = [], []

  def walk(groups):
    seen = set()
    for w, args, sub in groups:
      lines.append(" ".join([w] + args))
      if w.upper() in seen and w.upper() not in REPEATABLE:
        want.append(("E1122", len(lines)))
      seen.add(w.upper())
      walk(sub)

  for name, head, groups in case["calls"]:
    lines.append(name + "(")
    if head:
      lines.append(" ".join([head[0]] + head[1]))
    walk(groups)
    lines.append(")")
  text = "\n".join(lines) + "\n"
  cfg = {"parse": {"additional_commands": {"nested_cmd": level_spec(0)}}}
  got = sorted((c, l) for c, l, _, m in lint(text, cfg) if c == "E1122")
  if got != sorted(want):
    raise Violation("repeated keywords: %r, expected %r\n%s" % (got, sorted(want), text))
  rec.nontrivial(bool(want) and any(g[2] for c in case["calls"] for g in c[2]))
  rec.label("findings%d" % min(len(want), 3))


SUBS = [Sub("program", gen_case, oracle, 3500, 100000, 250),
        Sub("forms", gen_forms, oracle_forms, 4000, 60000, 500),
        Sub("repeats", gen_repeats, oracle_repeats, 800, 20000, 200)]
