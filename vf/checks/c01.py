"""C01 formatting never changes what the listfile means"""
import re
import subprocess

from vf import cli, cmref, gen, large, sut
from vf.checks.common import cmds, diff, ref_parse, ref_parse_input
from vf.engine import Skip, Sub, Violation

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = 'Hypothesis-generated listfiles and configurations, differential against an independent reference reader of the CMake language'
LEVEL_NOTE = "Random exploration: every generated case was formatted and both texts were read by a reference reader written from CMake's own lexer. Trusts that reader (validated on all listfiles shipped with cmake)."
RULE = ("A case is a generated listfile that the reference reader accepts as CMake, with a generated configuration; it is "
        "non-trivial when formatting changed the text and at least one command has two or more arguments.")
ASSUMPTIONS = []


def signature(prog, keyword_case=False):
  out = []
  for e in prog:
    if e.kind == "at":
      out.append(("@", e.text))
    elif e.kind == "cmd":
      args = [(k, cmref.unix(a)) for k, a in e.args]
      if keyword_case:
        args = [(k, a.upper() if k == "unq" else a) for k, a in args]
      out.append((e.name.lower(), args))
  return out


def compare(text, out, cfg, pin=None, sort=False):
  """Violation unless `out` means the same as `text`"""
  kc = cfg.get("format", {}).get("keyword_case", "unchanged") != "unchanged"
  pin = ref_parse_input(text) if pin is None else pin
  pout = ref_parse(out, "the formatted text")
  a, b = signature(pin, kc), signature(pout, kc)
  if sort:
    a = [(n, sorted(args)) for n, args in a]
    b = [(n, sorted(args)) for n, args in b]
  if a == b:
    return pin, pout
  for k, (x, y) in enumerate(zip(a, b)):
    if x != y:
      raise Violation("statement %d differs after formatting\nbefore: %s\nafter:  %s" % (k, x, y))
  raise Violation("%d statements before formatting, %d after" % (len(a), len(b)))


def gen_any(s):
  """All constructs, no sorting."""
  c = gen.config(s, rare=25, exclude=("autosort",))
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, sort_tags=0, trailing_ws_in_multiline=True, onoff=3))
  return {"text": g.listfile(), "cfg": c}


def oracle_any(case, rec):
  text, cfg = case["text"], case["cfg"]
  pin = ref_parse_input(text)
  out, ok = sut.fmt(text, cfg)
  compare(text, out, cfg, pin)
  note(rec, text, out, ok, pin)


def note(rec, text, out, ok, pin):
  rec.nontrivial(out != text and any(len(e.args) >= 2 for e in cmds(pin)))
  if not ok:
    rec.label("invalid_layout")
  if any(k == "bra" for e in cmds(pin) for k, _ in e.args):
    rec.label("bracket_argument")
  if any("\n" in a for e in cmds(pin) for k, a in e.args):
    rec.label("multi_line_argument")
  if any(e.comments for e in cmds(pin)):
    rec.label("comment_in_statement")



class ExecGen(gen.Gen):
  """Programs that cmake -P can run without effects outside of its output"""
  VARS = ["a", "foo", "MY_VAR", "name", "x1", "B"]
  funs = ()
  loops = 0

  def command_name(self):
    return self.s.w((8, "probe"), (5, "set"), (3, "message"), (2, "list"), (2, "string"), (1, "math"), (1, "unset"),
                    (1, "get_filename_component"), (1, "cmake_parse_arguments"), (1, "separate_arguments"),
                    (2, self.s.pick(self.funs) if self.funs else "probe"), (1, "cmake_path"), (1, "option"),
                    (1, self.s.pick(["return", "break", "continue"]) if self.loops else "probe"))

  def ident(self):
    return self.s.w((3, lambda: self.s.pick(self.VARS)), (2, super().ident))()

  def args_for(self, name):
    s = self.s
    var, n = s.pick(self.VARS), s.w((3, 1), (3, 2), (2, 3), (1, 0), (1, 5), (1, 9))
    some = [self.arg() for _ in range(n)]
    if name == "set":
      return [var] + some + (["PARENT_SCOPE"] if s.p(8) else [])
    if name == "message":
      return ([s.pick(["STATUS", "WARNING", "VERBOSE", "NOTICE", "AUTHOR_WARNING", "SEND_ERROR"])] if s.p(60) else []) + (some or ["x"])
    if name == "list":
      return s.w((4, ["APPEND", var] + some), (2, ["PREPEND", var] + some), (1, ["LENGTH", var, s.pick(self.VARS)]),
                 (1, ["REMOVE_ITEM", var] + (some or ["a"])), (1, ["REVERSE", var]), (1, ["SORT", var, "ORDER", "DESCENDING"]),
                 (1, ["JOIN", var, self.arg(), s.pick(self.VARS)]), (1, ["FIND", var, self.arg(), s.pick(self.VARS)]),
                 (1, ["FILTER", var, "EXCLUDE", "REGEX", "^a"]),
                 (1, ["TRANSFORM", var, "APPEND", self.arg(), "OUTPUT_VARIABLE", s.pick(self.VARS)]))
    if name == "string":
      return s.w((3, ["REPLACE", self.arg(), self.arg(), var] + (some or ["b"])), (1, ["TOUPPER", self.quoted(), var]),
                 (1, ["APPEND", var] + some), (1, ["CONCAT", var] + some), (1, ["LENGTH", self.quoted(), var]),
                 (1, ["REGEX", "REPLACE", "[a-m]+", "<\\\\0>", var] + (some or ["b"])), (1, ["STRIP", self.quoted(), var]),
                 (1, ["FIND", self.quoted(), "a", var, "REVERSE"]), (1, ["JOIN", self.arg(), var] + some),
                 (1, ["COMPARE", "EQUAL", self.quoted(), self.quoted(), var]))
    if name == "math":
      return ["EXPR", var, s.pick(['"1+2"', "3*4", '"(1 + 2) * 3"', '"0x1F | 2"'])] + (["OUTPUT_FORMAT", "HEXADECIMAL"] if s.p(30) else [])
    if name == "unset":
      return [var]
    if name == "get_filename_component":
      return [var, self.path(), s.pick(["NAME", "EXT", "NAME_WE", "DIRECTORY"])]
    if name == "cmake_parse_arguments":
      return ["P", '"A;B"', '"C"', '"D;E"'] + s.shuffle(["A", "C"][:s.i(0, 2)] + some) + (["D"] + some if s.p(50) else [])
    if name == "separate_arguments":
      return s.w((1, [var]), (1, [var, "UNIX_COMMAND", self.quoted()]))
    if name == "cmake_path":
      return s.w((1, ["SET", var, "NORMALIZE", self.path()]), (1, ["GET", var, "FILENAME", "name"]))
    if name == "option":
      return [var, self.quoted()] + (["ON"] if s.p(50) else [])
    if name in ("return", "break", "continue"):
      return []
    return some

  def condition(self, depth=0):
    s = self.s
    kind = s.w((5, "val"), (4, "unary"), (5, "binary"), (4, "bool"), (3, "paren") if depth < 2 else (1, "val"), (2, "not"))
    if kind == "val":
      return [s.w((2, s.pick(["TRUE", "0", "1", "ON", "NO"])), (3, self.ident()), (1, '"' + self.qtext_safe() + '"'))]
    if kind == "unary":
      return [s.pick(["DEFINED", "COMMAND", "POLICY", "IS_ABSOLUTE"]), self.ident()]
    if kind == "binary":
      return [s.w((3, self.ident()), (2, '"${%s}"' % self.ident()), (2, s.pick(["1", "2.5", "abc"]))),
              s.pick(["STREQUAL", "EQUAL", "VERSION_LESS", "IN_LIST", "LESS", "STRGREATER"]),
              s.w((3, self.ident()), (2, '"${%s}"' % self.ident()), (2, s.pick(["1", "2.5", "abc"])))]
    if kind == "bool":
      out = self.condition(depth + 1)
      for _ in range(s.many(1, 3, 40)):
        out = out + [s.pick(["AND", "OR"])] + self.condition(depth + 1)
      return out
    return (["NOT"] if kind == "not" else []) + ["("] + self.condition(depth + 1) + [")"]

  def block(self, depth):
    s = self.s
    self.counter += 1
    kind = s.w((5, "if"), (3, "foreach"), (2, "while"), (3, "function"), (2, "macro"))
    ind = self.indent
    if kind == "if" or self.counter > 12:
      return self.plain_if(depth)
    self.loops += 1
    out = []
    if kind == "foreach":
      v = s.pick(self.VARS)
      args = s.w((3, lambda: [v, "IN", "LISTS", "a", "B", "ITEMS", self.arg(), self.arg()]), (1, lambda: [v, "RANGE", "1", "4", "2"]),
                 (1, lambda: [v, "RANGE", "2"]), (3, lambda: [v] + [self.arg() for _ in range(s.i(1, 4))]),
                 (1, lambda: ["k", "l", "IN", "ZIP_LISTS", "a", "foo"]),
                 (2, lambda: [v, "IN", "ITEMS"] + [self.arg() for _ in range(s.i(0, 4))]))()
      out.append(ind(depth) + self.call("foreach", args))
      out += self.body(depth + 1, 0, 3)
      out.append(ind(depth) + self.call("endforeach", []))
    elif kind == "while":
      w = "_w%d" % self.counter
      out.append(ind(depth) + self.call("set", [w, "0"]))
      out.append(ind(depth) + self.call("while", s.w((2, [w, "LESS", "2"]), (1, ["(", w, "LESS", "2", ")", "AND", "("] + self.condition(1) + [")"]))))
      out.append(ind(depth + 1) + self.call("math", ["EXPR", w, '"${%s} + 1"' % w]))
      out += self.body(depth + 1, 0, 3)
      out.append(ind(depth) + self.call("endwhile", []))
    else:
      name = "Fn_%d" % self.counter
      args = [name] + s.sub(self.VARS, 30)
      out.append(ind(depth) + self.call(kind, args))
      out += self.body(depth + 1, 1, 3)
      if s.p(50):
        out.append(ind(depth + 1) + self.call("probe", ["${ARGC}", '"${ARGN}"', "${ARGV}"]))
      out.append(ind(depth) + self.call("end" + kind, s.w((4, []), (1, [name]))))
      out.append(ind(depth) + self.call(name, [self.arg() for _ in range(len(args) - 1 + s.i(0, 2))]))
      self.funs = tuple(self.funs) + (name,)
    self.loops -= 1
    return out

  def plain_if(self, depth):
    s = self.s
    ind = self.indent
    out = [ind(depth) + self.call("if", self.condition())] + self.body(depth + 1, 0, 3)
    for _ in range(s.many(0, 2, 25)):
      out.append(ind(depth) + self.call("elseif", self.condition()))
      out += self.body(depth + 1, 0, 3)
    if s.p(50):
      out.append(ind(depth) + self.call("else", []))
      out += self.body(depth + 1, 0, 3)
    out.append(ind(depth) + self.call("endif", []))
    return out


PRELUDE = """cmake_minimum_required(VERSION 3.20)
function(probe)
  set(out "")
  set(k 0)
  while(k LESS ARGC)
    string(APPEND out " <${ARGV${k}}>")
    math(EXPR k "${k}+1")
  endwhile()
  message(STATUS "probe ${ARGC}${out}")
endfunction()
set(a 1 2)
set(foo "x y")
include("${CMAKE_CURRENT_LIST_DIR}/prog.cmake")
get_cmake_property(_all VARIABLES)
list(SORT _all)
foreach(_k IN LISTS _all)
  if(NOT _k MATCHES "^(CMAKE_|_all$|_k$)")
    message(STATUS "var ${_k}=<${${_k}}>")
  endif()
endforeach()
"""
PLACE = re.compile(rb"(\.cmake:)[0-9]+|(line |column )[0-9]+")


def gen_exec(s):
  c = gen.config(s, rare=25, exclude=("autosort", "keyword_case", "line_ending", "emit_byteorder_mark"))
  g = ExecGen(s, gen.Prof(stmts=(2, 6), max_depth=2, sort_tags=0, weird=4, at_stmt=0, onoff=3, comments=25,
                          trailing_ws_in_multiline=True, nested_parens=3, blocks=45))
  return {"text": g.listfile(), "cfg": c}


def execute(d, text):
  d.put("prog.cmake", text)
  try:
    r = subprocess.run(["cmake", "-P", d.p("main.cmake")], cwd=d.path, stdin=subprocess.DEVNULL, capture_output=True, timeout=20,
                       check=False)
  except subprocess.TimeoutExpired:
    raise Skip("the program runs for too long")
  # places move, and messages name commands as they are written
  return r.returncode, r.stdout.replace(b"\r", b""), PLACE.sub(rb"\1\2", r.stderr.replace(b"\r", b"")).lower()


def oracle_exec(case, rec):
  text, cfg = case["text"], case["cfg"]
  ref_parse_input(text)
  out, _ = sut.fmt(text, cfg)
  with cli.Dir() as d:
    d.put("main.cmake", PRELUDE)
    a = execute(d, text)
    b = execute(d, out)
  for what, x, y in zip(("exit status", "standard output", "standard error"), a, b):
    if x != y:
      x, y = [v.decode("utf-8", "replace") if isinstance(v, bytes) else "%d\n" % v for v in (x, y)]
      raise Violation("cmake runs the formatted program differently: %s\n%s\n%s" % (what, diff(x, y)[:1500], out[:2000]))
  rec.nontrivial(out != text and a[1].count(b"-- probe") >= 3)
  rec.label("failed" if a[0] else "ended")
  if b"CMake Error" in a[2]:
    rec.label("errors")


SUBS = [Sub("large", large.gen_large, oracle_any, 320, 8000, 40),
        Sub("any", gen_any, oracle_any, 2400, 60000, 200), Sub("exec", gen_exec, oracle_exec, 1200, 20000, 50)]
