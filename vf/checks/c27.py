"""C27 the dump modes show the listfile"""
import ast
import os
import re

from vf import cli, cmref, gen, sut
from vf.checks.common import cmds, ref_parse_input
from vf.engine import Skip, Sub, Violation

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles, configurations and command specifications; the dumps are read back and compared with an independent "
             "reading of the text, with the formatted text and with the specification")
LEVEL_NOTE = "Random exploration; positions are compared for every token."
RULE = ("A case is a listfile and a configuration; non-trivial when it has at least three statements or comments and an argument, "
        "for the parser database when a declared command has a keyword.")
ASSUMPTIONS = ["The kinds and names of nodes are not specified beyond those the documentation shows."]

TOKEN = re.compile(r"Token\(type=(\w+), content=(.*), line=(\d+), col=(\d+)\)$")
NODE = re.compile(r"(\w+): (\d+):(\d+)(.*)$")
LAYOUT = re.compile(r"(\w+)\((\w+)\),\(passno=(\d+),wrap=([TF]),ok=([TF])\) pos:\((\d+),(\d+)\) ext:\((\d+),(\d+)\)$")


def dump(case, mode):
  cfg = sut.mkconfig(case["cfg"])
  try:
    out, ok = sut.fmain.process_file(cfg, case["text"], mode)
  except Exception as ex:  # pylint: disable=broad-except
    raise Violation("--dump %s of a valid listfile raised %s: %s" % (mode, type(ex).__name__, str(getattr(ex, "msg", None) or ex)[:300]))
  if not ok:
    raise Violation("--dump %s reports an invalid layout" % mode)
  return out


def tokens(lines):
  out = []
  for line in lines:
    m = TOKEN.match(line)
    if not m:
      raise Violation("not a token: %r" % line)
    out.append((m.group(1), ast.literal_eval(m.group(2)), int(m.group(3)), int(m.group(4))))
  return out


def split(text):
  if text and not text.endswith("\n"):
    raise Violation("the last line of the dump is not terminated")
  return text.split("\n")[:-1]


def drawn(text):
  """[(depth, content)] of a drawn tree; the drawing itself must be that of a tree"""
  out = []
  open_ = []        # for each depth: whether the node at this depth has more siblings
  for line in split(text):
    m = re.match(r"((?:    |│   )*)(└─ |├─ )(.*)$", line)
    if not m:
      raise Violation("not a line of a tree: %r" % line)
    bars = [x == "│   " for x in re.findall("    |│   ", m.group(1))]
    depth = len(bars)
    if depth > len(open_):
      raise Violation("a line is too deep: %r" % line)
    if bars != open_[:depth]:
      raise Violation("the bars of %r do not agree with the lines above (%s)" % (line, open_))
    if depth < len(open_) and not open_[depth]:
      raise Violation("%r follows the last one of its siblings" % line)
    if any(open_[depth + 1:]):
      raise Violation("siblings are missing before %r" % line)
    open_[depth:] = [m.group(2) == "├─ "]
    out.append((depth, m.group(3)))
  if any(open_):
    raise Violation("the last sibling is missing at the end")
  return out


WS = ("WHITESPACE", "NEWLINE", "BYTEORDER_MARK")


def interesting(case, pin):
  return sum(e.kind in ("cmd", "com") for e in pin) >= 3 and any(c.args for c in cmds(pin))


def oracle_lex(case, rec):
  text = case["text"]
  pin = ref_parse_input(text)
  toks = tokens(split(dump(case, "lex")))
  if "".join(t[1] for t in toks) != text:
    raise Violation("the tokens are not the text: %r" % "".join(t[1] for t in toks)[:300])
  want = [(t.text.rstrip("\r"), t.line, t.col) for t in cmref.scan(text) if t.type not in ("sp", "nl")]
  got = [(t[1].rstrip("\r"), t[2], t[3]) for t in toks if t[0] not in WS]
  if want != got:
    for a, b in zip(want, got):
      if a != b:
        raise Violation("the dump shows %r for %r" % (b, a))
    raise Violation("%d tokens shown, %d in the file" % (len(got), len(want)))
  rec.nontrivial(interesting(case, pin))


def oracle_parse(case, rec):
  text = case["text"]
  pin = ref_parse_input(text)
  lextoks = tokens(split(dump(case, "lex")))
  tree = drawn(dump(case, "parse"))
  toks, names = [], []
  stack = []        # names of the nodes above
  pending = []      # nodes whose first token is to come: their positions
  stmts = []
  for depth, content in tree:
    del stack[depth:]
    m = TOKEN.match(content)
    if m:
      tok = tokens([content])[0]
      toks.append(tok)
      for name, line, col in pending:
        if (line, col) != tok[2:]:
          raise Violation("%s is shown at %d:%d, its first token is %r" % (name, line, col, tok))
      pending = []
      if stack and stack[-1] == "FunctionNameNode":
        stmts.append((tok[1], stack.count("BodyNode") - 1))
      stack.append("token")
      continue
    m = NODE.match(content)
    if not m:
      raise Violation("not a node: %r" % content)
    if stack and stack[-1] == "token":
      raise Violation("a token has children: %r" % content)
    if (int(m.group(2)), int(m.group(3))) != (0, 0):
      pending.append((m.group(1), int(m.group(2)), int(m.group(3))))
    stack.append(m.group(1))
    names.append(m.group(1))
  allow = [t for t in lextoks if t[0] not in WS]
  have = [t for t in toks if t[0] not in WS]
  if allow != have:
    for a, b in zip(allow, have):
      if a != b:
        raise Violation("the tree shows %r, the file has %r" % (b, a))
    raise Violation("the tree shows %d tokens, the file has %d" % (len(have), len(allow)))
  want = []
  depth = 0
  for e in pin:
    if e.kind != "cmd":
      continue
    low = e.name.lower()
    if low in cmref.CLOSE:
      depth -= 1
    want.append((e.name, depth - (1 if low in cmref.MID else 0)))
    if low in cmref.OPEN:
      depth += 1
  if stmts != want:
    raise Violation("statements shown %s, in the file %s" % (stmts, want))
  rec.nontrivial(interesting(case, pin))


def shown_locations(text):
  """[(row, col)] of everything but comments in a text, as the layout counts"""
  return [(t.line - 1, t.col, t.text) for t in cmref.scan(text) if t.type not in ("sp", "nl", "lc", "bc")]


def oracle_layout(case, rec):
  pin = ref_parse_input(case["text"])
  if "\r" in case["text"]:
    raise Skip("windows line endings")
  out, ok = sut.fmt(case["text"], case["cfg"])
  tree = drawn(dump(case, "layout"))
  nodes = []
  stack = []
  for depth, content in tree:
    m = LAYOUT.match(content)
    if not m:
      raise Violation("not a layout node: %r" % content)
    nodes.append((depth,) + m.groups())
  if (nodes[0][5] == "T") != ok:
    raise Violation("the root is shown as ok=%s, the layout is valid: %s" % (nodes[0][5], ok))
  want = shown_locations(out)
  got = [(int(n[6]), int(n[7]), "%s %s" % (n[1], n[2])) for n in nodes if n[1] in ("ScalarNode", "ParenNode")]
  if len(want) != len(got):
    raise Violation("%d tokens in the formatted text, %d in the layout" % (len(want), len(got)))
  for a, b in zip(want, got):
    if a[:2] != b[:2]:
      raise Violation("%r is at line %d column %d of the formatted text, the layout has %s at (%d,%d)" % (a[2], a[0], a[1], b[2], b[0], b[1]))
  names = [n for n, t in zip(nodes, want)]
  rec.nontrivial(interesting(case, pin) and out.count("\n") > 3)
  rec.label("valid" if ok else "invalid_layout")
  if any(n[4] == "T" for n in names):
    rec.label("wrapped")


def oracle_markup(case, rec):
  pin = ref_parse_input(case["text"])
  out = dump(case, "markup")
  got = [(int(m.group(1)), int(m.group(2))) for m in re.finditer(r"^\w+: (\d+):(\d+)", out, re.M)]
  tree = [c for _, c in drawn(dump(case, "parse"))]
  want = [tuple(int(x) for x in NODE.match(c).group(2, 3)) for c, first in zip(tree, tree[1:])
          if NODE.match(c) and re.match(r"Token\(type=(BRACKET_)?COMMENT,", first)]
  if got != want:
    raise Violation("comments shown %s, in the parse tree %s" % (got, want))
  starts = {(t.line, t.col) for t in cmref.scan(case["text"]) if t.type in ("lc", "bc")}
  if not set(got) <= starts:
    raise Violation("no comment at %s" % sorted(set(got) - starts))
  for line in split(out):
    if line and not re.match(r"\w+: \d+:\d+|[A-Z_]+$", line):
      raise Violation("unexpected line %r" % line)
  rec.nontrivial(len(got) >= 2)


BLOCKS = {"PARAGRAPH": [[" some words"], [" a", " b c"], [" (x)", "   y"]], "BULLET_LIST": [[" * a", " * b"], [" - a b", "   c", " - d"], [" - x"]],
          "ENUM_LIST": [[" 1. a", " 2. b"], [" 1. a", "    b"], [" 1: x"]], "NOTE": [[" TODO(a): b"], [" NOTE(x): a", "   b"]],
          "RULER": [[" ------------"], [" =====================>"], [" ********"]], "FENCE VERBATIM FENCE": [[" ~~~", "   a", "", " b", " ~~~"], [" ```", " * a", " ```"]]}


def gen_items(s):
  out = []
  for _ in range(s.i(1, 4)):
    out.append([[k, s.pick(BLOCKS[k])] for k in (s.pick(sorted(BLOCKS)) for _ in range(s.i(1, 5)))])
  return {"comments": out, "hashes": [s.pick(["#", "#", "#", "##", "###"]) for _ in range(7)], "cfg": {"format": {"line_width": s.i(30, 90)}}}


def oracle_items(case, rec):
  """a comment made of known items"""
  lines, want = [], []
  for comment in case["comments"]:
    mine = []
    for n, (kind, text) in enumerate(comment):
      if n:
        mine.append("")
        want.append("SEPARATOR")
      mine += text
      want += kind.split()
    for l in mine:
      lines.append(case["hashes"][len(lines) % 7] + l)
    lines += ["", "foo()", ""]
  out = dump({"text": "\n".join(lines), "cfg": case["cfg"]}, "markup")
  got = [l for l in split(out) if re.match("[A-Z_]+$", l)]
  if got != want:
    raise Violation("items shown %s, written %s\n%s" % (got, want, "\n".join(lines)))
  rec.nontrivial(len(want) > 4)


def oracle_parsedb(case, rec):
  from cmakelang.parse import funs
  out = dump(case, "parsedb")
  entries = []
  for line in split(out):
    m = re.match(r"((?:   |\|  )*)(└─ |├─ )([^:\s]+)(: .*)?$", line)
    if not m:
      raise Violation("not a line of the data base: %r" % line)
    entries.append((len(m.group(1)) // 3, m.group(3)))
  tree = {}
  path = []
  for depth, name in entries:
    del path[depth:]
    node = tree
    for p in path:
      node = node[p]
    if name in node:
      raise Violation("%s is listed twice in %s" % (name, path))
    node[name] = {}
    path.append(name)
  names = list(tree)
  if names != sorted(names):
    raise Violation("not sorted")
  add = case["cfg"].get("parse", {}).get("additional_commands", {})
  missing = set(funs.get_parse_db()) - set(tree)
  if missing:
    raise Violation("not listed: %s" % sorted(missing)[:5])
  kw = False
  for name, spec in add.items():
    if name.lower() not in tree:
      raise Violation("the declared command %s is not listed" % name)

    def compare(node, spec, where):
      kws = spec.get("kwargs", {}) if isinstance(spec, dict) else {}
      if set(node) != set(kws):
        raise Violation("%s is listed with the keywords %s, declared with %s" % (where, sorted(node), sorted(kws)))
      for k in kws:
        compare(node[k], kws[k], where + "/" + k)
    compare(tree[name.lower()], spec, name)
    kw = kw or bool(spec.get("kwargs"))
  rec.nontrivial(kw)


def gen_text(s, rare=25, **kw):
  p = dict(stmts=(1, 4), max_depth=3, argcomments=12, onoff=kw.pop("onoff", 4))
  p.update(kw)
  return {"text": gen.Gen(s, gen.Prof(**p)).listfile(), "cfg": gen.config(s, rare=rare)}


def gen_layout(s):
  case = gen_text(s, onoff=0)
  case["cfg"] = gen.config(s, rare=25, exclude=("use_tabchars", "emit_byteorder_mark", "line_ending"))
  return case


def gen_db(s):
  return {"text": "set(a b)\n", "cfg": {"parse": gen.declarations(s)}}


def gen_cli(s):
  files = {}
  for n in s.sub(["a/CMakeLists.txt", "b.cmake", "x y.cmake"], 60) or ["b.cmake"]:
    files[n] = gen.Gen(s, gen.Prof(stmts=(1, 2), max_depth=1)).listfile()
  return {"files": files, "mode": s.pick(["lex", "parse", "layout", "markup", "parsedb"]), "cfg": gen.config(s, rare=10, exclude=("emit_byteorder_mark",)),
          "to": s.pick(["stdout", "stdout", "file", "stdin"]), "inplace": s.p(15)}


def oracle_cli(case, rec):
  import json
  wants = []
  cfg = case["cfg"]
  for name, text in sorted(case["files"].items()):
    ref_parse_input(text)
    wants.append(dump({"text": text, "cfg": cfg}, case["mode"]))
  with cli.Dir() as d:
    for name, text in case["files"].items():
      d.put(name, text)
    d.put("cfg.json", json.dumps(cfg))
    before = d.files()
    argv = ["-c", d.p("cfg.json"), "--dump", case["mode"]]
    names = sorted(case["files"])
    if case["inplace"]:
      r = cli.run("cmake-format", argv + ["-i"] + names, cwd=d.path)
      if r.rc == 0:
        raise Violation("--dump with -i is accepted")
      if d.files() != before:
        raise Violation("--dump with -i changed a file")
      rec.nontrivial(True)
      rec.label("inplace")
      return
    if case["to"] == "file":
      r = cli.run("cmake-format", argv + ["-o", d.p("out"), "--"] + names[:1], cwd=d.path)
      wants = wants[:1]
      got = d.get("out") if os.path.exists(d.p("out")) else None
    elif case["to"] == "stdin":
      r = cli.run("cmake-format", argv + ["-"], stdin=case["files"][names[0]].encode("utf-8"), cwd=d.path)
      wants = wants[:1]
      got = r.out
    else:
      r = cli.run("cmake-format", argv + ["--"] + names, cwd=d.path)
      got = r.out
    if r.rc:
      raise Violation("exit status %s: %r" % (r.rc, r))
    if got != "".join(wants).encode("utf-8"):
      raise Violation("%r is written, %r expected" % ((got or b"")[:500], "".join(wants)[:500]))
    after = d.files()
    after.pop("out", None)
    if after != before:
      raise Violation("files changed")
  rec.nontrivial(any(w.strip() for w in wants))
  rec.label(case["mode"])
  rec.label(case["to"])


SUBS = [Sub("lex", gen_text, oracle_lex, 600, 15000, 200),
        Sub("parse", gen_text, oracle_parse, 900, 25000, 200),
        Sub("layout", gen_layout, oracle_layout, 1500, 40000, 200),
        Sub("markup", gen_text, oracle_markup, 400, 10000, 200),
        Sub("items", gen_items, oracle_items, 250, 5000, 100),
        Sub("parsedb", gen_db, oracle_parsedb, 150, 3000, 50),
        Sub("cli", gen_cli, oracle_cli, 150, 3000, 50)]
