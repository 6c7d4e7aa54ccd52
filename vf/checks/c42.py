"""C42 ctest-to keeps every test"""
import json
from xml.etree import ElementTree

from vf import cli
from vf.checks.common import ref_parse_input
from vf.engine import Sub, Violation

ID = "C42"
LEVEL = "exploration"
TECHNIQUE = ("model-based: Hypothesis generates trees of directories with tests, commands and properties, renders them as CTestTestfile.cmake "
             "files in varied spellings; the JSON and XML output of ctest-to is read back and compared with the model")
LEVEL_NOTE = "Random exploration over generated trees of up to eight directories, with the statements that cmake writes into such files."
RULE = "A case is a run over a tree of directories; non-trivial when there are tests in two directories and a test with properties."
ASSUMPTIONS = ["Files of other build generators (conditional statements around tests) are not modelled."]

NAMES = ["unit", "unit-2", "lib/format", "a b", "Test.Case/0", "x", "check_all", "UPPER", "t;1", "é", "dollar$1", "q\"uote", "a#b", "(p)",
         "100%", "PROPERTIES", "back\\slash"]
VALUES = ["--flag", "-x=1", "two words", "", "/usr/bin/env", "a;b", "${VAR}", "\"quoted\"", "back\\slash", "tab\there", "new\nline", "#hash",
          "(paren)", "[[br]]", "é ü", "'single'", "<a&b>", "PROPERTIES", "a\\;b", "  edge "]
PROPS = [("WORKING_DIRECTORY", ["/tmp/x", "/a b/c"]), ("ENVIRONMENT", ["A=1;B=2", "PATH=/x"]), ("WILL_FAIL", ["TRUE", "1"]),
         ("PASS_REGULAR_EXPRESSION", ["ok|\"fine\"", "[0-9]+"]), ("COST", ["1.5"]), ("DEPENDS", ["unit;x"]), ("RUN_SERIAL", ["ON"])]


def spell(s, value):
  """a spelling of an argument with this value"""
  ways = ["quoted", "quoted", "quoted"]
  if value and not any(c in value for c in " \t\n\"#()\\;$'[]"):
    ways += ["plain", "plain"]
  elif value and all(c.isprintable() for c in value) and "[" not in value:
    ways.append("escaped")
  if "]" not in value and not value.startswith("\n"):
    ways.append("bracket")
  way = s.pick(ways)
  if way == "plain":
    return value
  if way == "escaped":
    return "".join("\\" + c if c in " \"#()\\$'" else c for c in value) if ";" not in value else quoted(s, value)
  if way == "bracket":
    eq = "=" * s.w((2, 0), (3, 1), (1, 2))
    return "[%s[%s%s]%s]" % (eq, s.w((5, ""), (1, "\n")), value, eq)
  return quoted(s, value)


def quoted(s, value):
  out = ""
  k = 0
  while k < len(value):
    c = value[k]
    if value.startswith("\\;", k):
      out += "\\;"
      k += 2
      continue
    if c in "\\\"":
      out += "\\" + c
    elif c == "\n":
      out += s.pick(["\\n", "\n"])
    elif c == "\t":
      out += s.pick(["\\t", "\t"])
    elif c in "$#( " and s.p(15):
      out += "\\" + c
    else:
      out += c
    if s.p(3):
      out += "\\\n"
    k += 1
  return '"' + out + '"'


def stmt(s, name, args):
  sep = lambda: s.w((12, " "), (2, "\n  "), (1, "  "), (1, " # note (\n  "), (1, " #[[c]] "))
  text = s.w((6, name), (1, name.upper())) + s.w((6, "("), (1, " ("), (1, "(\n"))
  for k, a in enumerate(args):
    text += (sep() if k else "") + a
  return text + s.w((6, ")"), (2, " )"), (1, " # end\n)"))


NOISE = ["# CMake generated Testfile for", "", 'include("/x/foo.cmake")', "set(add_test 1)", "#[[\nadd_test(no \"x\")\n]]", "# add_test(no y)",
         'message("add_test(no \\"z\\")")', "set(CTEST_X [[add_test(no q)]])", "if(a)\nendif()"]


def directory(s, path, depth, budget, dirs):
  """fills in dirs: path -> lines; -> models in this tree"""
  models = []
  lines = ["# CMake generated Testfile for ", "# Source directory: /src"] if s.p(70) else []
  dirs[path] = lines
  here = {}
  subs = []
  for _ in range(s.w((1, 1), (3, 2), (3, 4), (1, 8))):
    k = s.w((6, "test"), (5, "props"), (3, "sub"), (2, "noise"), (1, "unknown"))
    if k == "test":
      name = s.pick(NAMES)
      argv = [s.pick(VALUES[1:] if n else ["/usr/bin/env", "prog", "/x y/prog"]) for n in range(s.w((1, 1), (3, 2), (2, 4)))]
      here[name] = {"name": name, "argv": argv, "cwd": path, "props": {}}
      lines.append(stmt(s, "add_test", [spell(s, name)] + [spell(s, a) for a in argv]))
    elif k == "props" and here:
      names = [n for n in s.sub(sorted(here), 40)] or [s.pick(sorted(here))]
      names = [n for n in names if n != "PROPERTIES"]
      if not names:
        continue
      props = {}
      if s.p(60):
        props["LABELS"] = ";".join(s.pick(["fast", "slow", "net work", "é"]) for _ in range(s.i(1, 3)))
      if s.p(40):
        props["TIMEOUT"] = s.pick(["10", "1500", "2.5", "0"])
      if s.p(60):
        props["_BACKTRACE_TRIPLES"] = "/src/CMakeLists.txt;%d;add_test;/src/CMakeLists.txt;0;" % s.i(1, 99)
      for key, values in s.sub(PROPS, 25):
        props[key] = s.pick(values)
      if not props:
        continue
      shown = list(names)
      if s.p(12):
        # a test which is not there
        shown.insert(s.i(0, len(shown)), "nosuch")
      args = [spell(s, n) for n in shown] + ["PROPERTIES"]
      for key in s.shuffle(sorted(props)):
        args += [s.w((8, key), (1, '"%s"' % key)), spell(s, props[key])]
      lines.append(stmt(s, "set_tests_properties", args))
      for n in names:
        here[n]["props"].update(props)
    elif k == "sub" and depth < 3 and budget[0]:
      names = s.sub(["lib", "tests", "my dir", "a/b", "deep"], 40)[:2]
      names = [n for n in names if (path + "/" + n) not in dirs and budget[0] > 0]
      if names:
        budget[0] -= len(names)
        subs += names
        for n in names:
          dirs[path + "/" + n] = None
        lines.append(stmt(s, "subdirs", [spell(s, n) for n in names]))
    elif k == "unknown":
      lines.append(stmt(s, "subdirs", ['"missing"']) if s.p(50) else
                   stmt(s, "set_tests_properties", ["nosuch", "PROPERTIES", "LABELS", '"x"']))
    elif k == "noise":
      lines.append(s.pick(NOISE))
  models += list(here.values())
  for n in subs:
    p = path + "/" + n
    if s.p(10):
      dirs[p] = None
      continue
    models += directory(s, p, depth + 1, budget, dirs)
  return models


def gen_run(s):
  dirs = {}
  models = directory(s, "", 0, [7], dirs)
  files = {p: "\n".join(l) + s.pick(["\n", "\n", ""]) for p, l in dirs.items() if l is not None}
  return {"files": files, "models": models, "format": s.w((3, None), (3, "--json"), (3, "--xml")),
          "dir": s.w((3, "abs"), (2, "rel"), (2, "none"), (1, "slash")), "log": s.w((5, None), (1, "debug"), (1, "error"))}


def wanted(m, root):
  props = {}
  for k, v in m["props"].items():
    if k.startswith("_"):
      continue
    if k == "LABELS":
      v = v.split(";")
    elif k == "TIMEOUT":
      v = float(v)
    props[k.lower()] = v
  return {"name": m["name"], "argv": m["argv"], "cwd": root + m["cwd"], "props": props}


def from_xml(text):
  out = []
  root = ElementTree.fromstring(text)
  if root.tag != "ctest":
    raise Violation("root element %r" % root.tag)
  for e in root:
    if e.tag != "test":
      raise Violation("element %r" % e.tag)
    props = {k: v for k, v in e.attrib.items() if k not in ("name", "cwd")}
    argv = []
    for c in e:
      if c.tag == "argv":
        argv += [a.attrib["value"] for a in c if a.tag == "arg"]
      elif c.tag == "labels":
        props["labels"] = [a.attrib["value"] for a in c if a.tag == "label"]
      else:
        raise Violation("element %r" % c.tag)
    if "timeout" in props:
      props["timeout"] = float(props["timeout"])
    out.append({"name": e.attrib["name"], "cwd": e.attrib["cwd"], "argv": argv, "props": props})
  return out


def key(t):
  return (t["cwd"], t["name"])


def oracle(case, rec):
  shown = json.dumps(case["files"], ensure_ascii=False, indent=1).replace("\\n", "\n")[:3000]
  for text in case["files"].values():
    ref_parse_input(text)
  with cli.Dir() as d:
    import os
    top = "build"
    os.makedirs(d.p(top))
    for p, text in case["files"].items():
      d.put(top + p + "/CTestTestfile.cmake", text)
    argv = [case["format"]] if case["format"] else []
    if case["log"]:
      argv += ["--log-level", case["log"]]
    argv += {"abs": [d.p(top)], "rel": [top], "none": [], "slash": [d.p(top) + "/"]}[case["dir"]]
    before = d.files()
    r = cli.run("ctest-to", argv, cwd=d.p(top) if case["dir"] == "none" else d.path)
    if r.rc:
      raise Violation("exit status %s\n%s\n%s" % (r.rc, r.err.decode("utf-8", "replace")[-800:], shown))
    if d.files() != before:
      raise Violation("the files were changed")
    root = os.path.realpath(d.p(top))
  text = r.out.decode("utf-8")
  try:
    got = from_xml(text) if case["format"] == "--xml" else json.loads(text)
  except (ValueError, ElementTree.ParseError) as ex:
    raise Violation("the output is not readable: %s\n%s" % (ex, text[:1000]))
  want = [wanted(m, root) for m in case["models"]]
  names = [t["name"] for t in got]
  if names != sorted(names):
    raise Violation("the tests are not sorted by name: %r" % names)
  for t in got:
    t["cwd"] = os.path.normpath(t["cwd"])
  g, w = {key(t): t for t in got}, {key(t): t for t in want}
  if len(g) != len(got) or sorted(g) != sorted(w):
    raise Violation("tests declared %r, reported %r\n%s" % (sorted(w), sorted(map(key, got)), shown))
  for k in sorted(w):
    if g[k] != w[k]:
      raise Violation("test %r\ndeclared %r\nreported %r\n%s" % (k, w[k], g[k], shown))
  rec.nontrivial(len({t["cwd"] for t in want}) > 1 and any(t["props"] for t in want))
  rec.label("format_%s" % (case["format"] or "default"))
  if len({t["name"] for t in want}) < len(want):
    rec.label("same_name")


SUBS = [Sub("run", gen_run, oracle, 2500, 60000, 200)]
