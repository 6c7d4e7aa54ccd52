"""C20 the effective configuration follows discovery, include and precedence rules"""
import copy
import json
import os

from vf import cli, gen, sut
from vf.checks.c19 import differing, expected, plain
from vf.engine import Skip, Sub, Violation

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated directory trees with configuration files of all names and formats, include graphs, command lines and "
             "sets of listfiles; reference model of discovery, merge and precedence; differential against the configuration given directly")
LEVEL_NOTE = "Random exploration; the tools run as commands in a scratch directory."
RULE = ("A case is a directory tree with configuration files, listfiles and a command line; non-trivial when at least two configuration "
        "files or a file and a command line switch are combined, or two listfiles have different configurations.")
ASSUMPTIONS = ["No configuration file exists in the directories above the scratch directory.",
               "Files are loaded in the order given, then the files they include, in the order of their mention; the last one wins."]

NAMES = [".cmake-format", ".cmake-format.py", ".cmake-format.json", ".cmake-format.yaml", "cmake-format.py", "cmake-format.json",
         "cmake-format.yaml"]
DECOYS = ["cmake-format", ".cmake-format.yml", ".cmake-format.toml", "cmake-format.txt", ".cmake-formatrc", "cmake_format.py", ".cmake-lint.py",
          ".cmake-format.json.bak"]
SECTION = {"line_width": "format", "tab_size": "format", "command_case": "format", "keyword_case": "format", "dangle_parens": "format",
           "separate_ctrl_name_with_space": "format", "max_pargs_hwrap": "format", "always_wrap": "format", "line_ending": "format",
           "bullet_char": "markup", "enable_markup": "markup", "additional_commands": "parse", "per_command": "misc", "disabled_codes": "lint",
           "max_arguments": "lint", "emit_byteorder_mark": "encode"}


def options(s, percent):
  make = {
      "line_width": lambda: s.i(30, 100), "tab_size": lambda: s.i(1, 8), "command_case": lambda: s.pick(["lower", "upper", "unchanged"]),
      "keyword_case": lambda: s.pick(["lower", "upper"]), "dangle_parens": lambda: s.p(60), "separate_ctrl_name_with_space": lambda: s.p(60),
      "max_pargs_hwrap": lambda: s.i(0, 9), "always_wrap": lambda: s.sub(["set", "foo", "if"], 50), "line_ending": lambda: s.pick(["unix", "windows"]),
      "bullet_char": lambda: s.pick(["*", "-"]), "enable_markup": lambda: s.p(50),
      "additional_commands": lambda: {n: {"kwargs": {k: s.pick(["*", "+", 1]) for k in s.sub(["HEADERS", "SOURCES", "KK"], 60)},
                                          "flags": s.sub(["BAR", "FF"], 50)} for n in s.sub(["foo", "bar", "zap"], 50)},
      "per_command": lambda: {n: {"command_case": s.pick(["upper", "lower"])} for n in s.sub(["set", "foo", "bar"], 50)},
      "disabled_codes": lambda: s.sub(["C0103", "C0301"], 50), "max_arguments": lambda: s.i(1, 9), "emit_byteorder_mark": lambda: s.p(40)}
  return {k: fn() for k, fn in make.items() if s.p(percent)}


def pyvalue(v):
  return repr(v)


def assign(name, v):
  """python statements; some of them read the name again"""
  if isinstance(v, int) and not isinstance(v, bool) and v % 3 == 0:
    return ["%s = %r" % (name, v - 2), "%s = %s + 2" % (name, name)]
  if isinstance(v, list) and len(v) > 1:
    return ["%s = %r" % (name, v[:-1]), "%s += [%r]" % (name, v[-1])]
  return ["%s = %r" % (name, v)]


def scoped(name, v):
  """within a section: names are looked up in the innermost section first, and dictionaries are sections"""
  if name in ("additional_commands", "per_command"):
    out = ["with section(%r):" % name]
    for key, value in v.items():
      out += ["  with section(%r):" % key] + ["    %s = %r" % (a, b) for a, b in value.items()] + ([] if value else ["    pass"])
    return out + ([] if v else ["  pass"])
  return ["_v = %r" % (v,), "_u = %r" % (v,), "with section('_inner-%s'):" % name, "  _u = 'inner'", "  with section('innermost'):", "    _t = [_u, _v]", "    _v = [_v, 'x']",
          "    if _t != ['inner', %r] or _v != [%r, 'x']:" % (v, v), "      raise ValueError(_t)",
          "  if _v != %r or _u != 'inner':" % (v,), "    raise ValueError(_v)", "%s = _v if _u == _v else None" % name]


def render(opts, fmt, nested, includes, name="", script=False, split=False, scopes=False):
  """a configuration file as text. nested: names of options written in their section. script: a python file which computes its values"""
  tree = {}
  for k, v in opts.items():
    if k in nested:
      tree.setdefault(SECTION[k], {})[k] = v
    else:
      tree[k] = v
  if includes:
    tree["include"] = includes
  if fmt == "json":
    return json.dumps(tree) if tree else "{}" if script else ""
  if fmt == "yaml":
    import yaml
    return yaml.safe_dump(tree, default_flow_style=None) if tree else "# nothing\n" if script else "{}\n" if split else ""
  out = ["# a configuration"] + (["_v = _u = _t = 'outer'"] if scopes else [])
  if script:
    out += ["import os", "_name = os.path.basename(__file__)", "_there = os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), _name))",
            "def check(value):", "  return value if _there and _name == %r else None" % name]
    value = lambda v: "check(%r)" % (v,)
  items = list(tree.items())
  if split:
    # one block for each option, so that sections are opened again and again
    secs = [k for k in tree if k in ("format", "markup", "parse", "misc", "lint", "encode")]
    items = [(k, v) for k, v in items if k not in secs]
    for n in range(max([len(tree[k]) for k in secs] or [0])):
      items += [(k, dict([list(tree[k].items())[n]])) for k in secs if n < len(tree[k])]
  for n, (k, v) in enumerate(items):
    if script and k in ("format", "markup", "parse", "misc", "lint", "encode"):
      out.append("push_section(%r)" % k if n % 2 else "with section(%r):" % k)
      ind = "" if n % 2 else "  "
      out += [ind + "%s = %s" % (a, value(b)) for a, b in v.items()]
      out += ["pop_section()"] if n % 2 else []
    elif script:
      out.append("%s = %s" % (k, value(v)))
    elif k in ("format", "markup", "parse", "misc", "lint", "encode"):
      out.append("with section(%r):" % k)
      for a, b in v.items():
        out += ["  " + l for l in (scoped(a, b) if scopes else assign(a, b))]
    else:
      out += assign(k, v)
  return "\n".join(out) + "\n"


def merge(into, opts):
  """later wins; dictionaries are merged key by key"""
  for k, v in opts.items():
    if isinstance(v, dict) and isinstance(into.get(k), dict):
      merge(into[k], v)
    else:
      into[k] = copy.deepcopy(v)


def load(files, order):
  """files: {path: file}, order: list of paths -> options"""
  out = {}
  queue = list(order)
  n = 0
  while queue:
    path = queue.pop(0)
    f = files[path]
    queue += [p for p in f["includes"]]
    merge(out, f["opts"])
    n += 1
  return out, n


def nearest(files, dirname):
  """path of the configuration file for listfiles in dirname (relative, '' is the root)"""
  d = dirname
  while True:
    for n in NAMES:
      p = os.path.join(d, n)
      if p in files:
        return p
    if not d:
      return None
    d = os.path.dirname(d)


def structure(opts):
  cfg = {}
  for k, v in opts.items():
    cfg.setdefault(SECTION[k], {})[k] = v
  return cfg


def put_all(d, files):
  for path, f in files.items():
    if "raw" in f:
      d.put(path, f["raw"])
      continue
    incs = []
    for p in f["includes"]:
      rel = os.path.relpath(p, os.path.dirname(path) or ".")
      incs.append(d.p(p) if f["abs"] else rel)
    d.put(path, render(f["opts"], f["fmt"], f["nested"], incs, os.path.basename(path), f.get("script", False), f.get("split", False),
                       f.get("scopes", False)))


def oracle(case, rec):
  files, listed, cwd = case["files"], case["listed"], case["cwd"]
  over = case["over"]
  argv = list(case["argv"])
  combined = set()
  with cli.Dir() as d:
    put_all(d, files)
    d.put(os.path.join(cwd, "keep"), "")
    for path, text in case["inputs"].items():
      d.put(path, text)
    conf = []
    if listed:
      conf = [os.path.relpath(d.p(p), d.p(cwd)) if case["relative"] else d.p(p) for p in listed]
      conf = sum([["-c", p] for p in conf], []) if case["relpaths"] else ["-c"] + conf

    def effective(dirname):
      order = listed
      if not order:
        near = nearest({k: v for k, v in files.items() if "raw" not in v}, dirname)
        order = [near] if near else []
      opts, n = load(files, order)
      n += bool(over)
      merge_over = dict(opts)
      merge_over.update(copy.deepcopy(over))
      return merge_over, n

    # the configuration in effect in the current directory
    want, n = effective(cwd)
    r = cli.run("cmake-format", conf + argv + ["--dump-config", "json", "--no-help"], cwd=d.p(cwd))
    if r.rc:
      raise Violation("--dump-config: exit status %s %r" % (r.rc, r))
    got = plain(json.loads(r.text))
    diffs = differing(expected(structure(want)), got)
    if diffs:
      raise Violation("configuration in %r: expected / effective: %s" % (cwd, diffs[:5]))
    # and for every listfile of one run
    outs, seen = [], set()
    for path in case["inputs"]:
      want, n = effective(os.path.dirname(path))
      seen.add(json.dumps(want, sort_keys=True))
      if n > 1:
        rec.label("combined")
      combined.add(n > 1)
      conf_obj = sut.configuration.Configuration(**structure(copy.deepcopy(want)))
      outs.append(sut.fmain.process_file(conf_obj, case["inputs"][path])[0].encode("utf-8"))
    paths = [os.path.relpath(d.p(p), d.p(cwd)) if case["relpaths"] else d.p(p) for p in case["inputs"]]
    r = cli.run("cmake-format", argv + paths + conf, cwd=d.p(cwd))
    if r.rc or r.out != b"".join(outs):
      raise Violation("the listfiles are not formatted with their own configurations\nfiles %s\nexpected %r\ngot %r" % (
          list(case["inputs"]), b"".join(outs)[:1500], r))
    # standard input uses the current directory
    want, _ = effective(cwd)
    text = next(iter(case["inputs"].values()))
    r = cli.run("cmake-format", argv + ["-"] + conf, stdin=text.encode("utf-8"), cwd=d.p(cwd))
    conf_obj = sut.configuration.Configuration(**structure(copy.deepcopy(want)))
    exp = sut.fmain.process_file(conf_obj, text)[0].encode("utf-8")
    if r.rc or r.out != exp:
      raise Violation("standard input is not formatted with the configuration of the current directory\nexpected %r\ngot %r" % (exp[:800], r))
  rec.nontrivial(True in combined or len(seen) > 1)
  if len(seen) > 1:
    rec.label("different")
  rec.label("listed" if listed else "discovered")
  if over:
    rec.label("switches")


PROBES = [
    "#  * a bullet\n#  * another one which goes on and on until it does not fit in the narrow lines of this\nFOO(a b HEADERS c d kk SOURCES e f g BAR)\n"
    "if(A AND b)\n  Set(x a b c d e f g h)\n  bar(a KK b SOURCES c FF)\nendif()\n",
    "if(x)\nset(A b c)\nzap(a headers x y z)\nendif()\n# - item\n",
    "foo(a HEADERS b SOURCES c d e f g h i j k l m n o p q r s t u v w x y z BAR)\nbar(FF a b)\n"]


SWITCHED = {"dangle_parens": False, "separate_ctrl_name_with_space": False, "enable_markup": True, "emit_byteorder_mark": False}


def switches(s):
  over = {k: v for k, v in options(s, 12).items() if k not in ("additional_commands", "per_command")}
  argv = []
  for k, v in over.items():
    opt = "--" + k.replace("_", "-")
    if isinstance(v, bool):
      words = ["true", "True", "TRUE", "yes", "Yes", "y", "Y", "1", "t"] if v else ["false", "False", "FALSE", "no", "No", "n", "N", "0", "f"]
      k2 = s.w((4, "="), (2, "sep"), (2, "alone"))
      if k2 == "alone" and v != SWITCHED[k]:
        argv += [opt]
      else:
        argv += [opt + "=" + s.pick(words)] if k2 != "sep" else [opt, s.pick(words)]
    elif isinstance(v, list):
      argv += [opt] + v
    else:
      argv += ["%s=%s" % (opt, v)]
  # a list option must not swallow the paths that follow
  if argv:
    argv += ["--log-level=error"]
  return over, argv


def gen_case(s):
  dirs = ["", "a", "a/b", "a/b/c", "d", "a/e"]
  files = {}
  for d in dirs:
    for n in NAMES:
      if s.p(9):
        files[os.path.join(d, n)] = None
    if s.p(8):
      files[os.path.join(d, s.pick(DECOYS))] = {"raw": "{\"format\": {\"line_width\": 33}}", "includes": [], "opts": {}}
  extra = s.sub(["conf/x.py", "conf/y.json", "conf/z.yaml", "a/more.py", "w.yaml", "conf/sub/noext", "v.json"], 30)
  for p in extra:
    files[p] = None
  # an include graph without cycles: only to later ones
  order = s.shuffle(sorted(p for p, f in files.items() if f is None))
  for k, p in enumerate(order):
    ext = os.path.splitext(p)[1]
    base = os.path.basename(p)
    fmt = {".py": "python", ".json": "json", ".yaml": "yaml"}.get(ext) if base != ".cmake-format" and ext else None
    if fmt is None:
      fmt = s.pick(["python", "json", "yaml"])
    opts = options(s, s.pick([0, 10, 25, 50]))
    files[p] = {"opts": opts, "fmt": fmt, "nested": [o for o in opts if s.p(70)],
                "includes": [q for q in order[k + 1:] if s.p(18)][:3], "abs": s.p(25), "script": s.p(40), "split": s.p(40),
                "scopes": fmt == "python" and s.p(40)}
  listed = [p for p in s.shuffle(order) if s.p(50)][:3] if s.p(45) else []
  over, argv = switches(s) if s.p(45) else ({}, [])
  cwd = s.pick(dirs)
  inputs = {}
  for _ in range(s.i(1, 3)):
    inputs[os.path.join(s.pick(dirs), s.pick(["CMakeLists.txt", "x.cmake", "y.cmake"]))] = s.pick(PROBES)
  return {"files": files, "listed": listed, "over": over, "argv": argv, "cwd": cwd, "inputs": inputs, "relative": s.p(50), "relpaths": s.p(50)}


def oracle_tools(case, rec):
  """cmake-lint and cmake-annotate use the same configuration"""
  files, listed, cwd, over, argv = case["files"], case["listed"], case["cwd"], case["over"], list(case["argv"])
  with cli.Dir() as d:
    put_all(d, files)
    d.put(os.path.join(cwd, "keep"), "")
    path = next(iter(case["inputs"]))
    d.put(path, case["inputs"][path] + "function(f a b c d e g)\nset(x_Y 1)\nendfunction()\n")
    order = listed
    if not order:
      near = nearest({k: v for k, v in files.items() if "raw" not in v}, os.path.dirname(path))
      order = [near] if near else []
    opts, n = load(files, order)
    want = dict(opts)
    for tool in ("cmake-lint", "cmake-annotate"):
      if tool == "cmake-lint":
        want.update(copy.deepcopy(over))
      conf = sum([["-c", d.p(p)] for p in listed], [])
      if listed and tool == "cmake-lint" and case["relative"]:
        conf = ["-c"] + [d.p(p) for p in listed]
      d.put("direct.json", json.dumps(structure(want)))
      args = argv if tool == "cmake-lint" else []
      a = cli.run(tool, args + [d.p(path)] + conf, cwd=d.p(cwd))
      b = cli.run(tool, [d.p(path), "-c", d.p("direct.json")], cwd=d.p(cwd))
      if (a.rc, a.out) != (b.rc, b.out) or b"Traceback" in a.err:
        raise Violation("%s does not use the configuration %s\n%r\nwith it given directly\n%r" % (tool, want, a, b))
      want = dict(opts)
  rec.nontrivial(n + bool(over) > 0)


def oracle_bad(case, rec):
  """configuration that can't be loaded is reported, and nothing is formatted with some other configuration"""
  with cli.Dir() as d:
    for p, text in case["files"].items():
      d.put(p, text)
    d.put("x/in.cmake", "SET( a  b)\n")
    d.put("y/ok.cmake", "SET( a  b)\n")
    before = {k: v[:2] for k, v in d.files().items()}
    mode = case["mode"]
    argv = [] if mode == "stdout" else ["-i"] if mode == "inplace" else ["--check"]
    r = cli.run("cmake-format", argv + [d.p("x/in.cmake"), d.p("y/ok.cmake")] + (["-c", d.p(case["conf"])] if case["conf"] else []), cwd=d.p("y"), timeout=20)
    after = {k: v[:2] for k, v in d.files().items()}
    if r.rc is None:
      raise Violation("no answer in 20 s: %r" % case)
    if r.rc == 0:
      raise Violation("exit status 0 with a configuration that can't be loaded: %r\n%r" % (case, r))
    if b"Traceback" in r.err and not case["any"]:
      raise Violation("no error message but a traceback: %r\n%r" % (case, r))
    changed = sorted(k for k in after if after[k] != before.get(k))
    want_changed = [] if case["conf"] or mode != "inplace" else ["y/ok.cmake"]
    if changed != want_changed:
      raise Violation("files changed: %s instead of %s\n%r\n%r" % (changed, want_changed, case, r))
    want_out = b"set(a b)\n" if mode == "stdout" and not case["conf"] else b""
    if r.out != want_out:
      raise Violation("output %r instead of %r\n%r" % (r.out, want_out, case))
  rec.nontrivial()
  rec.label(case["kind"])


def oracle_bad_lint(case, rec):
  """cmake-lint: the same, and the other files are checked"""
  with cli.Dir() as d:
    for p, text in case["files"].items():
      d.put(p, text)
    d.put("x/in.cmake", "SET( a  b)\n")
    d.put("y/ok.cmake", "set(a b)\nset(a b) # " + "x" * 90 + "\n")
    conf = ["-c", d.p(case["conf"])] if case["conf"] else []
    r = cli.run("cmake-lint", [d.p("x/in.cmake"), d.p("y/ok.cmake")] + conf, cwd=d.p("y"), timeout=20)
    alone = cli.run("cmake-lint", [d.p("y/ok.cmake")], cwd=d.p("y"), timeout=20)
  if r.rc is None:
    raise Violation("no answer in 20 s: %r" % case)
  if r.rc == 0:
    raise Violation("exit status 0 with a configuration that can't be loaded: %r\n%r" % (case, r))
  if b"Traceback" in r.err:
    raise Violation("no error message but a traceback: %r\n%r" % (case, r))
  if not case["conf"] and alone.out.split(b"Summary")[0] not in r.out:
    raise Violation("the report of the other file is missing: %r\n%r\n%r" % (case, r, alone))
  rec.nontrivial()
  rec.label(case["kind"])


def gen_bad(s):
  kind = s.pick(["missing", "syntax", "missing_include", "self_include", "cycle"])
  fmt = s.pick(["py", "json", "yaml"])
  listed = s.p(50)
  name = "x/.cmake-format." + fmt if not listed else "conf/c." + fmt
  files = {}
  inc = {"py": "include = [%r]\n", "json": "{\"include\": [\"%s\"]}", "yaml": "include: [%s]\n"}
  here = os.path.dirname(name)
  if kind == "missing":
    listed = True
    name = "conf/c." + fmt
    files["conf/other.py"] = "line_width = 30\n"
  elif kind == "syntax":
    files[name] = {"py": ["x = = 1\n", "raise ValueError('x')\n", "import not_there\n", "line_width = undefined_name\n"],
                   "json": ["{", "[1,}", "{\"a\": }", "nope"], "yaml": ["a: [1\n", "a: b: c: [\n", "\tx: 1\n", "'\n", "{a: b\n", "&a *b\n"]}[fmt][s.i(0, 3)]
  elif kind == "missing_include":
    files[name] = inc[fmt] % "not_there.py"
  elif kind == "self_include":
    files[name] = inc[fmt] % os.path.basename(name)
  else:
    f2, f3 = s.pick(["py", "json", "yaml"]), s.pick(["py", "json", "yaml"])
    files[name] = inc[fmt] % ("n2." + f2)
    if s.p(50):
      files[os.path.join(here, "n2." + f2)] = inc[f2] % os.path.basename(name)
    else:
      files[os.path.join(here, "n2." + f2)] = inc[f2] % ("n3." + f3)
      files[os.path.join(here, "n3." + f3)] = inc[f3] % s.pick([os.path.basename(name), "n2." + f2])
  return {"files": files, "conf": name if listed else None, "mode": s.pick(["stdout", "inplace", "check"]), "kind": kind, "any": False}


SUBS = [Sub("tree", gen_case, oracle, 500, 20000, 60),
        Sub("tools", gen_case, oracle_tools, 250, 6000, 60),
        Sub("bad_lint", gen_bad, oracle_bad_lint, 100, 3000, 60),
        Sub("bad", gen_bad, oracle_bad, 250, 5000, 60)]
