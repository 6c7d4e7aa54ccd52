"""C19 dumped configurations load back to the same configuration"""
import copy
import json
import os

from vf import cli, gen, sut
from vf.checks.common import diff
from vf.engine import Skip, Sub, Violation

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated values for all options; round trip through --dump-config in every format, and differential between "
             "file, dictionary and command line switches")
LEVEL_NOTE = "Random exploration over the values of all options; the tool runs as a command, its dump is read back by itself."
RULE = "A case is a set of option values with dump settings; non-trivial when at least three options differ from their defaults."
ASSUMPTIONS = ["Values have the documented type of the option."]

STRINGS = ["abc", "", "a b", "it's", "\"q\"", "back\\slash", "\\n", "#x", "# y: z", "a: b", "- x", "[a]", "{b}", "*", "&x", "!t", "%d", "@a", "`t`",
           "yes", "no", "null", "~", "1", "1.5", "true", "None", "é", "日本語", "🚀", "tab\there", "line\nbreak", " lead", "trail ", "^[a-z]+$", "\\d{2,}",
           "(?i)x", "a,b", "'''", '"""', "x" * 90, "the quick brown fox jumps over the lazy dog and goes on for more than a line of the file",
           "=", "$", "<<", "|", ">", "?", ":", "0x10", "1e3", "2001-01-01", "\u2028", "\ufeff", "..."]
WORDS = ["set", "foo", "C0103", "message", "E1120", "My_Cmd"]


def text(s):
  return s.pick(STRINGS) if s.p(70) else "".join(s.pick(STRINGS) for _ in range(s.i(2, 3)))


def nargs(s):
  return s.pick(["*", "+", "?", 1, 0, 3, "2+", "1"])


def cmdspec(s, depth=0):
  spec = {}
  if s.p(50):
    kind = s.i(0, 2)
    if kind == 0:
      spec["pargs"] = nargs(s)
    elif kind == 1:
      spec["pargs"] = {"nargs": nargs(s), "flags": s.sub(["A", "BB", "QUIET"], 50), "tags": s.sub(["cmdline", "file-list"], 30)}
    else:
      spec["pargs"] = [{"nargs": nargs(s), "sortable": s.p(50)}, nargs(s)]
  elif s.p(50):
    spec["flags"] = s.sub(["FLAG", "OTHER"], 60)
  if s.p(60):
    kw = {}
    for k in s.sub(["HEADERS", "SOURCES", "X", "LONG_NAME"], 50):
      kw[k] = cmdspec(s, depth + 1) if depth < 2 and s.p(25) else nargs(s)
    spec["kwargs"] = kw
  if depth == 0 and s.p(15):
    spec["spelling"] = s.pick(["Foo_Bar", "fOO"])
  if depth == 0 and s.p(15):
    spec["max_subgroups_hwrap"] = s.i(0, 4)
  if depth == 0 and s.p(15):
    spec["always_wrap"] = s.p(50)
  return spec


def pattern(s):
  return s.pick(["[a-z]+", "^\\s*x", "_[A-Z][0-9A-Z_]+", "(a|b)#", "'x\"y", "é+", "[^:]*: .*", "\\\\", "#.{3}", ".*", "a\\.b", "\\t"])


def values(s):
  """every option by section: function of its value; None for 'not a command line switch'"""
  i = s.i
  return {
      "format": {
          "disable": lambda: s.p(50), "line_width": lambda: i(1, 200), "tab_size": lambda: i(1, 10), "use_tabchars": lambda: s.p(50),
          "fractional_tab_policy": lambda: s.pick(["use-space", "round-up"]), "max_subgroups_hwrap": lambda: i(0, 9),
          "max_pargs_hwrap": lambda: i(0, 20), "max_rows_cmdline": lambda: i(0, 5), "separate_ctrl_name_with_space": lambda: s.p(50),
          "separate_fn_name_with_space": lambda: s.p(50), "dangle_parens": lambda: s.p(50),
          "dangle_align": lambda: s.pick(["prefix", "prefix-indent", "child"]), "min_prefix_chars": lambda: i(0, 20),
          "max_prefix_chars": lambda: i(0, 30), "max_lines_hwrap": lambda: i(0, 5), "line_ending": lambda: s.pick(["unix", "windows", "auto"]),
          "command_case": lambda: s.pick(["lower", "upper", "canonical", "unchanged"]), "keyword_case": lambda: s.pick(["lower", "upper", "unchanged"]),
          "always_wrap": lambda: s.sub(WORDS, 40), "enable_sort": lambda: s.p(50), "autosort": lambda: s.p(50),
          "require_valid_layout": lambda: s.p(50),
          "layout_passes": lambda: {k: [[s.i(0, 5), s.p(50)] for _ in range(s.i(0, 3))] for k in s.sub(["StatementNode", "ArgGroupNode"], 50)}},
      "parse": {
          "additional_commands": lambda: {s.pick(["foo", "Bar_Baz", "x", "my_cmd"]): cmdspec(s) for _ in range(i(0, 3))},
          "override_spec": lambda: {k: s.i(0, 5) for k in s.sub(["foo.max_subgroups_hwrap"], 50)} if 0 else {},
          "vartags": lambda: [[pattern(s), s.sub(["cmdline", "file-list"], 50)] for _ in range(i(0, 2))],
          "proptags": lambda: [[pattern(s), s.sub(["cmdline", "file-list"], 50)] for _ in range(i(0, 2))]},
      "markup": {
          "bullet_char": lambda: s.pick(["*", "-", "+", "•", "'", "#"]), "enum_char": lambda: s.pick([".", ":", ")", "\\"]),
          "first_comment_is_literal": lambda: s.p(50), "literal_comment_pattern": lambda: s.w((3, pattern(s)), (1, None)),
          "fence_pattern": lambda: pattern(s), "ruler_pattern": lambda: pattern(s), "explicit_trailing_pattern": lambda: s.pick(["#<", "#!", "#\\"]),
          "hashruler_min_length": lambda: i(1, 40), "canonicalize_hashrulers": lambda: s.p(50), "enable_markup": lambda: s.p(50)},
      "lint": {
          "disabled_codes": lambda: s.sub(WORDS, 40), "function_pattern": lambda: pattern(s), "macro_pattern": lambda: text(s) if s.p(0) else pattern(s),
          "global_var_pattern": lambda: pattern(s), "internal_var_pattern": lambda: pattern(s), "local_var_pattern": lambda: pattern(s),
          "private_var_pattern": lambda: pattern(s), "public_var_pattern": lambda: pattern(s), "argument_var_pattern": lambda: pattern(s),
          "keyword_pattern": lambda: text(s), "max_conditionals_custom_parser": lambda: i(0, 9), "min_statement_spacing": lambda: i(0, 5),
          "max_statement_spacing": lambda: i(0, 9), "max_returns": lambda: i(0, 20), "max_branches": lambda: i(0, 20),
          "max_arguments": lambda: i(0, 20), "max_localvars": lambda: i(0, 20), "max_statements": lambda: i(0, 99)},
      "encode": {
          "emit_byteorder_mark": lambda: s.p(50), "input_encoding": lambda: s.pick(["utf-8", "latin-1", "utf-16"]),
          "output_encoding": lambda: s.pick(["utf-8", "latin-1", "ascii"])},
      "misc": {
          "per_command": lambda: {k: {s.pick(["command_case", "x"]): text(s) if s.p(20) else s.pick(["upper", "lower"])}
                                  for k in s.sub(["set", "ADD_LIBRARY", "externalproject_add", "fetchcontent_declare", "if"], 40)}},
  }


def gen_cfg(s, percent, only=None):
  out = {}
  for section, opts in values(s).items():
    for name, fn in opts.items():
      if (only is None or name in only) and s.p(percent):
        out.setdefault(section, {})[name] = fn()
  return out


def plain(x):
  """tuples are lists, ordered dictionaries are dictionaries"""
  if isinstance(x, dict):
    return {k: plain(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [plain(v) for v in x]
  return x


def overrides(cfg):
  """the effective value of every option"""
  conf = sut.mkconfig(cfg)
  return plain(conf.as_dict())


def differing(a, b):
  out = []
  for sec in sorted(set(a) | set(b)):
    x, y = a.get(sec), b.get(sec)
    if isinstance(x, dict) and isinstance(y, dict):
      for k in sorted(set(x) | set(y)):
        if k not in x or k not in y or x[k] != y[k] or type(x[k]) is not type(y[k]):
          out.append("%s.%s: %r / %r" % (sec, k, x.get(k, "(nothing)"), y.get(k, "(nothing)")))
    elif x != y:
      out.append("%s: %r / %r" % (sec, x, y))
  return out


def expected(cfg):
  """Independent of as_dict: the defaults with the given values over them"""
  full = plain(sut.configuration.Configuration().as_dict())
  for sec, opts in cfg.items():
    for k, v in opts.items():
      full[sec][k] = plain(copy.deepcopy(v))
  return full


def probe(cfg):
  """the configuration applied to something"""
  cfg = copy.deepcopy(cfg)
  conf = sut.configuration.Configuration(**cfg)
  return sut.fmain.process_file(conf, PROBE)


PROBE = """#  a comment   that is long enough to be wrapped if the line is narrow, * and not
FOO(a b HEADERS c d SOURCES e f g BAR)
if(A AND b)
  set(x_COMMAND a b c d e f g h)
  ExternalProject_Add(x GIT_TAG y)
endif()
"""
EXT = {"yaml": ".yaml", "json": ".json", "python": ".py"}


def oracle_dump(case, rec):
  cfg, fmt = case["cfg"], case["fmt"]
  want = expected(cfg)
  got = overrides(cfg)
  if got != want:
    raise Violation("the effective configuration is not the given one: %s" % differing(got, want)[:5])
  with cli.Dir() as d:
    src = d.put("src.json", json.dumps(cfg))
    argv = ["--dump-config", fmt, "-c", src] + ([] if case["help"] else ["--no-help"]) + ([] if case["default"] else ["--no-default"])
    r = cli.run("cmake-format", argv, cwd=d.path)
    if r.rc:
      raise Violation("--dump-config failed: %r" % r)
    name = "dump" + EXT[fmt]
    if case["near"] == 1:
      name = ".cmake-format"
    elif case["near"] == 2:
      name = ".cmake-format" + EXT[fmt]
    elif case["near"] == 3:
      name = "cmake-format" + EXT[fmt]
    d.put("w/" + name, r.out)
    argv = ["--dump-config", "json", "--no-help"]
    if not case["near"]:
      argv += ["-c", d.p("w", name)]
    back = cli.run("cmake-format", argv, cwd=d.p("w"))
    if back.rc:
      raise Violation("the dumped configuration can't be read: %r\n%s" % (back, r.text[:1500]))
    loaded = plain(json.loads(back.text))
    if loaded != want:
      raise Violation("read back from %s (%s) the configuration differs: %s\n%s" % (
          name, fmt, differing(want, loaded)[:5], r.text[-1500:]))
    if b"ignored" in back.err:
      raise Violation("options of the dump are not known: %r" % back)
    if not case["default"]:
      # nothing but the given options
      again = {k: v for k, v in plain(sut.fmain.get_configdict([d.p("w", name)])).items() if not k.startswith("_")}
      for sec, opts in again.items():
        extra = set(k for k in opts if not k.startswith("_")) - set(cfg.get(sec, {}))
        if extra:
          raise Violation("--no-default: %s were not given" % sorted(extra))
    read = sut.fmain.get_configdict([d.p("w", name)])
  try:
    a = probe(cfg)
  except Exception:  # pylint: disable=broad-except
    rec.label("probe_fails")
    a = None
  if a is not None and a != probe({k: v for k, v in read.items()}):
    raise Violation("the configuration read back formats differently")
  rec.nontrivial(len(differing(want, expected({}))) >= 3)
  rec.label(fmt)
  rec.label("near%d" % case["near"])


def gen_dump(s):
  return {"cfg": gen_cfg(s, s.pick([10, 30, 60])), "fmt": s.pick(["yaml", "json", "python"]), "help": s.p(50), "default": s.p(50),
          "near": s.w((4, 0), (1, 1), (1, 2), (1, 3))}


def switch(s, name, value):
  """command line switch for a value"""
  opt = "--" + name.replace("_", "-")
  if isinstance(value, bool):
    if value is s_default(name):
      return ["%s=%s" % (opt, s.pick(["true", "yes", "1", "Y"] if value else ["false", "no", "0", "N"]))]
    return s.w((2, [opt]), (1, ["%s=%s" % (opt, s.pick(["true", "on"[:0] + "t"] if value else ["false", "f"]))]))
  if isinstance(value, list):
    return [opt] + [str(v) for v in value]
  return ["%s=%s" % (opt, value)]


DEFAULTS = {}


def s_default(name):
  if not DEFAULTS:
    for sec in sut.configuration.Configuration().as_dict().values():
      DEFAULTS.update(sec)
  return DEFAULTS[name]


def oracle_switch(case, rec):
  """file, command line and dictionary give the same configuration"""
  cfg, argv = case["cfg"], case["argv"]
  want = expected(cfg)
  with cli.Dir() as d:
    conf = d.put("c.json", json.dumps(cfg))
    empty = d.put("e.json", "{}")
    listfile = d.put("in.cmake", PROBE)
    lead = argv + ["-c", empty]
    a = cli.run("cmake-format", lead + ["--dump-config", "json", "--no-help"], cwd=d.path)
    b = cli.run("cmake-format", ["-c", conf, "--dump-config", "json", "--no-help"], cwd=d.path)
    legacy = {}
    for sec in cfg.values():
      legacy.update(sec)
    d.put("l.json", json.dumps(legacy))
    c = cli.run("cmake-format", ["-c", d.p("l.json"), "--dump-config", "json", "--no-help"], cwd=d.path)
    for what, r in (("command line", a), ("file", b), ("file without sections", c)):
      if r.rc:
        raise Violation("%s: exit status %s\n%r\n%s" % (what, r.rc, r, argv))
      got = plain(json.loads(r.text))
      if got != want:
        raise Violation("%s: %s\n%s" % (what, differing(want, got)[:5], argv))
    outs = [cli.run("cmake-format", args + [listfile], cwd=d.path) for args in (lead, ["-c", conf], ["-c", d.p("l.json")])]
    if len(set((r.rc, r.out) for r in outs)) != 1:
      raise Violation("the three ways format differently: %r\n%s" % (outs, argv))
  rec.nontrivial(len(differing(want, expected({}))) >= 3)


# not on the command line, or without a type there
NO_SWITCH = {"additional_commands", "override_spec", "vartags", "proptags", "layout_passes", "per_command"}


def gen_switch(s):
  names = [n for sec in values(s).values() for n in sec if n not in NO_SWITCH and n not in ("max_returns_",)]
  cfg = gen_cfg(s, s.pick([8, 20, 40]), set(names))
  if cfg.get("markup", {}).get("literal_comment_pattern", "") is None:
    del cfg["markup"]["literal_comment_pattern"]
  argv = []
  for sec in cfg.values():
    for k, v in sec.items():
      argv.append(switch(s, k, v))
  return {"cfg": cfg, "argv": sum(s.shuffle(argv), [])}


SUBS = [Sub("dump", gen_dump, oracle_dump, 900, 30000, 100),
        Sub("switch", gen_switch, oracle_switch, 400, 15000, 60)]
