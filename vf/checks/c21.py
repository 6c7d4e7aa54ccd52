"""C21 results depend only on the input and its configuration"""
import io
import json
import os
import signal
import sys

from vf import cli, gen, sut
from vf.checks import c24, c31
from vf.engine import Sub, Violation

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = ("Stateful generation with Hypothesis: histories of format, lint, dump and annotate operations over shared texts and shared "
             "configurations in one process; every result is compared with the same operation alone in a pristine process")
LEVEL_NOTE = "Random exploration over histories of 2 to 7 operations; hash seed and locale are varied for a sample of whole runs."
RULE = ("A case is a history; non-trivial when it holds operations with at least two configurations, one of them with command declarations "
        "or automatic line endings, and at least four operations.")
ASSUMPTIONS = ["The worker never runs an operation itself: pristine processes are forked from it after the imports only."]

NAMES = ["foo", "set_target_properties", "add_library", "set", "install", "my_cmd", "if", "message", "target_link_libraries", "list"]
BAD = ["set(a\n", "if(a)\n))\n", "message(\"x\n", "set(a [[b)\n"]


def gen_cfg(s):
  cfg = gen.config(s)
  parse = {}
  if s.p(55):
    cmds = {}
    for _ in range(s.i(1, 3)):
      spec, _ = c24.spec_and_call(s, c24.KW, c24.FLAGS, 1)
      cmds[s.pick(NAMES)] = spec
    parse["additional_commands"] = cmds
    if s.p(30):
      over = {}
      for name in sorted(cmds):
        key, value = s.pick([("%s.always_wrap", True), ("%s.max_subgroups_hwrap", 0), ("%s.spelling", "XxX"), ("%s/parg[0].max_pargs_hwrap", 1),
                             ("%s/parg[0].sortable", True), ("%s/parg[5].nargs", 2)])
        over[key % name] = value
      parse["override_spec"] = over
  for k in ("vartags", "proptags"):
    if s.p(25):
      parse[k] = [[s.pick(["foo.*", "MY_.*", ".*"]), [s.pick(["cmdline", "file-list"])]]]
  if parse:
    cfg["parse"] = parse
  lnt = {}
  if s.p(20):
    lnt["max_arguments"] = s.i(0, 3)
  if s.p(20):
    lnt["disabled_codes"] = [s.pick(["C0103", "C0301"])]
  if lnt:
    cfg["lint"] = lnt
  return cfg


def gen_text(s):
  kind = s.w((5, "any"), (2, "program"), (1, "bad"), (2, "calls"))
  if kind == "bad":
    return s.pick(["", "set(a b)\n"]) + s.pick(BAD)
  if kind == "program":
    m = c31.Model({})
    m.body(c31.gen_case(s)["body"], 0, [])
    text = "\n".join(m.lines) + "\n"
    if s.p(40):
      text = "# cmake-lint: disable=C0103,C0111\n" + text
  elif kind == "calls":
    text = ""
    for _ in range(s.i(1, 4)):
      name = s.pick(["foo", "set_target_properties", "add_library", "set", "set", "install", "my_cmd"])
      if name in ("set", "set_target_properties") and s.p(50):
        # the value of a variable or property, whose layout depends on the tags of its name
        words = ["MY_LIST", "foobar"] if name == "set" else ["tgt PROPERTIES MY_LIST", "tgt PROPERTIES foobar"]
        words = [s.pick(words)] + [s.pick(["--flag", "-f", "value", "--long-option=value", "directory/some_file_name.cc"]) for _ in range(s.i(2, 9))]
      else:
        words = [s.pick(c24.KW + c24.FLAGS + ["a", "bb", '"c"', "PROPERTIES", "PUBLIC", "very_long_argument_name_to_wrap"]) for _ in range(s.i(0, 9))]
      text += "%s(%s)\n" % (name, " ".join(words))
  else:
    g = gen.Gen(s, gen.Prof(stmts=(1, 2), max_depth=2, onoff=5, pragma=5))
    text = g.listfile()
  if s.p(20):
    text = text.replace("\n", "\r\n")
  return text


def gen_case(s):
  cfgs = [gen_cfg(s) for _ in range(s.i(1, 3))]
  texts = [gen_text(s) for _ in range(s.i(1, 3))]
  ops = []
  for _ in range(s.i(2, 7)):
    ops.append([s.w((6, "format"), (4, "lint"), (1, "parse"), (1, "layout"), (1, "lex"), (1, "parsedb"), (1, "annotate")),
                s.i(0, len(texts) - 1), s.i(0, len(cfgs) - 1)])
  return {"cfgs": cfgs, "texts": texts, "ops": ops, "shared": s.p(60)}


def lint_ctx(cfg, gctx=None):
  from cmakelang.lint import lint_util
  return lint_util.GlobalContext(io.StringIO())


def perform(case, which):
  """-> [[kind, result]] in this process (a child)"""
  from cmakelang import annotate
  from cmakelang.lint import __main__ as lmain
  shared = {}
  gctx = lint_ctx(None)
  out = []
  for n in which:
    kind, t, c = case["ops"][n]
    text = case["texts"][t]
    try:
      if case["shared"]:
        if c not in shared:
          shared[c] = sut.mkconfig(case["cfgs"][c])
        cfg = shared[c]
      else:
        cfg = sut.mkconfig(case["cfgs"][c])
      before = describe(cfg)
      if kind == "lint":
        ctx = gctx.get_file_ctx("%d.cmake" % n, cfg)
        lmain.process_file(cfg, ctx, text)
        res = [repr(r) for r in ctx.get_lint()]
      elif kind == "annotate":
        f = io.StringIO()
        annotate.annotate_file(cfg, io.StringIO(text), f, "stub")
        res = f.getvalue()
      else:
        res = list(sut.fmain.process_file(cfg, text, None if kind == "format" else kind))
      if describe(cfg) != before:
        res = ["the configuration was changed", before, describe(cfg)]
    except Exception as ex:  # pylint: disable=broad-except
      res = ["error", type(ex).__name__, str(getattr(ex, "msg", None) or ex)[:300]]
    out.append([kind, res])
  return out


def describe(cfg):
  """all that is reachable from the configuration, as text"""
  seen = {}

  def walk(x, depth):
    if isinstance(x, (str, int, float, bool, bytes, type(None))):
      return repr(x)
    if id(x) in seen:
      return "<seen %d>" % seen[id(x)]
    seen[id(x)] = len(seen)
    if depth > 12:
      return "..."
    if isinstance(x, dict):
      return "{%s}" % ", ".join("%s: %s" % (walk(k, depth + 1), walk(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
      return "[%s]" % ", ".join(walk(v, depth + 1) for v in x)
    if isinstance(x, (set, frozenset)):
      return "{%s}" % ", ".join(sorted(walk(v, depth + 1) for v in x))
    if hasattr(x, "__dict__") and type(x).__module__.startswith("cmakelang"):
      return "%s(%s)" % (type(x).__name__, walk(vars(x), depth + 1))
    if hasattr(x, "pattern"):
      return repr(x.pattern)
    return type(x).__name__

  return walk(cfg, 0)


def in_child(fn):
  r, w = os.pipe()
  sys.stdout.flush()
  sys.stderr.flush()
  pid = os.fork()
  if pid == 0:
    try:
      signal.setitimer(signal.ITIMER_VIRTUAL, 0)
      os.close(r)
      nul = os.open(os.devnull, os.O_WRONLY)
      os.dup2(nul, 1)
      os.dup2(nul, 2)
      data = json.dumps(fn()).encode("utf-8", "surrogatepass")
      with os.fdopen(w, "wb") as f:
        f.write(data)
    finally:
      os._exit(0)
  os.close(w)
  with os.fdopen(r, "rb") as f:
    data = f.read()
  os.waitpid(pid, 0)
  if not data:
    raise Violation("the process died")
  return json.loads(data.decode("utf-8", "surrogatepass"))


def oracle(case, rec):
  ops = case["ops"]
  together = in_child(lambda: perform(case, range(len(ops))))
  alone = {}
  for n, op in enumerate(ops):
    key = json.dumps(op)
    if key not in alone:
      alone[key] = in_child(lambda: perform(case, [n]))[0]
    if alone[key] != together[n]:
      raise Violation("operation %d %r gives another result after %r\nalone:  %r\nafter:  %r\n%s" % (
          n, op, ops[:n], short(alone[key], together[n]), short(together[n], alone[key]), case["texts"][op[1]][:1500]))
    if together[n][1] and together[n][1][0] == "the configuration was changed":
      raise Violation("the configuration was changed by %r:\n%r" % (op, together[n][1][1:]))
  rec.label(*[k for k, _ in together])
  if any(r and r[0] == "error" for _, r in together):
    rec.label("error")
  used = {c for _, _, c in ops}
  rec.nontrivial(len(used) > 1 and len(ops) > 3 and any(
      "parse" in case["cfgs"][c] or case["cfgs"][c].get("format", {}).get("line_ending") == "auto" for c in used))


def short(a, b):
  a, b = json.dumps(a), json.dumps(b)
  k = 0
  while k < min(len(a), len(b)) and a[k] == b[k]:
    k += 1
  return a[max(0, k - 100):k + 200]


# ------------------------------------------------- hash seeds and locales
ENVS = [{"PYTHONHASHSEED": "0"}, {"PYTHONHASHSEED": "1", "LANG": "C", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"},
        {"PYTHONHASHSEED": "4242", "TZ": "Asia/Tokyo", "COLUMNS": "20"}]


def gen_env(s):
  return {"text": gen_text(s), "cfg": gen_cfg(s), "tool": s.w((3, "cmake-format"), (2, "cmake-lint"), (1, "cmake-annotate"))}


def oracle_env(case, rec):
  with cli.Dir() as d:
    d.put("CMakeLists.txt", case["text"])
    d.put(".cmake-format.json", json.dumps(case["cfg"]))
    seen = []
    for env in ENVS:
      res = cli.run_process(case["tool"], ["CMakeLists.txt"], cwd=d.path, env=env)
      seen.append((res.rc, res.out))
    if len(set(seen)) != 1:
      raise Violation("%s depends on the hash seed or locale:\n%r" % (case["tool"], seen))
  rec.label(case["tool"], "rc%d" % seen[0][0])
  rec.nontrivial(seen[0][0] == 0 or case["tool"] == "cmake-lint")


SUBS = [Sub("history", gen_case, oracle, 900, 20000, 60),
        Sub("environment", gen_env, oracle_env, 48, 600, 6)]
