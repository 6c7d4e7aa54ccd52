"""C07 line width is respected, and reported truthfully when it is not"""
from vf import cli, gen, large, sut
from vf.checks.common import cmds, ref_parse_input, regions
from vf.engine import Sub, Violation

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles and widths, oracle: measured line widths against the reported validity, "
             "one-line form of plain statements, exit status and output of runs with require_valid_layout")
LEVEL_NOTE = "Random exploration over listfiles, widths and wrapping options."
RULE = ("A case is a generated listfile and configuration; non-trivial when the text changed and its longest statement "
        "is wider than the line width, or (one-line form) within 6 columns of it.")
ASSUMPTIONS = []


def body(out, cfg):
  out = out.replace("\r\n", "\n")
  if cfg.get("encode", {}).get("emit_byteorder_mark"):
    out = out[1:]
  return out


def oracle_width(case, rec):
  text, cfg = case["text"], case["cfg"]
  pin = ref_parse_input(text)
  out, ok = sut.fmt(text, cfg)
  out = body(out, cfg)
  width = cfg.get("format", {}).get("line_width", 80)
  tab = cfg.get("format", {}).get("tab_size", 2) if cfg.get("format", {}).get("use_tabchars") else 1
  wide = [l for l in out.split("\n") if len(l) > width]
  if ok and wide:
    raise Violation("valid layout reported, but a line of %d columns is wider than %d: %r\n%s" % (
        len(wide[0]), width, wide[0][:200], out[:1500]))
  rec.nontrivial(out != text and any(len(e.name) + 2 + sum(len(a) + 1 for _, a in e.args) > width for e in cmds(pin)))
  rec.label("valid" if ok else "invalid", "wide_lines" if wide else "no_wide_lines")


def gen_width(s):
  c = gen.config(s, exclude=("autosort", "use_tabchars", "line_width"))
  c.setdefault("format", {})["line_width"] = s.w((4, s.i(30, 90)), (2, s.i(12, 30)), (2, s.i(90, 160)))
  g = gen.Gen(s, gen.Prof(stmts=(1, 2), max_depth=2, comments=20, argcomments=6, trailing=8))
  text = g.listfile()
  if s.p(15):
    # a line in the middle of a literal which is wider than everything else
    lines = ["a", "x" * (c["format"]["line_width"] + s.i(-12, 20)), "b"][s.i(0, 1):]
    ml = "\n".join(lines)
    text += "\n" + s.pick(["#[[%s]]", "foo(a #[[%s]]\n b)", "set(A \"%s\" b)", "if(A)\n#[==[%s]==]\nendif()", "foo([[%s]])"]) % ml + "\n"
  return {"text": text, "cfg": c}


def oracle_oneline(case, rec):
  text, cfg = case["text"], case["cfg"]
  f = cfg["format"]
  width = f.get("line_width", 80)
  out, ok = sut.fmt(text, cfg)
  want = case["want"]
  lines = body(out, cfg).split("\n")
  for line, n in want:
    fits = len(line) <= width and n <= f.get("max_pargs_hwrap", 6)
    if fits and line not in lines:
      raise Violation("statement fits on one line (%d of %d columns) but is not written so: %r\n%s" % (
          len(line), width, line, out[:1500]))
    if len(line) > width and line in lines and ok:
      raise Violation("statement of %d columns on one line, width %d: %r" % (len(line), width, line))
  rec.nontrivial(any(abs(len(line) - width) <= 6 for line, n in want))
  rec.label("fits" if all(len(l) <= width for l, n in want) else "wraps")


def gen_oneline(s):
  import json
  g = gen.Gen(s, gen.Prof(multiline=0, tabs=False))
  f = {}
  if s.p(40):
    f["max_pargs_hwrap"] = s.i(2, 12)
  if s.p(20):
    f["dangle_parens"] = True
  if s.p(20):
    f["tab_size"] = s.i(1, 6)
  if s.p(20):
    f["separate_fn_name_with_space"] = True
  if s.p(15):
    f["min_prefix_chars"] = s.i(0, 12)
  if s.p(15):
    f["max_prefix_chars"] = s.i(0, 30)
  if s.p(15):
    f["max_lines_hwrap"] = s.i(1, 5)
  tab = f.get("tab_size", 2)
  depth = s.i(0, 2)
  lines, want = [], []
  for k in range(depth):
    lines.append("if(A)")
  for _ in range(s.i(1, 2)):
    name = s.pick(["my_func", "x", "do_something_very_special", "foo"])
    n = s.many(0, f.get("max_pargs_hwrap", 6), 80)
    args = [s.w((5, g.unquoted), (2, g.quoted))() for _ in range(n)]
    lines.append(name + "(" + s.pick([" ", "\n", ""]) + s.pick(["  ", "\n", " "]).join(args) + s.pick(["", " ", "\n"]) + ")")
    want.append([" " * (tab * depth) + name + (" (" if f.get("separate_fn_name_with_space") else "(") + " ".join(args) + ")", n])
  for k in range(depth):
    lines.append("endif()")
  w = max(len(x[0]) for x in want) + s.w((3, 0), (2, -1), (1, s.i(-8, 8)))
  f["line_width"] = max(w, 15)
  return {"text": "\n".join(lines) + "\n", "cfg": {"format": f}, "want": want}


def oracle_require(case, rec):
  import json
  text, cfg = case["text"], case["cfg"]
  ref_parse_input(text)
  out, ok = sut.fmt(text, cfg)
  cfg2 = dict(cfg, format=dict(cfg.get("format", {}), require_valid_layout=True))
  with cli.Dir() as d:
    src = d.put("CMakeLists.txt", text)
    conf = d.put("c.json", json.dumps(cfg2))
    mode = case["mode"]
    argv = {"stdout": [src], "inplace": ["-i", src], "outfile": ["-o", d.p("out"), src], "check": ["--check", src]}[mode]
    r = cli.run("cmake-format", argv + ["-c", conf])
    files = d.files()
    now = files["CMakeLists.txt"][0].decode("utf-8")
    extra = set(files) - {"CMakeLists.txt", "c.json", "out"}
    if extra:
      raise Violation("files left behind: %s" % sorted(extra))
    if not ok:
      if r.rc in (0, None):
        raise Violation("exit status %s for an invalid layout with require_valid_layout" % r.rc)
      if r.out or now != text or "out" in files:
        raise Violation("output written although the layout is invalid and require_valid_layout is set (%s)" % mode)
    else:
      if mode == "check":
        if r.rc != (0 if out == text else 1):
          raise Violation("--check: exit status %s" % r.rc)
      elif r.rc != 0:
        raise Violation("exit status %s for a valid layout: %r" % (r.rc, r.err[-300:]))
      got = {"stdout": r.out.decode("utf-8"), "inplace": now, "check": out,
             "outfile": files["out"][0].decode("utf-8") if "out" in files else None}[mode]
      if got != out:
        raise Violation("valid layout, but the output (%s) is not the formatted text" % mode)
  rec.nontrivial(not ok)
  rec.label("invalid" if not ok else "valid", mode)


def gen_require(s):
  case = gen_width(s)
  case["cfg"].get("encode", {}).pop("emit_byteorder_mark", None)
  case["mode"] = s.pick(["stdout", "inplace", "outfile", "check"])
  return case


SUBS = [Sub("large", large.gen_large, oracle_width, 200, 5000, 40),
        Sub("width", gen_width, oracle_width, 1600, 40000, 150),
        Sub("oneline", gen_oneline, oracle_oneline, 1200, 20000, 150),
        Sub("require", gen_require, oracle_require, 200, 4000, 25)]
