"""C04 regions between format off and on are copied byte for byte"""
import re

from vf import cmref, gen, sut
from vf.checks import c01
from vf.checks.common import ref_parse, ref_parse_input
from vf.engine import Sub, Violation

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles with protected regions, oracle: region texts cut out by an independent "
             "scanner, and badly spaced marker statements around the regions that must come out formatted")
LEVEL_NOTE = ("Random exploration. Region contents are well formed CMake (the formatter tokenises them as well); any "
              "white space, comments, line endings and unicode occur in them.")
RULE = ("A case is a generated listfile with protected regions and a configuration; non-trivial when a region holds "
        "text that is not only white space and the text outside of the regions changed.")
ASSUMPTIONS = []

TAG = re.compile(r"#\s*(cmake-format|cmf): (off|on)")
MARK = re.compile(r"^\ufeff?[ \t]*(mark_\d+)")


def regions(text):
  """[(begin, end)] of the protected bytes"""
  out = []
  start = None
  for t in cmref.scan(text):
    if t.type != "lc":
      continue
    m = TAG.match(t.text)
    if not m:
      continue
    if m.group(2) == "off" and start is None:
      start = t.pos + len(t.text.rstrip("\r"))
    elif m.group(2) == "on" and start is not None:
      out.append((start, t.pos))
      start = None
  if start is not None:
    out.append((start, len(text)))
  return out


def cut(text):
  rs = regions(text)
  inside = [text[a:b] for a, b in rs]
  outside = []
  pos = 0
  for a, b in rs:
    outside.append(text[pos:a])
    pos = b
  outside.append(text[pos:])
  return inside, outside


def oracle(case, rec):
  text, cfg = case["text"], case["cfg"]
  pin = ref_parse_input(text)
  out, _ = sut.fmt(text, cfg)
  endl = {"windows": "\r\n"}.get(cfg.get("format", {}).get("line_ending"), "\n")
  inside, outside = cut(text)
  ref_parse(out, "the formatted text")
  oinside, ooutside = cut(out)
  if len(inside) != len(oinside):
    raise Violation("%d protected regions before, %d after\n%s" % (len(inside), len(oinside), out[:2000]))
  for k, (a, b) in enumerate(zip(inside, oinside)):
    if a == b:
      continue
    # the end of the file after an unterminated region gets a final newline
    if k == len(inside) - 1 and len(outside[-1]) == 0 and not a.endswith("\n") and b in (a + "\n", a + "\r\n"):
      continue
    raise Violation("region %d differs\nbefore: %r\nafter:  %r" % (k, a[:600], b[:600]))
  c01.compare(text, out, cfg, pin)
  # statements outside are formatted
  marks = {}
  for part in ooutside:
    for line in part.replace("\r\n", "\n").split("\n"):
      m = MARK.match(line)
      if m:
        marks[m.group(1)] = line.lstrip("\ufeff").strip()
  for part in outside:
    for name in re.findall(r"mark_\d+", part):
      want = "%s(a b)" % name
      if marks.get(name) != want:
        raise Violation("a statement outside of the protected regions was not formatted: %r instead of %r\n%s" % (
            marks.get(name), want, out[:2000]))
  rec.nontrivial(any(r.strip() for r in inside) and outside != ooutside)
  rec.label("regions_%d" % min(len(inside), 3))
  if inside and not outside[-1]:
    rec.label("unterminated")
  if "\r" in text:
    rec.label("crlf")
  if any(any(ord(c) > 127 for c in o) for o in outside):
    rec.label("non_ascii_before_region")


def cfg_of(s):
  c = gen.config(s, exclude=("autosort", "always_wrap", "separate_fn_name_with_space", "line_width", "max_pargs_hwrap", "max_subgroups_hwrap",
                             "max_rows_cmdline", "max_lines_hwrap", "literal_comment_pattern", "first_comment_is_literal",
                             "command_case"))
  c.setdefault("format", {})["line_width"] = s.w((5, 80), (2, 60), (1, 120))
  return c


def marker(g, k, depth):
  s = g.s
  return g.indent(depth) + "mark_%d(%sa%sb%s)" % (k, s.pick(["", " ", "\n", "\t"]), s.pick(["  ", "\t", "\n"]), s.pick(["", "  ", "\n"]))


def region(g, depth, nested=True):
  s = g.s
  lines = g.onoff_region(depth)
  if s.p(20):
    # an on tag that is not the first thing in its line, or a doubled off
    k = s.i(0, 1)
    if k and nested:
      lines.insert(1, g.indent(depth) + "# cmake-format: off")
    else:
      lines.insert(len(lines) - 1, s.pick(["", "   "]))
  return lines


def gen_scope(s):
  cfg = cfg_of(s)
  g = gen.Gen(s, gen.Prof(stmts=(1, 2), max_depth=1, comments=20, trailing=4, argcomments=2, sort_tags=0, multiline=10))
  g.messy = True
  lines = []
  k = 0
  for _ in range(s.i(1, 3)):
    kind = s.w((4, "flat"), (2, "block"), (1, "body"))
    if kind == "body":
      lines += g.body(0, 0, 2)
      continue
    depth = 0
    if kind == "block":
      depth = 1
      lines.append(s.pick(["if(a)", "foreach(x a b)", "function( f )", "while( x )"]))
      opener = lines[-1].split("(")[0]
    if s.p(60):
      lines.append(marker(g, k, depth))
      k += 1
    lines += region(g, depth)
    if s.p(60):
      lines += [""] * s.i(0, 2)
      lines.append(marker(g, k, depth))
      k += 1
    if kind == "block":
      lines.append("end%s()" % opener)
  if s.p(15):
    lines += region(g, 0)[:-1]
  text = "\n".join(lines) + s.w((5, "\n"), (1, ""), (1, "\n\n"))
  if s.p(20):
    text = text.replace("\n", "\r\n")
  if s.p(10):
    text = "\ufeff" + text
  return {"text": text, "cfg": cfg}


def gen_stmt(s):
  """regions inside of argument lists"""
  cfg = cfg_of(s)
  g = gen.Gen(s, gen.Prof(comments=0, trailing=0, argcomments=0, sort_tags=0, nested_parens=0))
  g.messy = False
  name = s.pick(["set", "foo", "add_library", "target_link_libraries", "set_target_properties", "add_custom_command", "install", "list"])
  args = [a for a in g.args_for(name) if a not in "()"]
  lo = s.i(0, len(args))
  hi = s.i(lo, len(args))
  ws = lambda: s.pick([" ", "\n", "   ", "\t", "\n\n  "])
  inner = "".join(ws() + a for a in args[lo:hi])
  if s.p(30):
    inner += "\n# kept  as   is"
  text = name + "(" + " ".join(args[:lo]) + s.pick([" ", "\n", "\n  "]) + "# cmake-format: off\n" + inner.lstrip("\n") + \
      "\n" + s.pick(["", "    "]) + "# cmake-format: on\n" + " ".join(args[hi:]) + ")\nmark_0( a  b )\n"
  return {"text": text, "cfg": cfg}


def gen_decoy(s):
  """tags inside of strings, brackets and bracket comments are no tags"""
  cfg = cfg_of(s)
  tag = s.pick(["# cmake-format: off", "# cmf: off", "#cmake-format: off"])
  decoy = s.w((2, lambda: 'set(x "%s")' % tag), (2, lambda: "set(x [[%s]])" % tag), (2, lambda: "#[[%s]]" % tag),
              (1, lambda: 'set(x "a\n%s\n")' % tag), (1, lambda: "#[=[\n%s\n]=]" % tag), (1, lambda: "# %s" % tag[1:].replace("format: off", "formatting: off")),
              (1, lambda: "# not " + tag[1:].strip()))()
  g = gen.Gen(s, gen.Prof(comments=10, trailing=0, argcomments=0, sort_tags=0))
  g.messy = True
  lines = g.body(0, 0, 1) + ["", decoy, "", marker(g, 0, 0)] + g.body(0, 0, 1)
  if s.p(40):
    lines += region(g, 0) + [marker(g, 1, 0)]
  return {"text": "\n".join(lines) + "\n", "cfg": cfg}


SUBS = [Sub("scope", gen_scope, oracle, 1200, 40000, 150),
        Sub("argument", gen_stmt, oracle, 600, 20000, 150),
        Sub("decoy", gen_decoy, oracle, 300, 10000, 150)]
