"""C06 formatted text has clean white space"""
import re

from vf import cmref, gen, large, sut
from vf.checks.common import free_lines, ref_parse, ref_parse_input, regions
from vf.engine import Sub, Violation

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles with irregular white space, oracle: line invariants on the output and the "
             "blank lines of the input as model of those of the output")
LEVEL_NOTE = ("Random exploration. Multi-line literals and protected regions are exempt, as stated. An empty block body "
              "is written as one blank line (observed behaviour, pinned by the existing tests).")
RULE = ("A case is a generated listfile and configuration; non-trivial when the input has trailing blanks, tabs or more "
        "than one blank line in a row.")
ASSUMPTIONS = []


def vertical(prog):
  """[item or blank]: statements, runs of comments, blanks"""
  out = []
  for e in prog:
    if e.kind == "blank":
      out.append("blank")
    elif e.kind == "com":
      if e.trails is not None:
        continue
      if e.type == "bc":
        out.append("#[[")
      elif not out or out[-1] != "#":
        out.append("#")
    elif e.kind == "at":
      out.append(e.text)
    else:
      low = e.name.lower()
      if (low in cmref.CLOSE or low in cmref.MID) and out and is_open(out[-1]):
        out.append("blank")       # an empty body
      elif (low in cmref.CLOSE or low in cmref.MID) and len(out) > 1 and out[-1] == "blank" and is_open(out[-2]):
        pass
      out.append(low)
  return out


def horizontal(out):
  """between the tokens of a line"""
  skip = regions(out)
  prev = gap = None
  depth = 0
  for t in cmref.scan(out):
    if t.type == "nl":
      prev = None
    elif t.type == "sp":
      gap = t.text
    else:
      if prev is not None and not any(a <= t.pos <= b for a, b in skip):
        if t.type == "lp" and depth == 0:
          ok = gap in ("", " ")
        elif prev.type == "lp" or t.type == "rp":
          ok = gap == ""
        else:
          # arguments which are not separated are kept so
          ok = gap in (" ", "")
        if not ok:
          raise Violation("%r between %r and %r in line %d" % (gap, prev.text[-60:], t.text[:60], t.line))
      depth += (t.type == "lp") - (t.type == "rp")
      prev, gap = t, ""


def is_open(item):
  return item in cmref.OPEN or item in cmref.MID


def oracle(case, rec):
  text, cfg = case["text"], case["cfg"]
  pin = ref_parse_input(text)
  tabs = cfg.get("format", {}).get("use_tabchars")
  out, _ = sut.fmt(text, cfg)
  out = out.replace("\r\n", "\n")
  if cfg.get("encode", {}).get("emit_byteorder_mark"):
    out = out[1:]
  pout = ref_parse(out, "the formatted text")
  lines = free_lines(out)
  # arguments that end with an escaped space
  ends = set((t.line, t.col + len(t.text)) for t in cmref.scan(out) if t.type == "unq" and t.text[-1:] in " \t")
  # the lines of a bracket comment have no trailing white space either
  skip = regions(out)
  soft = [(t.pos, t.pos + len(t.text)) for t in cmref.scan(out) if t.type == "bc" and "\n" in t.text
          and not any(a <= t.pos <= b for a, b in skip)]
  pos = 0
  for n, line, a, b in lines:
    end = (n + 1, len(line))
    pos += len(line) + 1
    if line != line.rstrip(" \t\f\v") and any(x < pos - 1 < y for x, y in soft):
      raise Violation("line %d, in a bracket comment, ends in white space: %r" % (n + 1, line[-80:]))
    if not b and line != line.rstrip(" \t") and end not in ends:
      raise Violation("line %d ends in white space: %r" % (n + 1, line[-80:]))
    if not a and not tabs and re.match(r"[ ]*\t", line):
      raise Violation("tab in the indentation of line %d: %r" % (n + 1, line[:80]))
    if not a and tabs and re.match(r"\t* +\t", line):
      raise Violation("tab after space in the indentation of line %d: %r" % (n + 1, line[:80]))
  horizontal(out)
  if pin:
    if out.startswith("\n"):
      raise Violation("the output starts with a blank line: %r" % out[:80])
    if not out.endswith("\n") or out.endswith("\n\n"):
      raise Violation("the output ends with %r" % out[-20:])
  elif out.strip():
    raise Violation("text from nothing: %r" % out)
  blank = [not line and not a for n, line, a, b in lines]
  for k in range(len(blank) - 2):
    if blank[k] and blank[k + 1]:
      raise Violation("two blank lines in a row at line %d\n%s" % (k + 1, out[:1500]))
  if case["vertical"]:
    va, vb = vertical(pin), vertical(pout)
    if va != vb:
      raise Violation("blank lines differ\nbefore: %s\nafter:  %s\n%s" % (va, vb, out[:1500]))
  rec.nontrivial(bool(re.search(r"[ \t]\n|\t|\n\n\n", text)) and bool(pin))
  if re.search(r"\n\s*\n\s*\n", text):
    rec.label("many_blank_lines")
  if "blank" in vertical(pin):
    rec.label("blank_line")
  if tabs:
    rec.label("use_tabchars")
  if any(b for n, l, a, b in lines):
    rec.label("multi_line_literal")


def gen_any(s):
  c = gen.config(s, rare=25, exclude=("autosort",))
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, comments=40, argcomments=10, trailing=15, onoff=2, multiline=10))
  text = g.listfile()
  if s.p(15):
    text = "\n" * s.i(1, 3) + text
  skip = regions(text)
  for t in reversed(cmref.scan(text) if s.p(40) else []):
    # white space at the end of the lines of comments
    if any(a <= t.pos <= b for a, b in skip):
      continue
    if t.type == "bc" and "\n" in t.text and s.p(50):
      ws = s.pick([" ", "\t", "\f", "\v", " \f", "\v ", "\f\v", "\t\f"])
      text = text[:t.pos] + t.text.replace("\n", ws + "\n") + text[t.pos + len(t.text):]
    elif t.type == "lc" and s.p(15):
      text = text[:t.pos + len(t.text)] + s.pick(["\f", "\v", " \f", "\v "]) + text[t.pos + len(t.text):]
  return {"text": text, "cfg": c, "vertical": False}


def gen_vertical(s):
  """Blank lines: comments on lines of their own, no comments after statements."""
  c = gen.config(s, rare=25, exclude=("autosort", "enable_markup"))
  g = gen.Gen(s, gen.Prof(stmts=(1, 5), max_depth=3, blocks=45, comments=40, argcomments=0, trailing=0, markup=0,
                          safe_prose=True, commands=["set", "message", "foo"]))
  g.messy = True
  return {"text": g.listfile(), "cfg": c, "vertical": True}


def gen_large(s):
  return dict(large.gen_large(s), vertical=False)


SUBS = [Sub("large", gen_large, oracle, 200, 5000, 40),
        Sub("any", gen_any, oracle, 1600, 40000, 150),
        Sub("vertical", gen_vertical, oracle, 800, 20000, 150)]
