"""C05 line endings follow the line_ending option uniformly"""
from vf import gen, sut
from vf.checks.common import diff, literal_spans, ref_parse_input, regions
from vf.engine import Sub, Violation

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles rendered with LF, CRLF or mixed endings, metamorphic relation between the "
             "line_ending settings and between the renderings of one input")
LEVEL_NOTE = "Random exploration. The text of protected regions is exempt (it is copied byte for byte, see C04)."
RULE = ("A case is a generated listfile, a rendering of its line endings and a configuration; non-trivial when the "
        "input holds CRLF or windows endings were asked for, and the text has a multi-line literal, a comment or a "
        "protected region.")
ASSUMPTIONS = []


def strip_regions(text):
  out, pos = [], 0
  for a, b in regions(text):
    out.append(text[pos:a])
    pos = b
  out.append(text[pos:])
  return "".join(out)


def with_ending(cfg, ending):
  c = dict(cfg)
  c["format"] = dict(c.get("format", {}), line_ending=ending)
  return c


def oracle(case, rec):
  text, cfg = case["text"], case["cfg"]
  lf = text
  ref_parse_input(lf)
  lines = lf.split("\n")
  style = case["style"]
  if style == "crlf":
    given = lf.replace("\n", "\r\n")
  elif style == "mixed":
    flips = case["flips"]
    given = ""
    for k, l in enumerate(lines):
      given += l
      if k + 1 < len(lines):
        given += "\r\n" if flips[k % len(flips)] else "\n"
  else:
    given = lf
  ncr = given.count("\r\n")
  nlf = given.count("\n") - ncr
  base = sut.fmt(lf, with_ending(cfg, "unix"))[0]
  has_regions = bool(regions(base))
  outs = {}
  for ending in ("unix", "windows", "auto"):
    out = sut.fmt(given, with_ending(cfg, ending))[0]
    outs[ending] = out
    body = strip_regions(out) if has_regions else out
    want = ending if ending != "auto" else "windows" if ncr > nlf else "unix"
    if want == "unix" and "\r" in body:
      raise Violation("carriage return with line_ending=%s: %r" % (ending, around(body, body.index("\r"))))
    if want == "windows":
      bare = body.replace("\r\n", "")
      if "\n" in bare or "\r" in bare:
        k = min(i for i in (bare.find("\n"), bare.find("\r")) if i >= 0)
        raise Violation("line ending is not CRLF with line_ending=%s, near %r" % (ending, around(bare, k)))
    same = body.replace("\r\n", "\n")
    ref = strip_regions(base) if has_regions else base
    if same != ref:
      raise Violation("line endings change more than line endings (input %s, line_ending=%s)\n%s" % (
          style, ending, diff(ref, same)))
    if not out.endswith("\r\n" if want == "windows" else "\n") and not has_regions:
      raise Violation("no final line ending")
  rec.nontrivial("#" in lf or any(True for _ in literal_spans(lf)))
  rec.label("input_" + style)
  if has_regions:
    rec.label("regions")
  if literal_spans(lf):
    rec.label("multi_line_literal")


def around(s, k):
  return s[max(0, k - 60):k + 40]


def gen_any(s):
  c = gen.config(s, rare=25, exclude=("autosort", "line_ending"))
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, multiline=18, onoff=6, comments=45, argcomments=12, trailing=15))
  return {"text": g.listfile(), "cfg": c, "style": s.w((4, "crlf"), (2, "mixed"), (2, "lf")),
          "flips": [s.p(50) for _ in range(5)]}


SUBS = [Sub("any", gen_any, oracle, 1000, 30000, 150)]
