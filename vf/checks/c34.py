"""C34 formatted files are clean for the format lints"""
from vf import gen, large, sut
from vf.checks.common import free_lines, ref_parse_input
from vf.checks.lintcommon import lint
from vf.engine import Sub, Violation

ID = "C34"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles and configurations; differential relation between the two tools: the formatted text, linted with "
             "the same configuration, has no finding about white space, line endings, line length, tabs or statement spacing")
LEVEL_NOTE = "Random exploration. Lines of multi-line literals and of protected regions are exempt."
RULE = ("A case is a listfile with a configuration; non-trivial when the input itself has at least one such finding (which formatting has to remove).")
ASSUMPTIONS = ["Line length (C0301) is expected only if cmake-format reports a valid layout.",
               "C0307 (indentation) is not included: it also looks at comments which are aligned with a trailing comment above.",
               "max_statement_spacing is at least 2 and min_statement_spacing 1, as a blank line of the input is kept."]

CODES = ("C0301", "C0303", "C0304", "C0305", "C0306", "C0321", "C0327")


def gen_any(s):
  c = gen.config(s, rare=25, exclude=("autosort", "line_ending"))
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, comments=35, argcomments=8, trailing=12, onoff=2, multiline=10,
                          kinds=dict(trail=6, explicit=2)))
  text = g.listfile()
  style = s.w((3, "lf"), (1, "crlf"))
  if style == "crlf":
    text = text.replace("\n", "\r\n")
  c.setdefault("format", {})["line_ending"] = s.pick(["unix", "windows", "auto"])
  lnt = {}
  if s.p(30):
    lnt["max_statement_spacing"] = s.i(2, 3)
  if lnt:
    c["lint"] = lnt
  return {"text": text, "cfg": c}


def gen_width(s):
  """long lines, valid layouts"""
  c = gen.config(s, rare=25, exclude=("autosort", "line_ending"), width=lambda: s.i(30, 80))
  g = gen.Gen(s, gen.Prof(stmts=(1, 4), max_depth=3, comments=10, argcomments=0, trailing=5, multiline=0, unicode=0))
  return {"text": g.listfile(), "cfg": c}


def oracle(case, rec):
  text, cfg = case["text"], case["cfg"]
  ref_parse_input(text.replace("\r\n", "\n"))
  out, ok = sut.fmt(text, cfg)
  exempt = {n + 1 for n, line, a, b in free_lines(out.replace("\r\n", "\n")) if a or b}
  found = [f for f in lint(out, cfg) if f[0] in CODES and f[1] not in exempt]
  # an escaped blank at the end of an argument
  lines = out.split("\n")
  found = [f for f in found if not (f[0] == "C0303" and f[1] and lines[f[1] - 1].rstrip("\r").rstrip(" \t").endswith("\\"))]
  if not ok:
    rec.label("invalid_layout")
    found = [f for f in found if f[0] != "C0301"]
  if found:
    line = out.split("\n")[(found[0][1] or 1) - 1]
    raise Violation("formatted text has findings: %r\n%r\n%s" % (found[:5], line, out[:2000]))
  had = {f[0] for f in lint(text, cfg) if f[0] in CODES}
  rec.label(*had)
  rec.nontrivial(bool(had))


SUBS = [Sub("large", large.gen_large, oracle, 200, 5000, 40),
        Sub("any", gen_any, oracle, 1500, 40000, 150),
        Sub("width", gen_width, oracle, 1000, 30000, 150)]
