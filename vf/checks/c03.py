"""C03 formatting is idempotent"""
from vf import gen, large, sut
from vf.checks import c13
from vf.checks.common import diff, ref_parse_input
from vf.engine import Sub, Violation

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = 'Hypothesis-generated listfiles and configurations, metamorphic relation format(format(x)) = format(x)'
LEVEL_NOTE = 'Random exploration over the generated domain; the placements of comments listed in DESIGN.md as known not to be idempotent are not generated.'
RULE = ("A case is a generated valid listfile with a generated configuration; it is non-trivial when the first "
        "formatting changed the text and the file holds at least one statement with arguments.")
ASSUMPTIONS = []


BASE = dict(markup=0, safe_prose=True, stmts=(1, 2), max_depth=1, aligned=True, sort_tags=0, onoff=5)


def gen_code(s):
  """Any code, comments at scope level only."""
  c = gen.config(s, rare=25, exclude=("autosort",))
  g = gen.Gen(s, gen.Prof(comments=20, argcomments=0, trailing=0, **BASE))
  return {"text": g.listfile(), "cfg": c}


def gen_comments(s):
  """Short comments after arguments and after statements."""
  c = gen.config(s, rare=25, exclude=("use_tabchars", "autosort"), width=lambda: s.i(70, 140))
  g = gen.Gen(s, gen.Prof(comments=20, argcomments=10, trailing=20, trailing_more=0, arg_words=2, unicode=3,
                          kinds=dict(trail=6, explicit=2, bracket=2), tail_comments=False, head_comments=False, **BASE))
  return {"text": g.listfile(), "cfg": c}


def oracle(case, rec):
  text, cfg = case["text"], case["cfg"]
  ref_parse_input(text)
  one, ok1 = sut.fmt(text, cfg)
  two, ok2 = sut.fmt(one, cfg)
  rec.nontrivial(one != text and "(" in text)
  if not ok1:
    rec.label("invalid_layout")
  if two != one:
    raise Violation("formatting the formatted text changes it again\n%s" % diff(one, two))


def gen_markup(s):
  """Comments made of markup items."""
  case = c13.gen_case(s)
  return {"text": c13.doc(case, c13.source(case), case["cfg"]["format"].get("tab_size", 2), case["pad"]), "cfg": case["cfg"]}


def gen_blocks(s):
  """Comment blocks of markup in any order, among statements"""
  c = gen.config(s, rare=25, exclude=("autosort",), width=lambda: s.i(60, 140))
  g = gen.Gen(s, gen.Prof(comments=60, argcomments=0, trailing=0, **dict(BASE, markup=70, sort_tags=10)))
  return {"text": g.listfile(), "cfg": c}


SUBS = [Sub("large", large.gen_large, oracle, 320, 8000, 40),
        Sub("code", gen_code, oracle, 1600, 40000, 200),
        Sub("markup", gen_markup, oracle, 1000, 20000, 200),
        Sub("blocks", gen_blocks, oracle, 1000, 20000, 200),
        Sub("comments", gen_comments, oracle, 800, 20000, 200)]
