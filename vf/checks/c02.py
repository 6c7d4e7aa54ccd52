"""C02 comments are never lost, duplicated, reordered or leaked into code"""
import re

from vf import cmref, gen, large, sut
from vf.checks.common import cmds, ref_parse, ref_parse_input
from vf.engine import Sub, Violation

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated comment placements, oracle: sequence of comment words with their place among "
             "commands and arguments, read by an independent reference reader")
LEVEL_NOTE = ("Random exploration of comment placements, texts and configurations. Markup punctuation (bullets, item "
              "numbers, rulers of hashes, fences) is not compared here but by C13.")
RULE = ("A case is a generated listfile with comments at generated places and a configuration; non-trivial when the "
        "text changed and it holds at least two comments, one of them inside or after a statement.")
ASSUMPTIONS = []

ONOFF = re.compile(r"#\s*(cmake-format|cmf): (on|off)")
DROP = re.compile(r"[-*]|\d+[.:]|#+|[~`]{3,}")


def words(kind, raw):
  if kind == "bc":
    return [("bracket", "\n".join(l.rstrip(" \t") for l in cmref.unix(raw).split("\n")))]
  m = ONOFF.match(raw)
  if m:
    return [("tag", m.group(2))] + [("word", w) for w in raw[m.end():].split()]
  text = raw.strip()
  # "<" opens an explicit trailing comment: "#< text"
  # a fence is put on a line of its own
  ws = [w.lstrip("<") for w in re.sub(r"^(\s*)[`~]{3,}", r"\1", text.lstrip("#")).split()]
  return [("word", w) for w in ws if w and not DROP.fullmatch(w)]


def sequence(prog, args=True):
  """[(commands begun, inside one, arguments before, kind, word)]"""
  out = []
  k = 0
  for e in prog:
    if e.kind in ("cmd", "at"):
      k += 1
    if e.kind == "cmd":
      for kind, raw, idx in e.comments:
        out += [(k, True, idx if args else 0) + w for w in words(kind, raw)]
    elif e.kind == "com":
      out += [(k, False, 0) + w for w in words(e.type, e.text)]
  return out


def compare(text, out, pin, args=True):
  pout = ref_parse(out, "the formatted text")
  a, b = sequence(pin, args), sequence(pout, args)
  if a != b:
    for k in range(max(len(a), len(b))):
      x = a[k] if k < len(a) else None
      y = b[k] if k < len(b) else None
      if x != y:
        raise Violation("comments differ: (statement, inside, argument, kind, word)\nbefore: %s\nafter:  %s\n%s" % (x, y, out[:1500]))
  return pout


def oracle(case, rec):
  text, cfg = case["text"], case["cfg"]
  pin = ref_parse_input(text)
  out, ok = sut.fmt(text, cfg)
  compare(text, out, pin)
  coms = [e for e in pin if e.kind == "com"]
  inner = sum(len(e.comments) for e in cmds(pin))
  rec.nontrivial(out != text and len(coms) + inner >= 2 and (inner or any(e.trails is not None for e in coms)))
  if inner:
    rec.label("inside_statement")
  if any(e.trails is not None for e in coms):
    rec.label("after_statement")
  if not text.endswith("\n"):
    rec.label("no_final_newline")


def gen_any(s):
  c = gen.config(s, rare=25, exclude=("fence_pattern", "autosort",))
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, markup=0, comments=55, argcomments=22, trailing=30, sort_tags=1, onoff=4))
  return {"text": g.listfile(), "cfg": c}


def gen_markup(s):
  c = gen.config(s, rare=25, exclude=("fence_pattern", "autosort",))
  g = gen.Gen(s, gen.Prof(stmts=(1, 2), max_depth=1, markup=80, comments=90, argcomments=5, trailing=10))
  return {"text": g.listfile(), "cfg": c}


def explicit_sequence(prog, pattern):
  """[(statement, inside, arguments before, word)] of explicit trailing comments; every comment must be one"""
  out = []
  k = 0
  for e in prog:
    if e.kind == "cmd":
      k += 1
      found = [(True, raw, idx) for _, raw, idx in e.comments]
    elif e.kind == "com":
      found = [(False, e.text, 0)]
    else:
      continue
    for inside, raw, idx in found:
      if not raw.startswith(pattern):
        raise Violation("%r is no explicit trailing comment (%s)" % (raw, pattern))
      out += [(k, inside, idx, w) for w in raw[len(pattern):].split()]
  return out


def oracle_explicit(case, rec):
  text, cfg = case["text"], case["cfg"]
  pattern = cfg["markup"]["explicit_trailing_pattern"]
  pin = ref_parse_input(text)
  out, ok = sut.fmt(text, cfg)
  want = explicit_sequence(pin, pattern)
  got = explicit_sequence(ref_parse(out, "the formatted text"), pattern)
  if want != got:
    k = next((k for k in range(min(len(want), len(got))) if want[k] != got[k]), min(len(want), len(got)))
    raise Violation("explicit trailing comments differ: (statement, inside, argument, word)\nbefore: %s\nafter:  %s\n%s" % (
        want[k:k + 1], got[k:k + 1], out[:1500]))
  rec.nontrivial(len(want) > 3 and out != text)
  rec.label("markup" if cfg["markup"].get("enable_markup", True) else "no_markup")


def gen_explicit(s):
  """statements whose comments are all explicit trailing ones of one or more lines"""
  c = gen.config(s, rare=15, exclude=("fence_pattern", "autosort", "explicit_trailing_pattern", "literal_comment_pattern"))
  pattern = s.w((4, "#<"), (1, "#>"), (1, "#|"), (1, "#<<"))
  c.setdefault("markup", {})["explicit_trailing_pattern"] = pattern
  count = [0]

  def note():
    lines = []
    for _ in range(s.w((4, 1), (2, 2), (1, 3))):
      words = []
      for _ in range(s.many(1, 8, 60)):
        count[0] += 1
        words.append("%s%d" % (s.pick(["word", "x", "longer_word_in_a_comment"]), count[0]))
      lines.append(pattern + " " + " ".join(words) + s.w((5, ""), (1, "  ")))
    return lines

  text = ""
  for _ in range(s.i(1, 3)):
    text += s.pick(["foo", "set", "add_custom_target", "message"]) + "(name"
    for k in range(s.many(0, 6, 75)):
      text += s.w((5, " "), (1, "\n  ")) + s.pick(["a", "bb", "${C}", "\"d e\"", "some/longer/path.cc"])
      if s.p(40):
        text += " " + s.pick(["\n", "\n    "]).join(note()) + "\n  "
    text += ")"
    if s.p(40):
      text += s.pick([" ", "  "]) + s.pick(["\n", "\n  "]).join(note())
    text += "\n" + s.pick(["", "\n"])
  return {"text": text, "cfg": c}


SUBS = [Sub("large", large.gen_large, oracle, 320, 8000, 40),
        Sub("explicit", gen_explicit, oracle_explicit, 500, 12000, 100),
        Sub("any", gen_any, oracle, 1600, 40000, 200),
        Sub("markup", gen_markup, oracle, 800, 20000, 200)]
