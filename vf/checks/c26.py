"""C26 the result does not depend on the white space of the input"""
from vf import cmref, gen, sut
from vf.checks.common import cmds, diff, ref_parse_input
from vf.engine import Skip, Sub, Violation

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles rendered twice with different white space (metamorphic): both renderings, and the formatted "
             "text rendered again, have to be formatted to the same text")
LEVEL_NOTE = ("Random exploration. White space is varied wherever it has no meaning: indentation, between arguments, around parentheses, at "
              "line ends, and the number of blank lines above one. Comments occur between statements only.")
RULE = "A case is a listfile, a list of white space choices and a configuration; non-trivial when the renderings differ and a command has two or more arguments."
ASSUMPTIONS = []
BETWEEN = [" ", "\n", "  ", "\n    ", "\t", " \n", "\n\n", "\n \n\t ", "        "]
EDGE = ["", " ", "\n", "\n  ", "  \n\n"]


def respace(text, choices):
  """text with other white space. Consumes from the list `choices` of numbers."""
  toks = cmref.scan(text)
  seq = list(choices)
  pos = [0]

  def pick(options):
    if not seq:
      return options[0]
    v = seq[pos[0] % len(seq)] + pos[0] // len(seq)
    pos[0] += 1
    return options[v % len(options)]

  # one choice for all of the comments: a column has the same number of tabs as it had spaces
  pick_comment = choices and choices[0] % 3 == 1
  out = []
  depth = 0
  k = 0
  n = len(toks)
  while k < n:
    t = toks[k]
    if t.type in ("sp", "nl"):
      run = []
      while k < n and toks[k].type in ("sp", "nl"):
        run.append(toks[k])
        k += 1
      nls = sum(x.type == "nl" for x in run)
      if depth:
        prev_lp = out and out[-1] == "("
        next_rp = k < n and toks[k].type == "rp"
        out.append(pick(EDGE if prev_lp or next_rp else BETWEEN))
      elif nls:
        if nls > 1:
          nls = pick([2, 3, 5])
        out.append("".join(pick(["\n", " \n"]) for _ in range(nls)) if k < n else "\n" * nls)
        if k < n:
          if toks[k].type in ("lc", "bc"):
            # the column of a comment tells which lines belong together
            indent = "".join(x.text for x in run).rsplit("\n", 1)[-1]
            out.append(indent.replace(" ", "\t") if pick_comment else indent)
          else:
            out.append(pick(["", "  ", "\t", "      "]))
      else:
        # between a name and its parenthesis, or after a statement
        if not out and k < n and toks[k].type in ("lc", "bc"):
          out.append(run[0].text)
        else:
          out.append(pick(["", " ", "   "]) if k < n and toks[k].type == "lp" else "")
      continue
    if t.type == "lp":
      depth += 1
      out.append("(")
      if k + 1 < n and toks[k + 1].type not in ("sp", "nl"):
        out.append(pick(EDGE))
        if out[-1] == "":
          out.pop()
      k += 1
      continue
    if t.type == "rp":
      if k and toks[k - 1].type not in ("sp", "nl", "lp"):
        out.append(pick(EDGE))
      depth -= 1
      out.append(")")
      if depth and k + 1 < n and toks[k + 1].type not in ("sp", "nl", "rp"):
        out.append(pick(BETWEEN))
      k += 1
      continue
    if depth and t.type in ("unq", "quo", "bra") and k and toks[k - 1].type in ("unq", "quo", "bra"):
      raise Skip("arguments without white space between them")
    out.append(t.text)
    k += 1
  return "".join(out)


def oracle(case, rec):
  text, cfg = case["text"], case["cfg"]
  pa = ref_parse_input(text)
  if any(c.comments or c.trailing for c in cmds(pa)):
    raise Skip("comments in statements")
  one = respace(text, case["ws"])
  pb = ref_parse_input(one)
  sig = lambda p: [(c.name, c.args) for c in cmds(p)]
  if sig(pa) != sig(pb):
    raise Skip("not the same commands")
  fa, oka = sut.fmt(text, cfg)
  fb, okb = sut.fmt(one, cfg)
  if fa != fb or oka != okb:
    raise Violation("two renderings of one listfile are formatted differently\n%s\n--- input\n%s\n--- other input\n%s" % (diff(fa, fb), text[:1500], one[:1500]))
  rec.nontrivial(one != text and any(len(c.args) > 1 for c in cmds(pa)))
  if not oka:
    rec.label("invalid_layout")
  if any(e.kind == "com" for e in pa):
    rec.label("comments")


def gen_case(s):
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, argcomments=0, trailing=0, sort_tags=0, onoff=0))
  return {"text": g.listfile(), "ws": [s.i(0, 8) for _ in range(s.i(1, 12))], "cfg": gen.config(s, rare=25)}


SUBS = [Sub("space", gen_case, oracle, 2000, 60000, 200)]
