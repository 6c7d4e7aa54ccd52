"""C12 literal comments stay literal"""
from vf import cmref, gen, sut
from vf.checks.common import ref_parse, ref_parse_input
from vf.engine import Sub, Violation

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated comment blocks of lines that markup would change, under every mechanism that makes them literal; the "
             "exact formatted text is predicted from the case (differential against a construction), and for arbitrary listfiles the "
             "sequence of comment texts with markup switched off must not change")
LEVEL_NOTE = ("Random exploration. Fenced lines have no info string, no second leading hash character and no fence of their own; comments "
              "do not begin with an explicit trailing marker.")
RULE = ("A case is a listfile with literal comments; non-trivial when a literal comment holds a line that markup would change "
        "(list, ruler, extra hash characters, indentation, longer than the line) and has at least two lines.")
ASSUMPTIONS = []

WORDS = ["foo", "the", u"\u00e9t\u00e9", "ends.", "(x)", "${var}", "a-b", "https://example.org/a#b", "-", "*", "1.", "TODO(me):", "\\n", '"',
         "set(a", ")", "[[x]]", u"\u4e2d\u6587", "very_long_identifier_name_that_takes_space", "cmake"]


def prose(s, lo, hi):
  return s.pick([" ", "  ", " ", "   "]).join(s.pick(WORDS) for _ in range(s.i(lo, hi)))


def nasty(s):
  """the text of a comment line after its hash character"""
  k = s.w((3, "prose"), (3, "bullet"), (2, "enum"), (2, "ruler"), (3, "hash"), (2, "empty"), (2, "long"), (2, "indent"), (1, "note"),
          (2, "bare"), (1, "tab"), (1, "bang"), (1, "table"))
  if k == "prose":
    t = " " + prose(s, 1, 6)
  elif k == "bullet":
    t = s.pick([" ", "   ", "     ", ""]) + s.pick("-*") + " " + prose(s, 1, 5)
  elif k == "enum":
    t = s.pick([" ", "  "]) + str(s.i(0, 12)) + s.pick(".:") + " " + prose(s, 1, 5)
  elif k == "ruler":
    c = s.pick("-=*+/")
    t = s.pick([" ", "", "  "]) + c * s.i(3, 90) + s.pick(["", " title " + c * s.i(3, 30)])
  elif k == "hash":
    t = "#" * s.i(1, 90) + s.pick(["", " " + prose(s, 1, 3), prose(s, 1, 2), " #"])
  elif k == "empty":
    t = s.pick(["", "", " ", "   "])
  elif k == "long":
    t = " " + prose(s, 12, 30)
  elif k == "indent":
    t = " " * s.i(2, 12) + prose(s, 1, 5)
  elif k == "note":
    t = " " + s.pick(["TODO(josh): ", "NOTE(a b):", "FIXME(x): "]) + prose(s, 0, 4)
  elif k == "bare":
    t = s.pick("abcXYZ.,;:") + prose(s, 1, 4)
  elif k == "tab":
    t = s.pick(["\t", " \t", " a\t"]) + prose(s, 1, 3)
  elif k == "bang":
    t = "!" + prose(s, 0, 3)
  else:
    t = " | " + "  | ".join(s.pick(WORDS) for _ in range(s.i(1, 4))) + " |"
  return t + s.pick(["", "", "", " ", "  ", "\t"])


def block(s, lo=1, hi=6):
  return [nasty(s) for _ in range(s.i(lo, hi))]


def gen_block(s):
  mech = s.w((4, "off"), (3, "first"), (2, "shebang"), (3, "pattern"), (4, "fence"), (3, "bracket"))
  cfg = {"format": {}, "markup": {}}
  if s.p(60):
    cfg["format"]["line_width"] = s.i(44, 110)
  if s.p(40):
    cfg["format"]["tab_size"] = s.pick([2, 4, 3, 8])
  m = cfg["markup"]
  if s.p(25):
    m["canonicalize_hashrulers"] = False
  if s.p(25):
    m["hashruler_min_length"] = s.pick([3, 5, 10, 20])
  if mech == "off":
    m["enable_markup"] = False
  elif mech == "first" or mech != "fence" and s.p(10):
    m["first_comment_is_literal"] = True
  if mech == "pattern":
    m["literal_comment_pattern"] = s.pick(["^ LIT", r"\s*LIT", " LIT|MUST", "^[^x]LIT.*"])

  if mech == "fence" and s.p(25):
    m["fence_pattern"] = s.pick([r"^\s*(:::+)(.*)$", r"^\s*:::+", r"^ *(:+)$()"])

  def literal():
    """a literal comment: list of lines after the hash character, or a bracket comment"""
    if mech == "pattern":
      return {"t": "lit", "lines": [" LIT" + s.pick(["", " x", ":", " - a"])] + block(s, 0, 5)}
    if mech == "fence":
      inner = []
      marks = "~`#:"
      for l in block(s, 1, 6):
        l = l if l.startswith(" ") or not l.strip() else " " + l
        inner.append(" " + l.lstrip(" " + marks) if l.lstrip(" ")[:1] in ("~", "`", ":") else l)
      f = s.pick([":::", "::::"] if "fence_pattern" in m else ["~~~", "```", "~~~~~", "````"])
      head = [" Short text."] + s.pick([[""], []]) if s.p(30) else []
      tail = [""] + [" More text."] if s.p(30) else []
      return {"t": "fence", "lines": inner, "fence": f, "head": head, "tail": tail}
    if mech == "bracket":
      eq = "=" * s.i(0, 2)
      return {"t": "bracket", "lines": [l.rstrip("]") if s.p(90) else l for l in block(s, 1, 6)], "eq": eq + "=="}
    return {"t": "lit", "lines": block(s)}

  def body(depth):
    out = []
    for _ in range(s.i(1, 3)):
      k = s.w((5, "c"), (3, "s"), (3 if depth < 3 else 0, "b"))
      if k == "c":
        out.append({"t": "near"} if s.p(15) else literal() if mech not in ("first", "shebang") else {"t": "plain"})
        out.append({"t": "blank"} if s.p(60) else s.pick([{"t": "stmt"}, {"t": "blank"}]))
      elif k == "s":
        out.append({"t": "stmt"})
        if s.p(40):
          out.append({"t": "blank"})
      else:
        out.append({"t": "if", "body": body(depth + 1)})
        if s.p(40):
          out.append({"t": "blank"})
    while out and out[-1]["t"] == "blank":
      out.pop()
    return out

  items = body(0)
  if mech in ("first", "shebang"):
    first = block(s, 1, 6)
    if mech == "shebang":
      first[0] = s.pick(["!/usr/bin/env cmake -P", "! x", "!" + "a" * s.i(1, 100)])
    items = [{"t": "lit", "lines": first}, s.pick([{"t": "stmt"}, {"t": "blank"}])] + items
  return {"mech": mech, "cfg": cfg, "items": items, "pads": [s.pick(["", " ", "   ", "\t"]) for _ in range(5)],
          "lead": s.pick([0, 0, 0, 1, 2]) if mech != "shebang" else 0, "crlf": s.p(15)}


def oracle_block(case, rec):
  tab = case["cfg"]["format"].get("tab_size", 2)
  pads = case["pads"]
  src, want = [], []
  n = [0]
  hit = [False]
  width = case["cfg"]["format"].get("line_width", 80)

  def pad():
    n[0] += 1
    return pads[n[0] % len(pads)]

  def comment(lines, ind, p=None):
    # comment lines at different columns are comments of their own
    p = pad() if p is None else p
    for l in lines:
      src.append((pad() if case["mech"] == "off" else p) + "#" + l)
      want.append(ind + "#" + l.rstrip())

  def walk(items, depth):
    ind = " " * (tab * depth)
    for it in items:
      t = it["t"]
      if t == "blank":
        if src and src[-1] != "":
          src.append("")
          want.append("")
      elif t == "stmt":
        n[0] += 1
        src.append(pad() + "foo(%d)" % n[0])
        want.append(ind + src[-1].strip())
      elif t == "plain":
        comment([" Short."], ind)
      elif t == "near":
        # reflowed: only a match at the start of the comment, and only the first comment of the file makes it literal
        p = pad()
        lines = [" ab", " LIT c", " !d"]
        literal = case["mech"] == "off" or case["cfg"]["markup"].get("first_comment_is_literal") and not any(src)
        src.extend((pad() if case["mech"] == "off" else p) + "#" + l for l in lines)
        want.extend([ind + "#" + l for l in lines] if literal else [ind + "# ab LIT c !d"])
      elif t == "if":
        src.append(pad() + "if(A)")
        want.append(ind + "if(A)")
        walk(it["body"], depth + 1)
        src.append(pad() + "endif()")
        want.append(ind + "endif()")
      elif t == "fence":
        p = pad()
        comment(it["head"], ind, p)
        src.append(p + "# " + it["fence"])
        want.append(ind + "# " + ("~~~" if "fence_pattern" not in case["cfg"]["markup"] else it["fence"]))
        comment(it["lines"], ind, p)
        src.append(p + "# " + it["fence"])
        want.append(ind + "# " + ("~~~" if "fence_pattern" not in case["cfg"]["markup"] else it["fence"]))
        comment(it["tail"], ind, p)
      elif t == "bracket":
        p = pad()
        ls = it["lines"]
        text = "#[%s[" % it["eq"] + "\n".join(ls) + "]%s]" % it["eq"]
        src.extend((p + text).split("\n"))
        want.extend(l.rstrip() for l in (ind + text).split("\n"))
      else:
        comment(it["lines"], ind)
      if t in ("lit", "fence", "bracket"):
        if len(it["lines"]) > 1 and any(l.startswith("#") or len(l) > width or l[:2] == "  " or l.strip()[:1] in tuple("-*=+|0123456789!")
                                        for l in it["lines"]):
          hit[0] = True

  walk(case["items"], 0)
  nl = "\r\n" if case["crlf"] else "\n"
  text = nl * case["lead"] + nl.join(src) + nl
  ref_parse_input(text)
  out, _ = sut.fmt(text, case["cfg"])
  got = out.split("\n")
  if got and got[-1] == "":
    got.pop()
  while got and got[0] == "":
    got.pop(0)
  exp = want
  if got != exp:
    for k in range(max(len(got), len(exp))):
      a = exp[k] if k < len(exp) else None
      b = got[k] if k < len(got) else None
      if a != b:
        raise Violation("literal comment (%s) changed, line %d: expected %r, got %r\n--- input\n%s\n--- output\n%s" % (
            case["mech"], k + 1, a, b, text[:1200], out[:1200]))
  rec.nontrivial(hit[0])
  rec.label(case["mech"])


def oracle_off(case, rec):
  """with markup switched off the texts of the comments don't change, wherever they are"""
  text, cfg = case["text"], case["cfg"]
  ref_parse_input(text)
  out, _ = sut.fmt(text, cfg)
  ref_parse(out, "the formatted text")

  def coms(t):
    return [k.text.rstrip() for k in cmref.scan(t) if k.type == "lc" and not tag(k.text)]
  a, b = coms(text), coms(out)
  if a != b:
    for k in range(max(len(a), len(b))):
      x = a[k] if k < len(a) else None
      y = b[k] if k < len(b) else None
      if x != y:
        raise Violation("with markup switched off comment %d changed from %r to %r\n--- input\n%s\n--- output\n%s" % (
            k, x, y, text[:1200], out[:1200]))
  rec.nontrivial(out != text and len(a) >= 3)


def tag(t):
  from vf.checks.common import TAG
  return TAG.match(t)


def gen_off(s):
  c = gen.config(s, rare=25, exclude=("autosort", "enable_markup"))
  c.setdefault("markup", {})["enable_markup"] = False
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, markup=50, comments=60, argcomments=20, trailing=30))
  return {"text": g.listfile(), "cfg": c}


SUBS = [Sub("block", gen_block, oracle_block, 2400, 60000, 200),
        Sub("off", gen_off, oracle_off, 1200, 30000, 200)]
