"""C13 comment markup keeps its structure"""
from vf import gen, sut
from vf.checks.common import ref_parse_input
from vf.engine import Sub, Violation

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = ("model-based: Hypothesis generates a sequence of markup items, renders it in varied spellings (line breaks, indentation, "
             "numbering, hash characters), and an independent renderer predicts the formatted comment exactly; formatting the result "
             "again must not change it")
LEVEL_NOTE = ("Random exploration. Words are free of markup of their own; lists have blank comment lines around them, as documented. The "
              "lines of enumerations may be wider by the width of their numbers (known finding).")
RULE = ("A case is a comment of one to seven items; non-trivial when it has two kinds of items, of which one is wrapped or is a list of "
        "two items, and formatting changes the text.")
ASSUMPTIONS = ["Blank comment lines delimit lists; a list that follows after a blank line is a list of its own, numbered from 1."]

WORDS = ["a", "foo", "the", "listfile", u"\u00e9t\u00e9", "ends.", "(see", "${var}", "a-b", "https://example.org/abc", "e.g.", "note",
         "set(a", "b)", "very_long_identifier_name_that_takes_space", "x=y", "'s", "C++", "\"q\"", "`code`", "and/or", "10", "I", "#5",
         "non-breaking-hyphens-stay", "<tag>", "of", "in", "we", "should", u"\u4e2d\u6587", "@param", "100%", "such:", "aside;", "first,", "really?", "done!",
         "etc...", "note:", "\\", "a:", "(x).", "#", "//"]
# fit to begin a line (no markup)
BEGIN = [w for w in WORDS if w[0].isalpha() and not w.startswith("cmake")]


def words(s, lo=1, hi=None):
  n = s.i(lo, hi or s.pick([3, 8, 30]))
  return [s.pick(BEGIN)] + [s.pick(WORDS) for _ in range(n - 1)]


def chunks(s, ws):
  """source lines for the words"""
  out = [[ws[0]]]
  p = s.pick([0, 5, 20, 60])
  for w in ws[1:]:
    # no line begins with something that reads as markup
    if w in BEGIN and s.p(p):
      out.append([w])
    else:
      out[-1].append(w)
  return [" ".join(c) for c in out]


RULERS = "-=*+/%&"


def gen_list(s, depth, col):
  """a list with its nested lists: {"t": "list", items: [[words]...], kids: {index: list}}"""
  kind = s.w((3, "bullet"), (3, "enum"))
  n = s.w((6, s.i(1, 4)), (2, s.i(5, 13)), (1, s.i(95, 105)) if depth == 0 else (1, 2))
  it = {"t": kind, "col": col, "items": [words(s, 1, s.pick([2, 4, 14]) if n < 20 else 2) for _ in range(n)], "parts": []}
  it["mark"] = s.pick("-*") if kind == "bullet" else s.pick(".:")
  if kind == "enum":
    start = s.w((4, 1), (2, s.i(0, 30)), (1, 98))
    how = s.w((4, "count"), (2, "same"), (2, "any"))
    width = s.pick(["left", "right"])
    nums = [start + k if how == "count" else start if how == "same" else s.i(0, 150) for k in range(n)]
    w = max(len(str(x)) for x in nums)
    it["heads"] = [" " * (col + ((w - len(str(x))) if width == "right" else 0)) + str(x) + it["mark"] for x in nums]
  else:
    it["heads"] = [" " * col + it["mark"]] * n
  it["src"] = []
  for ws in it["items"]:
    cs = chunks(s, ws)
    it["src"].append([(" " * s.pick([0, 1, 1, 2, 4, col + 2, col + 3]), c) for c in cs])
  return it


def gen_case(s):
  cfg = {"format": {}, "markup": {}}
  m, f = cfg["markup"], cfg["format"]
  f["line_width"] = s.w((4, s.i(30, 90)), (2, 80), (1, s.i(12, 30)))
  depth = s.w((5, 0), (2, 1), (1, 3))
  if s.p(30):
    f["tab_size"] = s.pick([4, 3, 8])
  # room for the statements
  f["line_width"] = max(f["line_width"], depth * f.get("tab_size", 2) + 10)
  if s.p(40):
    m["bullet_char"] = s.pick("*-")
  if s.p(40):
    m["enum_char"] = s.pick(".:")
  if s.p(30):
    m["canonicalize_hashrulers"] = s.p(50)
  if s.p(30):
    m["hashruler_min_length"] = s.i(8, 20)
  if s.p(15):
    m["ruler_pattern"] = r"^\s*([-=+])\1{3,}$"
  items = []
  stack = []     # columns of the enclosing lists
  prev = None
  deep = s.p(12)
  if deep:
    f["line_width"] = max(s.i(12, 40), depth * f.get("tab_size", 2) + 10)
  for _ in range(s.i(1, 7) if not deep else s.i(4, 9)):
    k = "list" if deep else s.w((4, "par"), (5, "list"), (2, "note"), (2, "ruler"), (2, "hash"), (1, "fence"))
    # without a blank line before it?
    tight = prev is not None and (prev["t"] in ("ruler", "hash", "fence") or k in ("ruler", "hash", "fence") or
                                  k == "note" and prev["t"] in ("par", "note")) and s.p(50)
    if prev is not None and k == "ruler" and prev["t"] == "fence":
      tight = False
    if prev is not None and not tight:
      items.append({"t": "blank", "n": s.w((6, 1), (1, 2), (1, 3))})
    if k == "list":
      cols = [c for c in stack]
      how = s.w((20 if deep else 3, "nest"), (3, "same"), (2, "out"))
      if not cols or tight:
        col = s.pick([1, 1, 0, 2, 4])
        if tight:
          stack = []
      elif how == "nest" and len(cols) < 7:
        col = cols[-1] + s.pick([2, 3, 4, 1])
      elif how == "same":
        col = cols[-1]
      else:
        col = s.pick(cols)
      it = gen_list(s, len(cols), col)
      # where the numbers are aligned to the right the widest one counts
      while stack and stack[-1] >= min(len(h) - len(h.lstrip(" ")) for h in it["heads"]):
        stack.pop()
      stack.append(min(len(h) - len(h.lstrip(" ")) for h in it["heads"]))
    else:
      stack = []
      it = {"t": k}
      if k == "par":
        it["words"] = words(s)
        it["src"] = [(s.pick(["", "", "", "#"]) + s.pick([" ", " ", " ", "   "]), c) for c in chunks(s, it["words"])]
      elif k == "note":
        it["words"] = [s.pick(["TODO(josh):", "NOTE(x):", "FIX_ME(a.b):", "A(#5):"])] + (words(s) if s.p(85) else [])
        it["src"] = [(s.pick([" ", " ", "", "  "]), c) for c in chunks(s, it["words"])]
      elif k == "ruler":
        c = s.pick("-=+" if "ruler_pattern" in m else RULERS)
        it["text"] = c * s.i(6, max(6, f["line_width"] - 2 - depth * f.get("tab_size", 2)))
        it["pad"] = s.pick([" ", " ", "", "  "])
        if c in "-*" and it["pad"] == "":
          it["pad"] = " "
      elif k == "hash":
        it["n"] = s.i(m.get("hashruler_min_length", 10), 90)
        if "ruler_pattern" in m:
          it["t"] = "ruler"
          it["text"] = "=" * 6
          it["pad"] = " "
      else:
        it["fence"] = s.pick(["~~~", "```", "~~~~~"])
        it["lines"] = [s.pick([" ", "   "]) + s.pick(["- a", "foo(  x  )", "1. x", "-----------", "TODO(x): y", "* b", "text   text"])
                       for _ in range(s.i(0, 4))]
    items.append(it)
    prev = it
  return {"cfg": cfg, "items": items, "depth": depth, "trail": s.pick(["", "", "", " ", "\t"]), "pad": s.pick(["", "", "  ", "     "]),
          "after": s.pick(["", "foo()", "\nfoo()"])}


# ---------------------------------------------------------------- the model

def wrap(ws, width):
  lines, cur = [], ""
  for w in ws:
    if cur and len(cur) + 1 + len(w) > width:
      lines.append(cur)
      cur = w
    else:
      cur = cur + " " + w if cur else w
  return lines + [cur]


def hang(head, ws, width):
  ls = wrap(ws, width)
  return [head + " " + ls[0]] + [" " * (len(head) + 1) + l for l in ls[1:]]


def render(case, extra):
  """lines of the comment after the hash character; extra: columns that enumerations may take for their numbers"""
  f, m = case["cfg"]["format"], case["cfg"]["markup"]
  col = case["depth"] * f.get("tab_size", 2)
  width = max(10, f["line_width"] - col - 2)
  out = []
  nest = []
  for it in case["items"]:
    t = it["t"]
    if t not in ("bullet", "enum", "blank"):
      nest = []
    if t == "blank":
      out.append("")
    elif t in ("par", "note"):
      out += wrap(it["words"], width)
    elif t == "ruler":
      out.append(it["text"])
    elif t == "hash":
      out.append("#" * (width if m.get("canonicalize_hashrulers", True) else it["n"] - 1))
    elif t == "fence":
      out += ["~~~"] + [l[1:] for l in it["lines"]] + ["~~~"]
    else:
      c = min(len(h) - len(h.lstrip(" ")) for h in it["heads"])
      while nest and nest[-1] >= c:
        nest.pop()
      ind = " " * (2 * len(nest))
      nest.append(c)
      n = len(it["items"])
      dig = len(str(n))
      for k, ws in enumerate(it["items"]):
        if t == "bullet":
          out += [ind + l for l in hang(m.get("bullet_char", "*"), ws, max(10, width - len(ind)) - 2)]
        else:
          out += [ind + l for l in hang(str(k + 1).rjust(dig) + m.get("enum_char", "."), ws, max(10, width - len(ind)) - 2 - (0 if extra else dig))]
  return [("# " + l) if l else "#" for l in out]


def source(case):
  out = []
  for it in case["items"]:
    t = it["t"]
    if t == "blank":
      out += [""] * it["n"]
    elif t in ("par", "note"):
      out += [p + c for p, c in it["src"]]
    elif t == "ruler":
      out.append(it["pad"] + it["text"])
    elif t == "hash":
      out.append("#" * (it["n"] - 1))
    elif t == "fence":
      out += [" " + it["fence"]] + it["lines"] + [" " + it["fence"]]
    else:
      for head, cs in zip(it["heads"], it["src"]):
        out.append(head + " " + cs[0][1])
        out += [p + c for p, c in cs[1:]]
  return ["#" + l + case["trail"] for l in out]


def doc(case, lines, tab, pad):
  d = case["depth"]
  out = [" " * (tab * k) + "if(A%d)" % k for k in range(d)]
  out += [pad + l for l in lines]
  out += [" " * (tab * d) + l if l else l for l in case["after"].split("\n")] if case["after"] else []
  out += [" " * (tab * k) + "endif()" for k in reversed(range(d))]
  return "\n".join(out) + "\n"


def oracle(case, rec):
  cfg = case["cfg"]
  tab = cfg["format"].get("tab_size", 2)
  text = doc(case, source(case), tab, case["pad"])
  ref_parse_input(text)
  out, _ = sut.fmt(text, cfg)
  ind = " " * (tab * case["depth"])
  wants = [doc(case, render(case, x), tab, ind) for x in ((False,) if case.get("strict") else (False, True))]
  if out not in wants:
    a, b = wants[-1].split("\n"), out.split("\n")
    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    raise Violation("structure of the comment, line %d: expected %r, got %r\n--- input\n%s\n--- output\n%s" % (
        k + 1, a[k:k + 1], b[k:k + 1], text[:1500], out[:1500]))
  again, _ = sut.fmt(out, cfg)
  if again != out:
    a, b = out.split("\n"), again.split("\n")
    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    raise Violation("formatting the formatted comment again changes line %d from %r to %r\n%s" % (k + 1, a[k:k + 1], b[k:k + 1], out[:1500]))
  kinds = {i["t"] for i in case["items"]} - {"blank"}
  rec.nontrivial(out != text and len(kinds) > 1 and (len(out.split("\n")) > len(text.split("\n")) or any(
      len(i.get("items", [])) > 1 for i in case["items"])))
  rec.label(*sorted(kinds))


def gen_spaces(s):
  """a long paragraph or item with several spaces between words"""
  import random
  r = random.Random(s.i(0, 1 << 30))
  n = s.w((3, s.i(2, 30)), (2, s.i(30, 200)), (1, s.i(200, 1500)))
  ws = [r.choice("abcdxyz") * r.randint(1, 6) for _ in range(n)]
  gaps = s.pick([[1, 2], [1, 1, 1, 2], [1, 2, 3], [1, 1, 5]])
  text = ws[0] + "".join(" " * r.choice(gaps) + w for w in ws[1:])
  return {"text": text, "width": s.i(14, 90), "item": s.pick(["", "", "- ", "1. ", "TODO(x): "]), "lines": s.p(30)}


def oracle_spaces(case, rec):
  body = case["item"] + case["text"]
  if case["lines"]:
    ws = body.split(" ")
    src = ["# " + " ".join(ws[:len(ws) // 2]), "#   " + " ".join(ws[len(ws) // 2:])]
    if len(ws) < 4:
      src = ["# " + body]
  else:
    src = ["# " + body]
  text = "\n".join(l.rstrip() for l in src) + "\n"
  cfg = {"format": {"line_width": case["width"]}}
  out, _ = sut.fmt(text, cfg)
  ls = out.split("\n")[:-1]
  want = body.split()
  got = []
  for l in ls:
    if not l.startswith("# ") or l != l.rstrip():
      raise Violation("line %r of the comment" % l)
    got += l[2:].split()
    if len(l) > case["width"] + (1 if case["item"] == "1. " else 0) and " " in l[2:].strip():
      raise Violation("line %r is wider than %d" % (l, case["width"]))
  if case["item"] == "- ":
    want[0] = "*"
  if got != want:
    k = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
    raise Violation("word %d of the comment: expected %r, got %r" % (k, want[k:k + 3], got[k:k + 3]))
  again, _ = sut.fmt(out, cfg)
  if again != out:
    raise Violation("formatting the formatted comment again changes it:\n%s\n%s" % (out[:800], again[:800]))
  rec.nontrivial("  " in case["text"] and len(ls) > 2)


SUBS = [Sub("items", gen_case, oracle, 3600, 90000, 200), Sub("spaces", gen_spaces, oracle_spaces, 1200, 40000, 300)]
