"""C30 text lints match their definition"""
import re

from vf import cmref, gen
from vf.checks.lintcommon import lint, multiset_diff
from vf.engine import Skip, Sub, Violation

ID = "C30"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles with planted defects (trailing white space, tabs, mixed line endings, joined and spread "
             "statements, indentation); the findings are compared with an independent reference that reads the text line by line")
LEVEL_NOTE = ("Random exploration against a reference implementation of the documented checks C0301, C0303, C0304, C0305, C0306, C0307 "
              "(first token of a statement or comment line), C0321 and C0327. No lone carriage returns, no bracket comments next to statements.")
RULE = "A case is a text with planted defects and a configuration; non-trivial when the reference expects at least two findings of two codes, or the text has none and ten lines."
ASSUMPTIONS = ["The text does not begin with white space other than line breaks."]

CODES = ("C0301", "C0303", "C0304", "C0305", "C0306", "C0321", "C0327")


def gen_case(s):
  g = gen.Gen(s, gen.Prof(bracket_comments=False, onoff=3, at_stmt=0, pragma=0, stmts=(1, 5), argcomments=8))
  t = g.listfile().lstrip(" \t")
  lines = t.split("\n")
  for _ in range(s.many(0, 8, 70)):
    k = s.i(0, len(lines) - 1)
    kind = s.w((3, "trail"), (3, "tab"), (2, "blank"), (2, "pad"), (3, "indent"), (3, "cr"), (8, "join"), (1, "uni"), (1, "long"), (1, "dedent"))
    l = lines[k]
    if kind == "trail":
      lines[k] = l + s.pick([" ", "\t", "   ", " \t"])
    elif kind == "tab" and k:
      lines[k] = s.pick(["\t", " \t", "\t ", "  \t", "\t\t"]) + l.lstrip(" \t")
    elif kind == "blank":
      lines[k:k] = [""] * s.i(1, 4)
    elif kind == "pad" and k:
      lines[k] = " " + l
    elif kind == "indent" and k:
      lines[k] = " " * s.i(1, 9) + l.lstrip(" \t")
    elif kind == "dedent":
      lines[k] = l.lstrip(" \t")
    elif kind == "cr":
      lines[k] = l + "\r"
    elif kind == "join" and k + 1 < len(lines):
      # a comment would swallow what is joined to it
      if "#" not in l and lines[k + 1].strip():
        lines[k:k + 2] = [l + s.pick([" ", "", "  "]) + lines[k + 1].lstrip(" \t")]
    elif kind == "uni":
      # line boundaries for str.splitlines() only
      lines[k] = l + " # a" + s.pick(["\u2028", "\x0c", "\x85", "\x0b", "\u2029", "\x1c", "\u00e9"]) + "b"
    elif kind == "long":
      lines[k] = l + " " * s.i(20, 90) if s.p(50) else l + " # " + "x" * s.i(1, 100)
  crlf = s.w((6, False), (2, True))
  if crlf:
    lines = [l.rstrip("\r") + "\r" for l in lines[:-1]] + [lines[-1].rstrip("\r")]
    if s.p(40):
      k = s.i(0, len(lines) - 1)
      lines[k] = lines[k].rstrip("\r")
  lines[-1] = lines[-1].rstrip("\r")
  fmt = {}
  if s.p(70):
    fmt["line_width"] = s.w((3, s.i(10, 60)), (2, s.i(60, 100)))
  if s.p(40):
    fmt["use_tabchars"] = True
    if s.p(50):
      fmt["fractional_tab_policy"] = "round-up"
  if s.p(30):
    fmt["tab_size"] = s.pick([4, 2, 3, 1, 8])
  if crlf or s.p(30):
    fmt["line_ending"] = s.pick(["windows", "unix", "auto"])
  lnt = {}
  if s.p(35):
    lnt["min_statement_spacing"] = s.i(1, 3)
  if s.p(35):
    lnt["max_statement_spacing"] = s.i(lnt.get("min_statement_spacing", 1), 4)
  cfg = {}
  if fmt:
    cfg["format"] = fmt
  if lnt:
    cfg["lint"] = lnt
  return {"text": "\n".join(lines), "cfg": cfg}


def statements(text):
  """[(name token, line breaks before it, anything between it and the previous token, previous token kind)] at any depth, and
  comment lines [(token, depth)]"""
  toks = cmref.scan(text)
  out, comments = [], []
  depth = paren = 0
  prev = None
  nl, between = 0, False
  i = 0
  own = True
  stmt_line = False
  while i < len(toks):
    t = toks[i]
    if t.type in ("sp", "nl"):
      between = True
      if t.type == "nl":
        nl += 1
      i += 1
      continue
    if paren == 0 and t.type == "unq":
      low = t.text.lower()
      k = i + 1
      while k < len(toks) and toks[k].type == "sp":
        k += 1
      if not cmref.R_ID.fullmatch(t.text) or k >= len(toks) or toks[k].type != "lp":
        raise Skip("not a statement")
      if low in cmref.CLOSE:
        depth -= 1
      d = depth - 1 if low in cmref.MID else depth
      if d < 0:
        raise Skip("stray block end")
      out.append((t, d, nl, between, prev))
      if low in cmref.OPEN:
        depth += 1
      paren = 1
      prev = t
      i = k + 1
      nl, between = 0, False
      continue
    if paren == 0:
      if t.type not in ("lc", "bc"):
        raise Skip("not a listfile")
      if nl or prev is None:
        comments.append((t, depth))
    elif t.type == "lp":
      paren += 1
    elif t.type == "rp":
      paren -= 1
    prev = t
    nl, between = 0, False
    i += 1
  if paren or depth:
    raise Skip("unbalanced")
  return out, comments


def expected(text, cfg):
  f = cfg.get("format", {})
  l = cfg.get("lint", {})
  width = f.get("line_width", 80)
  ending = f.get("line_ending", "unix")
  if ending == "auto":
    crlf = len(re.findall("\r\n", text))
    ending = "windows" if crlf > text.count("\n") - crlf else "unix"
  out = []
  lines = text.split("\n")
  for n, line in enumerate(lines, 1):
    ended = n < len(lines)
    cr = line.endswith("\r")
    if cr:
      line = line[:-1]
    if len(line) > width:
      out.append(("C0301", n, "%d/%d" % (len(line), width)))
    if ended and cr != (ending == "windows"):
      out.append(("C0327", n, "windows" if cr else "unix"))
    if line != line.rstrip(" \t"):
      out.append(("C0303", n, ""))
    ind = line[:len(line) - len(line.lstrip(" \t"))]
    if not f.get("use_tabchars"):
      bad = "\t" in ind
    elif f.get("fractional_tab_policy") == "round-up":
      bad = " " in ind
    else:
      bad = " \t" in ind
    if bad:
      out.append(("C0306", n, ""))
  if not text.endswith("\n"):
    out.append(("C0304", len(lines), ""))
  lo, hi = l.get("min_statement_spacing", 1), l.get("max_statement_spacing", 2)
  stmts, _ = statements(text)
  for t, d, nl, between, prev in stmts:
    low = t.text.lower()
    if low in cmref.CLOSE or low in cmref.MID:
      continue
    if not between and (prev is None or first_in_block(prev, stmts)):
      continue
    if nl == 0:
      out.append(("C0321", t.line, ""))
    elif nl < lo:
      out.append(("C0305", t.line, "not enough"))
    elif nl > hi:
      out.append(("C0305", t.line, "too many"))
  return out


def first_in_block(prev, stmts):
  """prev ends the statement that opens a block"""
  last = [s for s in stmts if s[0].pos < prev.pos]
  low = last[-1][0].text.lower() if last else ""
  return low in cmref.OPEN or low in cmref.MID


def oracle(case, rec):
  text, cfg = case["text"], case["cfg"]
  if re.search("\r(?!\n)", text):
    raise Skip("lone carriage return")
  try:
    toks = cmref.scan(text)
  except cmref.BadCMake:
    raise Skip("not a listfile")
  if any(t.type == "bc" for t in toks):
    raise Skip("bracket comment")
  if text[:1] in (" ", "\t"):
    raise Skip("leading white space")
  want = expected(text, cfg)
  got = lint(text, cfg)
  if text and lint("\ufeff" + text, cfg) != got:
    raise Violation("a byte order mark changes the findings: %r\n%r\n%s" % (lint("\ufeff" + text, cfg), got, text))
  found = []
  for code, line, col, msg in got:
    if code not in CODES:
      continue
    note = ""
    if code == "C0301":
      m = re.search(r"[0-9]+/[0-9]+", msg)
      note = m.group() if m else msg
    elif code == "C0327":
      note = "windows" if "windows" in msg else "unix"
    elif code == "C0305":
      note = "too many" if "too many" in msg else "not enough"
    found.append((code, line, note))
  missing, extra = multiset_diff(want, found)
  if missing or extra:
    raise Violation("findings differ from the definition: missing %r, unexpected %r\n%s" % (missing[:5], extra[:5], text))
  # indentation of statements and comment lines
  tab = cfg.get("format", {}).get("tab_size", 2)
  stmts, comments = statements(text)
  lines = text.split("\n")
  bad = {(line) for code, line, col, msg in got if code == "C0307"}
  heads = [(t, d) for t, d, nl, between, prev in stmts if nl or prev is None]
  for t, d in heads + [(t, d) for t, d in comments if free_comment(t, lines)]:
    line = lines[t.line - 1]
    ind = line[:len(line) - len(line.lstrip(" \t"))]
    if not ind:
      continue
    w = sum(tab if c == "\t" else 1 for c in ind)
    if (w != d * tab) != (t.line in bad):
      raise Violation("line %d is indented by %d columns at depth %d: %s\n%s" % (
          t.line, w, d, "reported" if t.line in bad else "not reported", text))
    if w != d * tab:
      rec.label("C0307")
  codes = {c for c, _, _ in want}
  rec.label(*codes)
  rec.nontrivial(len(codes) > 1 or (not codes and len(lines) > 10))
  if cfg.get("format", {}).get("line_ending") == "auto":
    rec.label("auto")


def free_comment(t, lines):
  """not below another comment, or a trailing one"""
  return t.line == 1 or "#" not in lines[t.line - 2]


SUBS = [Sub("text", gen_case, oracle, 6000, 120000, 400)]
