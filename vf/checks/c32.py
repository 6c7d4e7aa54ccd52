"""C32 lint suppression removes exactly what it names"""
import re

from vf import cmref
from vf.checks import c31
from vf.checks.lintcommon import lint, multiset_diff
from vf.engine import Skip, Sub, Violation

ID = "C32"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated programs with pragmas at random places; metamorphic oracle: the findings are those of the same text "
             "with neutral comments instead of pragmas, less the named codes in the scope of each pragma (computed by a reference parser)")
LEVEL_NOTE = "Random exploration; the scope of a pragma is computed independently from the block structure of the text."
RULE = "A case is a program, pragmas and disabled codes; non-trivial when at least one finding is removed and at least one remains."
ASSUMPTIONS = ["Findings without a location are not looked at.",
               "A pragma which continues a comment inside of a statement covers the first line of that comment or its own.",
               "Findings on comment lines directly above a pragma (which belong to the same comment) may or may not be covered by it."]

CODES = ["C0103", "C0111", "C0112", "C0301", "C0303", "C0305", "C0307", "E0103", "E0108", "E0109", "R0911", "R0912", "R0913", "R0915",
         "W0101", "W0105", "W0106", "C0202", "C0201", "E1122", "E1120", "C0113", "E1126", "E0011", "E0012", "C0321", "C0327"]
BAD = ["X0000", "c0103", "all", "C103", "", "C0103x"]


def gen_pragma(s):
  items = []
  for _ in range(s.many(1, 3, 25)):
    kind = s.w((9, "disable"), (1, "opt"), (1, "word"))
    if kind == "disable":
      items.append(["disable", [s.w((12, s.pick(CODES)), (1, s.pick(BAD))) for _ in range(s.many(1, 6, 60))]])
    elif kind == "opt":
      items.append([s.pick(["line_width", "enable", "Disable", ""]), [s.pick(["80", "C0103"])]])
    else:
      items.append([s.pick(["disable", "C0103", "foo"]), None])
  return {"items": items, "where": s.w((5, "own"), (2, "trail"), (2, "args")), "at": s.i(0, 60), "depth": s.i(0, 3),
          "spaces": s.w((8, 1), (1, 2))}


def gen(s):
  case = c31.gen_case(s)
  case["pragmas"] = [gen_pragma(s) for _ in range(s.many(1, 5, 55))]
  case["defects"] = [[s.i(0, 60), s.pick(["space", "long", "text", "break", "custom"])] for _ in range(s.many(0, 5, 60))]
  case["disabled"] = [s.pick(CODES) for _ in range(s.w((5, 0), (2, 1), (1, 4)))]
  case["bad_is_disabled"] = False
  return case


def render(case, word):
  m = c31.Model(case["lint"])
  m.body(case["body"], 0, [])
  lines = list(m.lines) or [""]
  for at, kind in case["defects"]:
    k = at % len(lines)
    if kind == "space":
      lines[k] += "  "
    elif kind == "long":
      lines.insert(k, "# " + "word " * 18 + "end")
    elif kind == "text":
      lines.insert(k, "# text")
    elif kind == "custom":
      lines.insert(k, "add_custom_command(OUTPUT x)")
    else:
      lines.insert(k, "break()")
  for p in case["pragmas"]:
    text = "# cmake-%s: " % word + (" " * p["spaces"]).join(k if v is None else k + "=" + ",".join(v) for k, v in p["items"])
    k = p["at"] % len(lines)
    if p["where"] == "trail":
      lines[k] = lines[k] + (" " if lines[k] else "") + text
    elif p["where"] == "args":
      cand = [j for j, l in enumerate(lines) if l.endswith(")") and "#" not in l]
      if cand:
        k = cand[k % len(cand)]
        lines[k:k + 1] = [lines[k][:-1] + " " + text, ")"]
    else:
      lines.insert(k, "  " * p["depth"] + text)
  return "\n".join(lines) + "\n"


OPEN = ("function", "macro", "if", "foreach", "while")
MID = ("else", "elseif")
CLOSE = tuple("end" + n for n in OPEN)


def scopes(text):
  """[(first line, last line, codes, ambiguous first line)] of the pragmas, [errors expected]"""
  try:
    cmds = [e for e in cmref.parse(text) if e.kind == "cmd"]
    comments = [t for t in cmref.scan(text) if t.type == "lc"]
  except cmref.BadCMake as ex:
    raise Skip("not valid: %s" % str(ex)[:30])

  def line(pos):
    return text.count("\n", 0, pos) + 1

  out, errors = [], []
  lines = text.split("\n")
  for t in comments:
    if not t.text.startswith("# cmake-lint: "):
      continue
    n = line(t.pos)
    codes = []
    for item in t.text[len("# cmake-lint: "):].split():
      if "=" not in item:
        errors.append(("E0011", n, item))
        continue
      key, value = item.split("=", 1)
      if key != "disable":
        errors.append(("E0011", n, key))
        continue
      for c in value.split(","):
        if c in c32_known():
          codes.append(c)
        else:
          errors.append(("E0012", n, c))
    first = n
    while first > 1 and "#" in lines[first - 2] and lines[n - 1].lstrip().startswith("#"):
      first -= 1
      if not lines[first - 1].lstrip().startswith("#"):
        break
    col, k = lines[n - 1].find("#"), n - 1
    if not lines[n - 1][:col].strip():
      while k and lines[k - 1].find("#") == col and not lines[k - 1][:col].strip():
        k -= 1
      if k and lines[k - 1].find("#") == col:
        raise Skip("the pragma continues the trailing comment above")
    inside = [c for c in cmds if c.tok.pos < t.pos < c.rp.pos]
    if inside or not lines[n - 1].lstrip().startswith("#"):
      last = n
      if first < n:
        # the lines of one comment: the pragma holds for its first line or for its own
        out.append((n + 1, n, set(codes), first))
        continue
    else:
      depth = 0
      last = len(lines) + 1
      for c in cmds:
        if c.tok.pos < t.pos:
          continue
        name = c.name.lower()
        if depth == 0 and (name in MID or name in CLOSE):
          last = line(c.tok.pos) - 1
          break
        if name in OPEN:
          depth += 1
        elif name in CLOSE:
          depth -= 1
    out.append((n, last, set(codes), first))
  return out, errors


_known = set()


def c32_known():
  if not _known:
    from cmakelang.lint import lintdb
    _known.update(lintdb.get_database())
  return _known


def oracle(case, rec):
  text, neutral = render(case, "lint"), render(case, "lynt")
  lnt = dict(case["lint"])
  cfg = {"lint": lnt, "parse": {"additional_commands": {"my_cmd": c31.CMD}}}
  ranges, errors = scopes(text)
  base = [f for f in lint(neutral, cfg) if f[1] is not None]
  want = [(f[0], f[1], f[3]) for f in base]
  want += errors
  if case["disabled"]:
    cfg["lint"] = dict(lnt, disabled_codes=list(case["disabled"]))
  got = [(c, l, m) for c, l, _, m in lint(text, cfg) if l is not None]
  keep, amb, removed = [], [], 0
  for w in want:
    if w[0] in case["disabled"] or any(a <= w[1] <= b and w[0] in codes for a, b, codes, _ in ranges):
      removed += 1
    elif any(f <= w[1] < a and w[0] in codes for a, b, codes, f in ranges):
      amb.append(w)
    else:
      keep.append(w)
  rest = list(got)
  missing = []
  for w in keep:
    for r in rest:
      if r[0] == w[0] and r[1] == w[1] and (same(r[2], w[2]) or w in errors and w[2] in r[2]):
        rest.remove(r)
        break
    else:
      missing.append(w)
  for w in amb:
    for r in rest:
      if r[:2] == w[:2]:
        rest.remove(r)
        break
  if missing or rest:
    raise Violation("findings of a text with pragmas: missing %r, unexpected %r\npragmas %r\n%s" % (missing[:4], rest[:4], ranges, text))
  rec.label("removed" if removed else "nothing removed", *(["error"] if errors else []))
  rec.nontrivial(removed and keep)


def same(a, b):
  return a == b or a.replace("lynt", "lint") == b.replace("lynt", "lint")


SUBS = [Sub("pragmas", gen, oracle, 4000, 80000, 250)]
