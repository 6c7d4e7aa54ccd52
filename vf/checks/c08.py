"""C08 indentation follows block nesting and the tab policy"""
from vf import cmref, gen, large, sut
from vf.checks.common import diff, literal_spans, ref_parse, ref_parse_input, regions
from vf.engine import Sub, Violation

ID = "C08"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated nestings of control flow, oracle: columns computed by an independent reader; "
             "metamorphic relation between the outputs with spaces and with tab characters")
LEVEL_NOTE = "Random exploration over nestings, statements, comments and the three indentation options."
RULE = ("A case is a generated listfile and configuration; non-trivial when some statement is nested and the text "
        "changed.")
ASSUMPTIONS = []


def body(out, cfg):
  out = out.replace("\r\n", "\n")
  if cfg.get("encode", {}).get("emit_byteorder_mark"):
    out = out[1:]
  return out


def oracle_depth(case, rec):
  text, cfg = case["text"], case["cfg"]
  pin = ref_parse_input(text)
  out = body(sut.fmt(text, cfg)[0], cfg)
  pout = ref_parse(out, "the formatted text")
  tab = cfg.get("format", {}).get("tab_size", 2)
  prot = regions(out)
  depth = deepest = 0
  lines = out.split("\n")
  for e in pout:
    if e.kind == "blank":
      continue
    low = e.name.lower() if e.kind == "cmd" else ""
    if low in cmref.CLOSE:
      depth -= 1
    here = depth - (1 if low in cmref.MID else 0)
    if low in cmref.OPEN:
      depth += 1
    deepest = max(deepest, depth)
    if e.kind == "com" and (e.trails is not None or not case["comments"]):
      continue
    if any(a <= e.tok.pos < b for a, b in prot) or (e.kind == "com" and prot):
      continue
    if e.tok.col != here * tab or lines[e.tok.line - 1][:e.tok.col].strip(" "):
      raise Violation("%s is at column %d instead of %d (depth %d)\n%s" % (
          str(e)[:80], e.tok.col, here * tab, here, out[:1500]))
  rec.nontrivial(deepest > 0 and out != text)
  rec.label("depth_%d" % deepest)


def expected_tabs(out, tab, policy):
  """`out` with the white space at the start of lines replaced"""
  spans = literal_spans(out)
  lines = []
  pos = 0
  for line in out.split("\n"):
    inside = any(a < pos <= b for a, b in spans)
    # the first line of a protected region starts within it
    inside = inside and not any(a == pos for a, b in spans)
    if not inside:
      rest = line.lstrip(" ")
      n = len(line) - len(rest)
      if policy == "round-up":
        rest = "\t" * -(-n // tab) + rest
      else:
        rest = "\t" * (n // tab) + " " * (n % tab) + rest
    else:
      rest = line
    lines.append(rest)
    pos += len(line) + 1
  return "\n".join(lines)


def oracle_tabs(case, rec):
  text, cfg = case["text"], case["cfg"]
  ref_parse_input(text)
  f = cfg.get("format", {})
  plain = body(sut.fmt(text, dict(cfg, format=dict(f, use_tabchars=False)))[0], cfg)
  tabbed = body(sut.fmt(text, dict(cfg, format=dict(f, use_tabchars=True)))[0], cfg)
  ref_parse(plain, "the formatted text")
  want = expected_tabs(plain, f.get("tab_size", 2), f.get("fractional_tab_policy", "use-space"))
  if tabbed != want:
    raise Violation("use_tabchars: not the text with tabs for leading spaces\n" + diff(want, tabbed).replace("\t", "<TAB>"))
  rec.nontrivial("\t" in tabbed and tabbed != plain)
  rec.label(f.get("fractional_tab_policy", "use-space"))
  if literal_spans(plain):
    rec.label("literal")


def cfg_of(s):
  c = gen.config(s, rare=25, exclude=("autosort", "use_tabchars"))
  if s.p(40):
    c.setdefault("format", {})["tab_size"] = s.i(1, 8)
  return c


def gen_depth(s):
  comments = s.p(60)
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=4, blocks=55, comments=35, argcomments=8, trailing=0 if comments else 15,
                          onoff=2))
  return {"text": g.listfile(), "cfg": cfg_of(s), "comments": comments}


def gen_tabs(s):
  g = gen.Gen(s, gen.Prof(stmts=(1, 2), max_depth=3, blocks=50, comments=25, argcomments=8, trailing=10, onoff=3,
                          multiline=12))
  c = cfg_of(s)
  if s.p(40):
    c.setdefault("format", {})["fractional_tab_policy"] = s.pick(["use-space", "round-up"])
  return {"text": g.listfile(), "cfg": c}


def gen_large(s):
  return dict(large.gen_large(s, ["nest", "loops", "nest", "loops", "elseif", "stmts"]), comments=True, cfg=cfg_of(s))


SUBS = [Sub("large", gen_large, oracle_depth, 160, 4000, 40),
        Sub("depth", gen_depth, oracle_depth, 1200, 30000, 150),
        Sub("tabs", gen_tabs, oracle_tabs, 800, 20000, 150)]
