"""C25 statements are formatted independently of their surroundings"""
import copy

from vf import cmref, gen, sut
from vf.checks.common import cmds, diff, ref_parse_input
from vf.engine import Skip, Sub, Violation

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated pairs of listfiles, metamorphic relations: format(A, blank line, B) = format(A), blank line, format(B); "
             "a block one level deeper in a line wider by one indentation is the same text, indented; an unrelated edit keeps all other lines")
LEVEL_NOTE = "Random exploration over pairs of listfiles and configurations; no reference layout is needed."
RULE = ("A case is two generated listfiles (or one, and a kind of block around it) with a configuration; non-trivial when formatting "
        "changed a text and both parts hold a statement with arguments.")
ASSUMPTIONS = ["Options which concern the file as a whole (first comment, byte order mark, automatic line ending) are not generated."]
WHOLE = ("first_comment_is_literal", "emit_byteorder_mark", "line_ending")


def part(s, **kw):
  p = dict(stmts=(1, 2), max_depth=2, pragma=0, onoff=4)
  p.update(kw)
  g = gen.Gen(s, gen.Prof(**p))
  t = g.listfile().strip(" \t\n")
  return t


def custom(s):
  """A command with options of its own"""
  pargs = {"nargs": "*"}
  if s.p(60):
    pargs["max_pargs_hwrap"] = s.i(0, 5)
  if s.p(40):
    pargs["sortable"] = True
  if s.p(25):
    pargs["tags"] = ["cmdline"]
  spec = {"pargs": pargs, "kwargs": {"KEY": s.pick(["*", "+", 1, 2])}}
  if s.p(40):
    spec["max_subgroups_hwrap"] = s.i(0, 2)
  if s.p(30):
    spec["spelling"] = "".join(s.pick([c, c.upper()]) for c in "custom")
  return spec


def gen_pair(s):
  case = {"a": part(s), "b": part(s), "gap": s.w((3, 1), (1, 2), (1, 4)), "cfg": gen.config(s, rare=25, exclude=WHOLE)}
  if s.p(40):
    # options of one command are not those of the others
    case["cfg"].setdefault("parse", {}).setdefault("additional_commands", {})["custom"] = custom(s)
    call = "custom(%s)" % " ".join(s.pick(["b", "KEY", "a", "argument", "${x}", "c/d.cc"]) for _ in range(s.i(0, 7)))
    for k in "ab":
      if s.p(50):
        case[k] = s.w((1, call + "\n" + case[k]), (1, case[k] + "\n" + call), (1, call))
  return case


def oracle_pair(case, rec):
  a, b, cfg = case["a"] + "\n", case["b"] + "\n", case["cfg"]
  pa, pb = ref_parse_input(a), ref_parse_input(b)
  if not cmds(pa) or not cmds(pb) or not a.strip() or not b.strip():
    raise Skip("no statement")
  fa, oka = sut.fmt(a, cfg)
  fb, okb = sut.fmt(b, cfg)
  both, ok = sut.fmt(a + "\n" * case["gap"] + b, cfg)
  if both != fa + "\n" + fb:
    raise Violation("the parts are formatted differently together than alone\n%s" % diff(fa + "\n" + fb, both))
  if ok != (oka and okb):
    raise Violation("layout valid: %s and %s alone, %s together" % (oka, okb, ok))
  rec.nontrivial((a != fa or b != fb) and any(c.args for c in cmds(pa)) and any(c.args for c in cmds(pb)))
  if not ok:
    rec.label("invalid_layout")


BLOCKS = [("if(X)", ["else()"], "endif()"), ("foreach(x a b)", [], "endforeach()"), ("while(X)", [], "endwhile()"),
          ("function(f a)", [], "endfunction()"), ("macro(m)", [], "endmacro()"), ("if(A AND B)", ["elseif(C)", "else()"], "endif()")]


def gen_nest(s):
  blk = [s.i(0, len(BLOCKS) - 1) for _ in range(s.w((3, 1), (1, 2)))]
  cfg = gen.config(s, rare=25, exclude=WHOLE + ("line_width", "separate_ctrl_name_with_space", "separate_fn_name_with_space", "always_wrap",
                                       "max_subgroups_hwrap", "max_pargs_hwrap", "command_case", "keyword_case", "dangle_parens", "max_lines_hwrap", "max_rows_cmdline", "layout_passes"))
  f = cfg.setdefault("format", {})
  # only options which leave the block commands themselves on one line
  f["line_width"] = s.w((3, 80), (3, s.i(30, 79)), (1, s.i(81, 120)))
  return {"a": part(s, multiline=0, bracket_comments=False, onoff=0), "blocks": blk, "branch": s.i(0, 2), "cfg": cfg,
          "opts": {k: v for k, v in (("max_subgroups_hwrap", s.i(2, 6)), ("max_pargs_hwrap", s.i(3, 9)), ("dangle_parens", True),
                                     ("always_wrap", ["set", "install"])) if s.p(25)}}


def filled(lines):
  """an empty body is written as one empty line"""
  out = lines[:1]
  for l in lines[1:]:
    out += ["", l]
  return out


def oracle_nest(case, rec):
  a = case["a"] + "\n"
  pa = ref_parse_input(a)
  if not cmds(pa):
    raise Skip("no statement")
  if any("\n" in a for c in cmds(pa) for _, a in c.args):
    raise Skip("multi-line argument")
  cfg = copy.deepcopy(case["cfg"])
  cfg["format"].update(case["opts"])
  flat, okflat = sut.fmt(a, cfg)
  tab = cfg["format"].get("tab_size", 2)
  depth = len(case["blocks"])
  text = a
  before, after = [], []
  for k in reversed(case["blocks"]):
    first, more, last = BLOCKS[k]
    n = min(case["branch"], len(more))
    head = [first] + more[:n]
    tail = more[n:] + [last]
    text = "\n".join(head) + "\n" + text + "\n".join(tail) + "\n"
    before.insert(0, head)
    after.append(tail)
  wide = copy.deepcopy(cfg)
  wide["format"]["line_width"] = cfg["format"]["line_width"] + tab * depth
  out, ok = sut.fmt(text, wide)
  tabs = cfg["format"].get("use_tabchars")
  unit = "\t" if tabs else " " * tab
  want = []
  for d, head in enumerate(before):
    want += filled([unit * d + h for h in head])
  want += [unit * depth + l if l else l for l in flat.rstrip("\n").split("\n")]
  for d, tail in zip(range(depth - 1, -1, -1), after):
    want += filled([unit * d + t for t in tail])
  want = "\n".join(want) + "\n"
  if out != want:
    raise Violation("the block is formatted differently when nested\n%s" % diff(want, out))
  if ok != okflat:
    raise Violation("layout valid: %s flat, %s nested" % (okflat, ok))
  rec.nontrivial(a != flat and any(c.args for c in cmds(pa)))
  rec.label("depth%d" % depth)
  if tabs:
    rec.label("tabs")


FIRST = ["#!/usr/bin/cmake -P", "#!cmake\n#   a   second line", "# a   first    comment\n#   * of   the file", "# x", "#[[ in  brackets ]]", "# ----\n#  title\n# ----"]


def gen_first(s):
  case = gen_pair(s)
  case["first"] = s.pick(FIRST)
  case["after"] = s.w((3, 1), (1, 2), (1, 3))
  case["cfg"].setdefault("markup", {})["first_comment_is_literal"] = s.p(60)
  return case


def oracle_first(case, rec):
  """what follows the first comment of a file does not depend on whether it is kept verbatim"""
  a, b, cfg, first = case["a"] + "\n", case["b"] + "\n", case["cfg"], case["first"] + "\n"
  pa, pb = ref_parse_input(a), ref_parse_input(b)
  if not cmds(pa) or not cmds(pb):
    raise Skip("no statement")
  fp, _ = sut.fmt(first, cfg)
  if (cfg["markup"]["first_comment_is_literal"] or first.startswith("#!")) and fp != first:
    raise Violation("the first comment of the file was changed\n%s" % diff(first, fp))
  gap = "\n" * case["after"]
  fa, oka = sut.fmt(first + gap + a, cfg)
  fb, okb = sut.fmt(first + gap + b, cfg)
  both, ok = sut.fmt(first + gap + a + "\n" * case["gap"] + b, cfg)
  if not fa.startswith(fp + "\n") or not fb.startswith(fp + "\n"):
    raise Violation("the first comment is formatted differently when something follows\n%s" % diff(fp, fa))
  if both != fa + fb[len(fp):]:
    raise Violation("the parts are formatted differently together than alone\n%s" % diff(fa + fb[len(fp):], both))
  if ok != (oka and okb):
    raise Violation("layout valid: %s and %s alone, %s together" % (oka, okb, ok))
  # a statement in front: nothing is the first comment any more
  if not first.startswith("#!") and not cfg["markup"]["first_comment_is_literal"]:
    alone, _ = sut.fmt(a, cfg)
    if fa[len(fp) + 1:] != alone:
      raise Violation("formatted differently after a comment\n%s" % diff(alone, fa[len(fp) + 1:]))
  rec.nontrivial((first + gap + a != fa) and any(c.args for c in cmds(pa)) and any(c.args for c in cmds(pb)))
  rec.label("literal" if cfg["markup"]["first_comment_is_literal"] else "shebang" if first.startswith("#!") else "comment")


SUBS = [Sub("first", gen_first, oracle_first, 500, 15000, 200),
        Sub("pair", gen_pair, oracle_pair, 1600, 40000, 200),
        Sub("nest", gen_nest, oracle_nest, 1600, 40000, 200)]
