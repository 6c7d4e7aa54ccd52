"""C10 wrapping options are honoured"""
from vf import gen, sut
from vf.checks.common import cmds, ref_parse, ref_parse_input, TAG
from vf.engine import Skip, Sub, Violation

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated command specifications, invocations and wrapping options; oracle: line and column of every argument "
             "of the output checked against the documented meaning of the options")
LEVEL_NOTE = "Random exploration over declared commands (all rules) and over generated listfiles (closing parenthesis)."
RULE = ("A case is an invocation (or listfile) with wrapping options; non-trivial when the output has a statement over several lines, or a "
        "group at one of its limits.")
ASSUMPTIONS = ["max_lines_hwrap allows one line more than its value, as the tests of the project have it.",
               "A group is the positional arguments up to the first keyword, or a keyword with its arguments."]

KW = ["HEADERS", "SOURCES", "DEPENDS", "OUTPUT", "X", "LONG_KEYWORD_NAME_A"]
SUBKW = ["SUBKEY", "ITEM", "PROPS", "Y"]
PLAIN = ["a", "b1", "foo.cc", "${VAR}", "\"x y\"", "lib/z.h", "value", "42", "-O2", "[[br]]", "some_long_argument_name", "$<0:x>", "V-1",
         "\"a quoted argument that is long\"", "path/to/some/file_with_a_name.cc"]
NAMES = ["foo", "f", "abc", "my_command", "Mixed_Case", "a_command_with_a_long_name_here", "set_all", "four"]


# ---------------------------------------------------------------- generation

def pspec(s, n):
  """a positional declaration"""
  if s.p(70):
    return "*"
  d = {"nargs": "*"}
  if s.p(70):
    d["max_pargs_hwrap"] = s.i(0, 8)
  if s.p(20):
    d["tags"] = ["cmdline"]
  return d


def args(s, lo, hi):
  return [s.pick(PLAIN) for _ in range(s.i(lo, hi))]


def invocation(s, kws, depth):
  """-> (specification, [positional arguments, [(keyword, sub)...]])"""
  spec = {}
  pos = args(s, 0, s.pick([1, 3, 9]))
  p = pspec(s, 0)
  if p != "*" or s.p(60):
    spec["pargs"] = p
  if s.p(20):
    spec["max_subgroups_hwrap"] = s.i(0, 4)
  kwargs, groups = {}, []
  for k in s.sub(kws, 45):
    if depth and s.p(35):
      sub, inner = invocation(s, SUBKW, 0)
    elif s.p(50):
      sub = pspec(s, 0)
      inner = [args(s, 0, s.pick([2, 4, 9])), []]
      if sub != "*":
        sub = {"pargs": sub}
    else:
      sub = "*"
      inner = [args(s, 0, s.pick([2, 4, 9])), []]
    kwargs[k] = sub
    for _ in range(s.w((6, 1), (2, 0), (1, 2))):
      groups.append([k, inner])
  if kwargs:
    spec["kwargs"] = kwargs
  return spec, [pos, s.shuffle(groups)]


def flat(call):
  out = list(call[0])
  for k, sub in call[1]:
    out += [k] + flat(sub)
  return out


def wrap_options(s):
  f = {"line_width": s.pick([30, 40, 60, 80, 80, 120, 200])}
  if s.p(40):
    f["tab_size"] = s.i(1, 8)
  if s.p(60):
    f["max_subgroups_hwrap"] = s.i(0, 5)
  if s.p(60):
    f["max_pargs_hwrap"] = s.i(0, 10)
  if s.p(30):
    f["max_rows_cmdline"] = s.i(0, 4)
  if s.p(45):
    f["dangle_parens"] = s.p(80)
  if s.p(45):
    f["dangle_align"] = s.pick(["prefix", "prefix-indent", "child"])
  if s.p(30):
    f["min_prefix_chars"] = s.i(0, 14)
  if s.p(30):
    f["max_prefix_chars"] = s.i(0, 30)
  if s.p(30):
    f["max_lines_hwrap"] = s.i(0, 5)
  if s.p(15):
    f["separate_fn_name_with_space"] = True
  return f


def paths(name, call):
  out = [name]
  if call[0]:
    out.append("%s/PargGroupNode[0]" % name)
  for k, sub in call[1]:
    out += paths("%s/%s" % (name, k), sub)
  return out


def gen_group(s):
  name = s.pick(NAMES)
  spec, call = invocation(s, KW, 1)
  f = wrap_options(s)
  if s.p(30):
    f["always_wrap"] = [p.replace(name, s.pick([name, name, name.lower(), name.upper()]), 1) for p in s.sub(sorted(set(paths(name, call))), 25)]
  depth = s.w((5, 0), (2, 1), (1, 2))
  text = s.pick([name, name, name.upper(), name.lower()]) + "(" + s.pick([" ", "\n  "]).join(flat(call)) + ")"
  text += s.w((4, ""), (1, " # trailing"), (1, " # a trailing comment that goes on for a good while"))
  for k in range(depth):
    text = s.pick(["if(x)\n%s\nendif()", "foreach(y a)\n%s\nendforeach()", "function(fn)\n%s\nendfunction()"]) % text
  return {"name": name, "spec": spec, "call": call, "format": f, "text": text + "\n"}


# ---------------------------------------------------------------- oracle

class Group(object):
  """arguments of the output: positional (a list of tokens) and keyword groups"""

  def __init__(self, call, spec, toks, path, keyword=None):
    self.keyword = keyword
    self.path = path
    self.call = call
    self.spec = spec if isinstance(spec, dict) else {"pargs": spec} if spec is not None else {}
    self.pos = [toks.pop(0) for _ in call[0]]
    self.sub = []
    kwargs = dict((k.upper(), v) for k, v in self.spec.get("kwargs", {}).items())
    for k, inner in call[1]:
      tok = toks.pop(0)
      self.sub.append(Group(inner, kwargs[k], toks, "%s/%s" % (path, k), tok))

  def pargs(self):
    p = self.spec.get("pargs", "*")
    return p if isinstance(p, dict) else {"nargs": p}

  def toks(self):
    out = ([self.keyword] if self.keyword else []) + self.pos
    for g in self.sub:
      out += g.toks()
    return out


def multiline(tok):
  return "\n" in tok.text


def vertical(toks):
  """all on lines of their own, at one column"""
  return len(set(t.line for t in toks)) == len(toks) and len(set(t.col for t in toks)) <= 1


def check_group(g, f, width, wrapped, last, rp_room, fail, rec):
  """g: group of the output. wrapped: the paths of always_wrap. last: the token before the parenthesis"""
  p = g.pargs()
  pos = g.pos
  cmdline = "cmdline" in p.get("tags", [])
  limit = p.get("max_pargs_hwrap", f.get("max_pargs_hwrap", 6))
  if not cmdline and len(pos) > 1:
    if len(pos) in (limit, limit + 1):
      rec.label("pargs_at_limit")
    if len(pos) > limit and not vertical(pos):
      fail("%d arguments (limit %d) are not written vertically" % (len(pos), limit))
    if g.path.lower() + "/parggroupnode[0]" in wrapped and not vertical(pos):
      fail("the arguments of %s are not wrapped" % g.path)
    lines = pos[-1].line - pos[0].line + 1
    if lines > f.get("max_lines_hwrap", 2) + 1 and not vertical(pos):
      fail("%d lines of arguments are not written vertically" % lines)
  if len(pos) > 1 and len(set(t.line for t in pos)) < len(pos):
    # a word wrap: no line break where the next argument fits
    if len(set(t.col for k, t in enumerate(pos) if k == 0 or t.line > pos[k - 1].line)) > 1:
      fail("the lines of arguments do not begin at one column")
    for a, b in zip(pos, pos[1:]):
      if b.line > a.line:
        room = rp_room if b is last else 0
        if a.col + len(a.text) + 1 + len(b.text) + room <= width:
          fail("line break before %s which fits on the line" % b.text)
  rows = pos[-1].line - pos[0].line + 1 if pos else 0
  if cmdline and g.keyword and rows > f.get("max_rows_cmdline", 2) and pos[0].line == g.keyword.line:
    if len(g.keyword.text) > f.get("min_prefix_chars", 4):
      fail("%d rows of a command line are not nested" % rows)
  if g.keyword and pos or g.keyword and g.sub:
    first = (pos or [g.sub[0].keyword])[0]
    nested = first.line > g.keyword.line
    if nested:
      rec.label("kw_nested")
      if first.line != g.keyword.line + 1 or first.col != g.keyword.col + f.get("tab_size", 2):
        fail("%s is not nested under %s" % (first.text, g.keyword.text))
      if len(g.keyword.text) <= f.get("min_prefix_chars", 4):
        fail("arguments are nested under the short keyword %s" % g.keyword.text)
    else:
      if first.col != g.keyword.col + len(g.keyword.text) + 1:
        fail("%s is not next to %s" % (first.text, g.keyword.text))
      here = g.toks()
      if len(g.keyword.text) > max(f.get("max_prefix_chars", 10) + f.get("tab_size", 2), f.get("min_prefix_chars", 4)) and (
          here[-1].line - here[0].line > 1):
        fail("arguments are not nested under the long keyword %s" % g.keyword.text)
  groups = ([pos[0]] if pos else []) + [x.keyword for x in g.sub]
  limit = g.spec.get("max_subgroups_hwrap", f.get("max_subgroups_hwrap", 2))
  if len(groups) in (limit, limit + 1):
    rec.label("groups_at_limit")
  if len(groups) > limit and not vertical(groups):
    fail("%d groups (limit %d) are not written vertically" % (len(groups), limit))
  if g.path.lower() in wrapped and not vertical(groups):
    fail("%s is not wrapped" % g.path)
  for x in g.sub:
    check_group(x, f, width, wrapped, last, rp_room, fail, rec)


def forced(g, f, wrapped):
  """whether some group must be vertical"""
  p = g.pargs()
  cmdline = "cmdline" in p.get("tags", [])
  if not cmdline and len(g.pos) > p.get("max_pargs_hwrap", f.get("max_pargs_hwrap", 6)):
    return True
  if cmdline and g.pos and f.get("max_rows_cmdline", 2) < 1:
    return True
  n = bool(g.pos) + len(g.sub)
  if n > g.spec.get("max_subgroups_hwrap", f.get("max_subgroups_hwrap", 2)):
    return True
  if g.path.lower() in wrapped or g.path.lower() + "/parggroupnode[0]" in wrapped:
    return True
  return any(forced(x, f, wrapped) for x in g.sub)


def check_paren(c, f, lines, fail, rec):
  """the closing parenthesis. c: statement of the output"""
  if not c.argtoks and not c.commenttoks:
    return
  start = c.tok
  rp = c.rp
  own = not lines[rp.line - 1][:rp.col].strip()
  if own and rp.line > start.line:
    rec.label("dangled")
  align = f.get("dangle_align", "prefix")
  tab = f.get("tab_size", 2)
  if f.get("dangle_parens") and rp.line > start.line and not own:
    fail("the closing parenthesis does not dangle")
  if own and rp.line > start.line and not (c.argtoks and c.argtoks[-1].type in ("quo", "bra") and rp.line == c.argtoks[-1].line):
    if align == "prefix":
      want = [start.col]
    elif align == "prefix-indent":
      want = [start.col + tab]
    else:
      first = sorted([t.pos, t.col] for t in c.argtoks + c.commenttoks)
      want = [first[0][1]]
    if rp.col not in want:
      fail("the closing parenthesis is at column %d instead of %s (dangle_align=%s)" % (rp.col, want, align))


def check_nest(c, f, fail, rec, total=True):
  """arguments next to the parenthesis or nested under the name"""
  toks = sorted(c.argtoks + c.commenttoks, key=lambda t: t.pos)
  if not toks:
    return
  first = toks[0]
  prefix = len(c.name) + len(c.space) + 1
  tab = f.get("tab_size", 2)
  if first.line > c.tok.line:
    rec.label("nested")
    if first.line != c.tok.line + 1 or first.col != c.tok.col + tab:
      fail("the first argument is not nested")
    if prefix <= f.get("min_prefix_chars", 4):
      fail("arguments are nested under the short name %s" % c.name)
  else:
    if first.col != c.tok.col + prefix:
      fail("the first argument is not next to the parenthesis")
    if total and prefix > max(f.get("max_prefix_chars", 10) + tab, f.get("min_prefix_chars", 4)) and toks[-1].line > c.tok.line + 1:
      fail("arguments are not nested under the long name %s" % c.name)


def oracle_group(case, rec):
  name, spec, f = case["name"], case["spec"], case["format"]
  cfg = {"parse": {"additional_commands": {name: spec}}, "format": dict(f, command_case="unchanged")}
  text = case["text"]
  ref_parse_input(text)
  out = sut.fmt(text, cfg)[0]
  lines = out.split("\n")
  stmts = [c for c in cmds(ref_parse(out)) if c.name.lower() == name.lower()]

  def fail(msg):
    raise Violation("%s\n%s\noptions %r\nspecification %r" % (msg, out, f, spec))

  c = stmts[0]
  want = flat(case["call"])
  if [t.text for t in c.argtoks] != want:
    fail("arguments differ from %s" % want)
  width = f["line_width"]
  wrapped = set(x.lower() for x in f.get("always_wrap", []))
  toks = list(c.argtoks)
  top = Group(case["call"], spec, toks, name.lower())
  own = c.rp.line > (c.argtoks[-1].line if c.argtoks else c.tok.line)
  check_group(top, f, width, wrapped, c.argtoks[-1] if c.argtoks else None, 1, fail, rec)
  check_paren(c, f, lines, fail, rec)
  check_nest(c, f, fail, rec)
  # what is admissible on one line is written on one line
  line = c.name + c.space + "(" + " ".join(want) + ")"
  fits = c.tok.col + len(line) <= width and not forced(top, f, wrapped)
  if "#" not in text and fits and c.rp.line != c.tok.line:
    fail("the statement fits on a line")
  if not c.trailing and own and not f.get("dangle_parens") and c.argtoks:
    t = c.argtoks[-1]
    end = t.col + len(t.text)
    if end + 1 <= width:
      fail("the closing parenthesis dangles")
  if fits:
    rec.label("one_line")
  rec.nontrivial(c.rp.line > c.tok.line or bool(forced(top, f, wrapped)))


def oracle_paren(case, rec):
  text, cfg = case["text"], case["cfg"]
  f = cfg.get("format", {})
  if TAG.search(text):
    raise Skip("format tags")
  ref_parse_input(text)
  out = sut.fmt(text, cfg)[0].replace("\r\n", "\n")
  lines = out.split("\n")
  for c in cmds(ref_parse(out)):
    def fail(msg):
      raise Violation("%s: %s\n%s\noptions %r" % (msg, c, out, cfg))
    check_paren(c, f, lines, fail, rec)
    check_nest(c, f, fail, rec, False)
    rec.nontrivial(c.rp.line > c.tok.line)


def gen_paren(s):
  g = gen.Gen(s, gen.Prof(stmts=(1, 4), max_depth=2))
  f = wrap_options(s)
  if s.p(60):
    f["dangle_parens"] = True
  if s.p(20):
    f["separate_ctrl_name_with_space"] = True
  return {"text": g.listfile(), "cfg": {"format": f}}


SUBS = [Sub("group", gen_group, oracle_group, 2500, 100000, 250),
        Sub("paren", gen_paren, oracle_paren, 700, 20000, 100)]
