"""C24 custom command specifications group arguments as declared"""
from vf import cmref, gen, sut
from vf.checks.c15 import parsed
from vf.checks.common import cmds, ref_parse, ref_parse_input
from vf.engine import Skip, Sub, Violation

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated command specifications with invocations built from them group by group; oracle: the intended "
             "grouping, letter case and line structure; differential with and without the declaration for all other commands")
LEVEL_NOTE = "Random exploration over specifications (flat and nested) and invocations."
RULE = ("A case is a specification with an invocation; non-trivial when the invocation holds at least two groups, one of them a keyword "
        "group with values.")
ASSUMPTIONS = ["Keywords are declared in upper case, as in the documentation; an invocation gives the declared number of arguments."]

KW = ["HEADERS", "SOURCES", "DEPENDS", "OUTPUT", "NAME", "TARGETS", "MODE", "OPTIONS", "X", "LONG_KEYWORD_NAME"]
FLAGS = ["BAR", "BAZ", "QUIET", "EXCLUDE_FROM_ALL", "Q"]
SUBKW = ["SUBKEY", "ITEM", "PROPS", "Y"]
SUBFLAGS = ["SF", "FAST"]
PLAIN = ["a", "b1", "foo.cc", "${VAR}", "\"x y\"", "lib/z.h", "value", "42", "-O2", "[[br]]", "some_long_argument_name", "$<0:x>", "V-1"]


def nargs(s, zero=True):
  k = s.w((4, "*"), (3, "+"), (3, "int"), (2, "?"), (1, "n+"), (1, "str"))
  if k == "int":
    return s.i(0 if zero else 1, 4)
  if k == "n+":
    return "%d+" % s.i(1, 3)
  if k == "str":
    return "%d" % s.i(1, 3)
  return k


def how_many(s, n):
  if n == "*":
    return s.many(0, 7, 60)
  if n == "+":
    return s.many(1, 7, 60)
  if n == "?":
    return s.i(0, 1)
  if isinstance(n, str) and n.endswith("+"):
    return int(n[:-1]) + s.many(0, 4, 50)
  return int(n)


def exact(n):
  return isinstance(n, int) or n.isdigit()


def full(n):
  """does a group end after so many arguments?"""
  return n == "?" or exact(n)


def casing(s, w):
  return s.w((6, w), (2, w.lower()), (1, w.capitalize()))


def words(s, n):
  return [["arg", s.pick(PLAIN)] for _ in range(n)]


def positional(s, flags):
  """(declaration, is legacy, nargs)"""
  n = nargs(s)
  form = s.w((4, "scalar"), (3, "dict"), (2, "list"))
  if form == "scalar":
    return n, {"flags": flags} if flags else {}, n, form
  d = {"nargs": n}
  if flags:
    d["flags"] = flags
  return (d if form == "dict" else [d]), {}, n, form


def spec_and_call(s, kws, flags, depth):
  """-> (specification, groups): a group is ["pos", words] or ["kw", NAME, written, groups]"""
  kws = s.sub(kws, 40)
  flags = s.sub(flags, 40)
  decl, extra, n, form = positional(s, flags)
  spec = {}
  if not (n == "*" and form == "scalar" and s.p(50)):
    spec["pargs"] = decl
  spec.update(extra)
  kw = {}
  groups = []
  first = words(s, how_many(s, n))
  if flags and not exact(n) and (n != "?" or form == "scalar") and s.p(50):
    for f in s.sub(flags, 50):
      first.insert(s.i(0, len(first)), ["flag", casing(s, f)])
  elif flags and exact(n) and form == "scalar" and n not in (0, "0") and s.p(50):
    first += [["flag", casing(s, f)] for f in s.sub(flags, 60)]
  if first:
    groups.append(["pos", first])
  for k in kws:
    sub, subgroups = None, []
    if depth and s.p(30):
      sub, subgroups = spec_and_call(s, SUBKW, SUBFLAGS, 0)
    else:
      m = nargs(s, zero=True)
      form2 = s.w((5, 0), (1, 1), (1, 2))
      sub = m if form2 == 0 else {"pargs": m} if form2 == 1 else {"pargs": {"nargs": m}}
      ws = words(s, how_many(s, m))
      if exact(m) and ws and s.p(6):
        ws[s.i(0, len(ws) - 1)] = ["arg", s.pick(["HEADERS", "SOURCES", "BAR"])]
      subgroups = [["pos", ws]] if ws else []
    kw[k] = sub
    for _ in range(s.w((6, 1), (2, 0), (1, 2))):
      groups.append(["kw", k, casing(s, k), subgroups])
  if kw:
    spec["kwargs"] = kw
  if len(groups) > 1:
    head = groups[:1] if groups[0][0] == "pos" else []
    groups = head + s.shuffle(groups[len(head):])
  # flags between and after the keyword groups: only a scalar declaration is
  # valid everywhere
  if flags and form == "scalar" and s.p(50):
    for f in s.sub(flags, 50):
      if exact(n) and int(n) > 0 and (not groups or groups[0][0] != "pos"):
        break
      at = s.i(1, len(groups)) if groups and exact(n) and int(n) > 0 else s.i(0, len(groups))
      groups.insert(at, ["pos", [["flag", casing(s, f)]]])
  return spec, groups


def several_pargs(s):
  """Several positional specifications, each with flags of its own"""
  pool = s.shuffle(FLAGS)
  pargs, words_ = [], []
  for k in range(s.i(2, 4)):
    n = s.w((3, "*"), (2, "+"), (2, s.i(1, 3)), (1, "?")) if k else s.w((2, s.i(1, 3)), (2, "+"), (1, "*"), (2, "?"))
    flags = [] if full(n) else [pool.pop() for _ in range(s.i(0, 2)) if pool]
    last = words_[-1:] and words_[-1][0]
    mine = []
    if not full(n) and k and not full(pargs[-1]["nargs"]):
      # the group before ends at the first flag of this one
      if not flags:
        flags = [pool.pop()] if pool else []
      if not flags or (n == "*" and s.p(25)):
        if not flags:
          break
        pargs.append({"nargs": n, "flags": flags})
        # nothing for this one
        continue
      mine.append(["flag", casing(s, flags[0])])
    elif full(n) and k and not full(pargs[-1]["nargs"]):
      # would never be reached
      break
    mine += words(s, 1) if n == "?" else words(s, how_many(s, n)) if not (mine and n == "+") else words(s, s.i(0, 3))
    if flags:
      for f in s.sub(flags, 40):
        mine.insert(s.i(1 if mine and mine[0][0] == "flag" else 0, len(mine)), ["flag", casing(s, f)])
    d = {"nargs": n}
    if flags:
      d["flags"] = flags
    pargs.append(d)
    words_ += mine
  spec = {"pargs": pargs}
  groups = [["pos", words_]] if words_ else []
  kw = {}
  for k in s.sub(KW, 25):
    m = nargs(s)
    kw[k] = m
    ws = words(s, how_many(s, m))
    groups.append(["kw", k, casing(s, k), [["pos", ws]] if ws else []])
  if kw:
    spec["kwargs"] = kw
  return spec, groups


def merge(groups):
  """neighbouring positional groups are one"""
  out = []
  for g in groups:
    if g[0] == "pos" and out and out[-1][0] == "pos":
      out[-1] = ["pos", out[-1][1] + g[1]]
    elif g[0] == "kw":
      out.append(["kw", g[1], g[2], merge(g[3])])
    else:
      out.append(g)
  return out


def flat(groups):
  out = []
  for g in groups:
    if g[0] == "pos":
      out += [w for _, w in g[1]]
    else:
      out += [g[2]] + flat(g[3])
  return out


def flat_kinds(groups):
  out = []
  for g in groups:
    if g[0] == "pos":
      out += [(k, w) for k, w in g[1]]
    else:
      out += [("kw", g[2])] + flat_kinds(g[3])
  return out


def actual(tree):
  from cmakelang.lex import Token
  from cmakelang.parse.common import NodeType
  out = []
  for c in tree.children:
    if isinstance(c, Token):
      continue
    if c.node_type is NodeType.PARGGROUP:
      ws = []
      for x in c.children:
        if not isinstance(x, Token) and x.node_type in (NodeType.FLAG, NodeType.ARGUMENT):
          ws.append(["flag" if x.node_type is NodeType.FLAG else "arg", x.get_tokens(kind="semantic")[0].spelling])
      out.append(["pos", ws])
    elif c.node_type is NodeType.KWARGGROUP:
      word = c.keyword.token.spelling
      out.append(["kw", word.upper(), word, actual(c.body) if c.body is not None else []])
  return merge([g for g in out if g[0] == "kw" or g[1]])


def oracle_group(case, rec):
  from cmakelang.lex import Token
  name, spec, groups = case["name"], case["spec"], case["groups"]
  text = case["text"]
  cfg = {"parse": {"additional_commands": {name: spec}}}
  pin = ref_parse_input(text)
  _, tree = parsed(text, cfg)
  stmt = [c for c in tree.children if not isinstance(c, Token) and hasattr(c, "argtree")][0]
  want = merge(groups)
  got = actual(stmt.argtree)
  if got != want:
    raise Violation("%s\nspecification %r\ndeclared grouping %r\nparsed grouping   %r" % (text, spec, want, got))
  # letter case of keywords and flags, and of nothing else
  kinds = flat_kinds(want)
  for kc in ("upper", "lower"):
    out = sut.fmt(text, dict(cfg, format={"keyword_case": kc}))[0]
    args = cmds(ref_parse(out))[0].args
    exp = [getattr(w, kc)() if k != "arg" else w for k, w in kinds]
    if [a for _, a in args] != exp:
      raise Violation("keyword_case=%s gives %r instead of %r" % (kc, [a for _, a in args], exp))
  # written vertically, the positional groups and keywords at the top level start lines
  out = sut.fmt(text, dict(cfg, format={"max_subgroups_hwrap": 0, "line_width": 200}))[0]
  c = cmds(ref_parse(out))[0]
  starts, k = [], 0
  for g in want:
    starts.append(k)
    k += len(flat([g]))
  prev = None
  lines = out.split("\n")
  for n, t in enumerate(c.argtoks):
    first = lines[t.line - 1][:t.col].strip() in ("", c.name + "(", c.name + " (")
    if n in starts and len(want) > 1 and not first and not (n and want[starts.index(n)][0] == "pos"):
      raise Violation("group %d does not start a line\n%s" % (starts.index(n), out))
  rec.nontrivial(len(want) > 1 and any(g[0] == "kw" and g[3] for g in want))
  for g in want:
    rec.label(g[0])
    if g[0] == "kw" and any(x[0] == "kw" for x in g[3]):
      rec.label("nested")
  if any(k == "flag" for k, _ in kinds):
    rec.label("flag")


def gen_group(s):
  name = s.w((3, "foo"), (1, "my_command"), (1, "Mixed_Case"))
  spec, groups = several_pargs(s) if s.p(30) else spec_and_call(s, KW, FLAGS, 1)
  ws = flat(groups)
  sep = s.w((3, " "), (1, "\n  "))
  return {"name": name, "spec": spec, "groups": groups,
          "text": s.w((3, name), (1, name.upper()), (1, name.lower())) + "(" + sep.join(ws) + ")\n"}


def gen_fields(s):
  """A group of arguments with options in its specification, directly in the command or in a keyword"""
  n = s.w((3, "*"), (2, "+"), (2, "int"), (1, "n+"))
  count = s.i(1, 9)
  n = count if n == "int" else "%d+" % s.i(1, count) if n == "n+" else n
  opts = {}
  if s.p(60):
    opts["max_pargs_hwrap"] = s.w((2, 0), (3, s.i(1, 4)), (1, s.i(5, 12)))
  if s.p(40):
    opts["sortable"] = s.p(80)
  if s.p(25):
    opts["tags"] = ["cmdline"]
  elif s.p(15):
    opts["tags"] = ["file-list"]
  if s.p(25):
    opts["flags"] = s.sub(FLAGS, 40)
  top = {}
  if s.p(40):
    top["max_subgroups_hwrap"] = s.i(0, 3)
  pool = PLAIN + ["zeta", "Alpha", "argument_number_%d" % s.i(1, 9), "third/file_name.cc", "b/c/d.cc"]
  args = [s.pick(pool) for _ in range(count)]
  where = s.w((2, "command"), (2, "keyword"))
  fmtcfg = {"line_width": s.w((3, 80), (2, s.i(20, 60)), (1, 200)), "autosort": s.p(50), "max_rows_cmdline": s.i(1, 3),
            "max_subgroups_hwrap": s.i(0, 4), "max_pargs_hwrap": s.i(0, 8)}
  return {"nargs": n, "opts": opts, "top": top, "args": args, "where": where, "format": fmtcfg, "later": s.sub(sorted(opts), 50),
          "more": s.i(0, 2)}


def fields_text(case):
  more = "".join(" %s x%d y" % (k, i) for i, k in enumerate(["NAME", "MODE"][:case["more"]]))
  if case["where"] == "command":
    return "foo(%s%s)\n" % (" ".join(case["args"]), more)
  return "foo(OPTIONS %s%s)\n" % (" ".join(case["args"]), more)


def oracle_fields(case, rec):
  """All ways of writing a specification mean the same"""
  text = fields_text(case)
  ref_parse_input(text)
  n, opts, top = case["nargs"], case["opts"], case["top"]
  inkw = case["where"] == "keyword"

  def run(pargs, override=None, top=top, fmtcfg=None, pairs=False, nest=False):
    kw = {"NAME": 2, "MODE": "+"}
    spec = dict(top)
    if inkw:
      kw["OPTIONS"] = {"pargs": pargs}
    else:
      spec["pargs"] = pargs
    spec["kwargs"] = sorted(([k, v] for k, v in kw.items()), key=repr) if pairs else kw
    parse = {"additional_commands": {"foo": spec}}
    if override:
      parse["override_spec"] = override
    return sut.fmt(text, {"parse": parse, "format": dict(case["format"], **(fmtcfg or {}))})

  want = run(dict(opts, nargs=n))
  path = "foo/OPTIONS" if inkw else "foo"
  early = {k: v for k, v in opts.items() if k not in case["later"]}
  ways = {
      "a list with options": run([[n, opts]]),
      "a list of one": run([dict(opts, nargs=n)]),
      "options in place": run([[n, opts.get("sortable", False), opts.get("tags", []), opts.get("flags", []), False, opts.get("max_pargs_hwrap")]]),
      "overrides of %s" % case["later"]: run(dict(early, nargs=n), {"%s/parg[0].%s" % (path, k): opts[k] for k in case["later"]}),
      "an override of the number": run(dict(opts, nargs="1+"), {"%s/parg[0].nargs" % path: n}),
      "keywords as pairs": run(dict(opts, nargs=n), pairs=True),
  }
  if n == "*":
    ways["no number"] = run(dict(opts))
  if top:
    ways["an override of %s" % sorted(top)] = run(dict(opts, nargs=n), {"foo.%s" % k: v for k, v in top.items()}, top={})
  for way, got in sorted(ways.items()):
    if got != want:
      raise Violation("%s\nspecification %r\nas a dictionary %r\nwith %s %r" % (text, dict(opts, nargs=n), want, way, got))
  # what the options mean: they take the place of those of the configuration, here
  if top and not inkw and not case["more"]:
    got = run(dict(opts, nargs=n), top={}, fmtcfg={"max_subgroups_hwrap": top["max_subgroups_hwrap"]})
    if got != want:
      raise Violation("%s\n%r: %r\nthe same in the configuration %r" % (text, top, want, got))
  if "max_pargs_hwrap" in opts and not case["more"]:
    rest = {k: v for k, v in opts.items() if k != "max_pargs_hwrap"}
    got = run(dict(rest, nargs=n), fmtcfg={"max_pargs_hwrap": opts["max_pargs_hwrap"]})
    if got != want:
      raise Violation("%s\nmax_pargs_hwrap=%r: %r\nthe same in the configuration %r" % (text, opts["max_pargs_hwrap"], want, got))
  out = [a for _, a in cmds(ref_parse(want[0]))[0].args]
  given = [a for _, a in cmds(ref_parse_input(text))[0].args]
  if opts.get("sortable") and case["format"]["autosort"]:
    at = 1 if inkw else 0
    end = at + len(case["args"])
    exp = given[:at] + sorted(given[at:end], key=lambda a: a.lower()) + given[end:]
  else:
    exp = given
  # (file lists are not sorted unless they are declared so)
  if [a.lower() for a in out] != [a.lower() for a in exp]:
    raise Violation("%s\n%r\narguments %r instead of %r" % (text, opts, out, exp))
  rec.nontrivial(bool(opts) and len(case["args"]) > 1)
  for k in opts:
    rec.label(k)
  rec.label(case["where"])


def oracle_other(case, rec):
  """the declaration affects no other command"""
  text, cfg = case["text"], case["cfg"]
  pin = ref_parse_input(text)
  if any(c.name.lower() == case["name"].lower() for c in cmds(pin)):
    raise Skip("the command occurs")
  plain = sut.fmt(text, cfg)
  decl = sut.fmt(text, dict(cfg, parse={"additional_commands": {case["name"]: case["spec"]}}))
  if plain != decl:
    raise Violation("declaring %s changes the output for other commands\n%s\n%s" % (case["name"], plain[0], decl[0]))
  rec.nontrivial(plain[0] != text)


def gen_other(s):
  spec, _ = spec_and_call(s, KW, FLAGS, 1)
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=1))
  return {"name": s.pick(["zap", "Other_Command"]), "spec": spec, "text": g.listfile(), "cfg": gen.config(s)}


SUBS = [Sub("fields", gen_fields, oracle_fields, 700, 20000, 200),
        Sub("group", gen_group, oracle_group, 1600, 60000, 200),
        Sub("other", gen_other, oracle_other, 400, 10000, 100)]
