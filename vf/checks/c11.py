"""C11 sorting is an opt-in ordered permutation"""
from vf import gen, sut
from vf.checks.common import cmds, diff, ref_parse, ref_parse_input
from vf.engine import Skip, Sub, Violation

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated argument lists with tags and comments in sortable and other commands; oracle: stable case-insensitive "
             "sort of the list, everything else as without sorting; metamorphic check (autosort on and off) over generated listfiles")
LEVEL_NOTE = "Random exploration."
RULE = "A case is a statement with a list of arguments; non-trivial when the list is not in order already (and the order is to change or to be kept)."
ASSUMPTIONS = ["The order is that of the lower case text of the arguments as they are written, quotes included.",
               "A variable reference in the place of the type or of a flag hides the form of add_library and add_executable: nothing is inferred."]

POOL = ["b.cc", "a.cc", "A.cc", "B.cc", "c.h", "C.h", "src/z.cc", "src/Z.h", "\"x y.cc\"", "\"A b.cc\"", "${SRCS}", "${a}/b.cc", "z", "10.cc", "9.cc",
        "_x.cc", "é.cc", "É.cc", "[[br.cc]]", "$<TARGET_OBJECTS:x>", "a-b.cc", "a_b.cc", "ab.cc", "Zed.cc", "../up.cc", "a.cc", "\"\"", "-flag", "x.y",
        "x${b}.cc", "src/${X}.cc", "lib${N}"]
PLAIN = [p for p in POOL if "$" not in p]
COMMENTS = ["# one", "# two words", "# a.cc", "# Zed", "# 1", "# note: x"]
TAGS_ON = ["sortable", "sort", "Sort", "SORTABLE"]
TAGS_OFF = ["unsortable", "unsort", "Unsort"]


def tag(s, words):
  w = s.pick(words)
  return s.pick(["# cmake-format: %s", "# cmf: %s", "#cmf: %s", "#[[cmake-format: %s]]", "#[[cmf:%s]]", "#[=[cmf: %s]=]"]) % w


def render(s, head, items, tail, tagtext):
  """statement text. items: [argument, trailing comment, own-line comment before it]"""
  out = head
  if tagtext:
    out += s.pick([" ", "\n  "]) + tagtext + ("\n" if tagtext.startswith("#[") is False else s.pick([" ", "\n"]))
  for arg, com, own in items:
    if own:
      out += "\n  " + own + "\n"
    out += s.pick([" ", "\n    "]) + arg
    if com:
      out += " " + com + "\n"
  for t in tail:
    out += s.pick([" ", "\n"]) + t
  return out + ")\n"


FORMS = ["add_library", "add_executable", "library_other", "set", "list", "foo", "kw", "plain", "spec", "kwspec"]


def gen_list(s):
  form = s.w((4, "add_library"), (4, "add_executable"), (2, "library_other"), (3, "set"), (1, "list"), (2, "foo"), (2, "kw"), (2, "plain"), (2, "spec"),
             (1, "kwspec"))
  n = s.i(2, 8)
  pool = POOL if s.p(60) else PLAIN
  items = []
  for _ in range(n):
    items.append([s.pick(pool), s.pick(COMMENTS) if s.p(25) else "", s.pick(COMMENTS) + " own" if s.p(8) else ""])
  items[0][2] = ""
  t = s.w((4, None), (3, True), (2, False))
  if form in ("spec", "kwspec") and t is True:
    # a tag in front of the first argument of a command is not part of a list
    t = None
  autosort = s.w((5, True), (2, False))
  enable = s.w((6, None), (1, True), (1, False))
  head, tail, lead = "", [], 0
  sortable = False        # True, False or None for either
  cfg = {}
  if form == "add_library":
    flags = ([s.pick(["STATIC", "SHARED", "MODULE", "static", "Shared"])] if s.p(60) else []) + (["EXCLUDE_FROM_ALL"] if s.p(25) else [])
    head = "add_library(" + " ".join(["tgt"] + flags)
    lead = 1 + len(flags)
    words = (flags + [i[0] for i in items])[:2]
    sortable = not any("${" in w for w in words)
  elif form == "add_executable":
    flags = [f for f in ("WIN32", "MACOSX_BUNDLE", "EXCLUDE_FROM_ALL") if s.p(25)]
    head = "add_executable(" + " ".join(["tgt"] + flags)
    lead = 1 + len(flags)
    sortable = "${" not in (flags + [i[0] for i in items])[0]
  elif form == "library_other":
    # forms without a list of sources to infer
    kind = s.pick(["OBJECT", "INTERFACE", "IMPORTED", "ALIAS", "SHARED IMPORTED"])
    head = "add_library(tgt " + kind
    lead = 1 + len(kind.split())
    sortable = None if kind == "OBJECT" else False
    if kind != "OBJECT":
      t = None
  elif form == "set":
    head, lead = "set(SOURCES", 1
    if s.p(25):
      tail = ["PARENT_SCOPE"]
    elif s.p(15):
      tail = ["CACHE", "STRING", "\"doc\""]
  elif form == "list":
    head, lead = "list(APPEND SOURCES", 2
    t = None
  elif form == "plain":
    head, lead = s.pick([("message(STATUS", 1), ("target_sources(t PRIVATE", 2), ("string(CONCAT v", 2), ("unknown_cmd(q", 1),
                         ("add_custom_target(t DEPENDS", 2), ("install(FILES", 1), ("target_link_libraries(t PUBLIC", 2)])
    t = None
  else:
    decl = {"kwargs": {"SOURCES": "*", "OTHER": "*"}}
    if form == "spec":
      decl["pargs"] = {"nargs": "*", "sortable": True}
      sortable = True
    if form == "kwspec":
      decl["kwargs"]["SOURCES"] = {"pargs": {"nargs": "*", "sortable": True}}
      sortable = True
    cfg["parse"] = {"additional_commands": {"foo": decl}}
    if form in ("foo", "spec"):
      head, lead = "foo(", 0
    else:
      head, lead = s.pick([("foo(x SOURCES", 2), ("foo(SOURCES", 1), ("foo(z a SOURCES", 3)])
    if s.p(50) and form != "kw" or form in ("foo", "kw") and s.p(40):
      tail = ["OTHER", "z", "a", "Q"]
  if t is not None:
    sortable = t
  if s.p(5):
    items = [[i[0], "", ""] for i in items]
  text = render(s, head, items, tail, tag(s, TAGS_ON if t else TAGS_OFF) if t is not None else "")
  if text.startswith("foo( "):
    text = "foo(" + text[5:]
  f = {"line_width": s.pick([200, 200, 80])}
  if s.p(30):
    f["max_pargs_hwrap"] = s.i(0, 9)
  f["autosort"] = autosort
  if enable is not None:
    f["enable_sort"] = enable
  cfg["format"] = f
  return {"form": form, "text": text, "cfg": cfg, "lead": lead, "items": items, "tail": tail, "sortable": sortable}


def trailing_of(c, k):
  """text of the comments that follow argument k on its line"""
  line = c.argtoks[k].line + c.argtoks[k].text.count("\n")
  return [t.text for t in c.commenttoks if t.line == line and t.pos > c.argtoks[k].pos
          and (k + 1 == len(c.argtoks) or t.pos < c.argtoks[k + 1].pos)]


def oracle_list(case, rec):
  text, cfg, items = case["text"], case["cfg"], case["items"]
  f = cfg["format"]
  pin = ref_parse_input(text)
  cin = cmds(pin)[0]
  lead, n = case["lead"], len(items)
  words = [i[0] for i in items]
  if [a for _, a in cin.args[lead:lead + n]] != words:
    raise Skip("the list is not where it should be")
  out = sut.fmt(text, cfg)[0]
  c = cmds(ref_parse(out))[0]

  def fail(msg):
    raise Violation("%s\n%s\n%s\n%r" % (msg, text, out, cfg))

  got = [a for _, a in c.args]
  before, after = [a for _, a in cin.args[:lead]], [a for _, a in cin.args[lead + n:]]
  if got[:lead] != before or got[lead + n:] != after:
    fail("arguments outside of the list changed")
  pairs = sorted(items, key=lambda i: i[0].lower())
  active = f["autosort"] and f.get("enable_sort", True) and case["sortable"]
  have = got[lead:lead + n]
  if active is None and have == [i[0] for i in pairs]:
    active = True
  want = pairs if active else items
  if have != [i[0] for i in want]:
    fail("%s is written in place of %s" % (have, [i[0] for i in want]))
  # trailing comments stay with their arguments
  if all(not i[2] for i in items):
    for k, item in enumerate(want):
      there = trailing_of(c, lead + k)
      if item[1] and there != [item[1]]:
        fail("%s is followed by %s instead of %s" % (item[0], there, item[1]))
      if not item[1] and there:
        fail("%s is followed by %s" % (item[0], there))
  else:
    a = sorted(t.text for t in c.commenttoks)
    joined = " ".join(a)
    for i in items:
      for com in i[1:]:
        if com and com.lstrip("#! ") not in joined:
          fail("comment %s is missing" % com)
  if active and sut.fmt(out, cfg)[0] != out and all(not i[2] for i in items):
    fail("sorting again changes the text")
  rec.nontrivial(words != [i[0] for i in pairs])
  rec.label(case["form"])
  if active and words != [i[0] for i in pairs]:
    rec.label("sorted")
  if len(set(w.lower() for w in words)) < n:
    rec.label("ties")
  if any(i[1] for i in items):
    rec.label("trailing")


def oracle_off(case, rec):
  """nothing but add_library, add_executable and what is declared sortable is sorted without a tag"""
  text, cfg = case["text"], case["cfg"]
  pin = ref_parse_input(text)
  low = text.lower()
  if "sort" in low:
    raise Skip("may have a tag")
  f = dict(cfg.get("format", {}))
  base = dict(cfg, format=dict(f, autosort=False))
  a = sut.fmt(text, base)[0]
  names = set(c.name.lower() for c in cmds(pin))
  declared = cfg.get("parse", {}).get("additional_commands", {})
  lists = {"add_library", "add_executable"} | set(n.lower() for n, spec in declared.items() if "sortable" in str(spec))
  off = sut.fmt(text, dict(cfg, format=dict(f, autosort=True, enable_sort=False)))[0]
  if off != a:
    raise Violation("enable_sort is off, but\n%s" % diff(a, off))
  if not names & lists:
    b = sut.fmt(text, dict(cfg, format=dict(f, autosort=True)))[0]
    if a != b:
      raise Violation("autosort changes statements without a list to sort\n%s" % diff(a, b))
    rec.label("no_list")
  else:
    b = sut.fmt(text, dict(cfg, format=dict(f, autosort=True)))[0]
    for x, y in zip(cmds(ref_parse(a)), cmds(ref_parse(b))):
      if x.name.lower() in lists:
        if sorted(x.args) != sorted(y.args):
          raise Violation("sorting lost arguments\n%s" % diff(a, b))
        if x.args != y.args:
          rec.label("sorted")
      elif x.args != y.args:
        raise Violation("sorting reached another statement\n%s" % diff(a, b))
  rec.nontrivial(any(len(c.args) > 2 for c in cmds(pin)))


def gen_off(s):
  commands = None
  if s.p(30):
    commands = ["add_library", "add_executable", "set", "message"]
  g = gen.Gen(s, gen.Prof(stmts=(1, 5), max_depth=2, sort_tags=0, commands=commands))
  cfg = gen.config(s, rare=25)
  return {"text": g.listfile(), "cfg": cfg}


SUBS = [Sub("list", gen_list, oracle_list, 3500, 120000, 250),
        Sub("off", gen_off, oracle_off, 600, 20000, 100)]
