"""C41 generated parser specifications describe the defined commands"""
import ast
import json

from vf import cli, sut
from vf.checks.c15 import parsed
from vf.checks.c24 import actual, flat, merge
from vf.checks.common import ref_parse_input
from vf.engine import Sub, Violation

ID = "C41"
LEVEL = "exploration"
TECHNIQUE = ("model-based: Hypothesis generates definitions (arguments, flags, keywords) and renders them as listfiles in varied spellings; "
             "the output of cmake-genparsers is read back and compared with the definitions, and invocations are grouped with it as "
             "additional_commands")
LEVEL_NOTE = ("Random exploration over listfiles of definitions, output formats and files. The lists of keywords are literals or set by set() "
              "in the same definition; list() is not interpreted by the tool.")
RULE = ("A case is a run over one to three listfiles; non-trivial when two definitions are expected, of which one has keywords with values.")
ASSUMPTIONS = ["Definitions whose names begin with an underscore are private and left out.", "Keywords are written in upper case by the "
               "tool, and match without regard to letter case."]

NAMES = ["foo", "my_function", "add_thing", "Mixed_Name", "camelCase", "UPPER", "x", "set_it", "foo2", "get_all_of_them", "Bar", "zap",
         "listify", "if_any", "_private", "_Also", "functions", "mac"]
ARGS = ["a", "b", "name", "OUT_VAR", "target", "SOURCES", "x_1", "PREFIX"]
KW = ["ALL", "QUIET", "OPTIONAL", "OUTPUT", "SOURCES", "NAME", "DEPENDS", "A", "B_2", "TYPE", "LONG_KEYWORD_NAME", "V", "FORCE", "MODE",
      "COMMAND", "WORKING_DIRECTORY"]
LOWER = ["files", "Mixed", "out_var"]
PLAIN = ["q", "b1", "foo.cc", "${VAR}", "\"x y\"", "lib/z.h", "42", "-O2", "[[br]]"]


def listing(s, words, var):
  """-> (statements before, the argument that holds the words)"""
  k = s.w((4, "quoted"), (2, "bracket"), (4, "set"), (2, "setquoted"), (2, "mixed"), (1, "chain"), (1, "nested"), (1, "indirect"), (1, "ghost"))
  if not words:
    k = s.w((4, "quoted"), (1, "set"), (1, "setquoted"))
  joined = ";".join(words)
  ref = s.w((3, '"${%s}"' % var), (1, "${%s}" % var)) if words else '"${%s}"' % var
  if k == "quoted":
    return [], s.w((5, '"%s"' % joined), (1, joined)) if len(words) == 1 else '"%s"' % joined
  if k == "bracket":
    return [], "[[%s]]" % joined
  if k == "set":
    sep = s.w((4, " "), (2, "\n      "), (1, " # c\n      "))
    return [s.pick(["set", "SET", "Set"]) + "(" + sep.join([var] + words) + ")"], '"${%s}"' % var
  if k == "setquoted":
    return ['set(%s "%s")' % (var, joined)], ref
  if k == "nested":
    # the name of the variable depends on another one
    return ["set(kind_%s %s)" % (var, s.pick(["one", "A", "x_y"]))] + ["set(%s_%s %s)" % (var, w, " ".join(words)) for w in ("A", "x_y", "one")], \
        '"${%s_${kind_%s}}"' % (var, var)
  if k == "indirect":
    return ["set(where_%s %s)" % (var, var), "set(${where_%s} %s)" % (var, " ".join(words))], ref
  if k == "mixed":
    n = s.i(0, len(words))
    before = ["set(%s %s)" % (var, " ".join(words[:n]))] if n else ["set(%s)" % var]
    if n == len(words) or not n:
      return ["set(%s %s)" % (var, " ".join(words))], '"${%s}"' % var
    return before, '"${%s};%s"' % (var, ";".join(words[n:]))
  if k == "ghost":
    return [], '"%s;${ghost%d}"' % (joined, s.i(1, 3)) if s.p(50) else '"${ghost%d};%s"' % (s.i(1, 3), joined)
  n = s.i(0, len(words))
  if not n or n == len(words):
    return ['set(%s "%s")' % (var, joined)], '"${%s}"' % var
  return ["set(%s %s)" % (var, " ".join(words[:n])), 'set(%s ${%s} %s)' % (var, var, " ".join(words[n:]))], '"${%s}"' % var


NOISE = ["message(STATUS x)", "# comment", "set(other OTHER WORDS)", 'if(a)\n  message("b;c")\n  endif()', "", "list(APPEND other Q)",
         "foo_bar(FLAG x)", "set_property(TARGET a PROPERTY B c)", "#[[x]]", "return()", "set(unused)"]


def definition(s, name, depth, pool):
  """-> (lines, [models])"""
  d = {"name": name, "args": s.sub(ARGS, 30)[:4], "parse": s.p(65)}
  kind = s.pick(["function", "macro"])
  spell = s.w((5, kind), (2, kind.upper()), (1, kind.capitalize()))
  sep = s.w((6, " "), (1, "\n    "), (1, " # c\n   "))
  shown = s.w((8, name), (1, '"%s"' % name))
  out = [spell + s.pick(["", "", " "]) + "(" + s.w((8, ""), (1, "# c\n  ")) + sep.join([shown] + d["args"]) + ")"]
  models = [d]
  kws = s.shuffle(KW + (LOWER if s.p(15) else []))
  d["flags"], d["one"], d["multi"] = [], [], []

  def noise():
    for _ in range(s.w((3, 0), (2, 1), (1, 3))):
      out.append("  " + s.pick(NOISE))

  def nested():
    if depth < 2 and pool and s.p(15):
      lines, ms = definition(s, pool.pop(), depth + 1, pool)
      out.extend("  " + l for l in lines)
      models.extend(ms)

  noise()
  nested()
  if d["parse"]:
    d["flags"], d["one"], d["multi"] = [[kws.pop() for _ in range(s.w((2, 0), (3, 1), (2, s.i(2, 4))))] for _ in range(3)]
    refs = []
    for k, var in (("flags", "opts"), ("one", "one_value"), ("multi", "multiValueArgs")):
      pre, ref = listing(s, d[k], var)
      out.extend("  " + p for p in pre)
      refs.append(ref)
      noise()
    call = s.w((5, "cmake_parse_arguments"), (2, "CMAKE_PARSE_ARGUMENTS"))
    argv = s.p(25)
    head = ["PARSE_ARGV", str(len(d["args"]))] if argv else []
    prefix = s.pick(["ARG", "_arg", "\"\"", '"${prefix}"', "FOO"])
    sep = s.w((5, " "), (2, "\n    "), (1, " # c\n    "))
    inner = call + "(" + sep.join(head + [prefix] + refs + ([] if argv else [s.pick(["${ARGN}", "\"${ARGN}\""])])) + ")"
    wrap = s.w((7, None), (1, "if(x)"), (1, "foreach(y a b)"))
    if wrap:
      out += ["  " + wrap, "    " + inner, "  " + ("endif()" if wrap.startswith("if") else "endforeach()")]
    else:
      out.append("  " + inner)
  if d["parse"] and s.p(20):
    # the variable of the caller is another one
    out.insert(len(out) - (3 if wrap else 1), "  set(%s OUTER PARENT_SCOPE)" % s.pick(["opts", "one_value", "multiValueArgs"]))
  noise()
  nested()
  if s.p(15):
    # later than the call, or elsewhere: without effect
    out.append('  set(opts LATER)')
  if s.p(25):
    # of this definition only
    out.append("  set(ghost%d GHOST)" % s.i(1, 3))
  if d["parse"] and s.p(10):
    out.append('  cmake_parse_arguments(SECOND "Q1;Q2" "Q3" "%s" ${ARGN})' % s.pick(["", "Q4"]))
  end = s.w((5, "end" + kind), (1, "END" + kind.upper()))
  out.append(end + "(" + s.w((3, ""), (1, name)) + ")")
  return out, models


def gen_run(s):
  pool = []
  for n in s.shuffle(NAMES):
    if n.lower() not in [p.lower() for p in pool]:
      pool.append(n)
  files, models = [], []
  for _ in range(s.w((4, 1), (2, 2), (1, 3))):
    lines = []
    for _ in range(s.w((1, 0), (4, 1), (4, 2), (2, 3))):
      lines += [s.pick(NOISE) for _ in range(s.w((3, 0), (2, 1)))]
      if not pool:
        break
      # the last definition of a name is the one that counts
      name = s.pick(models)["name"] if models and s.p(15) else pool.pop()
      ls, ms = definition(s, s.w((4, name), (1, name.upper())), 0, pool)
      w = s.w((7, None), (1, ("if(A)", "endif()")), (1, ("if(A)\nelse()", "endif()")), (1, ("foreach(i a)", "endforeach()")))
      lines += [w[0]] + ls + [w[1]] if w else ls
      models += ms
    nl = s.w((5, "\n"), (1, "\r\n"))
    files.append("\n".join(lines).replace("\n", nl) + s.pick([nl, nl, ""]))
  # an invocation of one of them
  call = None
  last = {m["name"].lower(): m for m in models}
  cands = [m for m in last.values() if m["parse"] and not m["name"].startswith("_")]
  if cands:
    m = s.pick(cands)
    groups = []
    n = len(m["args"]) + (s.i(0, 2))
    first = [["arg", s.pick(PLAIN)] for _ in range(n)]
    if first:
      groups.append(["pos", first])
    rest = []
    for f in s.sub(m["flags"], 60):
      rest.append(["pos", [["flag", f]]])
    for k in s.sub(m["one"], 60):
      rest.append(["kw", k.upper(), k, [["pos", [["arg", s.pick(PLAIN)]]]]])
    for k in s.sub(m["multi"], 60):
      rest.append(["kw", k.upper(), k, [["pos", [["arg", s.pick(PLAIN)] for _ in range(s.i(1, 4))]]]])
    rest = s.shuffle(rest)
    # a flag directly after many values is one of the keyword's values only if it is not declared
    call = {"name": m["name"], "groups": groups + rest}
  return {"files": files, "models": models, "call": call, "format": s.w((3, "json"), (2, "yaml"), (3, "python"), (1, None)),
          "out": s.p(40), "stdin": len(files) == 1 and s.p(20), "extra": s.w((8, None), (1, "missing"), (1, "binary"))}


def expected(models):
  out = {}
  for m in models:
    if m["name"].startswith("_"):
      continue
    n = len(m["args"])
    e = {"pargs": {"nargs": n}}
    if m["parse"]:
      e["pargs"]["nargs"] = "%d+" % n if n else "*"
      e["pargs"]["flags"] = [k.upper() for k in m["flags"]]
      e["kwargs"] = {k.upper(): 1 for k in m["one"]}
      e["kwargs"].update({k.upper(): "+" for k in m["multi"]})
    if m["name"] not in (m["name"].lower(), m["name"].upper()):
      e["spelling"] = m["name"]
    out[m["name"].lower()] = e
  return out


def plain(groups):
  """flags are told from arguments in front of the first keyword only"""
  out = []
  for k, g in enumerate(groups):
    out.append(["pos", [w for _, w in g[1]]] if g[0] == "pos" and k else g)
  return out


def read(data, fmt):
  text = data.decode("utf-8")
  if fmt == "json":
    return json.loads(text)
  if fmt == "yaml":
    import yaml
    return yaml.safe_load(text) or {}
  return ast.literal_eval(text)


def oracle(case, rec):
  for t in case["files"]:
    ref_parse_input(t)
  shown = "\n--- ".join([""] + case["files"])[:2500]
  with cli.Dir() as d:
    argv = []
    stdin = b""
    if case["stdin"]:
      stdin = case["files"][0].encode("utf-8")
      argv.append("-")
    else:
      for k, t in enumerate(case["files"]):
        argv.append(d.put("f%d.cmake" % k, t))
      if case["extra"] == "missing":
        argv.insert(0, d.p("missing.cmake"))
      elif case["extra"] == "binary":
        argv.insert(0, d.put("binary.cmake", b"set(a \xff\xfe)\n"))
    if case["format"]:
      argv += ["-f", case["format"]]
    if case["out"]:
      argv += ["-o", d.p("out.txt")]
    r = cli.run("cmake-genparsers", argv, stdin=stdin, cwd=d.path)
    bad = case["extra"] and not case["stdin"]
    if bool(r.rc) != bool(bad):
      raise Violation("exit status %s (%s)\n%s%s" % (r.rc, case["extra"], r.err.decode("utf-8", "replace")[-600:], shown))
    data = d.get("out.txt") if case["out"] else r.out
    if case["out"] and r.out:
      raise Violation("there is output on stdout as well: %r" % r.out[:200])
  try:
    got = read(data, case["format"] or "python")
  except (ValueError, SyntaxError) as ex:
    raise Violation("the output is not readable: %s\n%s%s" % (ex, data[:500], shown))
  want = expected(case["models"])
  got = {k: dict(v) for k, v in got.items()}
  if got != want:
    keys = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
    raise Violation("specification of %s: declared %r, generated %r%s" % (keys[0], want.get(keys[0]), got.get(keys[0]), shown))
  call = case["call"]
  if call:
    text = call["name"] + "(" + " ".join(flat(call["groups"])) + ")\n"
    from cmakelang.lex import Token
    _, tree = parsed(text, {"parse": {"additional_commands": got}})
    stmt = [c for c in tree.children if not isinstance(c, Token) and hasattr(c, "argtree")][0]
    have = actual(stmt.argtree)
    if plain(have) != plain(merge(call["groups"])):
      raise Violation("%s\nspecification %r\ndeclared grouping %r\nparsed grouping   %r" % (
          text, got[call["name"].lower()], merge(call["groups"]), have))
  rec.nontrivial(len(want) > 1 and any(v.get("kwargs") for v in want.values()))
  rec.label("format_%s" % case["format"])
  if case["extra"]:
    rec.label(case["extra"])


SUBS = [Sub("run", gen_run, oracle, 1600, 40000, 200)]
