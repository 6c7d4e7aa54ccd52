"""Listfiles of which one thing is much larger than usual: what depends on a size shows there only"""
from vf import gen

SIZES = [12, 20, 35, 60, 100, 130, 200, 260, 300, 520]
WORDS = ["alpha", "beta", "gamma", "x", "long_name_of_something", "${var}", "src/file.cc", "\"quoted text\"", "-flag", u"\u00e9t\u00e9", "1"]
KINDS = ["args", "set", "kwargs", "groups", "stmts", "nest", "loops", "parens", "chain", "comment", "blocks", "argcomments", "word", "string",
         "lines", "names", "blank", "elseif"]


def number(s, top=520):
  n = s.pick([k for k in SIZES if k <= top])
  return max(2, n + s.i(-3, 3))


def gen_large(s, kinds=None):
  kind = s.pick(kinds or KINDS)
  word = lambda k: s.pick(WORDS) if k % 3 else "w%d" % k
  sep = s.pick([" ", "\n", "  ", "\n    "])
  if kind == "args":
    text = "%s(%s)\n" % (s.pick(["foo", "message", "my_function"]), sep.join(word(k) for k in range(number(s))))
  elif kind == "set":
    text = "set(x%s%s)\n" % (sep, sep.join(word(k) for k in range(number(s))))
  elif kind == "kwargs":
    text = "add_custom_target(t ALL%s%s%s)\n" % (sep, s.pick(["DEPENDS", "SOURCES", "BYPRODUCTS"]) + sep, sep.join("d%d" % k for k in range(number(s))))
  elif kind == "groups":
    text = "target_link_libraries(t%s%s)\n" % (sep, sep.join("%s l%d%s m%d" % (s.pick(["PUBLIC", "PRIVATE"]), k, sep, k) for k in range(number(s, 130))))
  elif kind == "stmts":
    text = "".join("%s( a%d %s)\n" % (s.pick(["foo", "set", "list"]), k, word(k)) for k in range(number(s)))
  elif kind == "nest":
    n = number(s, 35)
    text = "".join("if(a%d)\n" % k for k in range(n)) + "foo(a b)\n" + "endif()\n" * n
  elif kind == "loops":
    n = number(s, 35)
    opens = [s.pick(["foreach(i %d)", "while(x%d)", "function(f%d)", "macro(m%d)", "if(a%d)"]) for _ in range(n)]
    text = "".join(o % k + "\n" for k, o in enumerate(opens)) + "foo(a b)\n# text\n" + "".join(
        "end" + o[:o.index("(")] + "()\n" for o in reversed(opens))
  elif kind == "parens":
    n = number(s, 20)
    text = "if(%sa AND b%s)\nendif()\n" % ("(" * n, ")" * n)
  elif kind == "chain":
    text = "if(a%s)\nendif()\n" % "".join("%s%s %s" % (sep, s.pick(["AND", "OR"]), s.pick(["b%d", "NOT c%d", "d%d EQUAL 3", "(e%d)"]) % k) for k in range(number(s, 130)))
  elif kind == "comment":
    text = "".join("# %s\n" % (" ".join("w%d" % j for j in range(k, k + s.i(1, 9)))) for k in range(number(s)))
  elif kind == "blocks":
    text = "".join("# b%d w\n%s" % (k, s.pick(["#\n", "\n", "foo(%d)\n" % k])) for k in range(number(s, 300))) + "# end\n"
  elif kind == "argcomments":
    text = "foo(\n%s)\n" % "".join("a%d%s\n" % (k, " # c%d" % k if s.p(60) else "") for k in range(number(s, 130)))
  elif kind == "word":
    text = "foo(a %s b)\n# %s\n" % ("x" * (number(s) * 7), "y" * number(s))
  elif kind == "string":
    text = "foo(a \"%s\" b)\n" % " ".join("s%d" % k for k in range(number(s)))
  elif kind == "lines":
    n = number(s, 300)
    text = "foo(a %s b)\nbar()\n" % s.pick(["\"%s\"", "[[%s]]"]) % "\n".join(u"l%d \u00e9" % k for k in range(n))
  elif kind == "names":
    text = "".join("%s(%d)\n" % ("f" * s.i(1, 60), k) for k in range(number(s, 60)))
  elif kind == "blank":
    text = "foo()" + "\n" * number(s) + "# c" + "\n" * number(s) + "bar()\n"
  else:
    text = "if(a)\n" + "".join("elseif(b%d)\nfoo(%d)\n" % (k, k) for k in range(number(s, 200))) + "else()\nendif()\n"
  if s.p(40):
    text = "# first\n" + text
  if s.p(40):
    text += s.pick(["foo(a b)\n", "# last\n", "# cmake-format: off\nfoo(  a)\n# cmake-format: on\n", "set(x \"\")\n"])
  return {"text": text, "cfg": gen.config(s, rare=15, exclude=("autosort", "fence_pattern", "use_tabchars"))}
