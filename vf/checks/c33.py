"""C33 exit status and summary of cmake-lint are truthful"""
import json
import re

from vf import cli
from vf.checks import c31, lintcommon
from vf.engine import Sub, Violation

ID = "C33"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated sets of files (clean, with findings, unparsable, undecodable, missing, repeated) times output options; "
             "cmake-lint is run and its sections, summary, exit status and the files are compared with the findings of each file alone")
LEVEL_NOTE = "Random exploration; the composition of the report and the exit status are computed from the findings of each file in isolation."
RULE = "A case is one run of cmake-lint; non-trivial when files of at least two kinds are given."
ASSUMPTIONS = ["The content of the findings of one file is the subject of C30 to C32."]

CLEAN = ["set(FOO bar)\n", "", "\n", "# text\n", "if(FOO)\n  set(BAR baz)\nendif()\n", "message(STATUS \"hi\")\n\nset(A_B c)\n"]
BAD = ["set(foo\n", "if(a)\n)\n", "message(\"abc\n", "set(a b))\n", "foo(]]\n"]
DIRTY = ["set(foo bar)   \n", "message(x)", "# " + "x" * 90 + "\n", "break()\n", "function(f)\nendfunction()\n", "set(A b)\n\n\n\nset(C d)\n",
         "return()\nmessage(x)\n", "message(\"${Win32}\")\n", "  message(x)\n if(x)\n  endif()\n", "foreach(A b)\nendforeach()\n",
         "function(F A a A 1)\nendfunction()\n", "add_custom_command(OUTPUT \u00e9)\n# \u4e2d\n"]
NAMES = ["a.cmake", "CMakeLists.txt", "sub/CMakeLists.txt", "b c.cmake", "\u00e9.cmake", "A.cmake", "sub/a.cmake", "Sub/a.cmake", "a.cmake.in",
         "sub/sub/CMakeLists.txt", "cmakelists.txt", "a", "\u00c9.cmake"]

CODES = ["C0103", "C0111", "C0301", "C0303", "C0304", "C0305", "C0307", "C0321", "E1120", "W0101", "W0105", "E0109", "E0103", "C0112", "R0913"]


def gen(s):
  files = []
  names = s.shuffle(NAMES)
  for k in range(s.many(1, 5, 70)):
    kind = s.w((6, "clean"), (8, "dirty"), (6, "program"), (4, "bad"), (2, "undecodable"), (2, "missing"), (1, "deep"))
    f = {"kind": kind, "name": names[k]}
    if kind == "clean":
      f["text"] = s.pick(CLEAN)
    elif kind == "dirty":
      f["text"] = s.pick(DIRTY) + (s.pick(CLEAN) if s.p(30) else "")
    elif kind == "program":
      m = c31.Model({})
      m.body(c31.gen_case(s)["body"], 0, [])
      f["text"] = "\n".join(m.lines) + "\n"
    if kind in ("dirty", "program") and s.p(25):
      # some or all of the findings are suppressed
      f["text"] = "# cmake-lint: disable=%s\n" % ",".join(s.sub(CODES, 60) or CODES[:1]) + f["text"]
    if kind == "deep":
      # more than the interpreter's stack can hold
      f["text"] = s.pick(["", "set(A b)   \n"]) + "if(%sa%s)\nendif()\n" % ("(" * 3000, ")" * 3000)
    if kind == "bad":
      f["text"] = s.pick(["", s.pick(DIRTY)]) + s.pick(BAD)
    files.append(f)
  order = list(range(len(files)))
  if s.p(25):
    order.append(s.i(0, len(files) - 1))
  if s.p(30):
    order.reverse()
  opts = {}
  if s.p(30):
    opts["disabled_codes"] = [s.pick(["C0103", "C0111", "C0301", "C0303", "C0304", "W0101", "E0103"]) for _ in range(s.i(1, 3))]
  if s.p(20):
    opts["max_arguments"] = s.i(0, 3)
  if s.p(15):
    opts["line_width"] = s.i(10, 120)
  return {"files": files, "order": order, "opts": opts, "plain": s.p(30), "out": s.p(30), "stdin": s.p(15), "how": s.pick(["config", "switch"])}


def oracle(case, rec):
  files, opts = case["files"], case["opts"]
  stdin = case["stdin"] and files[0]["kind"] not in ("missing",)
  order = [0] if stdin else case["order"]
  cfg = {}
  for k, v in opts.items():
    cfg.setdefault("format" if k == "line_width" else "lint", {})[k] = v
  with cli.Dir() as d:
    data = {}
    for k, f in enumerate(files):
      if f["kind"] == "missing":
        continue
      data[k] = b"# \xff\xfe\n" if f["kind"] == "undecodable" else f["text"].encode("utf-8")
      if not stdin:
        d.put(f["name"], data[k])
    tail = []
    if opts and case["how"] == "config":
      d.put("cfg.json", json.dumps(cfg))
      tail = ["-c", "cfg.json"]
    elif opts:
      for k, v in sorted(opts.items()):
        tail += ["--" + k.replace("_", "-")] + [str(x) for x in (v if isinstance(v, list) else [v])]
    base = ["--suppress-decorations"] if case["plain"] else []
    if case["out"]:
      base += ["-o", "report.txt"]
    before = d.files()
    names = ["-"] if stdin else [files[k]["name"] for k in order]
    res = cli.run("cmake-lint", base + names + tail, stdin=data[0] if stdin else b"", cwd=d.path)
    after = d.files()
    out = after.pop("report.txt", (None,))[0] if case["out"] else res.out
    if out is None:
      raise Violation("no report was written: %r" % res)
    if case["out"] and res.out:
      raise Violation("-o: there is output on stdout: %r" % res)
    if {k: v[:2] for k, v in before.items()} != {k: v[:2] for k, v in after.items()}:
      raise Violation("cmake-lint changed files: %r" % (set(before) ^ set(after) or "contents"))
    out = out.decode("utf-8")
    want, codes, problem, scanned, internal = "", [], False, 0, False
    seen = set()
    for k in order:
      f = files[k]
      if k in seen:
        continue
      seen.add(k)
      name = "-" if stdin else f["name"]
      if f["kind"] in ("missing", "undecodable"):
        problem = True
        continue
      scanned += 1
      if not case["plain"]:
        want += "%s\n%s\n" % (name, "=" * len(name))
      if f["kind"] in ("bad", "deep"):
        problem = True
        internal |= f["kind"] == "deep"
        # what can be found in a file that can't be parsed is not specified
        m = re.match(re.escape(want), out)
        if not m:
          break
        part = re.match("(?:" + re.escape(name) + r":(?:\d+(?:,\d+)?:)? ?\[(\w+)\] .*\n)*", out[len(want):]).group(0)
        codes += re.findall(r"^" + re.escape(name) + r":\S* ?\[(\w+)\]", part, re.M)
        want += part
      else:
        lines, found = lintcommon.lint_lines(f["text"], cfg, name)
        want += "".join(l + "\n" for l in lines)
        codes += found
      if not case["plain"]:
        want += "\n"
    else:
      if not case["plain"]:
        want += "Summary\n=======\nfiles scanned: %d\nfound lint:\n" % scanned
        for ch, title in (("C", "Convention"), ("E", "     Error"), ("R", "  Refactor"), ("W", "   Warning")):
          n = sum(1 for c in codes if c[0] == ch)
          if n:
            want += "  %s: %d\n" % (title, n)
        want += "\n"
    if out != want:
      raise Violation("report differs from the findings of each file:\nwant %r\ngot  %r\n%r" % (want, out, res))
    bad = problem or bool(codes)
    if (res.rc != 0) != bad or res.rc not in ((0, 1, 2) if internal else (0, 1)):
      raise Violation("exit status %r, findings %r, errors %r\n%r" % (res.rc, codes, problem, res))
  kinds = {files[k]["kind"] for k in order}
  rec.label("rc%d" % res.rc, "stdin" if stdin else "files", *kinds)
  rec.nontrivial(len(kinds) > 1)


BADARGS = [["--no-such-option"], ["--line-width", "wide"], ["--max-arguments", "many"], ["-c"], ["--dump-config", "xml"],
           ["--tab-size"], ["--log-level", "loud"], ["-c", "missing.yaml"], ["-c", "broken.json"], ["--line-ending", "mac"]]


def gen_usage(s):
  return {"tool": s.w((3, "cmake-lint"), (2, "cmake-format")), "bad": s.pick(BADARGS), "text": s.pick(CLEAN + DIRTY), "first": s.p(50),
          "plain": s.p(30)}


def oracle_usage(case, rec):
  with cli.Dir() as d:
    d.put("CMakeLists.txt", case["text"])
    d.put("broken.json", "{\"format\": ")
    bad = case["bad"]
    argv = bad + ["CMakeLists.txt"] if case["first"] and not bad[0] == "-c" and len(bad) != 1 else ["CMakeLists.txt"] + bad
    if case["plain"] and case["tool"] == "cmake-lint":
      argv = ["--suppress-decorations"] + argv
    before = d.files()
    res = cli.run(case["tool"], argv, cwd=d.path)
    if res.rc == 0 or res.rc is None:
      raise Violation("%s %r exits with status %r: %r" % (case["tool"], argv, res.rc, res))
    if not res.err:
      raise Violation("no message for %r: %r" % (argv, res))
    if d.files() != before:
      raise Violation("files were changed by %r" % argv)
  rec.label(" ".join(case["bad"]))
  rec.nontrivial()


SUBS = [Sub("run", gen, oracle, 2500, 40000, 125),
        Sub("usage", gen_usage, oracle_usage, 150, 1000, 25)]
