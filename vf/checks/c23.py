"""C23 disabling formatting makes cmake-format a no-op"""
import json
import os

from vf import cli, gen
from vf.checks.c14 import gen_text
from vf.checks.c16 import damage
from vf.engine import Sub, Violation

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = "Hypothesis-generated byte strings and configurations with disable set; identity of the emitted bytes in all output modes"
LEVEL_NOTE = "Random exploration over valid, broken and arbitrary contents, ways to set the option, and output modes."
RULE = ("A case is a file content, a configuration with the option set and an output mode; non-trivial when the content is not empty.")
ASSUMPTIONS = []


def oracle(case, rec):
  data = bytes.fromhex(case["hex"])
  cfg, how, mode = dict(case["cfg"]), case["how"], case["mode"]
  argv = []
  if how == "switch":
    argv += ["--disable", "yes"] if case["value"] else ["--disable=true"]
  elif how == "nested":
    cfg["format"] = dict(cfg.get("format", {}), disable=True)
  else:
    cfg["disable"] = True
  with cli.Dir() as d:
    d.put("d/.cmake-format.json" if case["near"] else "cfg.json", json.dumps(cfg))
    path = d.put("d/in.cmake", data)
    if mode == "oldfile":
      d.put("d/out.cmake", b"previous\n")
    start = d.files()
    tail = [] if case["near"] else ["-c", d.p("cfg.json")]
    if mode == "stdin":
      r = cli.run("cmake-format", argv + ["-"] + tail, stdin=data, cwd=d.p("d"))
      got = r.out
    elif mode == "stdout":
      r = cli.run("cmake-format", argv + [path] + tail)
      got = r.out
    elif mode in ("newfile", "oldfile"):
      r = cli.run("cmake-format", argv + ["-o", d.p("d/out.cmake"), path] + tail)
      got = d.get("d/out.cmake") if os.path.exists(d.p("d/out.cmake")) else None
    elif mode == "several":
      other = d.put("e/other.cmake", b"set( A  b)\n")
      start = d.files()
      r = cli.run("cmake-format", argv + [path, other] + tail)
      alone = cli.run("cmake-format", argv + [other] + tail)
      if not r.out.endswith(alone.out):
        raise Violation("the output for the second file is not there: %r" % r)
      got = r.out[:len(r.out) - len(alone.out)] if alone.out else r.out
      if case["near"] and how != "switch" and alone.out != b"set(A b)\n":
        raise Violation("the option of another directory was used: %r" % alone)
    else:
      r = cli.run("cmake-format", argv + [{"inplace": "-i", "check": "--check"}[mode], path] + tail)
      got = None
    end = d.files()
  if r.rc:
    raise Violation("exit status %s with formatting disabled (%s)\n%r" % (r.rc, mode, r))
  if mode in ("inplace", "check") and r.out:
    raise Violation("%s wrote to stdout: %r" % (mode, r.out[:300]))
  if mode not in ("inplace", "check") and got != data:
    raise Violation("%s with formatting disabled: not what was given\n--- given\n%r\n--- got\n%r" % (mode, data[:800], got and got[:800]))
  for k in sorted(set(start) | set(end)):
    if mode in ("newfile", "oldfile") and k == "d/out.cmake":
      continue
    if start.get(k) != end.get(k):
      raise Violation("%s was changed or created by %s with formatting disabled" % (k, mode))
  rec.nontrivial(len(data) > 0)
  rec.label(mode, how, case["kind"])


def gen_case(s):
  kind = s.w((3, "valid"), (2, "broken"), (2, "text"), (2, "bytes"), (1, "nul"), (1, "empty"))
  g = lambda: gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, comments=20)).listfile()
  if kind == "valid":
    data = g().encode("utf-8")
    if s.p(30):
      data = data.replace(b"\n", b"\r\n")
    if s.p(20):
      data = b"\xef\xbb\xbf" + data
  elif kind == "broken":
    data = damage(s, g())[1].encode("utf-8")
  elif kind == "text":
    data = gen_text(s)["text"].encode("utf-8", "surrogatepass")
  elif kind == "empty":
    data = b""
  else:
    data = bytes(s.i(0, 255) for _ in range(s.many(1, 60, 95))) + (b"\0\r\n" if kind == "nul" else b"")
  cfg = gen.config(s, rare=25)
  if s.p(20):
    cfg.setdefault("encode", {})["output_encoding"] = s.pick(["ascii", "utf-16", "latin-1"])
  return {"hex": data.hex(), "cfg": cfg, "how": s.pick(["nested", "root", "switch"]), "value": s.p(50), "near": s.p(50), "kind": kind,
          "mode": s.pick(["stdout", "stdin", "newfile", "oldfile", "inplace", "check", "several"])}


SUBS = [Sub("noop", gen_case, oracle, 900, 20000, 60)]
