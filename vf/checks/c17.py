"""C17 all ways of running cmake-format agree"""
import json
import os

from vf import cli, gen, sut
from vf.checks.c16 import damage
from vf.engine import Skip, Sub, Violation

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles, configurations and sets of files; differential between the output modes of the "
             "command line tool and the library, and between one run over several files and a run per file")
LEVEL_NOTE = ("Random exploration; the tool runs in a forked interpreter, a sample of the cases in a new process. Files live in "
              "a scratch directory.")
RULE = ("A case is a listfile with a configuration run in all output modes, or a set of two to four files run together and one by "
        "one; non-trivial when formatting changes some text.")
ASSUMPTIONS = ["The expected text is what the library function of the tool returns in the checking process."]


def expected(text, cfg):
  """-> (bytes, valid)"""
  out, valid = sut.fmt(text, cfg)
  return out.encode("utf-8"), valid


def fail(what, r, got=None, want=None):
  msg = "%s\n%r" % (what, r)
  if got is not None or want is not None:
    msg += "\n--- expected\n%s\n--- got\n%s" % (clip(want), clip(got))
  raise Violation(msg)


def clip(b):
  return "(nothing)" if b is None else repr(b[:1500])


def oracle_modes(case, rec):
  text, cfg = case["text"], case["cfg"]
  data = text.encode("utf-8")
  want, valid = expected(text, cfg)
  bad = cfg.get("format", {}).get("require_valid_layout") and not valid
  go = cli.run_process if case["process"] else cli.run
  conf = json.dumps(cfg)
  with cli.Dir() as d:
    name = case["name"]
    d.put("sub/" + name, data)
    d.put("sub/.cmake-format.json" if case["conf"] == "near" else "cfg.json", conf)
    sub = d.p("sub")
    tail = ["-c", d.p("cfg.json")] if case["conf"] == "arg" else []
    path = {"abs": d.p("sub", name), "rel": name, "dot": os.path.join(".", name)}[case["path"]]
    start = {k: v[:2] for k, v in d.files().items()}

    def run(*argv, **kw):
      return go("cmake-format", list(argv) + tail, cwd=sub, **kw)

    def untouched(what, r, but=()):
      now = {k: v[:2] for k, v in d.files().items()}
      for k in sorted(set(now) | set(start)):
        if k not in but and now.get(k) != start.get(k):
          fail("%s changed %s" % (what, k), r)

    def output(what, r, got):
      if bad:
        if not r.rc:
          fail("%s: the layout is not valid but the exit status is 0" % what, r)
        if got:
          fail("%s: the layout is not valid but there is output" % what, r)
        return
      if r.rc:
        fail("%s: exit status %s" % (what, r.rc), r)
      if got != want:
        fail("%s: differs from the result of the library" % what, r, got, want)

    r = run(path)
    output("file to stdout", r, r.out)
    untouched("file to stdout", r)
    r = run("-", stdin=data)
    output("stdin to stdout", r, r.out)
    untouched("stdin to stdout", r)
    if case["old"]:
      d.put("sub/out.txt", b"something\r\nelse\n" * 400)
    before_out = d.get("sub/out.txt") if case["old"] else None
    r = run("-o", d.p("sub", "out.txt"), path)
    got = d.get("sub/out.txt") if os.path.exists(d.p("sub", "out.txt")) else None
    if bad:
      if got != before_out:
        fail("-o: the layout is not valid but the output file was changed", r)
      output("-o", r, None)
    else:
      output("-o", r, got)
    if r.out:
      fail("-o wrote to stdout as well", r)
    untouched("-o", r, ("sub/out.txt",))
    if got is not None:
      os.remove(d.p("sub", "out.txt"))
    for check in ("file", "stdin"):
      r = run("--check", path) if check == "file" else run("--check", "-", stdin=data)
      if r.out:
        fail("--check wrote to stdout", r)
      untouched("--check", r)
      if (r.rc == 0) != (want == data and not bad):
        fail("--check (%s): exit status %s but formatting %s the file" % (
            check, r.rc, "fails for" if bad else "would not change" if want == data else "changes"), r)
    r = run("-i", path)
    got = d.get("sub/" + name)
    if bad:
      if not r.rc:
        fail("-i: the layout is not valid but the exit status is 0", r)
      if got != data:
        fail("-i: the layout is not valid but the file was changed", r)
    else:
      output("-i", r, got)
    if r.out:
      fail("-i wrote to stdout as well", r)
    untouched("-i", r, ("sub/" + name,))
    if not bad:
      r = run("--check", path)
      again, valid2 = expected(want.decode("utf-8"), cfg)
      ok = again == want and not (cfg.get("format", {}).get("require_valid_layout") and not valid2)
      if (r.rc == 0) != ok:
        fail("--check after -i: exit status %s" % r.rc, r)
  rec.nontrivial(want != data or bool(bad))
  rec.label("formatted_already" if want == data else "not_valid" if bad else "changed", "process" if case["process"] else "forked")


def nearest(confs, where):
  while where not in confs:
    if not where:
      return {}
    where = os.path.dirname(where)
  return confs[where]


def oracle_several(case, rec):
  files = case["files"]
  mode = case["mode"]

  def setup(d):
    paths = []
    for f in files:
      if f["data"] is not None:
        d.put(f["path"], bytes.fromhex(f["data"]))
      paths.append(d.p(f["path"]))
    for path, cfg in case["confs"].items():
      d.put(os.path.join(path, ".cmake-format.json"), json.dumps(cfg))
    return paths

  def snapshot(d):
    return {k: v[:2] for k, v in d.files().items()}

  argv = list(case["switches"]) + {"stdout": [], "inplace": ["-i"], "check": ["--check"]}[mode]
  alone = []
  with cli.Dir() as d:
    paths = setup(d)
    for p in paths:
      alone.append(cli.run("cmake-format", argv + [p]))
    files_alone = snapshot(d)
  with cli.Dir() as d:
    paths = setup(d)
    order = case["order"]
    r = cli.run("cmake-format", argv + [paths[k] for k in order])
    files_together = snapshot(d)
  for k, a in enumerate(alone):
    if a.rc is None or a.rc < 0:
      fail("no regular end for file %d alone" % k, a)
  if r.rc is None or r.rc < 0:
    fail("no regular end", r)
  want = b"".join(alone[k].out for k in order)
  kinds = [files[k]["kind"] for k in order]
  if r.out != want:
    fail("output for several files (%s) is not that of each file alone" % ", ".join(kinds), r, r.out, want)
  if files_together != files_alone:
    diff = sorted(k for k in set(files_alone) | set(files_together) if files_alone.get(k) != files_together.get(k))
    fail("%s together differ from each alone: %s" % (mode, diff), r, *[x.get(diff[0], (None,))[0] for x in (files_together, files_alone)])
  if (r.rc != 0) != any(alone[k].rc != 0 for k in order):
    fail("exit status %d, alone they are %s" % (r.rc, [alone[k].rc for k in order]), r)
  # the single runs against the library
  for f, a in zip(files, alone):
    if f["kind"] in ("syntax", "bytes", "missing", "deep"):
      if a.rc == 0 and f["kind"] not in ("syntax", "deep"):
        fail("exit status 0 for a %s file" % f["kind"], a)
      continue
    if case["switches"]:
      continue
    cfg = nearest(case["confs"], os.path.dirname(f["path"]))
    want, valid = expected(bytes.fromhex(f["data"]).decode("utf-8"), cfg)
    got = a.out if mode == "stdout" else files_alone[f["path"]][0] if mode == "inplace" else None
    if got is not None and got != want:
      fail("%s for one file differs from the library" % mode, a, got, want)
  rec.nontrivial(len(set(kinds)) > 1 or "ok" in kinds)
  rec.label(mode, "n%d" % len(order), *["kind_" + k for k in set(kinds)])
  if case["switches"]:
    rec.label("switches")


def listfile(s):
  return gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, comments=20, onoff=2)).listfile()


def gen_modes(s):
  text = listfile(s)
  cfg = gen.config(s, rare=25)
  if s.p(35):
    f = cfg.setdefault("format", {})
    f["require_valid_layout"] = True
    if s.p(60):
      f["line_width"] = s.i(12, 40)
  if s.p(25):
    try:
      text = sut.fmt(text, cfg)[0]
    except Violation:
      pass
  elif s.p(10):
    text = u"\ufeff" + text
  elif s.p(10):
    text = text.replace("\n", "\r\n")
  return {"text": text, "cfg": cfg, "name": s.pick(["CMakeLists.txt", "a.cmake", "with space.cmake", u"\u00e9.cmake", "-x.cmake".replace("-", "_")]),
          "conf": s.pick(["arg", "near"]), "path": s.pick(["abs", "rel", "dot"]), "old": s.p(50), "process": s.p(4)}


SWITCHES = [["--line-width", "40"], ["--tab-size", "6"], ["--command-case", "upper"], ["--dangle-parens"],
            ["--keyword-case", "lower"], ["--separate-fn-name-with-space"], ["--max-pargs-hwrap", "1"],
            ["--line-ending", "windows"], ["--enable-markup", "no"], ["--use-tabchars"], ["--autosort", "true"]]


def gen_several(s):
  dirs = ["", "one", "two", "one/deep"]
  confs = {}
  for x in dirs:
    if s.p(40):
      confs[x] = gen.config(s, rare=25, exclude=("emit_byteorder_mark",))
  files = []
  for k in range(s.i(2, 4)):
    kind = s.w((10, "ok"), (4, "done"), (4, "syntax"), (2, "bytes"), (2, "missing"), (1, "deep"))
    x = s.pick(dirs)
    path = os.path.join(x, "f%d.cmake" % k) if x else "f%d.cmake" % k
    data = None
    if kind != "missing":
      text = listfile(s)
      if kind == "syntax":
        for _ in range(3):
          new = damage(s, text)[1]
          if new != text:
            text = new
            break
        else:
          text += "foo("
      if kind == "deep":
        # more than the interpreter's stack can hold
        text += "if(%sa%s)\nendif()\n" % ("(" * 3000, ")" * 3000)
      data = text.encode("utf-8")
      if kind == "bytes":
        data += b"# \xff\xfe\n"
      if kind == "done":
        cfg = nearest(confs, x)
        try:
          data = sut.fmt(text, cfg)[0].encode("utf-8")
        except Violation:
          pass
    files.append({"path": path, "data": None if data is None else data.hex(), "kind": kind})
  switches = []
  for x in s.sub(SWITCHES, 12):
    switches += x
  order = s.shuffle(range(len(files)))
  if s.p(8):
    order.append(order[0])
  mode = s.pick(["stdout", "inplace", "check"])
  if mode == "inplace":
    order = order[:len(files)]
  # the last switch takes any number of values
  if switches:
    switches += ["--tab-size", "3"]
  return {"files": files, "confs": confs, "switches": switches, "order": order, "mode": mode}


SUBS = [Sub("modes", gen_modes, oracle_modes, 150, 4000, 10),
        Sub("several", gen_several, oracle_several, 220, 6000, 14)]
