"""C18 in-place formatting is all or nothing"""
import errno
import json
import os
import resource
import signal
import sys

from vf import cli, gen, sut
from vf.checks.c16 import damage
from vf.engine import Sub, Violation

ID = "C18"
LEVEL = "fault_injection"
TECHNIQUE = ("Hypothesis-generated files and fault points: errors and kills injected at every file operation (audit events), "
             "executed line and written byte of the in-place path; invariant over the files afterwards")
LEVEL_NOTE = ("Random exploration over listfiles, encodings, modes, and fault points. A kill is SIGKILL of the process (or SIGXFSZ "
              "in the middle of a write), not a crash of the operating system: what was given to the system is taken as written.")
RULE = ("A case is one to three files, and a fault; non-trivial when the fault was hit while some file was to be rewritten, or "
        "there was no fault and a file was rewritten.")
ASSUMPTIONS = ["Audit events are raised for the file operations of the tool (true for CPython's own operations)."]
EVENTS = ("open", "os.rename", "os.remove", "os.chmod", "os.chown", "os.truncate", "os.link", "os.symlink", "os.utime", "os.mkdir",
          "shutil.move", "shutil.copymode", "shutil.copyfile", "shutil.copystat", "os.setxattr", "tempfile.mkstemp")
TRACED = ("__main__.py", "shutil.py", "tempfile.py", "pathlib.py")


def install(fault, root, hitpath):
  """In the child, before main()"""
  kind = fault["kind"]
  state = {"n": 0, "on": False, "done": False}

  def hit():
    with_fd = os.open(hitpath, os.O_CREAT | os.O_WRONLY)
    os.close(with_fd)

  def act():
    state["done"] = True
    if fault["what"] == "kill":
      hit()
      os.kill(os.getpid(), signal.SIGKILL)
    hit()
    raise OSError(getattr(errno, fault["what"]), os.strerror(getattr(errno, fault["what"])))

  def audit(event, args):
    if event not in EVENTS or hitpath in args[:2]:
      return
    if not any(isinstance(a, str) and a.startswith(root) for a in args[:2]):
      return
    if event == "open" and not state["on"]:
      flags = args[2]
      if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR):
        state["on"] = True
    if kind == "op":
      if state["done"] and not fault["persistent"]:
        return
      state["n"] += 1
      if state["n"] > fault["at"] or state["done"]:
        act()

  def tracer(frame, event, arg):
    if os.path.basename(frame.f_code.co_filename) not in TRACED:
      return None
    return local

  def local(frame, event, arg):
    if event == "line" and state["on"] and not state["done"]:
      state["n"] += 1
      if state["n"] > fault["at"]:
        if fault["what"] == "interrupt":
          state["done"] = True
          hit()
          raise KeyboardInterrupt()
        act()
    return local

  if kind == "size":
    signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fault["what"] == "kill" else signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (fault["at"], fault["at"]))
  elif kind in ("op", "line"):
    sys.addaudithook(audit)
    if kind == "line":
      sys.settrace(tracer)


def oracle(case, rec):
  files, cfg, fault = case["files"], case["cfg"], case["fault"]
  enc = cfg.get("encode", {})
  want = []
  for f in files:
    data = bytes.fromhex(f["data"])
    w = None
    try:
      text = data.decode(enc.get("input_encoding", "utf-8"))
      out, valid = sut.fmain.process_file(sut.mkconfig(cfg), text)
      if valid or not cfg.get("format", {}).get("require_valid_layout"):
        w = out.encode(enc.get("output_encoding", "utf-8"))
        if text == out:
          # nothing to format: the file is not written, even if that would change the encoding
          w = data
    except (sut.common.UserError, sut.common.InternalError, AssertionError, UnicodeError):
      pass
    want.append(w)
  with cli.Dir() as outer, cli.Dir() as d:
    paths = []
    for f in files:
      p = d.put(f["path"], bytes.fromhex(f["data"]))
      os.chmod(p, f["mode"])
      paths.append(p)
    d.put("cfg.json", json.dumps(cfg))
    d.put("other.cmake", "set(x   y)\n")
    if case["stale"] is not None:
      d.put(files[0]["path"] + ".cmf-temp", bytes.fromhex(case["stale"]))
    before = d.files()
    hitpath = outer.p("hit")
    argv = ["-i"] + paths + ["-c", d.p("cfg.json")]

    def pre():
      os.umask(case["umask"])
      install(fault, d.path, hitpath)

    r = cli.run("cmake-format", argv, pre=pre)
    hit = os.path.exists(hitpath)
    after = d.files()
    if r.rc is None:
      raise Violation("no end")
    killed = r.rc < 0
    if fault["kind"] == "size":
      hit = killed or r.rc != 0
    changing = False
    for f, w in zip(files, want):
      data = bytes.fromhex(f["data"])
      got = after.get(f["path"])
      changing = changing or (w is not None and w != data)
      if got is None:
        raise Violation("%s is gone after fault %s\n%r" % (f["path"], fault, r))
      if got[0] != data and got[0] != w:
        raise Violation("the file holds neither the original nor the formatted text after fault %s\n%r\n--- original\n%r\n--- formatted\n%r\n--- file\n%r" % (
            fault, r, data[:800], w and w[:800], got[0][:800]))
      if got[1] != before[f["path"]][1] and not killed:
        raise Violation("the mode of the file changed from %o to %o (fault %s)" % (before[f["path"]][1], got[1], fault))
      if r.rc == 0:
        if w is None:
          raise Violation("exit status 0 but the file can't be formatted\n%r" % r)
        if got[0] != w:
          raise Violation("exit status 0 but the file is not formatted (fault %s)\n%r" % (fault, r))
        if w == data and got[2:] != before[f["path"]][2:]:
          raise Violation("a formatted file was written again")
      elif w is None and got[2:] != before[f["path"]][2:]:
        raise Violation("a file which can't be formatted was written")
    if r.rc == 0 and any(w is None for w in want):
      raise Violation("exit status 0")
    if fault["kind"] == "none" and r.rc != 0 and all(w is not None for w in want):
      raise Violation("exit status %d without a fault\n%r" % (r.rc, r))
    names = set(f["path"] for f in files)
    stale = files[0]["path"] + ".cmf-temp"
    for k in sorted(set(before) | set(after)):
      if k in names or (k == stale and case["stale"] is not None):
        continue
      if k not in before:
        if not killed and not (hit and fault.get("persistent")) and fault["what"] != "interrupt" and fault["kind"] != "line":
          raise Violation("%s was left behind (fault %s)\n%r" % (k, fault, r))
      elif k not in after or before[k] != after[k]:
        raise Violation("%s was changed (fault %s)" % (k, fault))
    if r.out:
      raise Violation("there is output on stdout")
    # once more, without a fault, whatever was left behind
    r2 = cli.run("cmake-format", argv)
    last = d.files()
    for f, w in zip(files, want):
      got = last[f["path"]][0]
      if w is None:
        ok = got == bytes.fromhex(f["data"])
      elif after[f["path"]][0] == w:
        # formatted twice
        continue
      else:
        ok = got == w
      if not ok:
        raise Violation("the next run did not format the file (fault %s before)\n%r\n%r" % (fault, r2, got[:800]))
  rec.nontrivial(changing and (hit or fault["kind"] == "none"))
  rec.label(fault["kind"] + ("_" + fault["what"] if hit else "_missed" if fault["kind"] != "none" else ""),
            "rc_%s" % ("killed" if killed else "ok" if r.rc == 0 else "error"))


def gen_case(s):
  cfg = gen.config(s, rare=25)
  files = []
  for k in range(s.w((5, 1), (2, 2), (1, 3))):
    text = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, comments=20)).listfile()
    kind = s.w((8, "ok"), (2, "done"), (2, "syntax"), (1, "bytes"), (2, "big"))
    if kind == "big":
      text = text + "".join("message( \"%s %d\"   )\n" % ("x" * 40, n) for n in range(s.pick([50, 200, 1500])))
    elif kind == "syntax":
      text = damage(s, text)[1]
    elif kind == "done":
      try:
        text = sut.fmt(text, cfg)[0]
      except Violation:
        pass
    data = text.encode("utf-8", "surrogatepass")
    if kind == "bytes":
      data += b"\xff"
    files.append({"path": s.pick(["CMakeLists%d.txt", "sub/%d.cmake", "a b %d.cmake"]) % k, "data": data.hex(),
                  "mode": s.pick([0o644, 0o600, 0o755, 0o640, 0o444, 0o666])})
  if s.p(15):
    cfg.setdefault("encode", {})["output_encoding"] = s.pick(["ascii", "latin-1", "utf-16"])
  if s.p(10):
    cfg.setdefault("format", {})["require_valid_layout"] = True
  kind = s.w((2, "none"), (5, "op"), (4, "line"), (3, "size"))
  fault = {"kind": kind, "what": "none"}
  if kind == "op":
    fault.update(at=s.i(0, 12 * len(files)), what=s.pick(["EIO", "kill", "ENOSPC", "EACCES"]), persistent=s.p(20))
  elif kind == "line":
    fault.update(at=s.i(0, 60 * len(files)), what=s.pick(["kill", "EIO", "interrupt"]))
  elif kind == "size":
    fault.update(at=s.w((2, 0), (3, s.i(0, 300)), (2, s.i(0, 9000)), (1, s.i(0, 80000))), what=s.pick(["error", "kill"]))
  stale = None
  if s.p(12):
    stale = s.pick([b"", b"foo(", b"x" * 5000]).hex()
  return {"files": files, "cfg": cfg, "fault": fault, "stale": stale, "umask": s.pick([0o022, 0o077, 0, 0o027])}


SUBS = [Sub("faults", gen_case, oracle, 480, 20000, 30)]
