"""C16 bad input is rejected cleanly"""
import re

from vf import cli, cmref, gen, sut
from vf.checks.c14 import gen_text
from vf.checks.common import regions
from vf.engine import Skip, Sub, Violation

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated arbitrary, truncated, spliced and mutated texts; invariant on the result "
             "(rejected, or every character is kept) and on the files after running the command line tool")
LEVEL_NOTE = ("Random exploration over arbitrary unicode text, byte strings and mutated listfiles, in all output modes of "
              "the tool. The bound on the run time is the time limit of a case (CPU seconds for at most 64 kB of text).")
RULE = ("A case is a text and an output mode; non-trivial when the text has at least one token other than white space and "
        "is rejected, or is accepted although it is not valid CMake, or is accepted and changed.")
ASSUMPTIONS = ["With comment markup switched off, formatting keeps every character other than white space: only letter case "
               "changes. Therefore nothing was dropped if the sequences of those characters are equal.",
               "Form feeds, vertical tabs and unicode space characters count as white space (the lexer separates tokens at "
               "them)."]
NOMARK = {"markup": {"enable_markup": False}, "format": {"line_width": 100}}


def squeeze(text):
  text = text.replace(u"\ufeff", "")
  # the spelling of the tags that switch formatting off and on
  text = re.sub(r"#\s*(cmake-format|cmf): (off|on)", r"#TAG:\2", text)
  return "".join(text.split()).casefold()


def process(text, cfg):
  """-> output or None if rejected"""
  try:
    return sut.fmain.process_file(sut.mkconfig(cfg), text)[0]
  except sut.common.UserError:
    return None
  except MemoryError:
    raise
  except Exception as ex:  # pylint: disable=broad-except
    return ex


def invalid_kind(text):
  try:
    prog = cmref.parse(text)
  except cmref.BadCMake as ex:
    return re.sub(r"[0-9]+|'.*'|at .*", "", str(ex))[:30].strip()
  try:
    cmref.check_blocks(prog)
  except cmref.BadCMake:
    return "blocks"
  return None


def oracle_text(case, rec):
  text = case["text"]
  out = process(text, case["cfg"])
  kind = invalid_kind(text)
  if out is None or isinstance(out, Exception):
    rec.nontrivial(bool(text.strip()))
    rec.label("rejected" if out is None else "rejected_%s" % type(out).__name__)
    return
  a, b = squeeze(text), squeeze(out)
  if a != b:
    k = next((k for k in range(min(len(a), len(b))) if a[k] != b[k]), min(len(a), len(b)))
    raise Violation("the text was accepted but is not completely there in the result: %r became %r\n--- input\n%s\n--- output\n%s" % (
        a[max(0, k - 20):k + 30], b[max(0, k - 20):k + 30], text[:1500], out[:1500]))
  rec.nontrivial(kind is not None or out != text)
  rec.label("accepted_invalid" if kind else "accepted")


def oracle_broken(case, rec):
  """damage that makes a listfile invalid must be rejected"""
  text = case["text"]
  kind = invalid_kind(text)
  if kind is None:
    raise Skip("still valid")
  out = process(text, case["cfg"])
  if out is None or isinstance(out, Exception):
    rec.nontrivial(True)
    rec.label("rejected_" + case["damage"])
    return
  rec.label("accepted_" + case["damage"])
  a, b = squeeze(text), squeeze(out)
  if a != b:
    raise Violation("invalid input (%s) was turned into output without all of its text\n--- input\n%s\n--- output\n%s" % (
        kind, text[:1500], out[:1500]))


def oracle_cli(case, rec):
  data = bytes.fromhex(case["hex"])
  mode = case["mode"]
  cfg = case["cfg"]
  cfgtext = __import__("json").dumps(cfg)
  with cli.Dir() as d:
    d.put("cfg.json", cfgtext)
    argv = []
    stdin = b""
    if mode == "stdin":
      stdin = data
      argv += ["-"]
    else:
      d.put("in.cmake", data)
      if mode == "inplace":
        argv += ["-i"]
      elif mode == "check":
        argv += ["--check"]
      elif mode == "newfile":
        argv += ["-o", d.p("new.cmake")]
      elif mode == "oldfile":
        d.put("old.cmake", b"previous content\n")
        argv += ["-o", d.p("old.cmake")]
      elif mode == "same":
        argv += ["-o", d.p("in.cmake")]
      argv += [d.p("in.cmake")]
    argv += ["-c", d.p("cfg.json")]
    before = {k: v[:2] for k, v in d.files().items()}
    r = cli.run("cmake-format", argv, stdin=stdin)
    after = {k: v[:2] for k, v in d.files().items()}
  if r.rc is None:
    raise Violation("cmake-format %s did not end" % mode)
  if r.rc < 0:
    raise Violation("cmake-format %s was ended by signal %d" % (mode, -r.rc))
  if r.rc:
    if r.out:
      raise Violation("exit status %d but there is output: %r" % (r.rc, r.out[:500]))
    if before != after:
      diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
      raise Violation("exit status %d but files changed: %s\n%s" % (r.rc, diff, r))
    rec.nontrivial(bool(data.strip()))
    rec.label("rejected_" + mode)
    return
  # complete output
  rec.label("accepted_" + mode)
  if mode == "check":
    if before != after or r.out:
      raise Violation("--check wrote something: %r" % r)
    return
  enc_in = cfg.get("encode", {}).get("input_encoding", "utf-8")
  enc_out = cfg.get("encode", {}).get("output_encoding", "utf-8")
  try:
    text = data.decode(enc_in)
  except UnicodeDecodeError:
    raise Violation("undecodable input was accepted (%s)" % mode)
  if mode in ("stdin", "stdout"):
    out = r.out
  else:
    out = after[{"inplace": "in.cmake", "same": "in.cmake", "newfile": "new.cmake", "oldfile": "old.cmake"}[mode]][0]
    if r.out:
      raise Violation("there is output on stdout as well: %r" % r.out[:300])
  if mode == "inplace" and out == data:
    # a file whose text needs no change is not encoded anew
    enc_out = enc_in
  try:
    a, b = squeeze(text), squeeze(out.decode(enc_out))
  except UnicodeDecodeError:
    raise Violation("undecodable output: %r" % out[:500])
  if a != b:
    raise Violation("exit status 0 but incomplete result (%s)\n--- input\n%s\n--- output\n%s" % (mode, text[:1500], out[:1500]))
  rec.nontrivial(bool(text.strip()))


def damage(s, text):
  """-> (kind, text)"""
  toks = [t for t in cmref.scan(text)]
  kind = s.pick(["drop_paren", "add_paren", "drop_quote", "add_quote", "bracket", "drop_end", "add_end", "cut", "drop_open", "swap_end"])
  if kind == "drop_paren":
    c = [t for t in toks if t.type in ("lp", "rp")]
    if c:
      t = s.pick(c)
      text = text[:t.pos] + text[t.pos + 1:]
  elif kind == "add_paren":
    t = s.pick(toks) if toks else None
    k = t.pos if t else 0
    text = text[:k] + s.pick([" ( ", " ) "]) + text[k:]
  elif kind in ("drop_quote", "add_quote"):
    c = [k for k, ch in enumerate(text) if ch == '"'] if kind == "drop_quote" else list(range(len(text) + 1))
    if c:
      k = s.pick(c)
      text = text[:k] + ("" if kind == "drop_quote" else '"') + text[k + (kind == "drop_quote"):]
  elif kind == "bracket":
    t = s.pick(toks) if toks else None
    k = t.pos if t else 0
    text = text[:k] + s.pick([" [[ ", " [=[ x ", "#[[ ", " ]] ", "#[==[ "]) + text[k:]
  elif kind == "cut":
    text = text[:s.i(0, len(text))]
  else:
    lines = text.split("\n")
    ends = [k for k, l in enumerate(lines) if re.match(r"\s*end[a-z]+\s*\(", l, re.I)]
    opens = [k for k, l in enumerate(lines) if re.match(r"\s*(if|foreach|while|function|macro)\s*\(", l, re.I)]
    if kind == "drop_end" and ends:
      del lines[s.pick(ends)]
    elif kind == "drop_open" and opens:
      del lines[s.pick(opens)]
    elif kind == "swap_end" and ends:
      k = s.pick(ends)
      lines[k] = re.sub(r"(?i)end(\w+)", lambda m: s.pick(["endif", "endforeach", "endwhile", "endfunction", "endmacro"]), lines[k], count=1)
    elif kind == "add_end":
      lines.insert(s.i(0, len(lines)), s.pick(["endif()", "endforeach()", "else()", "elseif(x)", "endfunction()", "endwhile()", "endmacro()"]))
    text = "\n".join(lines)
  return kind, text


def small(s, **kw):
  return gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, blocks=45, comments=15, argcomments=6, trailing=5, weird=6, **kw)).listfile()


def cfg_nomark(s):
  c = gen.config(s, rare=25, exclude=("autosort", "enable_markup"))
  c.setdefault("markup", {})["enable_markup"] = False
  return c


def gen_txt(s):
  t = gen_text(s)["text"]
  return {"text": t, "cfg": cfg_nomark(s)}


def gen_broken(s):
  text = small(s)
  kind, text = damage(s, text)
  return {"text": text, "cfg": cfg_nomark(s), "damage": kind}


def gen_cli(s):
  kind = s.w((4, "broken"), (3, "bytes"), (2, "text"), (2, "valid"), (3, "encode"))
  cfg = {"markup": {"enable_markup": False}}
  if kind == "broken":
    text = damage(s, small(s))[1]
  elif kind == "text":
    text = gen_text(s)["text"]
  else:
    text = small(s, unicode=0 if kind == "bytes" else 6)
  data = text.encode("utf-8", "surrogatepass")
  if kind == "bytes":
    k = s.i(0, len(data))
    data = data[:k] + bytes([s.pick([0xff, 0x80, 0xc3, 0xed, 0xfe, 0])]) + data[k:]
  elif kind == "encode":
    enc = s.pick(["ascii", "latin-1", "cp1252"])
    cfg["encode"] = {"output_encoding": enc}
    text = text + s.pick([u"# \u65e5\u672c\n", u"set(a \u00e9)\n", "set(a b)\n", u"#[[\u2026]]\n"])
    data = text.encode("utf-8", "surrogatepass")
  return {"hex": data.hex(), "cfg": cfg, "mode": s.pick(["stdout", "stdin", "inplace", "newfile", "oldfile", "check", "same"])}


SUBS = [Sub("text", gen_txt, oracle_text, 2500, 80000, 250),
        Sub("broken", gen_broken, oracle_broken, 1500, 40000, 150),
        Sub("cli", gen_cli, oracle_cli, 320, 8000, 20)]
