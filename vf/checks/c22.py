"""C22 encodings and byte order marks are handled faithfully"""
import json

from vf import cli, gen, sut
from vf.checks.c16 import squeeze
from vf.checks.common import diff, ref_parse_input
from vf.engine import Skip, Sub, Violation

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles in sixteen encodings; the bytes written by the command line tool against the text formatted by "
             "the library, character conservation, metamorphic relations over the byte order mark")
LEVEL_NOTE = "Random exploration over texts drawn from the repertoire of both encodings, pairs of encodings and output modes."
RULE = ("A case is a text, a pair of encodings and an output mode; non-trivial when the text holds a character outside of "
        "ASCII or a byte order mark and the result differs from the input.")
ASSUMPTIONS = ["Encoding and decoding by Python's codecs is right."]
POOL = {
    "utf-8": u"é日本語中ß🚀Ωда\u0301‘’…€ñ",
    "latin-1": u"éßñ÷ÿ§©",
    "cp1252": u"éß‘’…€ñ",
    "shift_jis": u"日本語ソ表能あア",
    "gb18030": u"中文é€🚀",
    "euc_jp": u"日本語あア",
    "cp437": u"é▓ßñ",
    "koi8-r": u"даПривет",
    "ascii": u"",
}
for _e in ("utf-8-sig", "utf-16", "utf-16-le", "utf-16-be", "utf-32", "utf-7"):
  POOL[_e] = POOL["utf-8"]
ENCODINGS = sorted(POOL)


def recode(s, text, enc_in, enc_out):
  """replace what is not in both repertoires"""
  both = [c for c in POOL[enc_in] + POOL[enc_out] if ok(c, enc_in) and ok(c, enc_out)]
  return "".join(c if ord(c) < 128 or (ok(c, enc_in) and ok(c, enc_out)) else s.pick(both) if both else "x" for c in text)


def ok(c, enc):
  try:
    return c.encode(enc).decode(enc) == c
  except UnicodeError:
    return False


def oracle_codec(case, rec):
  text, cfg, mode = case["text"], case["cfg"], case["mode"]
  enc = cfg["encode"]
  ref_parse_input(text.replace(u"\ufeff", ""))
  e_in, e_out = enc["input_encoding"], enc["output_encoding"]
  data = text.encode(e_in)
  if data.decode(e_in) != text:
    raise Skip("no round trip")
  out = sut.fmt(text, cfg)[0]
  plain = dict(cfg, encode={})
  out_plain = sut.fmt(text, plain)[0]
  if enc.get("emit_byteorder_mark"):
    if out != u"\ufeff" + out_plain:
      raise Violation("emit_byteorder_mark does more than adding the mark\n" + diff(out_plain, out))
  elif out != out_plain:
    raise Violation("the encoding changes the text\n" + diff(out_plain, out))
  try:
    want = out.encode(e_out)
  except UnicodeError:
    raise Skip("not in the output encoding")
  if out == text:
    want_i = data
  else:
    want_i = want
  with cli.Dir() as d:
    d.put("cfg.json", json.dumps(cfg))
    d.put("in.cmake", data)
    go = cli.run_process if case["process"] else cli.run
    kw = {"env": {"PYTHONIOENCODING": "ascii", "LANG": "C", "LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}} if case["process"] else {}
    conf = ["-c", d.p("cfg.json")]
    if mode == "stdin":
      r = go("cmake-format", ["-"] + conf, stdin=data, **kw)
      got = r.out
    elif mode == "stdout":
      r = go("cmake-format", [d.p("in.cmake")] + conf, **kw)
      got = r.out
    elif mode == "outfile":
      r = go("cmake-format", ["-o", d.p("out.cmake"), d.p("in.cmake")] + conf, **kw)
      got = d.get("out.cmake") if r.rc == 0 else b""
    else:
      r = go("cmake-format", ["-i", d.p("in.cmake")] + conf, **kw)
      got, want = d.get("in.cmake"), want_i
  if r.rc:
    raise Violation("exit status %s for a text in both encodings (%s to %s)\n%r" % (r.rc, e_in, e_out, r))
  if got != want:
    raise Violation("%s to %s (%s): the bytes written are not the formatted text\n--- expected\n%r\n--- got\n%r" % (
        e_in, e_out, mode, want[:800], got[:800]))
  back = got.decode(e_in if mode == "inplace" and out == text else e_out)
  if not cfg.get("markup", {}).get("enable_markup", True) and squeeze(back) != squeeze(text):
    raise Violation("characters were lost\n" + diff(text, back))
  rec.nontrivial(any(ord(c) > 127 for c in text) and out != text)
  rec.label("in_" + e_in, "out_" + e_out, mode)


def oracle_bom(case, rec):
  text, cfg = case["text"], case["cfg"]
  ref_parse_input(text)
  emit = cfg.get("encode", {}).get("emit_byteorder_mark", False)
  a, va = sut.fmt(text, cfg)
  b, vb = sut.fmt(u"\ufeff" + text, cfg)
  if a != b or va != vb:
    raise Violation("a byte order mark in the input changes the result\n" + diff(a, b))
  if a.startswith(u"\ufeff") != bool(emit) or u"\ufeff" in a[1:]:
    raise Violation("byte order mark in the output: %r" % a[:20])
  rec.nontrivial(a.replace(u"\ufeff", "") != text)
  rec.label("emit" if emit else "plain")


def uni(s, **kw):
  return gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, comments=40, argcomments=6, unicode=35, onoff=3, weird=5, **kw)).listfile()


def gen_codec(s):
  cfg = gen.config(s, rare=25, exclude=("autosort",))
  e_in = s.pick(ENCODINGS)
  e_out = e_in if s.p(30) else s.pick(ENCODINGS)
  cfg["encode"] = {"input_encoding": e_in, "output_encoding": e_out}
  if s.p(15):
    cfg["encode"]["emit_byteorder_mark"] = True
  if s.p(50):
    cfg.setdefault("markup", {})["enable_markup"] = False
  text = recode(s, uni(s), e_in, e_out)
  if s.p(15) and ok(u"\ufeff", e_in):
    text = u"\ufeff" + text
  if s.p(15):
    text = text.replace("\n", "\r\n")
  return {"text": text, "cfg": cfg, "mode": s.pick(["stdout", "stdin", "outfile", "inplace"]), "process": s.p(4)}


def gen_bom(s):
  text = uni(s)
  if s.p(10):
    text = s.pick(["", "\n", "# x", "#[[x]]\n", "#!/usr/bin/cmake\n", "# cmake-format: off\nx( )\n", "foo()", "@x@\n"])
  return {"text": text, "cfg": gen.config(s, rare=25)}


SUBS = [Sub("codec", gen_codec, oracle_codec, 700, 16000, 45),
        Sub("bom", gen_bom, oracle_bom, 700, 20000, 90)]
