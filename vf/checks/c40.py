"""C40 annotated HTML shows exactly the source"""
import glob
import html.parser
import json
import sys

from vf import cli, cmref, gen
from vf.checks.common import ref_parse_input
from vf.engine import Skip, Sub, Violation

ID = "C40"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated listfiles with HTML special characters; cmake-annotate is run and its output is read back with an independent "
             "HTML reader: nesting, text content against the source, classes against an independent tokenizer and the declared keywords")
LEVEL_NOTE = "Random exploration over listfiles, output formats and invocation modes."
RULE = "A case is one run of cmake-annotate; non-trivial when the listfile holds <, > or & and a comment or string."
ASSUMPTIONS = ["Line endings of a file given by name are read as line feeds."]

CLASSES = {"quo": {"QUOTED_LITERAL"}, "bra": {"BRACKET_ARGUMENT"}, "lc": {"COMMENT"}, "bc": {"BRACKET_COMMENT"},
           "lp": {"LEFT_PAREN"}, "rp": {"RIGHT_PAREN"}}
SPECIAL = ["<b>", "&amp;", "a<b", "a>b", "&", "x&y;", "</span>", "<!--", "-->", "&lt;", "$<0:x>", "\u00e9", "<br/>"]
CMD = {"pargs": "*", "flags": ["FLAG"], "kwargs": {"ONE": 1, "MANY": "+"}}


class Reader(html.parser.HTMLParser):
  def __init__(self):
    super().__init__(convert_charrefs=True)
    self.stack, self.out, self.bad = [], [], None
    self.ended = False

  def handle_starttag(self, tag, attrs):
    d = dict(attrs)
    if tag != "span" or set(d) != {"class"} or not d["class"].startswith("cmf-"):
      self.bad = self.bad or "unexpected element <%s %r>" % (tag, attrs)
    self.stack.append(d.get("class", "")[4:])

  def handle_startendtag(self, tag, attrs):
    self.bad = self.bad or "unexpected element <%s/>" % tag

  def handle_endtag(self, tag):
    if tag != "span" or not self.stack:
      self.bad = self.bad or "unexpected </%s>" % tag
    else:
      self.stack.pop()

  def handle_comment(self, data):
    self.bad = self.bad or "unexpected <!--%s-->" % data

  handle_decl = handle_pi = unknown_decl = handle_comment

  def handle_data(self, data):
    self.out.append((data, tuple(self.stack)))


def gen_any(s):
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, comments=35, argcomments=10, trailing=15, onoff=6, multiline=10))
  text = g.listfile()
  extra = []
  calls = []
  for _ in range(s.i(0, 3)):
    k = s.w((3, "comment"), (3, "string"), (2, "bracket"), (3, "custom"))
    w = " ".join(s.pick(SPECIAL) for _ in range(s.i(1, 4)))
    if k == "comment":
      extra.append("# " + w)
    elif k == "string":
      extra.append('message("%s" %s)' % (w, s.pick(["a<b", "a&b", "x", "&amp;"])))
    elif k == "bracket":
      extra.append("message([[%s\n%s]]) #[[%s]]" % (w, w, w))
    else:
      parts = []
      for _ in range(s.i(0, 4)):
        p = s.w((2, ["FLAG"]), (3, ["ONE", "a"]), (3, ["MANY", "a&b"] + ["c"] * s.i(0, 2)))
        if s.p(30):
          p = [p[0].lower()] + p[1:]
        parts.append(p)
      calls.append([["x<y"] * s.i(0, 2), parts])
      extra.append("my_cmd(%s)" % " ".join(calls[-1][0] + [w for p in parts for w in p]))
  text = "\n".join(([text.rstrip("\n")] if s.p(70) else []) + extra) + "\n"
  fmt = s.w((4, "stub"), (2, "page"), (1, "iframe"))
  return {"text": text, "format": fmt, "mode": s.w((3, "stdout"), (1, "stdin"), (2, "file")), "crlf": s.p(15), "bom": s.p(8),
          "config": s.w((2, "none"), (2, "option"), (2, "found")), "default": fmt == "stub" and s.p(50), "twice": s.p(8),
          "enc": [s.pick(ENCODINGS) if s.p(20) else "utf-8" for _ in range(2)]}


ENCODINGS = ["latin-1", "cp1252", "utf-16-le", "utf-32-be", "gb18030", "utf-8"]


def read(content):
  r = Reader()
  r.feed(content)
  r.close()
  if r.bad:
    raise Violation("markup: %s\n%s" % (r.bad, content[:1500]))
  if r.stack:
    raise Violation("elements are not closed: %r" % (r.stack,))
  return r.out


def with_jinja():
  """in the child: the template library of the environment of the code under test"""
  for name in list(sys.modules):
    if name.split(".")[0] in ("jinja2", "markupsafe"):
      del sys.modules[name]
  sys.path[:0] = glob.glob("/opt/venv/lib/python3*/site-packages")


def oracle(case, rec):
  text = case["text"]
  ref_parse_input(text)
  given = text.replace("\n", "\r\n") if case["crlf"] else text
  if case["bom"]:
    given = "\ufeff" + given
  enc_in, enc_out = case["enc"] if "enc" in case and case["config"] != "none" and not case["bom"] else ("utf-8", "utf-8")
  try:
    data, _ = given.encode(enc_in), given.encode(enc_out)
  except UnicodeEncodeError:
    raise Skip("not encodable")
  with cli.Dir() as d:
    d.put("in/CMakeLists.txt", data)
    args = [] if case["default"] else ["-f", case["format"]]
    if case["config"] != "none":
      d.put("in/.cmake-format.json" if case["config"] == "found" else "conf.json",
            json.dumps({"parse": {"additional_commands": {"my_cmd": CMD}},
                        "encode": {"input_encoding": enc_in, "output_encoding": enc_out}}))
      if case["config"] == "option":
        args += ["-c", "conf.json"]
    if case["mode"] == "stdin":
      if case["config"] == "found":
        raise Skip("no configuration for stdin")
      res = cli.run("cmake-annotate", args + ["-"], stdin=data, cwd=d.path, pre=with_jinja)
    elif case["mode"] == "file":
      res = cli.run("cmake-annotate", args + ["-o", "out.html", "in/CMakeLists.txt"], cwd=d.path, pre=with_jinja)
    else:
      res = cli.run("cmake-annotate", args + ["in/CMakeLists.txt"] * (2 if case.get("twice") else 1), cwd=d.path, pre=with_jinja)
    if res.rc != 0:
      raise Violation("cmake-annotate failed: %r" % res)
    out = d.get("out.html") if case["mode"] == "file" else res.out
    if d.get("in/CMakeLists.txt") != data:
      raise Violation("the listfile was changed")
  if case.get("twice") and case["mode"] == "stdout":
    if len(out) % 2 or out[:len(out) // 2] != out[len(out) // 2:]:
      raise Violation("the output for one file named twice is not the same thing twice")
    out = out[:len(out) // 2]
  out = out.decode(enc_out)
  if case["format"] == "stub":
    content = out
  else:
    page = out
    if case["format"] == "iframe":
      a, b = page.find('<template id="renderedcontent">'), page.find("</template>")
      if a < 0 or b < 0 or page.count("</template>") != 1:
        raise Violation("no template element:\n%s" % page[:1000])
      page = page[a + len('<template id="renderedcontent">'):b]
    mark = '<div class="content">\n'
    a, b = page.find(mark), page.rfind("</div>")
    if a < 0 or b < 0 or "<style" not in page or "</html>" not in page or "{{" in page[:a]:
      raise Violation("not a page:\n%s" % page[:1000])
    content = page[a + len(mark):b]
    content = content[:-1] if content.endswith("\n") else content
  leaves = read(content)
  got = "".join(t for t, _ in leaves)
  want = given.replace("\r\n", "\n")
  if got.replace("\r\n", "\n").lstrip("\ufeff") != want.lstrip("\ufeff"):
    raise Violation("the text content is not the listfile:\n%r\n%r" % (want, got))
  if "\r" not in got:
    classes(text, leaves, case, rec)
  rec.label(case["format"], case["mode"], "config_" + case["config"])
  rec.nontrivial(any(c in text for c in "<>&") and ("#" in text or '"' in text))


def classes(text, leaves, case, rec):
  """every token of the source has the class of its kind"""
  pos = 0
  spans = {}
  for t, stack in leaves:
    t = t.replace("\r\n", "\n").lstrip("\ufeff") if pos == 0 else t.replace("\r\n", "\n")
    spans[pos] = (t, stack)
    pos += len(t)
  off = False
  names = set()
  for c in cmref.parse(text):
    if c.kind == "cmd":
      names.add(c.tok.pos)
  for t in cmref.scan(text):
    if t.type not in CLASSES and t.pos not in names:
      continue
    if t.type == "lc" and ("cmake-format: o" in t.text or "cmf: o" in t.text):
      off = "off" in t.text.split(":")[1]
      continue
    if off:
      continue
    if t.pos not in spans:
      raise Violation("%r at %d is not an element" % (t.text, t.pos))
    s, stack = spans[t.pos]
    if t.pos in names:
      if "FUNNAME" not in stack or s != t.text:
        raise Violation("command name %r has the classes %r" % (t.text, stack))
    elif s != t.text or stack[-1] not in CLASSES[t.type]:
      raise Violation("%r has the classes %r (%r)" % (t.text, stack, s))
    if t.type in ("quo", "bra") and "ARGUMENT" not in stack and "KEYWORD" not in stack and "FLAG" not in stack:
      raise Violation("argument %r has the classes %r" % (t.text, stack))
    if t.type in ("lc", "bc") and "COMMENT" not in stack[:-1]:
      raise Violation("comment %r has the classes %r" % (t.text, stack))
  if case["config"] == "none":
    return
  off = cmref_off(text)
  for c in cmref.parse(text):
    if c.kind != "cmd" or c.name.lower() != "my_cmd" or any(a <= c.tok.pos < b for a, b in off):
      continue
    for t in c.argtoks:
      up = t.text.upper()
      if up not in ("ONE", "MANY", "FLAG"):
        continue
      want = "FLAG" if up == "FLAG" else "KEYWORD"
      stack = spans[t.pos][1]
      if want not in stack:
        raise Violation("%s %r of a declared command has the classes %r" % (want, t.text, stack))
      rec.label("keyword")


def cmref_off(text):
  from vf.checks.common import regions
  return regions(text)


SUBS = [Sub("run", gen_any, oracle, 2500, 40000, 125)]
