"""C14 the lexer is lossless and its locations are exact"""
from vf import cmref, gen, large, sut
from vf.checks.common import TAG, ref_parse_input
from vf.engine import Sub, Violation

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = ("Hypothesis-generated texts: round trip (joined spellings = input) and recomputed locations on arbitrary text, "
             "differential against an independent reader of the CMake language on valid listfiles")
LEVEL_NOTE = "Random exploration over arbitrary unicode text, spliced listfiles and valid listfiles."
RULE = ("A case is a text; non-trivial when it tokenizes to more than three tokens of at least two types and spans more than one line or "
        "holds a non-ASCII character.")
ASSUMPTIONS = []
FRAG = ["a", "foo", " ", "\n", "\r\n", "\r", "\t", "(", ")", '"', "'", "#", "[", "]", "[[", "]]", "[=[", "]=]", "#[[", "#[=[",
        "\\", "\\\n", "\\\"", "${", "}", "${x}", "$(", "@x@", "@", "1", "-1", "# cmake-format: off", "# cmf: on", "#[[x]]", ";",
        u"\u00e9", u"\u65e5\u672c", u"\U0001f680", u"\ufeff", u"\u00a0", u"\u2028", "\x0b", "\x0c", u"\x85", "=", "$<x>", "\\;", "'b'",
        "foo(", "if(", "endif()", '"a b"', "\0", u"e\u0301", "-", "x.y"]


def lexed(text):
  from cmakelang import common, lex
  try:
    return lex.tokenize(text)
  except common.UserError:
    return None
  except Exception as ex:  # pylint: disable=broad-except
    raise Violation("tokenize raised %s: %s" % (type(ex).__name__, ex))


def check_locations(text, toks):
  if text.startswith(u"\ufeff"):
    if toks[0].type.name != "BYTEORDER_MARK":
      raise Violation("no BYTEORDER_MARK token")
    body, rest = text[1:], toks[1:]
    if tuple(toks[0].begin) != (0, 0, 0):
      raise Violation("location of the byte order mark")
  else:
    body, rest = text, toks
  if any(t.type.name == "BYTEORDER_MARK" for t in rest):
    raise Violation("misplaced byte order mark")
  joined = "".join(t.spelling for t in rest)
  if joined != body:
    raise Violation("token spellings joined are not the input\n%r\n%r" % (body, joined))
  pos, off, line, bol = 0, 0, 1, 0
  for n, t in enumerate(rest):
    want = (line, pos - bol, off)
    if tuple(t.begin) != want:
      raise Violation("token %d (%r) begins at %s instead of %s" % (n, t.spelling, tuple(t.begin), want))
    if not t.spelling:
      raise Violation("empty token %d" % n)
    pos += len(t.spelling)
    off += len(t.spelling.encode("utf-8", "surrogatepass"))
    k = t.spelling.count("\n")
    if k:
      line += k
      bol = pos - len(t.spelling) + t.spelling.rindex("\n") + 1
    want = (line, pos - bol, off)
    if tuple(t.end) != want:
      raise Violation("token %d (%r) ends at %s instead of %s" % (n, t.spelling, tuple(t.end), want))
    if t.index != n:
      raise Violation("token %d has index %s" % (n, t.index))
    if tuple(t.get_location()) != tuple(t.begin):
      raise Violation("get_location of token %d" % n)


def oracle_text(case, rec):
  text = case["text"]
  toks = lexed(text)
  if toks is None:
    rec.label("rejected")
    return
  check_locations(text, toks)
  rec.nontrivial(len(toks) > 3 and len(set(t.type.name for t in toks)) > 1 and
                 ("\n" in text or any(ord(c) > 127 for c in text)))
  for t in toks:
    rec.label(t.type.name)


KIND = {"QUOTED_LITERAL": "quo", "BRACKET_ARGUMENT": "bra", "WORD": "unq", "NUMBER": "unq", "DEREF": "unq", "ATWORD": "unq",
        "UNQUOTED_LITERAL": "unq", "LEFT_PAREN": "lp", "RIGHT_PAREN": "rp", "COMMENT": "lc", "FORMAT_OFF": "lc",
        "FORMAT_ON": "lc", "BRACKET_COMMENT": "bc"}


def cut(s):
  return s.rstrip("\r")


def oracle_program(case, rec):
  text = case["text"]
  ref_parse_input(text)
  toks = lexed(text)
  if toks is None:
    raise Violation("a valid listfile is rejected by the lexer")
  check_locations(text, toks)
  want = [(t.type, cut(t.text), t.line, t.col) for t in cmref.scan(text) if t.type not in ("sp", "nl")]
  got = []
  for t in toks:
    if t.type.name in ("WHITESPACE", "NEWLINE", "BYTEORDER_MARK"):
      continue
    kind = KIND[t.type.name]
    if kind == "quo" and t.spelling[0] == "'":
      kind = "unq"    # CMake has no single quoted arguments
    got.append((kind, cut(t.spelling), t.begin.line, t.begin.col))
    if t.type.name in ("FORMAT_OFF", "FORMAT_ON"):
      m = TAG.match(t.spelling)
      if not m or m.group(2) != t.type.name[7:].lower():
        raise Violation("%r is a %s token" % (t.spelling, t.type.name))
    elif t.type.name == "COMMENT" and TAG.match(t.spelling):
      raise Violation("%r is no tag" % t.spelling)
    elif t.type.name == "WORD" and not cmref.R_ID.fullmatch(t.spelling):
      raise Violation("%r is a WORD token" % t.spelling)
    elif t.type.name == "NUMBER" and not t.spelling.lstrip("-").isdigit():
      raise Violation("%r is a NUMBER token" % t.spelling)
  if got != want:
    for a, b in zip(want, got):
      if a != b:
        raise Violation("CMake sees %s, the lexer %s" % (a, b))
    raise Violation("CMake sees %d tokens, the lexer %d" % (len(want), len(got)))
  rec.nontrivial(len(want) > 3 and "\n" in text.strip())


def gen_text(s):
  kind = s.w((5, "frag"), (3, "chars"), (4, "splice"))
  bom = u"\ufeff" if s.p(8) else ""
  if kind == "frag":
    return {"text": bom + "".join(s.pick(FRAG) for _ in range(s.many(1, 40, 92)))}
  if kind == "chars":
    out = []
    for _ in range(s.many(1, 40, 92)):
      c = s.w((6, s.i(32, 126)), (2, s.pick([10, 13, 9, 40, 41, 34, 35, 91, 93, 92])), (1, s.i(0, 0x2fff)), (1, s.i(0xe000, 0x10ffff)))
      out.append(chr(c))
    return {"text": bom + "".join(out)}
  text = gen.Gen(s, gen.Prof(stmts=(1, 2), max_depth=1, multiline=15, unicode=12)).listfile()
  for _ in range(s.i(0, 3)):
    if not text:
      break
    k = s.i(0, len(text) - 1)
    op = s.i(0, 2)
    if op == 0:
      text = text[:k] + text[k + 1:]
    elif op == 1:
      text = text[:k] + s.pick(FRAG) + text[k:]
    else:
      text = text[:k]
  if s.p(25):
    text = text.replace("\n", "\r\n")
  return {"text": bom + text}


def gen_program(s):
  g = gen.Gen(s, gen.Prof(stmts=(1, 3), max_depth=2, multiline=15, unicode=12, weird=30, onoff=6, argcomments=15,
                          trailing_ws_in_multiline=True))
  text = g.listfile()
  if s.p(25):
    text = text.replace("\n", "\r\n")
  if s.p(10):
    text = u"\ufeff" + text
  return {"text": text}


SUBS = [Sub("large", large.gen_large, oracle_program, 300, 8000, 40),
        Sub("text", gen_text, oracle_text, 6000, 200000, 750),
        Sub("program", gen_program, oracle_program, 3000, 80000, 375)]
