"""Shared oracles."""
import difflib
import re

from vf import cmref, sut
from vf.engine import Skip, Violation


def diff(a, b):
  return "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "before", "after", n=2))


def ref_parse(text, what="output"):
  """Reference parse of text that must be a valid listfile."""
  try:
    prog = cmref.parse(text)
    cmref.check_blocks(prog)
    return prog
  except cmref.BadCMake as ex:
    raise Violation("%s is not valid CMake: %s\n%s" % (what, ex, text[:2000]))


def ref_parse_input(text):
  """Reference parse of generated input: outside of the domain if not valid"""
  try:
    prog = cmref.parse(text)
    cmref.check_blocks(prog)
    return prog
  except cmref.BadCMake as ex:
    raise Skip("generated input is not valid: %s" % re.sub(r"[0-9]+|'.*'", "", str(ex))[:40])


def cmds(prog):
  return [e for e in prog if e.kind == "cmd"]


TAG = re.compile(r"#\s*(cmake-format|cmf): (off|on)")


def regions(text):
  """[(begin, end)] of the text protected by format off and on"""
  out = []
  start = None
  for t in cmref.scan(text):
    if t.type != "lc":
      continue
    m = TAG.match(t.text)
    if not m:
      continue
    if m.group(2) == "off" and start is None:
      start = t.pos + len(t.text.rstrip("\r"))
    elif m.group(2) == "on" and start is not None:
      out.append((start, t.pos))
      start = None
  if start is not None:
    out.append((start, len(text)))
  return out


def literal_spans(text):
  """[(begin, end)] of multi-line literals and protected regions"""
  out = [(t.pos, t.pos + len(t.text)) for t in cmref.scan(text) if "\n" in t.text and t.type in ("quo", "bra", "bc", "unq")]
  return sorted(out + regions(text))


def free_lines(text):
  """[(line number from 0, line text, starts inside a literal, ends inside a literal)]"""
  spans = literal_spans(text)
  out = []
  pos = 0
  for n, line in enumerate(text.split("\n")):
    end = pos + len(line)
    a = any(x < pos < y or x < pos == y for x, y in spans)
    b = any(x <= end < y for x, y in spans)
    out.append((n, line, a, b))
    pos = end + 1
  return out
