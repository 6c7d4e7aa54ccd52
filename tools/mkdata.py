#!/usr/bin/env python3
"""One-off generator of vf/data/vocab.json (command names, their keywords as
declared in the tree this work started from) and vf/data/corpus.json (argument
lists of real invocations, from the listfiles that ship with cmake). The data
is committed: checks use it as generator material only, never as oracle."""
import glob
import inspect
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, "/repo")
from vf import cmref  # noqa
from cmakelang import parse  # noqa
import cmakelang.parse.funs  # noqa
from cmakelang.parse.argument_nodes import StandardParser, StandardParser2  # noqa

WORD = re.compile(r'"([A-Z][A-Z0-9_]{1,40})"')


def walk(parser, acc, seen):
  if id(parser) in seen:
    return
  seen.add(id(parser))
  if isinstance(parser, StandardParser2):
    for f in parser.cmdspec.kwargs:
      acc.add(f)
    for group in parser.cmdspec.pargs:
      acc.update(group.flags or [])
    for sub in parser.funtree.values():
      walk(sub, acc, seen)
  elif isinstance(parser, StandardParser):
    acc.update(parser.flags)
    acc.update(parser.kwargs)
    for sub in parser.kwargs.values():
      walk(sub, acc, seen)
  else:
    fn = parser
    if hasattr(fn, "__func__"):
      fn = fn.__func__
    try:
      src = inspect.getsource(fn)
    except (TypeError, OSError):
      return
    acc.update(WORD.findall(src))
    mod = sys.modules.get(getattr(fn, "__module__", ""), None)
    if mod and "parse.funs" in mod.__name__:
      for m in re.finditer(r'\b(parse_\w+)\(', src):
        sub = getattr(mod, m.group(1), None)
        if sub is not None and sub is not fn and callable(sub):
          walk(sub, acc, seen)


DISPATCH = re.compile(r'"([A-Z_]+)":\s*(\w+)')


def forms_of(parser):
  """subcommand -> keywords for commands that dispatch on the first argument"""
  try:
    fn = getattr(parser, "__func__", parser)
    src = inspect.getsource(fn)
  except (TypeError, OSError):
    return {}
  mod = sys.modules.get(getattr(fn, "__module__", ""), None)
  out = {}
  text = src
  for m in DISPATCH.finditer(text):
    sub = getattr(mod, m.group(2), None)
    if callable(sub):
      acc = set()
      walk(sub, acc, set())
      out[m.group(1)] = sorted(k for k in acc if not re.fullmatch(r'[CEWR][0-9]{4}', k))
  # forms selected by comparison: descriminator == "TARGETS" -> parse_x
  for m in re.finditer(r'== "([A-Z_]+)":\s*\n\s*return (\w+)\(', text):
    sub = getattr(mod, m.group(2), None)
    if callable(sub):
      acc = set()
      walk(sub, acc, set())
      out[m.group(1)] = sorted(k for k in acc if not re.fullmatch(r'[CEWR][0-9]{4}', k))
  return out


FORMS = ("add_custom_command", "add_executable", "add_library", "file",
         "install", "list", "foreach")


def main():
  db = parse.funs.get_parse_db()
  vocab = {}
  for name, parser in sorted(db.items()):
    acc = set()
    walk(parser, acc, set())
    vocab[name] = sorted(k for k in acc if re.fullmatch(r'[A-Za-z_0-9]+', k)
                         and not re.fullmatch(r'[CEWR][0-9]{4}', k))
    forms = forms_of(parser)
    if forms and name in FORMS:
      vocab[name] = {"": vocab[name], **forms}
  extra = {
      "if": "AND OR NOT DEFINED EXISTS STREQUAL MATCHES VERSION_LESS TARGET COMMAND IN_LIST EQUAL IS_DIRECTORY",
  }
  for k in ("if", "elseif", "while"):
    vocab[k] = sorted(extra["if"].split())
  json.dump(vocab, open(os.path.join(HERE, "../vf/data/vocab.json"), "w"),
            indent=0, sort_keys=True)
  seen = {}
  for f in sorted(glob.glob('/usr/share/cmake-3.28/**/*.cmake', recursive=True)):
    try:
      prog = cmref.parse(open(f, newline='', encoding='utf-8').read())
    except (cmref.BadCMake, UnicodeDecodeError):
      continue
    for e in prog:
      if e.kind != 'cmd' or len(e.args) > 30 or len(e.args) < 1:
        continue
      low = e.name.lower()
      if low in cmref.OPEN or low in cmref.MID or low in cmref.CLOSE:
        if low not in ("if", "while", "foreach"):
          continue
      text = " ".join(a for _, a in e.args)
      if len(text) > 700:
        continue
      shape = tuple(a if re.fullmatch('[A-Z_]{2,}', a) else k for k, a in e.args)[:6]
      bucket = seen.setdefault(low, {})
      bucket.setdefault(shape, [[k, a] for k, a in e.args])
  corpus = {}
  for name, bucket in sorted(seen.items()):
    items = sorted(bucket.values(), key=lambda x: (len(x), json.dumps(x)))
    cap = 40 if name in vocab else 2
    step = max(1, len(items) // cap)
    corpus[name] = items[::step][:cap]
  json.dump(corpus, open(os.path.join(HERE, "../vf/data/corpus.json"), "w"),
            indent=None, sort_keys=True)
  print(len(vocab), len(corpus), sum(map(len, corpus.values())))


main()
