"""Reference reader for the CMake language, written from CMake's own
cmListFileLexer.in.l / cmListFileCache.cxx and independent of cmakelang.

scan(text)  -> list of Tok, lossless; raises BadCMake
parse(text) -> Program (commands, comments, blank lines), raises BadCMake
"""
import re


class BadCMake(Exception):
  pass


class Tok(object):
  __slots__ = ("type", "text", "pos", "line", "col")

  def __init__(self, ttype, text, pos, line, col):
    self.type, self.text, self.pos, self.line, self.col = \
        ttype, text, pos, line, col

  def __repr__(self):
    return "%s(%r)@%d:%d" % (self.type, self.text, self.line, self.col)


_UNQ = r'(?:[^ \0\t\r\n()#"\[=\\]|\\[^\0\n\r])'
_MKV = r'\$\([A-Za-z0-9_]*\)'
_LEG = r'(?:' + _MKV + '|' + _UNQ + r'|"(?:' + _MKV + '|' + _UNQ + r'|[ \t\[=])*")'
R_UNQ = re.compile('(?:' + _UNQ + r'|=|\[=*' + _UNQ + ')(?:' + _UNQ + r'|[\[=])*')
R_LEG = re.compile('(?:' + _MKV + '|' + _UNQ + r'|=|\[=*' + _LEG + ')(?:' + _LEG + r'|[\[=])*')
R_BRA = re.compile(r'\[(=*)\[')
R_QUO = re.compile(r'"(?:[^\\\0"]|\\.)*"', re.S)
R_SP = re.compile(r'[ \t]+')
R_NL = re.compile(r'\r?\n')
R_LC = re.compile(r'#[^\0\n]*')
R_ID = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
R_AT = re.compile(r'@[A-Za-z_][A-Za-z0-9_]*@')


def scan(text):
  toks = []
  pos, line, bol = 0, 1, 0
  n = len(text)
  if text.startswith(u"\ufeff"):
    pos = bol = 1
  while pos < n:
    c = text[pos]
    if c == '(':
      t = ('lp', '(')
    elif c == ')':
      t = ('rp', ')')
    elif c == '\n' or text.startswith('\r\n', pos):
      t = ('nl', R_NL.match(text, pos).group())
    elif c in ' \t\r':
      m = R_SP.match(text, pos)
      t = ('sp', m.group() if m else c)
    elif c == '#':
      m = R_BRA.match(text, pos + 1)
      if m:
        close = ']' + m.group(1) + ']'
        end = text.find(close, m.end())
        if end < 0:
          raise BadCMake("unterminated bracket comment at line %d" % line)
        t = ('bc', text[pos:end + len(close)])
      else:
        s = R_LC.match(text, pos).group()
        if s.endswith('\r'):
          s = s[:-1]
        t = ('lc', s)
    elif c == '"':
      m = R_QUO.match(text, pos)
      if not m:
        raise BadCMake("unterminated string at line %d" % line)
      t = ('quo', m.group())
    else:
      m = R_BRA.match(text, pos) if c == '[' else None
      if m:
        close = ']' + m.group(1) + ']'
        end = text.find(close, m.end())
        if end < 0:
          raise BadCMake("unterminated bracket at line %d" % line)
        t = ('bra', text[pos:end + len(close)])
      else:
        mu, ml = R_UNQ.match(text, pos), R_LEG.match(text, pos)
        best = mu
        if ml and (not mu or ml.end() > mu.end()):
          best = ml
        if not best:
          if c == '[':
            t = ('unq', re.match(r'\[=*', text[pos:]).group())
          else:
            raise BadCMake("bad character %r at line %d" % (c, line))
        else:
          t = ('unq', best.group())
    last = toks[-1].type if toks else None
    if last in ('bra', 'bc') and t[0] in ('unq', 'quo', 'bra') or last in ('unq', 'quo', 'rp') and t[0] == 'bra':
      # CMake: "Argument not separated from preceding token by whitespace"
      raise BadCMake("bracket not separated at line %d" % line)
    toks.append(Tok(t[0], t[1], pos, line, pos - bol))
    nls = t[1].count('\n')
    pos += len(t[1])
    if nls:
      line += nls
      bol = pos - len(t[1]) + t[1].rfind('\n') + 1
  return toks


class Cmd(object):
  """A command invocation. args: (kind, raw) with kind in unq/quo/bra/lp/rp.
  comments: comments between the parentheses as (kind, raw, index of the
  argument they follow)."""
  kind = 'cmd'

  def __init__(self, name, tok):
    self.name, self.tok = name, tok
    self.args, self.comments = [], []
    self.argtoks = []
    self.commenttoks = []
    self.space = ''
    self.rp = None
    self.trailing = []   # comments on the line of the closing parenthesis

  def __repr__(self):
    return "%s(%s)" % (self.name, " ".join(a for _, a in self.args))


class Com(object):
  kind = 'com'

  def __init__(self, tok):
    self.type, self.text, self.tok = tok.type, tok.text, tok

  def __repr__(self):
    return self.text


class Blank(object):
  kind = 'blank'

  def __init__(self, count):
    self.count = count

  def __repr__(self):
    return "<blank %d>" % self.count


class AtStmt(object):
  kind = 'at'

  def __init__(self, tok):
    self.text, self.tok = tok.text, tok
    self.trailing = []

  def __repr__(self):
    return self.text


def parse(text, toks=None):
  """-> list of Cmd / Com / AtStmt / Blank in file order."""
  toks = scan(text) if toks is None else toks
  out = []
  i, n = 0, len(toks)
  have_newline = True
  nlcount = 1   # line endings since the last element (1 = at line start)
  last = None   # last Cmd/At on the current line
  while i < n:
    t = toks[i]
    if t.type == 'sp':
      i += 1
    elif t.type == 'nl':
      have_newline = True
      last = None
      nlcount += 1
      i += 1
    elif t.type in ('lc', 'bc'):
      if nlcount > 1:
        out.append(Blank(nlcount - 1)) if out else None
      com = Com(t)
      if last is not None:
        last.trailing.append(com)
      out.append(com)
      com.trails = last
      nlcount = 0
      if t.type == 'bc':
        have_newline = False
      i += 1
    elif t.type == 'unq' and R_ID.fullmatch(t.text):
      if not have_newline:
        raise BadCMake("expected a newline before %r at line %d" % (t.text, t.line))
      if nlcount > 1:
        out.append(Blank(nlcount - 1)) if out else None
      nlcount = 0
      have_newline = False
      cmd = Cmd(t.text, t)
      i += 1
      if i < n and toks[i].type == 'sp':
        cmd.space = toks[i].text
        i += 1
      if i >= n or toks[i].type != 'lp':
        raise BadCMake("expected ( after %s at line %d" % (t.text, t.line))
      cmd.lp = toks[i]
      i += 1
      depth = 1
      prev = toks[i - 1]
      while True:
        if i >= n:
          raise BadCMake("unterminated command %s at line %d" % (t.text, t.line))
        a = toks[i]
        if a.type in ('sp', 'nl'):
          pass
        elif a.type in ('lc', 'bc'):
          cmd.comments.append((a.type, a.text, len(cmd.args)))
          cmd.commenttoks.append(a)
        elif a.type == 'lp':
          depth += 1
          cmd.args.append(('lp', '('))
          cmd.argtoks.append(a)
        elif a.type == 'rp':
          depth -= 1
          if depth == 0:
            cmd.rp = a
            i += 1
            break
          cmd.args.append(('rp', ')'))
          cmd.argtoks.append(a)
        else:
          if prev.type in ('unq', 'quo', 'bra', 'bc') or (
              prev.type == 'rp'):
            raise BadCMake("argument %r not separated at line %d" % (a.text, a.line))
          cmd.args.append((a.type, a.text))
          cmd.argtoks.append(a)
        prev = a
        i += 1
      out.append(cmd)
      last = cmd
    elif t.type == 'unq' and R_AT.fullmatch(t.text):
      if not have_newline:
        raise BadCMake("expected a newline before %r" % t.text)
      if nlcount > 1:
        out.append(Blank(nlcount - 1)) if out else None
      nlcount = 0
      have_newline = False
      at = AtStmt(t)
      out.append(at)
      last = at
      i += 1
    else:
      raise BadCMake("unexpected %r at line %d" % (t.text, t.line))
  return out


def unix(s):
  return s.replace('\r\n', '\n')


def canon_args(cmd):
  return [(k, unix(a)) for k, a in cmd.args]


OPEN = {'if': 'endif', 'foreach': 'endforeach', 'while': 'endwhile',
        'function': 'endfunction', 'macro': 'endmacro'}
MID = {'else': 'if', 'elseif': 'if'}
CLOSE = {v: k for k, v in OPEN.items()}


def check_blocks(prog):
  """Raises BadCMake when block commands are not balanced."""
  stack = []
  for e in prog:
    if e.kind != 'cmd':
      continue
    low = e.name.lower()
    if low in OPEN:
      stack.append(low)
    elif low in MID:
      if not stack or stack[-1] != 'if':
        raise BadCMake("stray " + low)
    elif low in CLOSE:
      if not stack or stack.pop() != CLOSE[low]:
        raise BadCMake("stray " + low)
  if stack:
    raise BadCMake("unclosed " + stack[-1])
