"""Choice source for the generators.

A generator is a plain function of a Src. Src is backed by Hypothesis'
ConjectureData (so that generation, replay and shrinking are Hypothesis' own)
or by a byte string (coverage-guided fuzzing with atheris). Every choice is
ordered simplest-first: shrinking moves towards the first alternative."""
from hypothesis.strategies import SearchStrategy


class Src(object):
  __slots__ = ("data",)

  def __init__(self, data):
    self.data = data

  def i(self, lo, hi):
    """integer in [lo, hi]"""
    if lo >= hi:
      return lo
    return self.data.draw_integer(lo, hi)

  def pick(self, seq):
    return seq[self.i(0, len(seq) - 1)]

  def p(self, percent):
    """True with the given chance; False is the simple value"""
    if percent <= 0:
      return False
    if percent >= 100:
      return True
    # any value below 100-percent is False, so that 0 is False
    return self.i(0, 99) >= 100 - percent

  def w(self, *pairs):
    """weighted choice: (weight, value), simplest first"""
    total = sum(w for w, _ in pairs)
    k = self.i(0, total - 1)
    for w, v in pairs:
      if k < w:
        return v
      k -= w
    return pairs[-1][1]

  def many(self, lo, hi, cont=75):
    """a length: geometric between lo and hi"""
    n = lo
    while n < hi and self.p(cont):
      n += 1
    return n

  def sub(self, seq, percent=50):
    return [x for x in seq if self.p(percent)]

  def shuffle(self, seq):
    seq = list(seq)
    out = []
    while seq:
      out.append(seq.pop(self.i(0, len(seq) - 1)))
    return out


class GenStrategy(SearchStrategy):
  def __init__(self, fn):
    super().__init__()
    self.fn = fn

  def do_draw(self, data):
    return self.fn(Src(data))

  def calc_is_empty(self, recur):
    return False

  def __repr__(self):
    return "GenStrategy(%s)" % getattr(self.fn, "__name__", "?")


class ByteData(object):
  """draw_integer from a byte string; zero once exhausted"""

  def __init__(self, data):
    self.buf, self.pos = data, 0

  def draw_integer(self, lo, hi):
    span = hi - lo
    nb = 1 if span < 256 else 2 if span < 65536 else 4
    chunk = self.buf[self.pos:self.pos + nb]
    self.pos += nb
    return lo + int.from_bytes(chunk, "little") % (span + 1)


class RandData(object):
  def __init__(self, rnd):
    self.rnd = rnd

  def draw_integer(self, lo, hi):
    return self.rnd.randint(lo, hi)
