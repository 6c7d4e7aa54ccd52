"""Running cmake-lint on text."""
import io
import os

from vf import sut
from vf.engine import Violation
from cmakelang.lint import __main__ as lmain
from cmakelang.lint import lint_util


def lint(text, cfgdict):
  """-> [(code, line or None, column or None, message)] in the order of the report"""
  cfg = sut.mkconfig(cfgdict)
  gctx = lint_util.GlobalContext(io.StringIO())
  ctx = gctx.get_file_ctx("CMakeLists.txt", cfg)
  try:
    lmain.process_file(cfg, ctx, text)
    records = ctx.get_lint()
    out = []
    for r in records:
      loc = tuple(r.location or ())
      out.append((r.spec.idstr, loc[0] if loc else None, loc[1] if len(loc) > 1 else None, r.msg))
      repr(r)
    return out
  except MemoryError:
    raise
  except Exception as ex:  # pylint: disable=broad-except
    import traceback
    tb = traceback.extract_tb(ex.__traceback__)[-1]
    raise Violation("cmake-lint raised %s: %s (%s:%s)" % (
        type(ex).__name__, str(getattr(ex, "msg", None) or ex)[:300], os.path.basename(tb.filename), tb.name))


def multiset_diff(want, got):
  """-> (missing, unexpected)"""
  got = list(got)
  missing = []
  for w in want:
    if w in got:
      got.remove(w)
    else:
      missing.append(w)
  return missing, got


def lint_lines(text, cfgdict, path="CMakeLists.txt"):
  """-> (the lines which have to be reported, the codes)"""
  cfg = sut.mkconfig(cfgdict)
  gctx = lint_util.GlobalContext(io.StringIO())
  ctx = gctx.get_file_ctx(path, cfg)
  lmain.process_file(cfg, ctx, text)
  records = ctx.get_lint()
  return ["%s:%r" % (path, r) for r in records], [r.spec.idstr for r in records]
