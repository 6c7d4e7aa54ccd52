"""Access to the code under test: always /repo's working tree."""
import logging
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
  sys.path.insert(0, REPO)
os.environ.setdefault("LANG", "C.UTF-8")

logging.disable(logging.CRITICAL)

from cmakelang import configuration, lex, parse, common, markup  # noqa
from cmakelang.format import __main__ as fmain  # noqa
from cmakelang.format import formatter  # noqa


def _real(mod):
  f = os.path.realpath(mod.__file__)
  assert f.startswith(os.path.realpath(REPO) + os.sep), f


_real(configuration)


from vf.engine import Violation  # noqa


def mkconfig(cfgdict):
  import copy
  return configuration.Configuration(**copy.deepcopy(cfgdict))


def fmt(text, cfgdict):
  """-> (formatted text, layout is valid). Raises Violation when the code
  under test raises on this (valid) input."""
  cfg = mkconfig(cfgdict)
  try:
    return fmain.process_file(cfg, text)
  except MemoryError:
    raise
  except Exception as ex:  # pylint: disable=broad-except
    import traceback
    tb = traceback.extract_tb(ex.__traceback__)[-1]
    raise Violation("formatting a valid listfile raised %s: %s (%s:%s)" % (
        type(ex).__name__, str(getattr(ex, "msg", None) or ex)[:300],
        os.path.basename(tb.filename), tb.name))
