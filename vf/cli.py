"""Running the command line tools of the code under test.

run() forks the (warm) worker: the child redirects the real file descriptors,
sets sys.argv and calls the tool's main(), as the console script does.
run_process() starts a fresh interpreter (slower, used for samples)."""
import io
import logging
import os
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from vf import sut

MODULES = {
    "cmake-format": "cmakelang.format.__main__",
    "cmake-lint": "cmakelang.lint.__main__",
    "cmake-annotate": "cmakelang.annotate",
    "cmake-genparsers": "cmakelang.genparsers",
    "ctest-to": "cmakelang.ctest_to",
}
PYTHON = "/opt/venv/bin/python"


class Result(object):
  def __init__(self, rc, out, err):
    self.rc, self.out, self.err = rc, out, err

  @property
  def text(self):
    return self.out.decode("utf-8", "replace")

  def __repr__(self):
    return "rc=%s out=%r err=%r" % (self.rc, self.out[-500:], self.err[-500:])


def scratch():
  base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
  return tempfile.mkdtemp(prefix="vfcli-", dir=base)


class Dir(object):
  """A scratch directory with files; removed at the end."""

  def __enter__(self):
    self.path = scratch()
    return self

  def __exit__(self, *_):
    subprocess_safe_rmtree(self.path)

  def p(self, *names):
    return os.path.join(self.path, *names)

  def put(self, name, data):
    path = self.p(name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not isinstance(data, bytes):
      data = data.encode("utf-8")
    with open(path, "wb") as f:
      f.write(data)
    return path

  def get(self, name):
    with open(self.p(name), "rb") as f:
      return f.read()

  def files(self):
    out = {}
    for root, dirs, names in os.walk(self.path):
      for n in names:
        p = os.path.join(root, n)
        st = os.lstat(p)
        with open(p, "rb") as f:
          out[os.path.relpath(p, self.path)] = (f.read(), st.st_mode, st.st_mtime_ns, st.st_ino)
    return out


def subprocess_safe_rmtree(path):
  assert os.path.basename(path).startswith("vfcli-")
  for root, dirs, names in os.walk(path):
    for d in dirs:
      p = os.path.join(root, d)
      if not os.path.islink(p):
        os.chmod(p, 0o700)
  shutil.rmtree(path, ignore_errors=True)


def run(tool, argv, stdin=b"", cwd=None, pre=None, timeout=60, env=None):
  """Run `tool` with argv in a forked child. pre() runs in the child before
  main(). -> Result; rc is negative for a signal, None for a timeout."""
  import importlib
  module = importlib.import_module(MODULES[tool])
  rin = tempfile.TemporaryFile()
  rin.write(stdin)
  rin.seek(0)
  fout, ferr = tempfile.TemporaryFile(), tempfile.TemporaryFile()
  sys.stdout.flush()
  sys.stderr.flush()
  pid = os.fork()
  if pid == 0:
    code = 120
    try:
      signal.setitimer(signal.ITIMER_VIRTUAL, 0)
      signal.signal(signal.SIGVTALRM, signal.SIG_DFL)
      os.dup2(rin.fileno(), 0)
      os.dup2(fout.fileno(), 1)
      os.dup2(ferr.fileno(), 2)
      sys.stdin = io.TextIOWrapper(io.FileIO(0, "r", closefd=False), encoding="utf-8")
      sys.stdout = io.TextIOWrapper(io.FileIO(1, "w", closefd=False), encoding="utf-8", write_through=True)
      sys.stderr = io.TextIOWrapper(io.FileIO(2, "w", closefd=False), encoding="utf-8", errors="backslashreplace", write_through=True)
      logging.disable(logging.NOTSET)
      root = logging.getLogger()
      for h in list(root.handlers):
        root.removeHandler(h)
      root.setLevel(logging.WARNING)
      if cwd:
        os.chdir(cwd)
      for k, v in (env or {}).items():
        os.environ[k] = v
      sys.argv = [tool] + list(argv)
      if pre:
        pre()
      try:
        rc = module.main()
        if tool in ("cmake-annotate", "cmake-genparsers", "ctest-to") and rc is None:
          rc = 0
        code = rc if isinstance(rc, int) else 0 if rc is None else 1
      except SystemExit as ex:
        code = ex.code if isinstance(ex.code, int) else 0 if ex.code is None else 1
      except BaseException:  # pylint: disable=broad-except
        import traceback
        traceback.print_exc()
        code = 1
      sys.stdout.flush()
      sys.stderr.flush()
    finally:
      os._exit(code & 0xff)
  deadline = time.time() + timeout
  delay = 0.0005
  while True:
    done, st = os.waitpid(pid, os.WNOHANG)
    if done:
      break
    if time.time() > deadline:
      os.kill(pid, signal.SIGKILL)
      os.waitpid(pid, 0)
      st = None
      break
    time.sleep(delay)
    delay = min(delay * 1.5, 0.01)
  rc = None if st is None else os.waitstatus_to_exitcode(st)
  out, err = [], []
  for f, dest in ((fout, out), (ferr, err)):
    f.seek(0)
    dest.append(f.read())
    f.close()
  rin.close()
  return Result(rc, out[0], err[0])


def run_process(tool, argv, stdin=b"", cwd=None, timeout=120, env=None):
  e = dict(os.environ, PYTHONPATH=sut.REPO, PYTHONDONTWRITEBYTECODE="1", LANG="C.UTF-8")
  e.update(env or {})
  code = "import sys; sys.argv[0]=%r; from %s import main; sys.exit(main())" % (tool, MODULES[tool])
  p = subprocess.run([PYTHON, "-c", code] + list(argv), input=stdin, cwd=cwd, env=e, timeout=timeout,
                     stdout=subprocess.PIPE, stderr=subprocess.PIPE)
  return Result(p.returncode, p.stdout, p.stderr)
