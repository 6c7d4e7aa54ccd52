"""Runs the sub-checks of one property.

A check module (vf/checks/cNN.py) defines
  ID, LEVEL, RULE, ASSUMPTIONS and SUBS: a list of Sub(name, gen, oracle, ...).
gen(src) builds a JSON-able case from a choice source, oracle(case, rec) judges
the code under test on it: it raises Violation, or returns after telling `rec`
what the case exercised.

Cases come from Hypothesis, in batches with seeds derived from VERIF_SEED; the
batches run in forked workers. A failing case is shrunk by Hypothesis and the
minimal case is written as a replay file."""
import argparse
import gc
import hashlib
import importlib
import json
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")
FINDINGS = os.path.join(VERIF, "findings")
FINDINGS_FILE = os.path.join(VERIF, "known_findings.txt")
CASE_CPU_S = 40
MEMORY = 3 << 30     # address space of a worker


class Violation(Exception):
  """The property does not hold for this case."""


class Skip(Exception):
  """The case is outside the domain of the property (counted)."""


class CaseTimeout(BaseException):
  pass


class Sub(object):
  """One sub-check."""

  def __init__(self, name, gen, oracle, quick, thorough, batch=250, kind="hypothesis"):
    self.name, self.gen, self.oracle = name, gen, oracle
    self.quick, self.thorough, self.batch = quick, thorough, batch
    self.kind = kind     # "hypothesis": generated; "enum": gen() yields all the cases


class Rec(object):
  def __init__(self):
    self.evaluations = 0
    self.nontrivial_hashes = set()
    self.labels = {}
    self.samples = []
    self.skipped = 0
    self.skips = {}
    self._nt = False

  def begin(self):
    self._nt = False
    self._labels = set()

  def label(self, *names):
    self._labels.update(names)

  def nontrivial(self, cond=True):
    if cond:
      self._nt = True

  def end(self, case):
    self.evaluations += 1
    for l in self._labels:
      self.labels[l] = self.labels.get(l, 0) + 1
    if self._nt:
      h = hashlib.blake2b(canon(case).encode("utf-8", "surrogatepass"), digest_size=8).hexdigest()
      if h not in self.nontrivial_hashes:
        self.nontrivial_hashes.add(h)
        if len(self.samples) < 2:
          self.samples.append(case)


def canon(case):
  return json.dumps(case, sort_keys=True)


def _alarm(signum, frame):
  raise CaseTimeout()


def evaluate(sub, case, rec):
  """Run one case under the CPU limit."""
  rec.begin()
  # again every second: the exception is lost if it is raised in a callback
  signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S, 1.0)
  try:
    sub.oracle(case, rec)
  except Skip as ex:
    rec.skipped += 1
    key = str(ex)[:60]
    rec.skips[key] = rec.skips.get(key, 0) + 1
    return
  except MemoryError:
    gc.collect()
    raise Violation("memory exhausted (more than %d MB)" % (MEMORY >> 20))
  except CaseTimeout:
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    raise Violation("no result after %d s of CPU time" % CASE_CPU_S)
  finally:
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
  rec.end(case)


def run_batch(mod, sub, seed, count, outpath):
  """In a worker process."""
  import logging
  import hypothesis
  logging.getLogger("hypothesis").setLevel(logging.CRITICAL)
  from hypothesis import HealthCheck, Phase, Verbosity, given, settings
  from hypothesis.internal.conjecture import engine as hengine
  from vf.src import GenStrategy
  hengine.report = lambda *a, **k: None
  # Hypothesis mixes in numbers it finds in the source code of local modules:
  # the cases must not depend on how the code under test is written
  from hypothesis.internal.conjecture import providers
  if hasattr(providers, "_get_local_constants") and hasattr(providers, "_local_constants"):
    nothing = providers._local_constants
    providers._get_local_constants = lambda: nothing
  hengine.MAX_SHRINKING_SECONDS = int(os.environ.get("VERIF_SHRINK_S", "40"))
  signal.signal(signal.SIGVTALRM, _alarm)
  resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
  rec = Rec()
  state = {"case": None, "msg": None}
  res = {"ok": True}

  def inner(case):
    try:
      evaluate(sub, case, rec)
    except Violation as ex:
      state["case"], state["msg"] = case, str(ex)
      raise

  try:
    if sub.kind == "hypothesis":
      test = given(GenStrategy(sub.gen))(inner)
      test = settings(max_examples=count, database=None, deadline=None, derandomize=False,
                      phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), print_blob=False,
                      verbosity=Verbosity.quiet)(test)
      test = hypothesis.seed(seed)(test)
      test()
    else:
      for case in sub.gen(seed, count):
        inner(case)
  except Violation:
    res = {"ok": False, "case": state["case"], "msg": state["msg"]}
  except BaseException as ex:  # pylint: disable=broad-except
    if state["case"] is not None:
      # Hypothesis could not reproduce it (a flaky case): still what we saw
      res = {"ok": False, "case": state["case"], "msg": state["msg"] + " [" + type(ex).__name__ + "]"}
    else:
      res = {"ok": False, "error": traceback.format_exc()}
  res.update(evaluations=rec.evaluations, hashes=sorted(rec.nontrivial_hashes), labels=rec.labels,
             samples=rec.samples, skipped=rec.skipped, skips=rec.skips)
  with open(outpath, "w") as out:
    json.dump(res, out)


def batch_seed(seed, pid, sub, k):
  h = hashlib.sha256(("%d/%s/%s/%d" % (seed, pid, sub, k)).encode()).digest()
  return int.from_bytes(h[:6], "big")


def read_findings(pid):
  """-> [(status, case file, text)] of this property"""
  out = []
  if not os.path.exists(FINDINGS_FILE):
    return out
  for line in open(FINDINGS_FILE):
    line = line.strip()
    if not line or line.startswith("#"):
      continue
    status, rest = line.split(": ", 1)
    words = rest.split()
    if words[0] != "property=" + pid:
      continue
    case = None
    text = []
    for w in words[1:]:
      if w.startswith("case="):
        case = w[5:]
      else:
        text.append(w)
    out.append((status, case, " ".join(text)))
  return out


def save_replay(pid, sub, case, msg):
  os.makedirs(REPLAYS, exist_ok=True)
  h = hashlib.sha256((sub + canon(case)).encode("utf-8", "surrogatepass")).hexdigest()[:10]
  path = os.path.join(REPLAYS, "%s-%s-%s.json" % (pid, sub, h))
  with open(path, "w") as out:
    json.dump({"property": pid, "sub": sub, "case": case, "message": msg}, out, indent=1)
  return path


def replay(mod, path, quiet=False):
  """-> violation message or None"""
  signal.signal(signal.SIGVTALRM, _alarm)
  data = json.load(open(path))
  sub = [s for s in mod.SUBS if s.name == data["sub"]][0]
  rec = Rec()
  try:
    evaluate(sub, data["case"], rec)
  except Violation as ex:
    return str(ex)
  if rec.skipped:
    return None
  return None


def run(mod, tier, seed, jobs, only=None, scale=1.0):
  t0 = time.time()
  pid = mod.ID
  budget = float(os.environ.get("VERIF_BUDGET_S", "420" if tier == "quick" else "780"))
  work = []
  for sub in mod.SUBS:
    if only and sub.name not in only:
      continue
    n = int((sub.quick if tier == "quick" else sub.thorough) * scale)
    if n <= 0:
      continue
    k = 0
    while n > 0:
      c = min(sub.batch, n)
      work.append((sub, k, c))
      n -= c
      k += 1
  # interleave the sub-checks so that each gets its share early
  work.sort(key=lambda w: w[1])
  tmp = tempfile.mkdtemp(prefix="vf-")
  total = {"evaluations": 0, "skipped": 0, "labels": {}, "skips": {}, "samples": {}, "subs": {}}
  hashes = set()
  failures, errors = [], []
  failtime = t0
  regress = 0
  known = []
  for status, casefile, text in read_findings(pid):
    if casefile is None:
      continue
    path = os.path.join(FINDINGS, casefile)
    pidc = os.fork()
    if pidc == 0:
      code = 2
      try:
        msg = replay(mod, path)
        code = 0 if msg is None else 1
        if msg:
          open(os.path.join(tmp, "f-" + casefile.replace("/", "_")), "w").write(msg)
      except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
      os._exit(code)
    _, st = os.waitpid(pidc, 0)
    code = os.waitstatus_to_exitcode(st)
    regress += 1
    if code not in (0, 1):
      errors.append("finding %s could not be replayed (%s)" % (casefile, code))
    elif status == "known" and code == 1:
      known.append("KNOWN-FINDING: property=%s %s" % (pid, text))
    elif status != "known" and code == 1:
      msg = open(os.path.join(tmp, "f-" + casefile.replace("/", "_"))).read()
      failures.append((path, msg))
  running = {}
  pos = 0
  stopped_early = False
  hard = budget + 240
  while (pos < len(work) or running):
    while pos < len(work) and len(running) < jobs and not failures:
      if time.time() - t0 > budget:
        stopped_early = True
        break
      sub, k, c = work[pos]
      out = os.path.join(tmp, "b%d" % pos)
      pos += 1
      sys.stdout.flush()
      child = os.fork()
      if child == 0:
        code = 3
        try:
          os.setpgid(0, 0)
          run_batch(mod, sub, batch_seed(seed, pid, sub.name, k), c, out)
          code = 0
        except BaseException:  # pylint: disable=broad-except
          traceback.print_exc()
        finally:
          os._exit(code)
      running[child] = (sub, out, time.time())
    if failures or stopped_early:
      pos = len(work)
    if not running:
      break
    done, st = os.waitpid(-1, os.WNOHANG)
    if done == 0:
      time.sleep(0.01)
      limit = 75 if failures else hard
      for child, (sub, out, start) in list(running.items()):
        since = failtime if failures else t0
        if time.time() - since > limit:
          try:
            os.killpg(child, signal.SIGKILL)
          except OSError:
            pass
          os.waitpid(child, 0)
          del running[child]
          if not failures:
            errors.append("batch of %s did not end" % sub.name)
      continue
    if done not in running:
      continue
    sub, out, start = running.pop(done)
    if not os.path.exists(out):
      errors.append("worker for %s died: %s" % (sub.name, st))
      continue
    res = json.load(open(out))
    srec = total["subs"].setdefault(sub.name, {"evaluations": 0, "distinct_nontrivial": 0})
    before = len(hashes)
    hashes.update(sub.name + h for h in res["hashes"])
    srec["evaluations"] += res["evaluations"]
    srec["distinct_nontrivial"] += len(hashes) - before
    total["evaluations"] += res["evaluations"]
    total["skipped"] += res["skipped"]
    for key in ("labels", "skips"):
      for l, v in res[key].items():
        l = sub.name + "/" + l
        total[key][l] = total[key].get(l, 0) + v
    samples = total["samples"].setdefault(sub.name, [])
    samples += res["samples"][:max(0, 2 - len(samples))]
    if not res["ok"]:
      if "error" in res:
        errors.append(res["error"])
      else:
        path = save_replay(pid, sub.name, res["case"], res["msg"])
        failures.append((path, res["msg"]))
        failtime = time.time()
        # one minimal case is enough: stop the others
        for child in list(running):
          try:
            os.killpg(child, signal.SIGKILL)
          except OSError:
            pass
          os.waitpid(child, 0)
        running.clear()
        break
  shutil.rmtree(tmp, ignore_errors=True)
  cleanup = getattr(mod, "cleanup", None)
  if cleanup:
    cleanup()
  for line in known:
    print(line)
  os.makedirs(EVIDENCE, exist_ok=True)
  samples = [{"sub": s, "case": clip(c)} for s, cs in total["samples"].items() for c in cs]
  ev = {
      "property": pid, "tier": tier, "seed": seed, "level": mod.LEVEL,
      "coverage": {
          "evaluations": total["evaluations"] + regress,
          "distinct_nontrivial": len(hashes),
          "rule": mod.RULE,
          "samples": samples,
          "per_subcheck": total["subs"],
          "labels": dict(sorted(total["labels"].items())),
          "out_of_domain": total["skipped"],
          "out_of_domain_reasons": total["skips"],
          "recorded_cases_replayed": regress,
          "stopped_on_budget": stopped_early,
      },
      "assumptions": list(mod.ASSUMPTIONS),
      "wall_s": round(time.time() - t0, 2),
      "violations": len(failures),
  }
  with open(os.path.join(EVIDENCE, pid + ".json"), "w") as out:
    json.dump(ev, out, indent=1, ensure_ascii=True)
  for path, msg in failures:
    print("VIOLATION property=%s replay=%s" % (pid, path))
    print("  " + msg[:3000].replace("\n", "\n  "))
  for e in errors:
    sys.stderr.write("harness error: %s\n" % e)
  print("%s %s: %d cases, %d distinct non-trivial, %d out of domain, %.1f s%s" % (
      pid, tier, total["evaluations"], len(hashes), total["skipped"], time.time() - t0,
      " (budget)" if stopped_early else ""))
  if failures:
    return 1
  if errors:
    return 2
  if not hashes:
    sys.stderr.write("harness error: no non-trivial case\n")
    return 2
  return 0


def clip(case):
  s = canon(case)
  if len(s) <= 3000:
    return case
  return {"clipped": s[:3000]}


def main(argv=None):
  ap = argparse.ArgumentParser()
  ap.add_argument("property")
  ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
  ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
  ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4))
  ap.add_argument("--sub", action="append")
  ap.add_argument("--scale", type=float, default=1.0)
  ap.add_argument("--replay")
  args = ap.parse_args(argv)
  mod = importlib.import_module("vf.checks." + args.property.lower())
  if args.replay:
    msg = replay(mod, args.replay)
    if msg:
      print("VIOLATION property=%s replay=%s" % (mod.ID, args.replay))
      print("  " + msg)
      return 1
    print("held")
    return 0
  return run(mod, args.tier, args.seed, args.jobs, args.sub, args.scale)
