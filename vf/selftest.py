"""setup_cmd: nothing is built; checks that the machinery itself is sound: the
generators produce text the reference reader accepts, and the reference reader
accepts the listfiles shipped with the installed cmake."""
import glob
import random
import sys

from vf import cmref, gen
from vf.src import RandData, Src


def main():
  n = 0
  for path in sorted(glob.glob("/usr/share/cmake-3.28/Modules/*.cmake")):
    text = open(path, encoding="utf-8").read()
    cmref.parse(text)
    n += 1
  bad = 0
  for k in range(300):
    g = gen.Gen(Src(RandData(random.Random(k))), gen.Prof(onoff=5))
    try:
      cmref.check_blocks(cmref.parse(g.listfile()))
    except cmref.BadCMake:
      bad += 1
  print("%d cmake modules read, %d of 300 generated files rejected" % (n, bad))
  return 0 if bad < 10 else 1


if __name__ == "__main__":
  sys.exit(main())
