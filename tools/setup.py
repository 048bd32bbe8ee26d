"""Builds the drivers once, to show that the framework can be built here."""
import glob
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build  # noqa: E402

for f in sorted(glob.glob(os.path.join(build.VERIF, "harness", "drv_*.cpp"))):
    print(build.build(os.path.basename(f)[:-4], "plain"))
