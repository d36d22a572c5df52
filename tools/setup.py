"""Checks that what the checks need is there.  Nothing has to be built: the specifications are
interpreted by TLC and the drivers import the code from /repo."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import common  # noqa: E402

rc, out = common.run_tlc("MCConversion", "MCConversion.cfg", workers=2)
if rc != 0:
    sys.exit("TLC does not run:\n" + out[-2000:])
subprocess.run([common.PY, "-c", "import numpy, h5py"], check=True)
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
print("ready")
