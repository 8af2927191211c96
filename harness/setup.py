"""Verifies that the tools the checks need are there; builds nothing."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import case  # noqa: E402

os.makedirs(os.path.join(os.path.dirname(HERE), "evidence"), exist_ok=True)
out = subprocess.run(case.JAVA + ["-h"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True).stdout
if "TLC" not in out:
    print(out)
    raise SystemExit("TLC does not start")
print("ready")
