"""setup_cmd: builds every harness once so that the checks only rebuild what changed in /repo."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
from vlib import *
import importlib

os.makedirs(BUILD, exist_ok=True)
bad = 0
for name in ("graphcheck", "capcheck", "instrcheck", "rpccheck", "sdfgcheck"):
    if not os.path.exists(os.path.join(VERIF, "lib", name + ".py")):
        continue
    try:
        t = time.time()
        importlib.import_module(name).build_harness()
        print("built", name, round(time.time() - t, 1), "s")
    except CheckError as e:
        print("setup of", name, "failed:", e)
        bad = 1
try:
    t = time.time()
    import pyfront
    pyfront.build_frontend()
    print("built pyfront", round(time.time() - t, 1), "s")
except CheckError as e:
    print("setup of pyfront failed:", e)
    bad = 1
sys.exit(bad)
