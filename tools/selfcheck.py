"""setup_cmd: nothing to build; confirm the interpreter, Hypothesis and the code under test are reachable."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(1, os.environ.get("VERIF_REPO", "/repo"))
from vlib import harness, gen, rot, tu  # noqa: E402,F401

print("hypothesis", harness.hypothesis.__version__, "torch", harness.torch.__version__)
