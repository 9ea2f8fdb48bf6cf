"""Where things are; puts /repo first and Hypothesis last on sys.path. Import this before anything else."""
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"

if REPO not in sys.path:
    sys.path.insert(0, REPO)
if VT not in sys.path:
    sys.path.append(VT)
sys.dont_write_bytecode = True

# Hypothesis draws constants of the loaded sources; without its cache on disk their order is the same in every sandbox.
from hypothesis.configuration import set_hypothesis_home_dir  # noqa: E402

set_hypothesis_home_dir("/dev/null/none")
