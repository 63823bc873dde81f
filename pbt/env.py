"""Where the code under test and the tools come from.  Import this first."""
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
# VERIF_TREE is only for trying the checks on a scratch copy of the repository
REPO = os.environ.get("VERIF_TREE", "/repo")

if HERE not in sys.path:
    sys.path.insert(0, HERE)
if REPO not in sys.path:
    sys.path.insert(0, REPO)
for p in ("/opt/venv/lib/python3.12/site-packages",):
    if p not in sys.path:
        sys.path.append(p)      # mathutils (behind everything else)

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
