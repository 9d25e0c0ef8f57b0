#!/opt/venv/bin/python
"""Entry point of every check:  run.py <PROPERTY> [--replay FILE] [--cases N] [--jobs N]

VERIF_SEED (default 1) seeds every random choice, VERIF_TIER is quick or thorough.
Exit 0: held on everything observed; 1: violated (VIOLATION line); 2: inconclusive.
"""
import os
import sys

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True
import warnings  # noqa: E402
warnings.simplefilter("ignore")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rt import harness  # noqa: E402

if __name__ == "__main__":
    sys.exit(harness.main(sys.argv[1:]))
