"""entry point of every check:  python harness/check.py C01"""
import os, sys, pathlib
here = pathlib.Path(__file__).resolve().parent
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
sys.dont_write_bytecode = True
os.environ.setdefault("OMP_NUM_THREADS", "2")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "2")
os.environ["TZ"] = os.environ.get("TZ", "UTC")
sys.path.insert(0, str(here))
sys.path.insert(0, str(here.parent / "checks"))
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import warnings
warnings.simplefilter("ignore")
import vlib, importlib
if __name__ == "__main__":
    pid = sys.argv[1]
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        os.environ["VERIF_TIER"] = sys.argv[2]
    mod = importlib.import_module(pid.lower())
    sys.exit(vlib.run_check(pid, mod.main))
