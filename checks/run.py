"""Entry point: run.py <property id> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import os, sys
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
if "MPLCONFIGDIR" not in os.environ:
    os.environ["MPLCONFIGDIR"] = "/opt/venv/mplconfig"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]
import warnings, logging
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
import numpy, scipy.linalg, scipy.stats, scipy.special, scipy.integrate, scipy.sparse.linalg, scipy.ndimage
import matplotlib, matplotlib.pyplot
import mplstereonet, IPython.display
import harness
# Never read a stale byte-code file of the code under test.
sys.pycache_prefix = "/nonexistent-verif"
sys.path.insert(0, harness.REPO)

if __name__ == "__main__":
    import importlib
    prop = sys.argv[1].upper()
    try:
        import attitude
        assert os.path.realpath(attitude.__file__).startswith(os.path.realpath(harness.REPO) + os.sep), attitude.__file__
        mod = importlib.import_module(prop.lower())
    except Exception as e:
        import traceback
        traceback.print_exc()
        # The public API the property is about cannot even be imported.
        d = os.path.join(harness.VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        fn = os.path.join(d, prop + "-import.txt")
        open(fn, "w").write(traceback.format_exc())
        print("VIOLATION property=%s replay=%s" % (prop, fn))
        sys.exit(1)
    sys.exit(harness.main(prop, mod, sys.argv[2:]))
