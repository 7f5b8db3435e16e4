"""run.py PROPERTY [quick|thorough]"""
import os
import sys
import time

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
t0 = time.time()
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    os.environ["VERIF_TIER"] = tier
    try:
        mod = importlib.import_module("checks." + prop.lower())
        return mod.main(tier, t0)
    except Exception as e:  # noqa: BLE001 - nothing was decided
        import traceback

        traceback.print_exc()
        from harness import common

        r = common.blank("check")
        r["inconclusive"].append(f"the check could not run: {type(e).__name__}: {e}")
        return common.finish(prop, tier, [r], t0=t0, level="model_checking")


if __name__ == "__main__":
    sys.exit(main())
