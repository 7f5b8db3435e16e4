"""replay.py PROPERTY FILE: run a stored case on the unpatched code of /repo.
exit 1: the property is violated on it; 0: it is not."""
import json
import os
import sys
import warnings

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter("ignore")


def main():
    prop, path = sys.argv[1:3]
    import importlib

    from harness import fcheck
    from symx import load

    mod = importlib.import_module("checks." + prop.lower())
    sv = load.load_real()
    import numpy as np

    np.seterr(all="ignore")
    with open(path) as f:
        case = json.load(f)["case"]
    try:
        bad = (fcheck.ending(mod.replay) if hasattr(mod, "F") else mod.replay)(sv, case)
    except BaseException:  # noqa: BLE001 - no verdict
        import traceback

        traceback.print_exc()
        return 3
    for key, text in bad:
        print(f"violated: {key}: {text}")
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = main()
    except BaseException as e:  # noqa: BLE001 - no verdict
        print("replay failed:", repr(e))
        rc = 3
    sys.exit(rc)
