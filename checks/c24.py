"""C24: sampling a valid data set never fails and returns finite samples, one label each"""
import signal

import numpy as np

from harness import ocheck, oprops, overs
from symx import core
from symx.core import S

from .c06 import disj

ID = "C24"


def body(env, c, job):
    r = ocheck.sym_call(env, c, job)
    Xs, ys = r.Xs.view(np.ndarray), r.ys.view(np.ndarray)
    if Xs.ndim != 2 or ys.ndim != 1 or len(Xs) != len(ys) or len(Xs) == 0:
        return [("shape", False)]
    bad = any(core.nonfinite(v) if isinstance(v, S) else not np.isfinite(v) for v in Xs.reshape(-1))
    return [("finite", not bad), ("labels", oprops.conj(disj([oprops.eq(v, a) for a in job["labels"]]) for v in ys))]


class Endless(BaseException):
    pass


class CpuLimit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def stop(*_):
            raise Endless()

        self.old = signal.signal(signal.SIGVTALRM, stop)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)


def valid(X, y):
    return all(len(np.unique(X[y == v], axis=0)) > 1 for v in np.unique(y)) and np.all(np.isfinite(X))


def replay(sv, case):
    k = case["cls"]
    X, y = np.array(case["X"], dtype=float), np.array(case["y"])
    if not valid(X, y):
        return []
    try:
        with CpuLimit(10.0):
            r = ocheck.real_call(sv, case, X.copy(), y.copy())
    except Endless:
        return [(f"{k}:endless", f"{k} did not return within 10 s of processor time on a valid data set of {len(y)} samples")]
    except Exception as e:  # noqa: BLE001
        return [(f"{k}:raises:{type(e).__name__}", f"{k} raised {type(e).__name__}: {str(e)[:120]} on a valid data set")]
    if r.Xs.ndim != 2 or r.ys.ndim != 1 or len(r.Xs) != len(r.ys) or len(r.Xs) == 0:
        return [(f"{k}:shape", f"{k} returned {r.Xs.shape} / {r.ys.shape} for {X.shape}")]
    bad = []
    if not np.all(np.isfinite(r.Xs.astype(float))):
        bad.append((f"{k}:finite", f"{k} returned non-finite features"))
    if not set(r.ys.tolist()) <= set(np.unique(y).tolist()):
        bad.append((f"{k}:labels", f"{k} returned labels that were not passed in"))
    return bad


PLANS = [
    ("A", "b", 2, "isolated", (0, 1), "sym"),
    ("A", "i", 1, "overlap", (1, 0), "sym", {"largest": True}),
    ("B", "c", 2, "overlap", (0, 1), None),
    ("A", "d", 4, "grid", (2, -1), "sym"),
    ("A", "h", 3, "dupmin", (1, 2), "sym"),
    ("A", "i", 2, "sep", (0, 1), "sym"),
    ("B", "a", 2, "overlap", (0, 1), None),
    ("A", "h", 3, "scaled", (0, 1), "sym"),
    ("A", "h", 2, "const", (0, 1), None),
    ("A", "d", 2, "inside", (0, 1), None),
]


def main(tier, t0):
    def jobs(real):
        js = overs.make_jobs(real, [n for n in oprops.all_names(real) if n != "DEAGO"], tier, n_cfg=4, plans=PLANS)
        for j in js:
            if tier == "quick":
                j["wall_s"] = 2.0
        return js

    return ocheck.run(ID, tier, t0, jobs, body, replay)
