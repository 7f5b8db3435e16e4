"""C06: interpolating oversamplers stay within the range of the samples they interpolate"""
import numpy as np

from harness import ocheck, oprops, overs
from symx import core
from symx.core import S, z3

ID = "C06"


def le(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        return bool(a <= b + 1e-7 * (1 + abs(b)))
    if core.nonfinite(a) or core.nonfinite(b):
        return False
    # slack of the concrete arithmetic that produced the constants of mode A
    r = a <= b + 1e-6
    return r.e if isinstance(r, S) else bool(r)


def disj(xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        out.append(x)
    return z3.Or(out) if out else False


def body(env, c, job):
    r = ocheck.sym_call(env, c, job)
    n = len(r.run.y0)
    X = r.run.X0.view(np.ndarray)
    lay = np.array(job["lay"])
    ref = X if job["cls"] in oprops.ALLBOX else X[lay == 1]
    goals = []
    new = r.Xs.view(np.ndarray)[n:]
    for j in range(job["d"]):
        col = [ref[i, j] for i in range(len(ref))]
        conc = not any(isinstance(v, S) for v in col)
        if conc:
            lo, hi = [min(col)], [max(col)]
        else:
            lo = hi = col
        for t in range(len(new)):
            v = new[t, j]
            goals.append((f"lower", disj(le(a, v) for a in lo)))
            goals.append((f"upper", disj(le(v, b) for b in hi)))
    return merge(goals, job)


def merge(goals, job):
    if job["mode"] == "B":
        return goals[:24]
    return [("lower", oprops.conj(g for k, g in goals if k == "lower")), ("upper", oprops.conj(g for k, g in goals if k == "upper"))]


def replay(sv, case):
    cls = case["cls"]
    X, y = np.array(case["X"], dtype=float), np.array(case["y"])
    try:
        r = ocheck.real_call(sv, case, X.copy(), y.copy())
    except Exception:  # noqa: BLE001
        return []
    if r.Xs.ndim != 2 or r.Xs.shape[1] != X.shape[1] or len(r.Xs) <= len(X):
        return []
    ref = X if cls in oprops.ALLBOX else X[y == oprops.min_label(y)]
    new = r.Xs[len(X):]
    tol = 1e-5 * (1.0 + np.max(np.abs(ref), axis=0))
    if not np.all(np.isfinite(new)):
        return [(f"{cls}:box", f"{cls} generated a sample with a non-finite value")]
    if np.any(new < ref.min(axis=0) - tol) or np.any(new > ref.max(axis=0) + tol):
        return [(f"{cls}:box", f"{cls} generated a sample outside the range of the samples it interpolates")]
    return []


PLANS = [
    ("A", "a", 2, "overlap", (0, 1), "sym"),
    ("B", "c", 2, "overlap", (0, 1), None),
    ("A", "d", 2, "clusters", (1, 2), "sym"),
    ("A", "h", 3, "inside", (1, 0), None),
    ("A", "b", 2, "grid", (1, 0), None),
    ("A", "b", 1, "sep", (0, 1), "sym"),
    ("B", "a", 2, "overlap", (0, 1), None),
    ("A", "h", 2, "dupmin", (0, 1), None),
    ("A", "d", 3, "scaled", (0, 1), None),
    ("A", "b", 2, "const", (0, 1), None),
]


def main(tier, t0):
    def jobs(real):
        return overs.make_jobs(real, sorted(oprops.BOX + oprops.ALLBOX), tier, n_cfg=5, plans=PLANS)

    return ocheck.run(ID, tier, t0, jobs, body, replay)
