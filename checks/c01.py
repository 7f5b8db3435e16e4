"""C01: additive oversamplers keep the originals and append minority samples only"""
import numpy as np

from harness import ocheck, oprops, overs

ID = "C01"
SCALED = {"DSRBF"}  # standardizes and transforms back: originals equal up to rounding


def bad_shape(X, Xs, ys, n):
    return Xs.ndim != 2 or ys.ndim != 1 or len(Xs) != len(ys) or len(Xs) < n or Xs.shape[1] != X.shape[1]


def body(env, c, job):
    r = ocheck.sym_call(env, c, job)
    X, y, n = r.run.X0, r.run.y0, len(r.run.y0)
    if bad_shape(X, r.Xs, r.ys, n):
        return [("shape", False)]
    return [
        ("originals", oprops.rows_eq(r.Xs[:n], X)),
        ("labels", oprops.rows_eq(r.ys[:n], y)),
        ("new-are-minority", oprops.conj(oprops.eq(v, job["labels"][1]) for v in r.ys[n:])),
    ]


def replay(sv, case):
    X, y = np.array(case["X"], dtype=float), np.array(case["y"])
    try:
        r = ocheck.real_call(sv, case, X.copy(), y.copy())
    except Exception:  # noqa: BLE001 - says nothing about what is returned
        return []
    n, k = len(y), case["cls"]
    if bad_shape(X, r.Xs, r.ys, n):
        return [(f"{k}:shape", f"{k} returned {r.Xs.shape} / {r.ys.shape} for {X.shape}")]
    bad = []
    tol = 1e-9 * (1.0 + np.max(np.abs(X))) if k in SCALED else 0.0
    d = np.abs(r.Xs[:n].astype(float) - X)
    if not np.all(d <= tol):
        bad.append((f"{k}:originals", f"{k} changed, dropped or reordered original samples"))
    if not np.array_equal(r.ys[:n], y):
        bad.append((f"{k}:labels", f"{k} changed labels of original samples"))
    if not np.all(r.ys[n:] == oprops.min_label(y)):
        bad.append((f"{k}:new-are-minority", f"{k} appended samples not labelled as minority"))
    return bad


def main(tier, t0):
    def jobs(real):
        names = [n for n in oprops.all_names(real) if n not in oprops.NOT_ADDITIVE]
        return overs.make_jobs(real, names, tier, n_cfg=4)

    return ocheck.run(ID, tier, t0, jobs, body, replay)
