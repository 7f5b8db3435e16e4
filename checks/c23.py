"""C23: techniques that remove or relabel samples never invent majority samples and keep what they promise to keep"""
import numpy as np

from harness import ocheck, oprops, overs
from symx import core
from symx.core import S, z3

from .c06 import PLANS, disj

ID = "C23"
# the majority samples returned are majority samples passed in, each at most as often as passed in
SUB = set("""A_SUWO DE_oversampling Gazzah ISMOTE NRAS SMOTE_ENN SMOTE_FRST_2T SMOTE_IPF SMOTE_TomekLinks SPY
Stefanowski SUNDO VIS_RST""".split())
# every minority sample passed in is returned as a minority sample
KEEP_MIN = set("AHC ISMOTE NEATER SMOTE_FRST_2T SPY Stefanowski SUNDO VIS_RST".split())
# every majority sample passed in is returned as a majority sample
KEEP_MAJ = {"DSMOTE", "NEATER", "NRAS"}
# every sample passed in is returned, with one of the two labels
KEEP_ALL = {"DSMOTE", "NEATER", "SMOTE_FRST_2T", "SPY", "VIS_RST"}
# output in another space
OTHER_SPACE = {"E_SMOTE", "ISOMAP_Hybrid"}
NAMES = sorted(oprops.NOT_ADDITIVE - {"MOT2LD"})
EPS = 1e-6


def veq(a, b):
    if a is b:
        return True
    if not isinstance(a, S) and not isinstance(b, S):
        return bool(abs(a - b) <= EPS * (1 + abs(b)))
    if core.nonfinite(a) or core.nonfinite(b):
        return False
    ea, eb = core.lift(a).e if hasattr(core, "lift") else a, core.lift(b).e if hasattr(core, "lift") else b
    if isinstance(ea, z3.ExprRef) and isinstance(eb, z3.ExprRef) and ea.eq(eb):
        return True
    g = oprops.conj([a <= b + EPS, b <= a + EPS])
    return g


def row_eq(p, q):
    return oprops.conj(veq(a, b) for a, b in zip(p, q))


def leq(lab, v):
    return oprops.eq(lab, v)


def body(env, c, job):
    r = ocheck.sym_call(env, c, job)
    k = job["cls"]
    X, Xs, ys = r.run.X0.view(np.ndarray), r.Xs.view(np.ndarray), r.ys.view(np.ndarray)
    if Xs.ndim != 2 or ys.ndim != 1 or len(Xs) != len(ys) or len(Xs) == 0:
        return [("shape", False)]
    maj, mino = job["labels"]
    goals = [("labels", oprops.conj(disj([leq(v, maj), leq(v, mino)]) for v in ys))]
    if k in OTHER_SPACE:
        return goals
    if Xs.shape[1] != X.shape[1]:
        return [("shape", False)]
    if any(isinstance(v, float) and not np.isfinite(v) or isinstance(v, S) and core.nonfinite(v) for v in Xs.reshape(-1)):
        return goals + [("finite", False)]
    lay = np.array(job["lay"])
    om, on = [X[i] for i in np.where(lay == 0)[0]], [X[i] for i in np.where(lay == 1)[0]]
    if k in SUB:
        free, left = list(om), []
        for row, lab in zip(Xs, ys):
            is_maj = leq(lab, maj)
            if is_maj is False:
                continue
            hit = next((q for q in range(len(free)) if row_eq(row, free[q]) is True), None) if is_maj is True else None
            if hit is not None:
                del free[hit]
            else:
                left.append((row, is_maj))
        goals.append(("majority-invented", oprops.conj(
            disj([True if row_eq(row, q) is True else row_eq(row, q) for q in free] + ([] if m is True else [z3.Not(m)])) for row, m in left)))
    for name, member, want, olds in (("minority-lost", KEEP_MIN, mino, on), ("majority-lost", KEEP_MAJ, maj, om), ("sample-lost", KEEP_ALL, None, om + on)):
        if k in member:
            goals.append((name, oprops.conj(
                disj(oprops.conj([row_eq(row, o)] + ([] if want is None else [leq(lab, want)])) for row, lab in zip(Xs, ys)) for o in olds)))
    return goals


def take(rows, olds, tol):
    """rows that match no unused row of olds, and the rows of olds left over"""
    free, left = list(olds), []
    for row in rows:
        hit = next((q for q in range(len(free)) if np.all(np.abs(row - free[q]) <= tol)), None)
        if hit is None:
            left.append(row)
        else:
            del free[hit]
    return left, free


def replay(sv, case):
    k = case["cls"]
    X, y = np.array(case["X"], dtype=float), np.array(case["y"])
    try:
        r = ocheck.real_call(sv, case, X.copy(), y.copy())
    except Exception:  # noqa: BLE001
        return []
    if r.Xs.ndim != 2 or r.ys.ndim != 1 or len(r.Xs) != len(r.ys):
        return [(f"{k}:shape", f"{k} returned {r.Xs.shape} / {r.ys.shape} for {X.shape}")]
    mino = oprops.min_label(y)
    if not np.isscalar(mino) and np.ndim(mino):
        return []
    maj = [v for v in np.unique(y) if v != mino][0]
    bad = []
    if not set(r.ys.tolist()) <= {mino, maj}:
        bad.append((f"{k}:labels", f"{k} returned labels that are not among the labels passed in"))
    if k in OTHER_SPACE:
        return bad
    if r.Xs.shape[1] != X.shape[1]:
        return bad + [(f"{k}:shape", f"{k} returned {r.Xs.shape} for {X.shape}")]
    Xs = r.Xs.astype(float)
    if not np.all(np.isfinite(Xs)):
        return bad + [(f"{k}:finite", f"{k} returned non-finite features")]
    tol = 1e-7 * (1.0 + np.max(np.abs(X), axis=0))
    gone, free = take(Xs[r.ys == maj], X[y == maj], tol)
    if k in SUB and gone:
        bad.append((f"{k}:majority-invented", f"{k} returned a majority sample that was not passed in as one"))
    if k in KEEP_MAJ and free:
        bad.append((f"{k}:majority-lost", f"{k} lost a majority sample"))
    if k in KEEP_ALL and take(Xs, X, tol)[1]:
        bad.append((f"{k}:sample-lost", f"{k} lost a sample"))
    if k in KEEP_MIN and take(Xs[r.ys == mino], X[y == mino], tol)[1]:
        bad.append((f"{k}:minority-lost", f"{k} lost a minority sample"))
    return bad


def main(tier, t0):
    def jobs(real):
        return overs.make_jobs(real, NAMES, tier, n_cfg=5, plans=PLANS)

    return ocheck.run(ID, tier, t0, jobs, body, replay)
