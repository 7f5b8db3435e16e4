"""C02: the number of generated samples is the requested one"""
import numpy as np

from harness import ocheck, oprops, overs
from symx.core import S, z3

ID = "C02"
EDGE_DIM = {"SMOTE_AMSR"}


def want(diff, prop, n_new):
    """n_new == max(0, trunc(diff * prop)), symbolically or concretely"""
    if isinstance(prop, S):
        p = z3.ToReal(prop.e) if z3.is_int(prop.e) else prop.e
        lo = p * diff >= n_new if n_new else z3.BoolVal(True)
        return z3.And(lo, p * diff < n_new + 1)
    return n_new == max(0, int(diff * prop))


def refused(r):
    """the technique said it cannot sample (not: that there is nothing to sample)"""
    return r.warned and not any("not needed" in m for m in r.warned)


def prop_of(o, params, cls):
    if "proportion" in params:
        return params["proportion"]
    return overs.default_proportion(cls)


def body(env, c, job):
    r = ocheck.sym_call(env, c, job)
    n = len(r.run.y0)
    n_new = len(r.Xs) - n
    lay = job["lay"]
    diff = lay.count(0) - lay.count(1)
    cls = job["cls"]
    exact = want(diff, prop_of(r.obj, r.run.params, getattr(env.real, cls)), n_new)
    if n_new == 0 and cls not in oprops.STRICT and refused(r):
        return [("count", True)]
    if len(r.ys) != len(r.Xs):
        return [("count", False)]
    return [("count", exact)]


def replay(sv, case):
    y = np.array(case["y"])
    try:
        r = ocheck.real_call(sv, case)
    except Exception:  # noqa: BLE001
        return []
    cls = case["cls"]
    m = oprops.min_label(y)
    diff = int(np.sum(y != m) - np.sum(y == m))
    p = case["params"].get("proportion", None)
    if p is None:
        p = overs.default_proportion(getattr(sv, cls))
    n_new = len(r.Xs) - len(y)
    w = max(0, int(diff * p))
    if abs(diff * p - round(diff * p)) < 1e-6 and n_new in (w - 1, w + 1) and not float(p).is_integer():
        return []
    if n_new == w:
        return []
    if n_new == 0 and cls not in oprops.STRICT and refused(r):
        return []
    return [(f"{cls}:count", f"{cls} generated {n_new} samples instead of {w} (imbalance {diff}, proportion {p})")]


PLANS = [
    ("A", "a", 2, "overlap", (0, 1), "sym"),
    ("B", "a", 2, "overlap", (0, 1), "sym"),
    ("A", "d", 2, "grid", (1, 2), "sym"),
    ("A", "h", 2, "clusters", (2, -1), None, {"reuse": True}),
    ("A", "b", 3, "clusters", (1, 0), "sym"),
    ("B", "c", 1, "overlap", (3, -2), None),
    ("A", "b", 4, "sep", (0, 1), None),
    ("B", "b", 2, "clusters", (1, 0), "sym"),
    ("A", "d", 3, "scaled", (0, 1), "sym"),
    ("A", "h", 2, "dupmin", (5, 7), None),
]


def setup(env):
    env.sym.config.suppress_internal_warnings(False)
    env.real.config.suppress_internal_warnings(False)


def main(tier, t0):
    def jobs(real):
        return overs.make_jobs(real, sorted(oprops.EXACT), tier, n_cfg=4, plans=PLANS)

    return ocheck.run(ID, tier, t0, jobs, body, replay, setup=setup)
