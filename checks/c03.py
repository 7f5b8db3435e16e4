"""C03: sampling leaves the caller's arrays and parameter dictionaries alone"""
import copy
import inspect

import numpy as np

from harness import ocheck, oprops, overs

ID = "C03"
DICTS = ("nn_params", "ss_params")


def with_dicts(cls, params, kind):
    sig = inspect.signature(cls.__init__).parameters
    p = dict(params)
    if "nn_params" in sig:
        p["nn_params"] = {"metric_tensor": None} if kind else {}
    return p


def body(env, c, job):
    job = dict(job)
    job["params"] = with_dicts(getattr(env.real, job["cls"]), job["params"], job["kind"])
    keep = {k: copy.deepcopy(v) for k, v in job["params"].items() if k in DICTS}
    r = ocheck.sym_call(env, c, job)
    goals = [
        ("X", oprops.rows_eq(r.run.X, r.run.X0)),
        ("y", oprops.rows_eq(r.run.y, r.run.y0)),
        ("alias", not (oprops.shares(r.rawX, r.run.X) or oprops.shares(r.rawy, r.run.y))),
    ]
    for k, v in keep.items():
        goals.append((k, same_dict(v, r.run.params[k])))
    return goals


def same_dict(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        if isinstance(a[k], np.ndarray) or isinstance(b[k], np.ndarray):
            if not np.array_equal(a[k], b[k]):
                return False
        elif a[k] != b[k]:
            return False
    return True


def replay(sv, case):
    cls = case["cls"]
    case = dict(case)
    case["params"] = with_dicts(getattr(sv, cls), case["params"], case.get("kind", 0))
    keep = {k: copy.deepcopy(v) for k, v in case["params"].items() if k in DICTS}
    X, y = np.array(case["X"], dtype=float), np.array(case["y"])
    X0, y0 = X.copy(), y.copy()
    try:
        r = ocheck.real_call(sv, case, X, y)
    except Exception:  # noqa: BLE001
        r = None
    bad = []
    if not np.array_equal(X, X0):
        bad.append((f"{cls}:X", f"{cls} modified the caller's feature array"))
    if not np.array_equal(y, y0):
        bad.append((f"{cls}:y", f"{cls} modified the caller's label array"))
    for k, v in keep.items():
        if not same_dict(v, case["params"][k]):
            bad.append((f"{cls}:{k}", f"{cls} modified the caller's {k}"))
    if r is not None and not bad:
        for a in (r.rawX, r.rawy):
            if isinstance(a, np.ndarray) and a.flags.writeable:
                a[...] = -12345
        if not (np.array_equal(X, X0) and np.array_equal(y, y0)):
            bad.append((f"{cls}:alias", f"{cls} returned an array sharing memory with the input"))
    return bad


PLANS = [
    ("A", "a", 2, "overlap", (0, 1), "sym", {"kind": 0, "extra": {"kind": 0}}),
    ("B", "a", 2, "overlap", (0, 1), "sym", {"kind": 1, "extra": {"kind": 1}}),
    ("A", "e", 2, "overlap", (0, 1), None, {"kind": 0, "extra": {"kind": 0}}),
    ("A", "g", 2, "overlap", (0, 1), None, {"kind": 0, "extra": {"kind": 0}}),
    ("A", "d", 3, "clusters", (1, 0), "sym", {"kind": 1, "extra": {"kind": 1}}),
    ("A", "h", 2, "dupmin", (1, 0), None, {"kind": 0, "extra": {"kind": 0}}),
    ("B", "c", 1, "overlap", (3, -2), None, {"kind": 1, "extra": {"kind": 1}}),
    ("A", "b", 3, "grid", (0, 1), "sym", {"kind": 0, "extra": {"kind": 0}}),
    ("A", "b", 2, "const", (0, 1), None, {"kind": 1, "extra": {"kind": 1}}),
]


def main(tier, t0):
    def jobs(real):
        js = overs.make_jobs(real, oprops.all_names(real), tier, n_cfg=4, plans=PLANS)
        for j in js:
            if tier == "quick":
                j["max_paths"], j["wall_s"] = 8, 2.5
        return js

    return ocheck.run(ID, tier, t0, jobs, body, replay)
