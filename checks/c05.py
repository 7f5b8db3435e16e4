"""C05: nothing to sample from, or nothing to sample: the data set comes back as it is"""
import numpy as np

from harness import ocheck, oprops, overs

ID = "C05"
# clean or transform the data whether or not samples are needed
NO_SAMPLING_CHANGES = {"AHC", "AMSCO", "GASMOTE", "IPADE_ID", "ISOMAP_Hybrid", "Stefanowski", "SMOTE_ENN", "SMOTE_TomekLinks", "SPY", "SSO", "SVM_balance"}


def body(env, c, job):
    r = ocheck.sym_call(env, c, job)
    return [
        ("X", oprops.rows_eq(r.Xs, r.run.X0)),
        ("y", oprops.rows_eq(r.ys, r.run.y0)),
        ("copy", not oprops.shares(r.rawX, r.run.X) and not oprops.shares(r.rawy, r.run.y)),
    ]


def replay(sv, case):
    cls, kind = case["cls"], case["kind"]
    X, y = np.array(case["X"], dtype=float), np.array(case["y"])
    try:
        r = ocheck.real_call(sv, case, X.copy(), y.copy())
    except Exception as e:  # noqa: BLE001
        return [(f"{cls}:{kind}:raises", f"{cls} raised {type(e).__name__}: {e} on a data set with {kind}")]
    if r.Xs.shape != X.shape or not np.array_equal(r.Xs, X) or not np.array_equal(r.ys, y):
        return [(f"{cls}:{kind}", f"{cls} changed a data set with {kind}")]
    return []


def k(kind, **kw):
    return {"kind": kind, "extra": {"kind": kind}, "key_kind": kind, **kw}


PLANS = [
    ("B", "e", 2, "overlap", (0, 1), None, k("two minority samples")),
    ("B", "f", 2, "overlap", (1, 0), None, k("one minority sample")),
    ("B", "g", 2, "overlap", (0, 1), None, k("balanced classes")),
    ("B", "a", 2, "overlap", (1, 0), "sym", k("nothing to generate", prop_range=(0.0, 0.3))),
    ("B", "e", 1, "overlap", (4, 9), "sym", k("two minority samples")),
    ("B", "f", 3, "overlap", (0, 1), "sym", k("one minority sample")),
    ("B", "g", 1, "overlap", (3, -1), "sym", k("balanced classes")),
    ("B", "h", 3, "clusters", (0, 1), "sym", k("nothing to generate", prop_range=(0.0, 0.2))),
    ("B", "d", 1, "clusters", (0, 1), "sym", k("nothing to generate", prop_range=(0.0, 0.1))),
]


def main(tier, t0):
    def jobs(real):
        out = []
        for j in overs.make_jobs(real, oprops.all_names(real), tier, n_cfg=9 if tier == "quick" else 12, plans=PLANS):
            if j["kind"] in ("balanced classes", "nothing to generate") and j["cls"] in NO_SAMPLING_CHANGES:
                continue
            if j["kind"] == "nothing to generate" and j["prop"] is None:
                if not overs.has_proportion(getattr(real, j["cls"])) or j["cls"] == "MSYN":
                    continue
            if j["cls"] in overs.MODE_A_ONLY:
                j["mode"] = "B"
            out.append(j)
        return out

    return ocheck.run(ID, tier, t0, jobs, body, replay)
