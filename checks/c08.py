"""C08: renaming the two class labels renames the output labels and changes nothing else"""
import numpy as np

from harness import ocheck, oprops, overs

ID = "C08"
# break ties or order classes by label value: only order-preserving renamings commute
SWAP_OFF = {"AMSCO", "V_SYNTH", "GASMOTE", "IPADE_ID", "SMOTE_PSO", "SMOTE_PSOBAT", "SVM_balance", "Stefanowski", "DEAGO", "SMOTE_IPF",
            "ISOMAP_Hybrid", "SMMO", "SMOTEWB"}
EXCLUDED = {"DEAGO"}


def mapped(v, a, b):
    return b[0] if v == a[0] else b[1]


def body(env, c, job):
    r1 = ocheck.sym_call(env, c, job)
    first = list(c.draws)
    c.tags["ndraws"] = 0
    c.tags["conc_draws"] = 0
    a, b = job["labels"], job["to"]
    y2 = np.array(b)[np.array(job["lay"])]
    o = getattr(env.sym, job["cls"])(random_state=job["seed"], **r1.run.params)
    Xs, ys = o.sample(r1.run.X0.copy(), ocheck.wrap(y2))
    c.draws[:] = first
    if len(ys) != len(r1.ys) or len(Xs) != len(r1.Xs):
        return [("features", False)]
    return [
        ("features", oprops.rows_eq(r1.Xs, Xs)),
        ("labels", all(mapped(u, a, b) == v for u, v in zip(r1.ys.tolist(), list(ys)))),
    ]


def replay(sv, case):
    cls, to, fr = case["cls"], case["to"], case["from"]
    y = np.array(case["y"])
    y2 = np.where(y == fr[0], to[0], to[1])
    try:
        r1 = ocheck.real_call(sv, case)
    except Exception:  # noqa: BLE001
        return []
    try:
        r2 = ocheck.real_call(sv, case, y=y2)
    except Exception as e:  # noqa: BLE001
        return [(f"{cls}:raises", f"{cls} raised {type(e).__name__} after renaming labels {fr} to {to}")]
    n1 = np.where(r1.ys == fr[0], to[0], to[1])
    if r1.Xs.shape != r2.Xs.shape or not np.allclose(r1.Xs, r2.Xs, rtol=1e-9, atol=1e-9, equal_nan=True):
        return [(f"{cls}:features", f"{cls} generated different samples after renaming labels {fr} to {to}")]
    if n1.shape != r2.ys.shape or not np.array_equal(n1, r2.ys):
        return [(f"{cls}:labels", f"{cls} returned other labels after renaming labels {fr} to {to}")]
    return []


def t(fr, to):
    return {"to": list(to), "extra": {"to": list(to), "from": list(fr)}}


PLANS = [
    ("A", "a", 2, "overlap", (0, 1), "sym", t((0, 1), (3, 8))),
    ("A", "b", 3, "clusters", (0, 1), None, t((0, 1), (1, 0))),
    ("A", "d", 2, "grid", (0, 1), "sym", t((0, 1), (-1, 1))),
    ("A", "h", 2, "inside", (0, 1), None, t((0, 1), (7, 2))),
    ("A", "d", 2, "overlap", (0, 1), None, t((0, 1), (1, 2))),
    ("A", "b", 1, "overlap", (1, 0), None, t((1, 0), (2, -2))),
    ("A", "d", 4, "sep", (0, 1), None, t((0, 1), (1, 0))),
    ("A", "b", 2, "clusters", (0, 1), "sym", t((0, 1), (0, 5))),
]


def main(tier, t0):
    def jobs(real):
        names = [n for n in oprops.all_names(real) if n not in EXCLUDED]
        js = overs.make_jobs(real, names, tier, n_cfg=4, plans=PLANS)
        out = []
        for j in js:
            if j["cls"] in SWAP_OFF and (j["to"][0] < j["to"][1]) != (j["labels"][0] < j["labels"][1]):
                j["to"] = [j["labels"][0] + 4, j["labels"][1] + 6] if j["labels"][0] < j["labels"][1] else [9, 4]
                j["extra"] = {"to": j["to"], "from": list(j["labels"])}
            if tier == "quick":
                j["max_paths"], j["wall_s"] = 5, 2.5
            out.append(j)
        return out

    return ocheck.run(ID, tier, t0, jobs, body, replay)
