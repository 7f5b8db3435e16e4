"""C04: a seeded object is reproducible and independent of the process-wide generator"""
import numpy as np

from harness import ocheck, oprops, overs

ID = "C04"
EXCLUDED = {"DEAGO"}  # seeds the tensor library and numpy's global state by design


def body(env, c, job):
    r1 = ocheck.sym_call(env, c, job)
    used = list(c.tags.get("global_used", [])) + list(c.tags.get("unseeded", []))
    goals = [("global", not used)]
    if job["mode"] == "A":
        first = list(c.draws)
        c.tags["ndraws"] = 0
        c.tags["conc_draws"] = 0
        o = getattr(env.sym, job["cls"])(random_state=job["seed"], **r1.run.params)
        Xs, ys = o.sample(r1.run.X0.copy(), r1.run.y0.copy())
        c.draws[:] = first
        goals += [("again-X", oprops.rows_eq(r1.Xs, Xs)), ("again-y", oprops.rows_eq(r1.ys, ys))]
    return goals


def state_eq(a, b):
    return a[0] == b[0] and np.array_equal(a[1], b[1]) and tuple(a[2:]) == tuple(b[2:])


def replay(sv, case):
    cls = case["cls"]
    case = {k: v for k, v in case.items() if k != "script"}
    outs = []
    keep = np.random.get_state()
    disturbed = False
    try:
        for g in (1, 2):
            np.random.seed(g)
            st = np.random.get_state()
            r = ocheck.real_call(sv, case)
            outs.append((r.Xs, r.ys))
            disturbed = disturbed or not state_eq(st, np.random.get_state())
    except Exception:  # noqa: BLE001
        return []
    finally:
        np.random.set_state(keep)
    bad = []
    a, b = outs
    if a[0].shape != b[0].shape or not np.array_equal(a[0], b[0], equal_nan=True) or not np.array_equal(a[1], b[1]):
        bad.append((f"{cls}:reproducible", f"{cls} with the same seed and data gave two different results"))
    if disturbed:
        bad.append((f"{cls}:global", f"{cls} with a seed drew from numpy's process-wide generator"))
    return bad


PLANS = [
    ("A", "a", 2, "overlap", (0, 1), "sym"),
    ("A", "b", 3, "clusters", (1, 0), None),
    ("B", "a", 2, "overlap", (0, 1), None),
    ("A", "d", 2, "grid", (1, 2), "sym"),
    ("A", "b", 4, "sep", (0, 1), None),
    ("A", "h", 1, "overlap", (0, 1), None),
    ("A", "d", 3, "const", (0, 1), "sym"),
    ("A", "h", 2, "dupmin", (1, 0), None),
    ("B", "c", 2, "overlap", (0, 1), None),
]


def main(tier, t0):
    def jobs(real):
        names = [n for n in oprops.all_names(real) if n not in EXCLUDED]
        js = overs.make_jobs(real, names, tier, n_cfg=4, plans=PLANS)
        for j in js:
            if tier == "quick":
                j["max_paths"], j["wall_s"] = 5, 2.5
        return js

    return ocheck.run(ID, tier, t0, jobs, body, replay)
