"""C16: evaluation scores what it says: training on the training part only, the test part transformed alike"""
import numpy as np

from harness import evalstub as E
from harness import fcheck as F
from harness.common import num, values
from symx import core
from symx.snp import wrap

ID = "C16"
SCALER = ("harness.evalstub", "Scaler", {"factor": 2.0})
FIELDS = ["X_train", "y_train", "X_test", "y_test"]


def vstack(a, b):
    return wrap(np.vstack([wrap(a).view(np.ndarray), wrap(b).view(np.ndarray)]))


def proba_of(P):
    return lambda tag, X: P[tag][:len(X)]


def folding(X, y, Xt, yt):
    return {"X_train": X, "y_train": y, "X_test": Xt, "y_test": yt, "fold_descriptor": {"name": "db", "repeat_idx": 1, "fold_idx": 2, "split_idx": 7}}


def expect(X, Xt, scaled):
    if not scaled:
        return X, Xt
    return (X - X[0]) * 2.0, (Xt - X[0]) * 2.0


# -- the sampling job ------------------------------------------------------------------


def sampling_goals(sv, cfg, X, y, Xt, yt):
    E.reset(proba=None)
    E.oversampler(sv)
    p = {"shift": 1.5, "fails": cfg.get("fails")}
    f = folding(X, y, Xt, yt)
    keep = {k: f[k].copy() for k in FIELDS}
    j = sv.evaluation.SamplingJob(f, "VStub", p, scaler=SCALER if cfg["scaled"] else None)
    out = j.timeout() if cfg.get("timeout") else (j.execute() if cfg.get("exec") else j.do_oversampling())
    sX, sXt = expect(keep["X_train"], keep["X_test"], cfg["scaled"])
    sh = sv.VStub(**p).shift
    fits = [s for s in E.SEEN if s[:2] == ("scaler", "fit")]
    samples = [s for s in E.SEEN if s[:2] == ("os", "sample")]
    g = []
    g.append(("the scaler is fitted on the training part", len(fits) == (1 if cfg["scaled"] else 0) and all(F_true(E.same(s[2], keep["X_train"])) for s in fits)))
    if cfg["scaled"] and fits:
        g.append(("the scaler sees the training part", E.same(fits[0][2], keep["X_train"])))
    failed = cfg.get("fails") or cfg.get("timeout")
    if cfg.get("timeout"):
        g.append(("nothing is sampled", not samples))
        g.append(("the timeout is named", out["error"] == "TimeOutError" and out["runtime"] < 0))
    else:
        g.append(("sampled once", len(samples) == 1))
        if samples:
            g.append(("the technique sees the scaled training part only", F.conj([E.same(samples[0][2], sX), E.same(samples[0][3], keep["y_train"])])))
        g.append(("the error is reported", (out["error"] == "cannot sample") if failed else out["error"] is None))
        g.append(("the runtime is reported", isinstance(out["runtime"], float) and out["runtime"] >= 0))
    if failed:
        g.append(("the unsampled training part", F.conj([E.same(out["X_train"], sX), E.same(out["y_train"], keep["y_train"])])))
        g.append(("the scaled test part", E.same(out["X_test"], sXt)))
    else:
        new = wrap(np.array([[v + sh for v in sX.view(np.ndarray)[0]]], dtype=object if sX.dtype == object else float))
        g.append(("the sampled training part", F.conj([E.same(out["X_train"], vstack(sX, new)), E.same(list(out["y_train"]), list(keep["y_train"]) + [keep["y_train"][0]])])))
        g.append(("the test part, scaled and transformed by the technique", E.same(out["X_test"], sXt + 2.0 * sh)))
    g.append(("the test labels", E.same(out["y_test"], keep["y_test"])))
    g.append(("the descriptor", out["fold_descriptor"] == f["fold_descriptor"]))
    g.append(("the parameters", all(out["oversampler"].get(k) == v for k, v in p.items()) and out["oversampler"].get("class_name") == "VStub" and out["oversampler"].get("n_neighbors") == 5))
    g += [(f"{k} of the caller", E.same(f[k], keep[k])) for k in FIELDS]
    return g


def zeros_like(n, X):
    z = np.zeros(n)
    return wrap(z) if type(X) is not np.ndarray else z


def F_true(v):
    return v is True or not isinstance(v, bool)


# -- the evaluation job -------------------------------------------------------------------


def eval_goals(sv, cfg, X, y, Xt, yt, P):
    E.reset(proba=proba_of(P))
    E.oversampler(sv)
    over = {"fold_descriptor": {"name": "db", "repeat_idx": 0, "fold_idx": 1, "split_idx": 1}, "X_train": X, "y_train": y, "X_test": Xt, "y_test": yt, "runtime": 0.5,
            "oversampler": {"class_name": "VStub", "shift": 1.0}, "error": cfg.get("error"), "warning": "w"}
    keep = {k: over[k].copy() for k in FIELDS}
    clfs = [("harness.evalstub", "Clf", dict(p)) for p in cfg["clf"]]
    res = sv.evaluation.EvaluationJob(over, clfs).do_evaluation()
    g = [("one result per classifier", len(res) == len(clfs))]
    fits = [s for s in E.SEEN if s[:2] == ("clf", "fit")]
    preds = [s for s in E.SEEN if s[:2] == ("clf", "predict")]
    g.append(("every classifier is fitted once", len(fits) == len(clfs)))
    g += [("fitted on the sampled training part", F.conj([E.same(s[2], keep["X_train"]), E.same(s[3], keep["y_train"])])) for s in fits]
    g += [("asked about the test part", E.same(s[2], keep["X_test"])) for s in preds]
    n = len(keep["y_test"])
    for i, (r, c) in enumerate(zip(res, clfs)):
        bad = c[2].get("fails")
        p = zeros_like(n, X) if bad else proba_of(P)(c[2].get("tag", 0), keep["X_test"])
        g.append((f"predictions {i}", E.same(r["y_pred"], p)))
        g.append((f"labels {i}", E.same(r["y_test"], keep["y_test"])))
        g.append((f"error {i}", (r["error"] == "cannot be fitted") if bad else r["error"] is None))
        g.append((f"classifier {i}", (r["classifier_module"], r["classifier"], r["classifier_params"]) == c))
        g.append((f"descriptor {i}", r["fold_descriptor"] == over["fold_descriptor"] and r["oversampler"] == "VStub" and r["oversampler_params"] == over["oversampler"]
                  and r["oversampling_error"] == over["error"] and r["oversampling_warning"] == "w" and r["oversampling_runtime"] == 0.5 and r["oversampler_module"] == "smote_variants"))
        want = sv.base.calculate_all_scores(keep["y_test"].copy(), p.copy())
        g.append((f"scores {i}", E.same(r["scores"], want)))
    g += [(f"{k} of the caller", E.same(over[k], keep[k])) for k in FIELDS]
    return g


# -- evaluate_oversamplers -----------------------------------------------------------------


def pipe_goals(sv, cfg, X, y, P):
    E.reset(proba=proba_of(P))
    E.oversampler(sv)
    names = ["da", "db"][:cfg["sets"]]
    half = len(X) // cfg["sets"]
    data = [{"data": X[i * half:(i + 1) * half], "target": y[i * half:(i + 1) * half], "name": n} for i, n in enumerate(names)]
    overs = [("smote_variants", "VStub", dict(v)) for v in E.VARIANTS[:cfg["overs"]]]
    clfs = [("harness.evalstub", "Clf", dict(p)) for p in cfg["clf"]]
    vp = {"n_splits": 2, "n_repeats": cfg["rep"], "random_state": 3}
    res = sv.evaluation.evaluate_oversamplers(data, overs, clfs, validator_params=dict(vp), scaler=SCALER, n_jobs=1, parse_results=False, verbosity=0)
    g = [("one result per fold, technique and classifier", len(res) == cfg["sets"] * 2 * cfg["rep"] * len(overs) * len(clfs))]
    got = {}
    for r in res:
        d = r["fold_descriptor"]
        op = {k: v for k, v in r["oversampler_params"].items() if k != "class_name"}
        which = [i for i, o in enumerate(overs) if op == {**E.DEFAULTS, **o[2]}]
        k = (d["name"], d["repeat_idx"], d["fold_idx"], which[0] if which else None, str(r["classifier_params"]))
        got.setdefault(k, []).append(r)
    want = {(n, rp, f, o, str(c[2])) for n in names for rp in range(cfg["rep"]) for f in range(2) for o in range(len(overs)) for c in clfs}
    g.append(("each combination once", set(got) == want and all(len(v) == 1 for v in got.values())))
    # what every classifier saw: a fold of the data set, prepared on its training part
    folds = []
    for d in data:
        fo = sv.evaluation.Folding(d, validator_params=dict(vp))
        for f in fo.fold():
            folds.append((d["name"], f))
    seen = [s for s in E.SEEN if s[:2] == ("clf", "fit")]
    tests = [s for s in E.SEEN if s[:2] == ("clf", "predict")]
    k = 0
    exp = []
    for n, f in folds:
        sX, sXt = expect(f["X_train"], f["X_test"], True)
        for o in overs:
            sh = sv.VStub(**o[2]).shift
            for c in clfs:
                exp.append((n, f, sX, sXt + 2.0 * sh, sh, c[2].get("fails")))
    asked = [e for e in exp if not e[5]]
    g.append(("as many fits", len(seen) == len(exp) and len(tests) == len(asked)))
    if len(seen) == len(exp) and len(tests) == len(asked):
        for k, (n, f, sX, sXt, sh, _) in enumerate(asked):
            g.append((f"test {k}", E.same(tests[k][2], sXt)))
        for k, (n, f, sX, sXt, sh, _) in enumerate(exp):
            new = wrap(np.array([[v + sh for v in sX.view(np.ndarray)[0]]], dtype=object if sX.dtype == object else float))
            g.append((f"fit {k}", E.same(seen[k][2], vstack(sX, new))))
    for key, rs in got.items():
        f = [f for n, f in folds if n == key[0] and f["fold_descriptor"]["repeat_idx"] == key[1] and f["fold_descriptor"]["fold_idx"] == key[2]]
        if f:
            g.append((f"test labels of {key[:3]}", E.same(rs[0]["y_test"], f[0]["y_test"])))
            cp = rs[0]["classifier_params"]
            p = zeros_like(len(f[0]["y_test"]), X) if cp.get("fails") else proba_of(P)(cp.get("tag", 0), f[0]["X_test"])
            g.append((f"the classifier's own predictions {key}", E.same(rs[0]["y_pred"], p)))
    return g


def unit(kind, cfg, quick):
    n, m = (8 if kind == "pipe" else 3), 3
    if kind == "eval":
        m = cfg.get("m", 3)

    def body(env, c):
        X = F.reals(c, "x", (n, 2), -100.0, 100.0)
        Xt = F.reals(c, "t", (m, 2), -100.0, 100.0)
        y = wrap(np.array([1, 0, 0, 0, 1, 0, 0, 0, 1][:n]))
        yt = wrap(np.array(cfg.get("yt", [0, 1, 0])))
        if kind == "pipe":
            y = wrap(np.array([1, 1, 0, 0, 1, 1, 0, 0]))
        P = {t: (F.reals(c, f"p{t}", 4, 0.0, 1.0) if cfg.get("p") else wrap(np.array([0.25, 0.75, 0.5, 0.125]) + 0.0625 * t)) for t in (1, 2)}
        if cfg.get("p"):
            E_same = {1: P[1], 2: P[2]}
            P = E_same

        def cases(mo):
            if mo is not None:
                yield {"kind": kind, "cfg": cfg, "X": values(mo, X), "Xt": values(mo, Xt), "y": [int(v) for v in y], "yt": [int(v) for v in yt], "P": {str(t): values(mo, P[t]) for t in P}}
            r = np.random.RandomState(4)
            yield {"kind": kind, "cfg": cfg, "X": np.round(r.normal(size=X.shape), 3).tolist(), "Xt": np.round(r.normal(size=Xt.shape), 3).tolist(), "y": [int(v) for v in y], "yt": [int(v) for v in yt],
                   "P": {"1": [0.3, 0.6, 0.5, 0.9], "2": [0.5, 0.2, 0.7, 0.5]}}

        c.tags["cases"] = cases
        return goals(env.sym, kind, cfg, X, y, Xt, yt, P)

    nm = kind + ":" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=40 if quick else 500, wall_s=15 if quick else 120,
                  bounds=f"{kind}: {n} training and {m} test samples of any value" + (", any predictions" if cfg.get("p") else ""))


def goals(sv, kind, cfg, X, y, Xt, yt, P):
    if kind == "sampling":
        return sampling_goals(sv, cfg, X, y, Xt, yt)
    if kind == "eval":
        return eval_goals(sv, cfg, X, y, Xt, yt, P)
    return pipe_goals(sv, cfg, X, y, P)


def replay(sv, case):
    a = [np.array(case[k], dtype=float) for k in ("X", "Xt")]
    P = {int(t): np.array(v, dtype=float) for t, v in case["P"].items()}
    try:
        g = goals(sv, case["kind"], case["cfg"], a[0], np.array(case["y"]), a[1], np.array(case["yt"]), P)
    except (core.Unsupported, core.BoundHit):
        raise
    except Exception as e:  # noqa: BLE001
        return [(case["kind"], f"{case['kind']} {case['cfg']}: raised {F.blame(e)}")]
    bad = [k for k, v in g if not bool(v)]
    return [(case["kind"], f"{case['kind']} {case['cfg']}: not so: {bad[:3]} for X={case['X']}")] if bad else []


def units(env, quick):
    us = []
    for sc in (True, False):
        for x in ({}, {"fails": "ValueError"}, {"fails": "RuntimeError"}, {"timeout": True}, {"exec": True}):
            us.append(unit("sampling", {"scaled": sc, **x}, quick))
    T1, T2, B1, B2 = {"tag": 1}, {"tag": 2}, {"tag": 1, "fails": "ValueError"}, {"tag": 2, "fails": "RuntimeError"}
    for x in ({"clf": [T1, T2]}, {"clf": [B1, T2]}, {"clf": [T1, B2, T2]}, {"clf": [T1], "p": True}, {"clf": [T2, T1], "p": True, "m": 2, "yt": [1, 0]}, {"clf": [T1], "error": "bad"}):
        us.append(unit("eval", x, quick))
    for x in ({"sets": 1, "overs": 2, "clf": [T1, T2], "rep": 1}, {"sets": 2, "overs": 1, "clf": [T1], "rep": 2}, {"sets": 2, "overs": 3, "clf": [T2, B1], "rep": 1}, {"sets": 1, "overs": 6, "clf": [T1], "rep": 3}):
        us.append(unit("pipe", x, quick))
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
