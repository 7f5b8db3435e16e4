"""C18: result tables aggregate each combination's own folds; model selection returns a best one; summaries keep folds together"""
import contextlib
import itertools

import numpy as np

from harness import evalstub as E
from harness import fcheck as F
from harness import fsim, pdsym
from harness.common import values
from symx import core
from symx.snp import wrap

ID = "C18"
SCALER = ("harness.evalstub", "Scaler", {"factor": 2.0})
OTHERS = ["acc", "f1"]


def results_of(sv, cfg, sc):
    """results as the evaluation gives them, the scores free"""
    names = list(sv.base.all_scores)
    out = []
    i = 0
    for d, o, cl, r, f in itertools.product(range(cfg["sets"]), range(cfg["overs"]), range(cfg["clf"]), range(cfg["rep"]), range(2)):
        s = {k: 0.125 * (j % 5) + 0.01 * i for j, k in enumerate(names)}
        for k in sc:
            s[k] = sc[k][i]
        op = {**E.DEFAULTS, **({} if o == 0 else E.VARIANTS[o - 1]), "class_name": "VStub"}
        op["ss_params"] = {"n_dim": 2, "within_simplex_sampling": "random", **op["ss_params"]}
        if cfg.get("plain") and o == 0:
            op.pop("ss_params")
        out.append({"fold_descriptor": {"name": f"d{d}", "repeat_idx": r, "fold_idx": f, "split_idx": 2 * r + f, "n_splits": 2, "n_repeats": cfg["rep"]},
                    "oversampler": "VStub", "oversampler_params": op, "oversampler_module": "smote_variants", "oversampling_error": None, "oversampling_warning": None,
                    "oversampling_runtime": 0.5 + i, "runtime": 0.25, "y_pred": [0.001 * i, 0.5], "y_test": [i % 2, 1 - i % 2], "scores": s, "classifier": "Clf" if cl < 2 else "Other",
                    "classifier_params": {"tag": cl + 1}, "classifier_module": "harness.evalstub", "error": None, "warning": "[]"})
        i += 1
    perm = cfg.get("perm")
    return [out[k] for k in perm] if perm else (out[::-1] if cfg.get("rev") else out)


def combo(r):
    return (r["fold_descriptor"]["name"], r["oversampler"], str(r["oversampler_params"]), r["classifier"], str(r["classifier_params"]))


def var1(v):
    m = sum(v[1:], v[0]) / len(v)
    s = [(x - m) * (x - m) for x in v]
    return sum(s[1:], s[0]) / (len(v) - 1)


def parse_goals(sv, cfg, sc, symbolic):
    res = results_of(sv, cfg, sc)
    inp = list(res)
    fs = fsim.FS(symbolic)
    with (pdsym.patched() if symbolic else contextlib.nullcontext()), fsim.mounted(fsim.modules(sv), fs):
        if cfg.get("files"):
            inp = []
            for i, r in enumerate(res):
                inp.append(f"/cache/evaluation_{i}.pickle")
                sv.base.dump_dict(dict(r), inp[-1], "pickle")
        pdf = sv.evaluation.do_parse_results(inp, True, "pickle")
        rows = [dict(zip(pdf.columns, [pdf[c].iloc[i] for c in pdf.columns])) for i in range(len(pdf))]
        raw = sv.evaluation.do_parse_results(list(inp), False, "pickle")
    groups = {}
    for r in res:
        groups.setdefault(combo(r), []).append(r)
    g = [("one row per combination", len(rows) == len(groups)), ("unparsed results are left alone", len(raw) == len(inp) and all(a is b for a, b in zip(raw, inp)))]
    keys = []
    for k, row in enumerate(rows):
        key = (row["dataset"], row["oversampler"], row["oversampler_params"], row["classifier"], row["classifier_params"])
        keys.append(key)
        mine = groups.get(key)
        g.append((f"row {k} is one of the combinations", mine is not None and row["oversampler_module"] == "smote_variants" and row["classifier_module"] == "harness.evalstub"))
        if mine is None:
            continue
        for s in list(sc) + OTHERS:
            v = [r["scores"][s] for r in mine]
            g.append((f"mean of {s} in row {k}", F.near(row[s + "_mean"], sum(v[1:], v[0]) / len(v), 1e-9)))
            d = row[s + "_std"]
            if not core.nonfinite(d):
                g.append((f"deviation of {s} in row {k}", F.conj([F.near(d * d, var1(v), 1e-6), F.le(0.0, d)])))
            else:
                g.append((f"deviation of {s} in row {k}", len(v) < 2))
    g.append(("no combination twice", len(set(keys)) == len(keys)))
    return g


def select_goals(sv, cfg, sc, symbolic):
    E.reset(proba=lambda tag, X: wrap(np.array([0.25, 0.75, 0.5, 0.125][:len(X)])) if symbolic else np.array([0.25, 0.75, 0.5, 0.125][:len(X)]))
    E.oversampler(sv)
    X = np.array([[0.0, 1.0], [2.0, 0.5], [1.0, 3.0], [4.0, 1.5], [0.5, 0.25], [3.0, 2.0], [1.5, 1.0], [2.5, 2.5]])
    y = np.array([1, 1, 0, 0, 1, 1, 0, 0])
    if symbolic:
        X, y = wrap(X), wrap(y)
    overs = [("smote_variants", "VStub", {**E.DEFAULTS, **v}) for v in ([{}] + E.VARIANTS)[:cfg["overs"]]]
    clfs = [("harness.evalstub", "Clf" if i < 2 else "Other", {"tag": i + 1}) for i in range(cfg["clf"])]
    k = 0
    table = {}
    calls = []
    orig = sv.evaluation.EvaluationJob.do_evaluation

    def which(r):
        o = [i for i, v in enumerate(overs) if {**v[2], "class_name": "VStub"} == r["oversampler_params"]][0]
        c = [i for i, v in enumerate(clfs) if (v[1], v[2]) == (r["classifier"], r["classifier_params"])][0]
        return o, c, r["fold_descriptor"]["repeat_idx"], r["fold_descriptor"]["fold_idx"]

    idx = {w: i for i, w in enumerate(itertools.product(range(len(overs)), range(len(clfs)), range(cfg["rep"]), range(2)))}

    def do_evaluation(self):
        out = orig(self)
        for r in out:
            w = which(r)
            calls.append(w)
            i = idx[w]
            for j, s in enumerate(sorted(r["scores"])):
                r["scores"][s] = 0.03 * ((7 * i + 3 * j) % 11)
            for s in sc:
                r["scores"][s] = sc[s][i]
        return out

    sv.evaluation.EvaluationJob.do_evaluation = do_evaluation
    try:
        with (pdsym.patched() if symbolic else contextlib.nullcontext()):
            os_, cl = sv.evaluation.model_selection({"data": X, "target": y, "name": "db"}, overs, clfs, score=cfg["score"], n_jobs=1, scaler=SCALER,
                                                    validator_params={"n_splits": 2, "n_repeats": cfg["rep"], "random_state": 3})
    finally:
        sv.evaluation.EvaluationJob.do_evaluation = orig
    g = [("every combination is evaluated", sorted(calls) == sorted(idx))]
    o = [i for i, v in enumerate(overs) if os_.get_params() == {**v[2], "class_name": "VStub"}]
    c = [i for i, v in enumerate(clfs) if type(cl).__name__ == v[1] and cl.tag == v[2]["tag"]]
    g.append(("one of the techniques and one of the classifiers", len(o) == 1 and len(c) == 1))
    if len(o) == 1 and len(c) == 1:
        def total(a, b):
            v = [sc[cfg["score"]][i] for w, i in idx.items() if w[:2] == (a, b)]
            return sum(v[1:], v[0]) / len(v)

        best = total(o[0], c[0])
        for a, b in itertools.product(range(len(overs)), range(len(clfs))):
            g.append((f"no better than technique {a} with classifier {b}", F.le(total(a, b), best, 1e-9)))
    return g


def summary_goals(sv, cfg, sc, symbolic):
    import pandas as pd

    res = results_of(sv, cfg, sc)
    with (pdsym.patched() if symbolic else contextlib.nullcontext()):
        pdf = sv.evaluation.create_summary(pd.DataFrame(res), scores=list(sc))if cfg.get("named") else sv.evaluation.create_summary(pd.DataFrame(res))
        rows = [dict(zip(pdf.columns, [pdf[c].iloc[i] for c in pdf.columns])) for i in range(len(pdf))]
    groups = {}
    for r in res:
        groups.setdefault(combo(r), []).append(r)
    g = [("one row per combination", len(rows) == len(groups))]
    keys = []
    for k, row in enumerate(rows):
        key = (row["db_name"], row["oversampler"], str(row["oversampler_params"]), row["classifier"], str(row["classifier_params"]))
        keys.append(key)
        mine = groups.get(key)
        g.append((f"row {k} is one of the combinations", mine is not None))
        if mine is None:
            continue
        cols = ["auc", "y_pred", "y_test", "oversampling_error", "oversampling_warning", "oversampling_runtime"]
        n = len(mine)
        g.append((f"row {k} has every fold", all(len(row[c]) == n for c in cols)))
        if not all(len(row[c]) == n for c in cols):
            continue
        # the entries at one position come from one result
        left = list(mine)
        for i in range(n):
            m = [r for r in left if r["oversampling_runtime"] == row["oversampling_runtime"][i]]
            g.append((f"entry {i} of row {k} is one of its folds", len(m) == 1))
            if len(m) == 1:
                left.remove(m[0])
                g.append((f"entry {i} of row {k} is in order", m[0]["fold_descriptor"]["fold_idx"] == sorted(r["fold_descriptor"]["fold_idx"] for r in mine)[i]))
                g.append((f"entry {i} of row {k} belongs together", F.conj([E.same(row["auc"][i], m[0]["scores"]["auc"]), E.same(row["y_pred"][i], m[0]["y_pred"]), E.same(row["y_test"][i], m[0]["y_test"])])))
    g.append(("no combination twice", len(set(keys)) == len(keys)))
    return g


GOALS = {"parse": parse_goals, "select": select_goals, "summary": summary_goals}


def unit(kind, cfg, quick):
    n = cfg.get("sets", 1) * cfg["overs"] * cfg["clf"] * cfg["rep"] * 2

    def body(env, c):
        sc = {cfg.get("score", "auc"): list(F.reals(c, "s", n, 0.0, 1.0).view(np.ndarray))}

        def cases(m):
            if m is not None:
                yield {"kind": kind, "cfg": cfg, "sc": {k: values(m, wrap(np.array(v, dtype=object))) for k, v in sc.items()}}
            r = np.random.RandomState(4)
            for _ in range(4):
                yield {"kind": kind, "cfg": cfg, "sc": {k: np.round(r.rand(n), 2).tolist() for k in sc}}

        c.tags["cases"] = cases
        return GOALS[kind](env.sym, cfg, sc, True)

    nm = kind + ":" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=60 if quick else 1500, wall_s=20 if quick else 200,
                  bounds=f"{kind}: {n} results with any {cfg.get('score', 'auc')} in [0, 1]")


def replay(sv, case):
    try:
        g = GOALS[case["kind"]](sv, case["cfg"], case["sc"], False)
    except (core.Unsupported, core.BoundHit):
        raise
    except Exception as e:  # noqa: BLE001
        return [(case["kind"], f"{case['kind']} {case['cfg']}: raised {F.blame(e)}")]
    bad = [k for k, v in g if not bool(v)]
    return [(case["kind"], f"{case['kind']} {case['cfg']}: not so: {bad[:3]} for scores {case['sc']}")] if bad else []


def units(env, quick):
    us = []
    for x in ({"sets": 1, "overs": 2, "clf": 2, "rep": 2}, {"sets": 2, "overs": 2, "clf": 1, "rep": 1, "rev": True}, {"sets": 1, "overs": 3, "clf": 3, "rep": 1, "perm": [5, 0, 11, 17, 3, 8, 2, 14, 9, 1, 16, 4, 10, 7, 13, 6, 15, 12]},
              {"sets": 2, "overs": 1, "clf": 2, "rep": 1, "files": True, "score": "brier"}, {"sets": 1, "overs": 2, "clf": 1, "rep": 3, "score": "gacc"}):
        us.append(unit("parse", x, quick))
    for x in ({"overs": 2, "clf": 1, "rep": 1, "score": "auc"}, {"overs": 1, "clf": 2, "rep": 1, "score": "f1"}, {"overs": 2, "clf": 2, "rep": 1, "score": "acc"}, {"overs": 1, "clf": 3, "rep": 1, "score": "gacc"},
              {"overs": 3, "clf": 1, "rep": 1, "score": "auc"}, {"overs": 2, "clf": 3, "rep": 1, "score": "auc"}, {"overs": 2, "clf": 1, "rep": 2, "score": "mcc"}):
        us.append(unit("select", x, quick))
    for x in ({"sets": 1, "overs": 2, "clf": 2, "rep": 1}, {"sets": 2, "overs": 2, "clf": 1, "rep": 2, "rev": True}, {"sets": 1, "overs": 2, "clf": 1, "rep": 1, "plain": True},
              {"sets": 1, "overs": 2, "clf": 2, "rep": 1, "named": True, "perm": [3, 6, 1, 4, 0, 7, 5, 2]}):
        us.append(unit("summary", x, quick))
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
