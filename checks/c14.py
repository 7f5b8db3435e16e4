"""C14: cached results equal uncached ones, wherever an earlier run was interrupted and whatever it left"""
import numpy as np

from harness import evalstub as E
from harness import fcheck as F
from harness import fsim
from harness.common import num, values
from symx import core
from symx.snp import wrap

ID = "C14"
KEYS = ["X_train", "y_train", "X_test", "y_test"]
CLFS = [("harness.evalstub", "Clf", {"tag": 1}), ("harness.evalstub", "Clf", {"tag": 2}), ("harness.evalstub", "Clf", {"tag": 1, "fails": "ValueError"})]
SCALER = ("harness.evalstub", "Scaler", {})
LABELS = [0, 1, 0, 0, 0, 1]


def fold(X, y, r=0, f=0):
    n = len(X) - 2
    return {"X_train": X[:n], "y_train": y[:n], "X_test": X[n:], "y_test": y[n:],
            "fold_descriptor": {"name": "db", "repeat_idx": r, "fold_idx": f, "split_idx": r * 2 + f}}


def fresh(f):
    return {k: (v.copy() if hasattr(v, "copy") else v) for k, v in f.items()}


def strip(d):
    return {k: v for k, v in d.items() if k not in ("runtime", "oversampling_runtime", "oversampling_filname")}


def floats(d, keys):
    return {k: (np.array(v) * 1.0 if isinstance(v, list) else v * 1.0) if k in keys else v for k, v in d.items()}


def count(who, what):
    return sum(1 for s in E.SEEN if s[:2] == (who, what))


def proba_of(P):
    def f(tag, X):
        n = len(X)
        return P[tag][:n]

    return f


def setup(sv, P):
    E.reset(proba=proba_of(P))
    E.oversampler(sv)


def fs_of(symbolic, crash, part, err):
    return fsim.FS(symbolic, crash, part, err)


# -- one sampling job -------------------------------------------------------------------


def sampling_goals(sv, cfg, X, y, P, crash, part, err, symbolic):
    setup(sv, P)
    Job = sv.evaluation.SamplingJob
    params = {"shift": 2.0, "fails": cfg.get("fails"), "random_state": 5}
    ser = cfg["ser"]

    def job(cache, **k):
        a = dict(folding=fresh(fold(X, y, k.pop("r", 0), k.pop("f", 1))), oversampler=k.pop("os", "VStub"), oversampler_params=dict(k.pop("params", params)))
        return Job(**a, scaler=SCALER, cache_path=cache, serialization=ser, **k)

    do = (lambda j: j.timeout()) if cfg.get("timeout") else (lambda j: j.do_oversampling())
    want = strip(do(job(None)))
    fs = fs_of(symbolic, crash, part, err)
    g = []
    with fsim.mounted(fsim.modules(sv), fs):
        if cfg.get("other"):
            o = dict(cfg["other"])
            if "variant" in o:
                o = {"params": {**params, **E.VARIANTS[o["variant"]]}}
            fs.crash_at, keep = None, fs.crash_at
            do(job("/cache/db", **o))
            fs.crash_at, fs.n = keep, 0
        try:
            name0 = do(job("/cache/db"))
        except fsim.Crash:
            name0 = None
        fs.crash_at = None
        E.SEEN.clear()
        name = do(job("/cache/db"))
        again = count("os", "sample")
        got = sv.base.load_dict(name, ser, KEYS)
        E.SEEN.clear()
        name2 = do(job("/cache/db"))
        g.append(("a finished result is reused", name2 == name and count("os", "sample") == 0 and (name0 is None or again == 0)))
        if not cfg.get("timeout"):
            do(job("/cache/db", reset=True))
            g.append(("a reset recomputes", count("os", "sample") == 1))
            got2 = sv.base.load_dict(name, ser, KEYS)
            g.append(("the result after a reset", E.same(floats(strip(got2), KEYS), floats(want, KEYS))))
        g.append(("the cached result is the uncached one", E.same(floats(strip(got), KEYS), floats(want, KEYS))))
        if cfg.get("other"):
            g.append(("another job's result is another file", len([f for f in fs.files if "oversampling" in f]) == 2))
    return g


# -- one evaluation job -------------------------------------------------------------------


def eval_goals(sv, cfg, X, y, P, crash, part, err, symbolic):
    setup(sv, P)
    ser = cfg["ser"]
    S1 = sv.evaluation.SamplingJob
    EJ = sv.evaluation.EvaluationJob
    ek = ["y_pred", "y_test"]
    clfs = [CLFS[i] for i in cfg["clf"]]

    def over(cache=None, f=1, r=0, **p):
        return S1(fresh(fold(X, y, r, f)), "VStub", {"shift": 2.0, "random_state": 5, **p}, scaler=SCALER, cache_path=cache, serialization=ser)

    def ev(o, cache, **k):
        return EJ(o, k.pop("clfs", clfs), cache_path=cache, serialization=ser, **k)

    want = [strip(w) for w in ev(over().do_oversampling(), None).do_evaluation()]
    fs = fs_of(symbolic, crash, part, err)
    g = []
    with fsim.mounted(fsim.modules(sv), fs):
        keep, fs.crash_at = fs.crash_at, None
        src = over(cache="/cache/db").do_oversampling() if cfg.get("file") else None
        if "variant" in cfg:
            ev(over(**E.VARIANTS[cfg["variant"]]).do_oversampling(), "/cache/db").do_evaluation()
        if cfg.get("other") == "fold":
            ev(over(f=0).do_oversampling(), "/cache/db").do_evaluation()
            ev(over(r=1).do_oversampling(), "/cache/db").do_evaluation()
        if cfg.get("other") == "classifier":
            ev(over().do_oversampling(), "/cache/db", clfs=[CLFS[1]]).do_evaluation()
        fs.crash_at, fs.n = keep, 0
        run = lambda **k: ev(src or over().do_oversampling(), "/cache/db", **k).do_evaluation()  # noqa: E731
        try:
            run()
            done = True
        except fsim.Crash:
            done = False
        fs.crash_at = None
        E.SEEN.clear()
        names = run()
        n1 = count("clf", "fit")
        E.SEEN.clear()
        names2 = run()
        g.append(("finished results are reused", names2 == names and count("clf", "fit") == 0 and (n1 == 0 or not done)))
        g.append(("one result per classifier", len(names) == len(clfs)))
        got = [sv.base.load_dict(n, ser, ek) for n in names]
        for i, (a, b) in enumerate(zip(got, want)):
            g.append((f"evaluation {i} is the uncached one", E.same(floats(strip(a), ek), floats(b, ek))))
    return g


BEFORE = {
    "seed": {"validator_params": {"n_splits": 2, "n_repeats": 1, "random_state": 1}},
    "splits": {"validator_params": {"n_splits": 2, "n_repeats": 2, "random_state": 3}},
    "scaler": {"scaler": ("harness.evalstub", "Scaler", {"factor": 2.0})},
    "no scaler": {"scaler": None},
}


# -- the whole pipeline ------------------------------------------------------------------


def pipeline_goals(sv, cfg, X, y, P, crash, part, err, symbolic):
    setup(sv, P)
    ser = cfg["ser"]
    ek = ["y_pred", "y_test"]
    ds = {"data": X, "target": y, "name": "db"}
    overs = [("smote_variants", "VStub", {"shift": 2.0, "random_state": 5}), ("smote_variants", "VStub", {"shift": -1.0, "random_state": 5})][:cfg["overs"]]
    clfs = [CLFS[i] for i in cfg["clf"]]
    kw = dict(validator_params={"n_splits": 2, "n_repeats": 1, "random_state": 3}, scaler=SCALER, serialization=ser, n_jobs=1, parse_results=False, verbosity=0)
    E_ = sv.evaluation

    def run(cache):
        return E_.evaluate_oversamplers([dict(ds)], overs, clfs, cache_path=cache, clean_up=cfg["clean"], **kw)

    want = [strip(w) for w in run(None)]
    fs = fs_of(symbolic, crash, part, err)
    g = []
    with fsim.mounted(fsim.modules(sv), fs):
        if cfg.get("before"):
            keep, fs.crash_at = fs.crash_at, None
            b = BEFORE[cfg["before"]]
            E_.evaluate_oversamplers([dict(ds)], overs, clfs, cache_path="/cache", clean_up=cfg["clean"], **{**kw, **b})
            ran = len([f for f in fs.files if f.split("/")[-1].startswith("evaluation")])
            fs.crash_at, fs.n = keep, 0
        try:
            run("/cache")
        except fsim.Crash:
            pass
        fs.crash_at = None
        names = run("/cache")
        g.append(("as many results", len(names) == len(want)))
        got = [strip(sv.base.load_dict(n, ser, ek)) for n in names]
        left = [f.split("/")[-1] for f in fs.files]
        if cfg["clean"] in ("oversamplings", "all"):
            g.append(("oversamplings are cleaned up", not any(f.startswith("oversampling") for f in left)))
        if cfg["clean"] == "all":
            g.append(("folds are cleaned up", not any(f.startswith("fold") for f in left)))
        elif cfg.get("before"):
            fl = E_.Folding(dict(ds), cache_path="/cache", validator_params=kw["validator_params"], serialization=ser)
            g.append(("the folds stored are those of the last validator", len(fl.folding_files()) == 2))
        if not cfg.get("before"):
            g.append(("evaluations are kept", sum(f.startswith("evaluation") for f in left) == len(want)))
        else:
            g.append(("earlier evaluations are kept", sum(f.startswith("evaluation") for f in left) >= max(ran, len(want))))

    def key(w):
        return (w["fold_descriptor"]["repeat_idx"], w["fold_descriptor"]["fold_idx"], str(w["oversampler_params"]), str(w["classifier_params"]))

    got, want = sorted(got, key=key), sorted(want, key=key)
    g.append(("for the same folds, oversamplers and classifiers", [key(a) for a in got] == [key(b) for b in want]))
    for i, (a, b) in enumerate(zip(got, want)):
        g.append((f"result {i} is the uncached one", E.same(floats(a, ek), floats(b, ek))))
    return g


GOALS = {"sampling": sampling_goals, "eval": eval_goals, "pipeline": pipeline_goals}


def unit(kind, cfg, quick):
    def body(env, c):
        X = F.reals(c, "x", (len(LABELS), 1 if kind != "sampling" else 2), -100.0, 100.0)
        y = wrap(np.array(LABELS))
        P = {t: F.reals(c, f"p{t}", 3, 0.0, 1.0) for t in (1, 2)} if cfg.get("p") else {t: wrap(np.array([0.2, 0.7, 0.4]) + 0.1 * t) for t in (1, 2)}
        crash = F.integer(c, "crash", 1, 500)
        part = F.real(c, "part", 0.0, 1.0)
        kinds = []

        def err():
            kinds.append(F.pick(c, f"error{len(kinds)}", 0, 2))
            return kinds[-1]

        def cases(m):
            if m is not None:
                yield {"kind": kind, "cfg": cfg, "X": values(m, X), "P": {str(t): values(m, P[t]) for t in P}, "crash": num(m, crash.e), "part": num(m, part.e)}
            for cr in (500, 2, 3, 5, 8):
                yield {"kind": kind, "cfg": cfg, "X": np.random.RandomState(0).randint(-9, 9, X.shape).tolist(), "P": {"1": [0.25, 0.5, 0.125], "2": [0.75, 0.0, 0.5]}, "crash": cr, "part": 0.5}

        c.tags["cases"] = cases
        return GOALS[kind](env.sym, cfg, X, y, P, crash, part, err, True)

    nm = kind + ":" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=130 if quick else 1500, wall_s=20 if quick else 200, max_forks=3000,
                  bounds=f"{kind}: six samples of any value, an interruption at every step that touches the disk, any part of the text written by then")


def real(sv, case):
    X = np.array(case["X"], dtype=float)
    P = {int(t): np.array(v, dtype=float) for t, v in case["P"].items()}
    g = GOALS[case["kind"]](sv, case["cfg"], X, np.array(LABELS), P, case["crash"], case["part"], None, False)
    bad = [k for k, v in g if not bool(v)]
    return [(case["kind"], f"{case['kind']} {case['cfg']}: not so: {bad[:3]} after an interruption at step {case['crash']} with {case['part']:.3g} of the text written")] if bad else []


def replay(sv, case):
    try:
        return real(sv, case)
    except core.Unsupported:
        raise
    except Exception as e:  # noqa: BLE001
        return [(case["kind"], f"{case['kind']} {case['cfg']}: raised {F.blame(e)} after an interruption at step {case['crash']} with {case['part']:.3g} of the text written")]


def units(env, quick):
    us = []
    for ser in ("json", "pickle"):
        for v in range(len(E.VARIANTS)):
            us.append(unit("sampling", {"ser": ser, "other": {"variant": v}}, quick))
            us.append(unit("eval", {"ser": ser, "clf": [0], "variant": v}, quick))
        for x in ({}, {"fails": "ValueError"}, {"timeout": True}, {"other": {"f": 0}}, {"other": {"r": 1}}, {"other": {"os": "NoSMOTE", "params": {}}}):
            us.append(unit("sampling", {"ser": ser, **x}, quick))
        for x in ({"clf": [0, 1]}, {"clf": [0, 2], "file": True}, {"clf": [0, 1], "other": "fold"}, {"clf": [0], "other": "classifier"},
                  {"clf": [1], "p": True}):
            us.append(unit("eval", {"ser": ser, **x}, quick))
        for x in ({"overs": 1, "clf": [0], "clean": "oversamplings"}, {"overs": 2, "clf": [0, 1], "clean": None}, {"overs": 2, "clf": [0], "clean": "all"}):
            us.append(unit("pipeline", {"ser": ser, **x}, quick))
        for b in BEFORE:
            us.append(unit("pipeline", {"ser": ser, "overs": 1, "clf": [0], "clean": None if b in ("splits", "scaler") else "oversamplings", "before": b}, quick))
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
