"""C19: wrapped classifiers learn from the sampled training data and answer in its representation"""
import numpy as np
import sklearn.base
import sklearn.neighbors
import sklearn.neural_network

from harness import common, ocheck, overs
from harness import evalstub as E
from harness import fcheck as F
from harness.common import Path, num, values
from symx import core, stubs
from symx.core import S, z3
from symx.snp import wrap

ID = "C19"
P0 = [0.25, 0.75, 0.5, 0.125, 0.625]


def stacked(X, new):
    a = wrap(X).view(np.ndarray)
    return np.array([list(r) for r in a] + [list(wrap(new).view(np.ndarray))], dtype=object if a.dtype == object else float)


def clean(sv, cls, module, real):
    """records what the classifiers of the library are fitted with"""
    seen = []
    target = getattr(stubs, cls) if not real else getattr(module, cls)
    own = target.__dict__.get("fit")
    orig = target.fit

    def fit(self, X, y, *a, **k):
        seen.append((self, X.copy(), y.copy()))
        return orig(self, X, y, *a, **k)

    target.fit = fit

    def undo():
        if own is None:
            del target.fit
        else:
            target.fit = own

    return seen, undo


# -- OversamplingClassifier -------------------------------------------------------------


def osc_goals(sv, cfg, X, y, Xt, P, symbolic, real=False):
    E.reset(proba=lambda tag, Z: P[:len(Z)] if tag == 3 else 0.25 + P[:len(Z)] * 0.5)
    E.oversampler(sv)
    OC = sv.classifiers.OversamplingClassifier
    op = {"shift": 1.5, **cfg.get("op", {})}
    o = OC(oversampler=("smote_variants", "VStub", dict(op)), classifier=("harness.evalstub", "Full", {"tag": 3}))
    kX, ky, kXt = X.copy(), y.copy(), Xt.copy()
    how = cfg.get("how")
    g = []
    if how == "set":
        o = OC(oversampler=("smote_variants", "VStub", {"shift": 9.0}), classifier=("harness.evalstub", "Full", {"tag": 2}))
        o.fit(X + 1.0, y)
        o.set_params(oversampler=("smote_variants", "VStub", dict(op)), classifier=("harness.evalstub", "Full", {"tag": 3}))
    elif how == "set_os":
        o.set_params(oversampler=("smote_variants", "VStub", dict(op, shift=4.0)))
        op = dict(op, shift=4.0)
    elif how == "set_clf":
        o = OC(oversampler=("smote_variants", "VStub", dict(op)), classifier=("harness.evalstub", "Full", {"tag": 1}))
        o.set_params(classifier=("harness.evalstub", "Full", {"tag": 3}))
    elif how == "clone":
        o.fit(X + 1.0, y)
        o = sklearn.base.clone(o)
    elif how == "refit":
        o.fit(X + 1.0, y)
    elif how == "copy":
        o = OC(**o.get_params())
    g.append(("the parameters are the ones given", o.get_params() == {"oversampler": ("smote_variants", "VStub", op), "classifier": ("harness.evalstub", "Full", {"tag": 3})}))
    sh = sv.VStub(**op).shift
    E.SEEN.clear()
    r = o.fit(X, y)
    g.append(("fit returns the classifier", r is o))
    fits = [s for s in E.SEEN if s[:2] == ("clf", "fit")]
    samples = [s for s in E.SEEN if s[:2] == ("os", "sample")]
    g.append(("sampled once and fitted once", len(fits) == 1 and len(samples) == 1))
    if len(fits) == 1 and len(samples) == 1:
        g.append(("the technique sees the data", F.conj([E.same(samples[0][2], kX), E.same(samples[0][3], ky)])))
        g.append(("the classifier sees the sampled data", F.conj([E.same(fits[0][2], stacked(kX, kX[0] + sh)), E.same(list(fits[0][3]), list(ky) + [ky[0]])])))
    g.append(("classes", list(o.classes_) == sorted(set(int(v) for v in ky))))
    E.SEEN.clear()
    pp, pl = o.predict_proba(Xt), o.predict(Xt)
    asked = [s for s in E.SEEN if s[1] in ("predict", "predict_label")]
    g.append(("asked once each", [s[1] for s in asked] == ["predict", "predict_label"] and len(E.SEEN) == 2))
    g += [("asked about the samples in the representation it learned", E.same(s[2], kXt + 2.0 * sh)) for s in asked]
    n = len(kXt)
    g.append(("its own probabilities", E.same(pp, [[1.0 - P[i], P[i]] for i in range(n)] if not isinstance(pp, np.ndarray) else np.array([[1.0 - P[i], P[i]] for i in range(n)], dtype=object))))
    g.append(("its own labels", E.same(list(pl), [P[i] * 2.0 + 1.0 for i in range(n)])))
    g.append(("the data are left alone", F.conj([E.same(X, kX), E.same(y, ky), E.same(Xt, kXt)])))
    return g


# -- MLPClassifierWrapper ----------------------------------------------------------------


def mlp_goals(sv, cfg, X, y, Xt, frac, real):
    W = sv.classifiers.MLPClassifierWrapper
    par = {"max_iter": 30, "activation": "tanh", "hidden_layer_fraction": frac, "alpha": 0.01, "learning_rate": "constant", "random_state": 5}
    w = W(**par)
    if cfg.get("copy"):
        w = w.copy()
    seen, undo = clean(sv, "MLPClassifier", sklearn.neural_network, real)
    kX, ky = X.copy(), y.copy()
    try:
        if cfg.get("within"):
            E.oversampler(sv)
            sv.classifiers.VHolder = lambda: w
            o = sv.classifiers.OversamplingClassifier(("smote_variants", "VStub", {}), ("smote_variants.classifiers", "VHolder", {}))
            o.fit(X, y)
            g = [("classes", sorted(int(v) for v in o.classes_) == sorted(set(int(v) for v in ky)))]
            return g
        r = w.fit(X, y)
        g = [("fit returns the classifier", r is w), ("fitted once", len(seen) == 1)]
        d = X.shape[1]
        if len(seen) == 1:
            m, sX, sy = seen[0]
            p = m.get_params() if real else m._p
            g.append(("fitted on the data", F.conj([E.same(sX, kX), E.same(sy, ky)])))
            g.append(("parameters", all(p.get(k) == par[k] for k in ("max_iter", "activation", "alpha", "learning_rate", "random_state"))))
            h = p["hidden_layer_sizes"]
            g.append(("one hidden layer", len(h) == 1))
            h = h[0]
            if isinstance(frac, str):
                g.append(("its size is the root of the number of features", max(1, int(np.floor(np.sqrt(d)))) == h))
            else:
                lo = F.conj([F.le(1, h), F.disj([F.near(h, 1, 0), F.le(h, frac * d)])])
                g.append(("its size is the fraction of the number of features", F.conj([lo, lt(frac * d, h + 1)])))
            g.append(("asks the fitted network", F.conj([E.same(w.predict_proba(Xt), m.predict_proba(Xt)), E.same(w.predict(Xt), m.predict(Xt))])))
        return g + [("get_params", w.get_params() == par if not isinstance(frac, S) else {k: v for k, v in w.get_params().items() if k != "hidden_layer_fraction"} == {k: v for k, v in par.items() if k != "hidden_layer_fraction"} and w.get_params()["hidden_layer_fraction"] is frac)]
    finally:
        undo()


def lt(a, b):
    r = a < b
    return r.e if isinstance(r, S) else bool(r)


# -- ErrorWarningClassifier -----------------------------------------------------------------


def err_goals(sv, cfg, X, y, Xt, real):
    import warnings

    e = sv.classifiers.ErrorWarningClassifier(**cfg["p"])
    seen, undo = clean(sv, "KNeighborsClassifier", sklearn.neighbors, real)
    kX, ky = X.copy(), y.copy()
    try:
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            r, ex = F.raised(e.fit, X, y)
        g = [("raises what it is told to", (type(ex).__name__ if ex else None) == cfg["ex"])]
        if not cfg["ex"]:
            g.append(("warns when told to", (len(ws) > 0) == bool(cfg["p"].get("raise_warning"))))
            g.append(("fit returns the classifier", r is e))
            g.append(("fitted once on the data", len(seen) == 1 and F.conj([E.same(seen[0][1], kX), E.same(seen[0][2], ky)])))
            if len(seen) == 1:
                m = seen[0][0]
                g.append(("asks the fitted classifier", F.conj([E.same(e.predict_proba(Xt), m.predict_proba(Xt)), E.same(e.predict(Xt), m.predict(Xt))])))
        full = {"raise_value_error": False, "raise_warning": False, "raise_runtime_error": False, **cfg["p"]}
        return g + [("get_params", e.get_params() == full)]
    finally:
        undo()


# -- the representation of new data --------------------------------------------------------------


def tr_goals(job, o, Xs, X, y):
    T = o.preprocessing_transform(X)
    g = [("new data get the columns of the sampled data", wrap(T).ndim == 2 and wrap(T).shape[1] == wrap(Xs).shape[1] and len(T) == len(X))]
    if job.get("front") and wrap(T).ndim == 2 and wrap(T).shape[1] == wrap(Xs).shape[1]:
        g.append(("and the values", E.same(np.asarray(wrap(Xs))[:len(X)], T)))
    return g


def tr_body(env, c, job):
    r = ocheck.sym_call(env, c, job)
    return tr_goals(job, r.obj, r.Xs, r.run.X0.copy() if hasattr(r.run, "X0") else r.run.X, r.run.y)


def tr_replay(sv, case):
    r = ocheck.real_call(sv, case)
    X = np.array(case["X"], dtype=float)
    try:
        g = tr_goals(case, r.obj, r.Xs, X, np.array(case["y"]))
    except Exception as e:  # noqa: BLE001
        return [(case["cls"], f"{case['cls']}.preprocessing_transform after sample: raised {F.blame(e)}")]
    bad = [k for k, v in g if not bool(v)]
    return [(case["cls"], f"{case['cls']}.preprocessing_transform after sample of {len(X)} samples: not so: {bad}")] if bad else []


# -- units --------------------------------------------------------------------------------------------


def goals(sv, kind, cfg, a, symbolic):
    if kind == "osc":
        return osc_goals(sv, cfg, a["X"], a["y"], a["Xt"], a["P"], symbolic)
    if kind == "mlp":
        return mlp_goals(sv, cfg, a["X"], a["y"], a["Xt"], a["frac"], not symbolic)
    return err_goals(sv, cfg, a["X"], a["y"], a["Xt"], not symbolic)


def unit(kind, cfg, quick):
    n, d, m = 7, cfg.get("d", 2), 2
    pat = cfg.get("pat", [1, 0, 0, 1, 0, 0, 1])

    def body(env, c):
        a = {"X": F.reals(c, "x", (n, d), -100.0, 100.0), "Xt": F.reals(c, "t", (m, d), -100.0, 100.0), "y": wrap(np.array(pat)), "P": F.reals(c, "p", 5, 0.0, 1.0)}
        a["frac"] = F.real(c, "frac", 0.0, 4.0, strict=True) if cfg.get("frac") == "any" else cfg.get("frac", "sqrt")

        def cases(mo):
            base = {"kind": kind, "cfg": cfg, "y": pat}
            if mo is not None:
                yield {**base, "X": values(mo, a["X"]), "Xt": values(mo, a["Xt"]), "P": values(mo, a["P"]), "frac": num(mo, a["frac"].e) if isinstance(a["frac"], S) else a["frac"]}
            r = np.random.RandomState(4)
            for f in (0.4, 1.0, 0.05):
                yield {**base, "X": np.round(r.normal(size=(n, d)), 3).tolist(), "Xt": np.round(r.normal(size=(m, d)), 3).tolist(), "P": P0, "frac": f if cfg.get("frac") == "any" else a["frac"]}

        c.tags["cases"] = cases
        return goals(env.sym, kind, cfg, a, True)

    nm = kind + ":" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=30 if quick else 300, wall_s=10 if quick else 90, bounds=f"{kind}: {n} samples with {d} features of any value, {m} new samples")


def replay(sv, case):
    if "kind" not in case:
        return tr_replay(sv, case)
    a = {k: np.array(case[k], dtype=float) for k in ("X", "Xt", "P")}
    a["y"], a["frac"] = np.array(case["y"]), case["frac"]
    import warnings

    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g = goals(sv, case["kind"], case["cfg"], a, False)
    except (core.Unsupported, core.BoundHit):
        raise
    except Exception as e:  # noqa: BLE001
        return [(case["kind"], f"{case['kind']} {case['cfg']}: raised {F.blame(e)}")]
    bad = [k for k, v in g if not bool(v)]
    return [(case["kind"], f"{case['kind']} {case['cfg']}: not so: {bad[:3]} for X={case['X']}")] if bad else []


PLANS = [("A", "a", 3, "overlap", (0, 1), "sym"), ("A", "e", 3, "overlap", (0, 1), None), ("A", "g", 2, "clusters", (1, 0), None), ("A", "f", 2, "grid", (0, 1), None), ("B", "a", 2, "overlap", (0, 1), None)]


def units(env, quick):
    us = [unit("osc", x, quick) for x in ({}, {"how": "set"}, {"how": "set_os"}, {"how": "set_clf"}, {"how": "clone"}, {"how": "refit"}, {"how": "copy"}, {"pat": [2, 5, 5, 2, 5, 5, 2]}, {"op": {"proportion": 0.5, "n_neighbors": 2}})]
    for d in (1, 2, 3, 4, 5, 8, 9, 11):
        us.append(unit("mlp", {"frac": "any", "d": d}, quick))
    for d in (1, 3, 4, 8, 9, 10, 16):
        us.append(unit("mlp", {"frac": "sqrt", "d": d}, quick))
    us += [unit("mlp", {"frac": "any", "d": 3, "copy": True}, quick), unit("mlp", {"frac": "sqrt", "d": 2, "within": True}, quick)]
    V, R, Wn = {"raise_value_error": True}, {"raise_runtime_error": True}, {"raise_warning": True}
    for p, ex in (({}, None), (V, "ValueError"), (R, "RuntimeError"), (Wn, None), ({**V, **Wn}, "ValueError"), ({**R, **Wn}, "RuntimeError")):
        us.append(unit("err", {"p": p, "ex": ex}, quick))
    for j in overs.make_jobs(env.real, ["E_SMOTE", "ISOMAP_Hybrid", "SMOTEWB", "SMOTE", "polynom_fit_SMOTE_star"], "quick" if quick else "thorough", n_cfg=5, plans=PLANS):
        j["front"] = j["cls"] != "ISOMAP_Hybrid"
        j["extra"] = {"front": j["front"]}
        if j["cls"] in ("SMOTEWB",):
            j["front"] = False
            j["extra"] = {"front": False}
        us.append((j["name"], ocheck.unit(j, tr_body, tr_replay, quick)))
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
