"""scaler, classifier and oversampler used in the evaluation checks: any behaviour, recorded"""
import numpy as np

from symx.snp import wrap

SEEN = []      # (who, what, arguments)
DEFAULTS = {"shift": 1.0, "fails": None, "proportion": 1.0, "n_neighbors": 5, "ss_params": {"n_dim": 2}, "mode": "a", "random_state": None}
VARIANTS = [{"shift": 3.0}, {"proportion": 0.5}, {"n_neighbors": 3}, {"ss_params": {"n_dim": 3}}, {"mode": "b"}, {"random_state": 7}]
SCRIPT = {}    # how they behave


def reset(**k):
    SEEN.clear()
    SCRIPT.clear()
    SCRIPT.update(k)


class Scaler:
    """subtracts the first row it was fitted with"""

    def __init__(self, factor=1.0):
        self.factor = factor

    def fit(self, X, y=None):
        SEEN.append(("scaler", "fit", X.copy()))
        self.b = X[0].copy()
        return self

    def transform(self, X):
        return (X - self.b) * self.factor

    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X)


class Clf:
    """its predictions for sample i are those of the script, shifted by its parameter"""

    def __init__(self, tag=0, fails=None):
        self.tag, self.fails = tag, fails

    def fit(self, X, y):
        SEEN.append(("clf", "fit", X.copy(), y.copy()))
        if self.fails:
            raise {"ValueError": ValueError, "RuntimeError": RuntimeError}[self.fails]("cannot be fitted")
        self.n = X.shape[1]
        return self

    def predict_proba(self, X):
        SEEN.append(("clf", "predict", X.copy()))
        p = SCRIPT["proba"](self.tag, X)
        return np.vstack([1.0 - p, p]).T if not hasattr(p, "_kind") else wrap(np.array([[1.0 - v, v] for v in p.view(np.ndarray)], dtype=object))


def oversampler(sv):
    """installs VStub into the package: appends a shifted copy of the first row"""

    class VStub:
        def __init__(self, **params):
            self.params = {**DEFAULTS, **params}
            p = self.params
            self.shift = p["shift"] + 0.5 * p["proportion"] + 0.25 * p["n_neighbors"] + 0.125 * (p["random_state"] or 0) + p["ss_params"]["n_dim"] + (p["mode"] == "b")
            self.fails = p["fails"]

        def get_params(self, deep=False):
            return {**self.params, "class_name": "VStub"}

        def sample(self, X, y):
            SEEN.append(("os", "sample", X.copy(), y.copy()))
            if self.fails:
                raise {"ValueError": ValueError, "RuntimeError": RuntimeError}[self.fails]("cannot sample")
            new = X[0] + self.shift
            if hasattr(X, "_kind"):
                return wrap(np.array([list(r) for r in X.view(np.ndarray)] + [list(new.view(np.ndarray))], dtype=object)), wrap(list(y) + [y[0]])
            return np.vstack([X, [new]]), np.hstack([y, [y[0]]])

        def preprocessing_transform(self, X):
            return X + 2.0 * self.shift

    sv.VStub = VStub
    return VStub


def same(a, b, tol=1e-9):
    """equality of results as a goal"""
    from harness import fcheck as F
    from symx.core import S
    from symx import core

    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        return F.conj([same(x, y, tol) for x, y in zip(a.view(np.ndarray).ravel(), b.view(np.ndarray).ravel())])
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and F.conj([same(a[k], b[k], tol) for k in a])
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and F.conj([same(x, y, tol) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a is b or (type(a) is type(b) and a == b)
    if isinstance(a, S) or isinstance(b, S):
        if core.nonfinite(a) or core.nonfinite(b):
            return a is b
        return F.near(a, b, tol)
    if isinstance(a, float) and a != a:
        return b != b
    return a == b or abs(a - b) <= tol


class Other(Clf):
    """another class of classifiers"""


class Full(Clf):
    """a classifier with the attributes scikit-learn classifiers have"""

    def fit(self, X, y):
        super().fit(X, y)
        self.classes_ = sorted(set(int(v) for v in y))
        return self

    def predict(self, X):
        SEEN.append(("clf", "predict_label", X.copy()))
        p = SCRIPT["proba"](self.tag, X)
        return p * 2.0 + 1.0
