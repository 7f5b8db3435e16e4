"""
Contract stubs for the environment: random numbers and third-party estimators.

Every stub forwards to the real object when all of its inputs are concrete;
otherwise it returns arbitrary values restricted by the documented contract of
the object it replaces (listed in CONTRACTS, copied into the evidence).
"""
import itertools
import types

import numpy as np

from . import core, snp
from .core import S, Unsupported, BoundHit, ctx, z3
from .snp import SymArray, has_sym, nat, rewrap, wrap, norm, _to_obj, _select, key_of

CONTRACTS = {
    "RandomState.random_sample/rand/uniform": "arbitrary real strictly inside the range",
    "RandomState.choice/randint": "arbitrary element of the domain (positive probability when p is given; distinct when replace=False); ValueError as numpy raises it",
    "RandomState.normal/multivariate_normal": "arbitrary real",
    "RandomState.shuffle/permutation": "arbitrary permutation",
    "RandomState.dirichlet": "arbitrary positive weights summing to 1",
    "NearestNeighbors.kneighbors": "distinct in-range indices, the query point itself first when it was fitted (points assumed pairwise distinct), non-decreasing positive distances; ValueError when more neighbours are asked for than points fitted",
    "NearestNeighbors.radius_neighbors": "arbitrary subset of the fitted points containing the query point when it was fitted",
    "KMeans/AgglomerativeClustering/OPTICS/DBSCAN/GaussianMixture": "arbitrary labels of the documented range (non-empty clusters for k-means and agglomerative), arbitrary centres",
    "scalers": "per-feature affine map with positive scale (the same map inverted by inverse_transform)",
    "PCA/embeddings": "arbitrary real coordinates of the documented shape, deterministic in the input",
    "classifiers/regressors": "predict returns arbitrary fitted labels, predict_proba arbitrary probabilities, deterministic in fitted data and query",
    "KFold/StratifiedKFold": "the real splitter on the (concrete) shape and labels",
    "pairwise distances": "symmetric, zero exactly for identical rows, otherwise positive",
}

MAX_DRAWS = [600]


class Draws:
    """names draws so that the same seed gives the same variables"""


def _size(size):
    if size is None:
        return None
    if isinstance(size, (tuple, list, np.ndarray)):
        return tuple(int(s) for s in size)
    return (int(size),)


class RandomState:
    """symbolic random source; an instance is identified by its seed"""

    def __init__(self, seed=None):
        c = core.CTX
        self.seed_value = seed
        if c is None:
            self.stream = f"rs{seed}"
        elif seed is None:
            self.stream = c.fresh_name("rsanon")
            c.tags.setdefault("unseeded", []).append("RandomState()")
        else:
            self.stream = f"rs{seed}"
        self.n = 0

    # -- plumbing
    def _next(self, kind):
        c = ctx()
        self.n += 1
        total = c.tags.get("ndraws", 0) + 1
        c.tags["ndraws"] = total
        if total > c.tags.get("max_draws", MAX_DRAWS[0]):
            raise BoundHit("random draw bound")
        return f"{self.stream}_{kind}{self.n}"

    def _log(self, kind, info, value):
        ctx().draws.append((self.stream, kind, info, value))

    def _unit(self, tag="u"):
        c = ctx()
        v = z3.Real(self._next(tag))
        c.add(z3.And(v > 0, v < 1))
        return S(v, True)

    def _arr(self, size, f):
        sh = _size(size)
        if sh is None:
            return f()
        out = np.empty(sh, dtype=object)
        for p in np.ndindex(*sh):
            out[p] = f()
        return out.view(SymArray)

    def random_sample(self, size=None):
        r = self._arr(size, self._unit)
        self._log("random_sample", _size(size), r)
        return r

    random = random_sample
    ranf = random_sample
    sample = random_sample

    def rand(self, *dims):
        r = self._arr(dims if dims else None, self._unit)
        self._log("random_sample", dims or None, r)
        return r

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (isinstance(low, np.ndarray) or isinstance(high, np.ndarray)):
            size = np.broadcast(_to_obj(low), _to_obj(high)).shape
        u = self._arr(size, self._unit)
        self._log("random_sample", _size(size), u)
        if isinstance(low, (int, float)) and isinstance(high, (int, float)) and low == 0 and high == 1:
            return u
        return low + (high - low) * u

    def _gauss(self):
        v = z3.Real(self._next("g"))
        return S(v)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None and any(isinstance(v, (np.ndarray, list)) for v in (loc, scale)):
            size = np.broadcast(_to_obj(loc), _to_obj(scale)).shape
        g = self._arr(size, self._gauss)
        self._log("normal", _size(size), g)
        if isinstance(scale, (S, int, float, np.number)):
            bad = scale < 0
            if bool(bad):
                raise ValueError("scale < 0")
        if isinstance(loc, (list, tuple)):
            loc = wrap(loc)
        return loc + scale * g

    def randn(self, *dims):
        return self.normal(size=dims if dims else None)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def multivariate_normal(self, mean, cov, size=None, **k):
        mean = wrap(mean)
        sh = _size(size)
        full = (sh or ()) + mean.shape
        g = self._arr(full, self._gauss)
        self._log("multivariate_normal", full, g)
        return g + mean

    def dirichlet(self, alpha, size=None):
        k = len(alpha)
        sh = (_size(size) or ()) + (k,)
        u = self._arr(sh, self._unit)
        c = ctx()
        for p in np.ndindex(*sh[:-1]):
            c.add(z3.Sum([u.view(np.ndarray)[p + (j,)].e for j in range(k)]) == 1)
        self._log("dirichlet", sh, u)
        return u

    def exponential(self, scale=1.0, size=None):
        def f():
            v = z3.Real(self._next("x"))
            ctx().add(v > 0)
            return S(v, True)

        return self._arr(size, f) * scale

    gamma = lambda self, shape, scale=1.0, size=None: self.exponential(scale, size)

    def _int(self, lo, hi):
        """arbitrary integer lo <= v < hi"""
        if hi - lo == 1:
            self._next("i")
            return np.int64(lo)
        v = z3.Int(self._next("i"))
        ctx().add(z3.And(v >= lo, v < hi))
        return S(v, lo >= 0, (lo, hi - 1))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        low, high = int(low), int(high)
        if low >= high:
            raise ValueError("low >= high")
        r = self._arr(size, lambda: self._int(low, high))
        self._log("randint", (low, high, _size(size)), r)
        return r

    random_integers = lambda self, low, high=None, size=None: self.randint(low, high + 1, size)

    def choice(self, a, size=None, replace=True, p=None):
        c = ctx()
        if isinstance(a, S):
            a = int(a)
        if isinstance(a, (int, np.integer)):
            dom = None
            n = int(a)
            if n <= 0 and _size(size) not in ((0,),):
                raise ValueError("a must be greater than 0 unless no samples are taken")
        else:
            if isinstance(a, (np.ndarray,)):
                if a.ndim != 1:
                    raise ValueError("a must be 1-dimensional")
                dom = wrap(a)
            elif isinstance(a, range):
                dom = wrap(list(a))
            elif isinstance(a, (list, tuple)) and all(isinstance(v, core.NUM + (S,)) for v in a):
                dom = wrap(a)
            elif isinstance(a, (list, tuple)):
                if any(isinstance(v, (list, tuple, np.ndarray)) for v in a):
                    raise ValueError("a must be 1-dimensional")
                dom = list(a)
            else:
                raise ValueError("a must be 1-dimensional or an integer")
            n = len(dom)
            if n == 0 and _size(size) not in ((0,),):
                raise ValueError("'a' cannot be empty unless no samples are taken")
        sh = _size(size)
        cnt = 1 if sh is None else int(np.prod(sh))
        if cnt < 0 or (sh and any(s < 0 for s in sh)):
            raise ValueError("negative dimensions are not allowed")
        allowed = None
        pl = None
        if p is not None:
            pl = list(wrap(p).view(np.ndarray).reshape(-1)) if wrap(p).ndim == 1 else None
            if pl is None:
                raise ValueError("'p' must be 1-dimensional")
            if len(pl) != n:
                raise ValueError("'a' and 'p' must have same size")
            if any(core.nonfinite(v) for v in pl):
                raise ValueError("probabilities contain NaN")
            if not has_sym(pl):
                tot = float(sum(float(v) for v in pl))
                if any(v < 0 for v in pl):
                    raise ValueError("probabilities are not non-negative")
                if abs(tot - 1) > 1e-7:
                    raise ValueError("probabilities do not sum to 1")
            allowed = pl
        if not replace and cnt > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        if not replace and pl is not None and not has_sym(pl):
            if sum(1 for v in pl if v > 0) < cnt:
                raise ValueError("Fewer non-zero entries in p than size")
        idxs = []
        for _ in range(cnt):
            if pl is not None and not has_sym(pl):
                ok = [k for k in range(n) if pl[k] > 0]
                v = self._int(0, n)
                if isinstance(v, S) and len(ok) < n:
                    c.add(z3.Or([v.e == k for k in ok]))
                    if len(ok) == 1:
                        v = np.int64(ok[0])
                    else:
                        v = S(v.e, True, (min(ok), max(ok)))
            else:
                v = self._int(0, n)
                if pl is not None and isinstance(v, S):
                    for k, q in enumerate(pl):
                        if isinstance(q, S):
                            c.add(z3.Implies(v.e == k, core.to_real(q.e) > 0))
                        elif not q > 0:
                            c.add(v.e != k)
            idxs.append(v)
        if not replace and cnt > 1:
            c.add(z3.Distinct([core.zval(v) for v in idxs]))
        self._log("choice", (n, sh, bool(replace), p is not None), wrap(idxs) if sh is not None else idxs[0])
        if dom is None:
            vals = idxs
        elif isinstance(dom, list):
            vals = [dom[int(i)] for i in idxs]
            if sh is None:
                return vals[0]
            out = np.empty(sh, dtype=object)
            for q, v in zip(np.ndindex(*sh), vals):
                out[q] = v
            return out.view(SymArray)
        else:
            dl = list(dom.view(np.ndarray))
            vals = [_select(i, dl) for i in idxs]
        if sh is None:
            return norm(vals[0])
        out = np.empty(sh, dtype=object)
        for q, v in zip(np.ndindex(*sh), vals):
            out[q] = norm(v)
        return out.view(SymArray)

    def _perm(self, n):
        c = ctx()
        ps = [self._int(0, n) for _ in range(n)]
        if n > 1:
            c.add(z3.Distinct([core.zval(p) for p in ps]))
        self._log("permutation", n, wrap(ps) if n else None)
        return ps

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            return wrap(self._perm(int(x)))
        x = wrap(x)
        return x[wrap(self._perm(len(x)))] if len(x) > 1 else x.copy()

    def shuffle(self, x):
        n = len(x)
        ps = self._perm(n)
        if isinstance(x, list):
            order = [int(p) for p in ps]
            x[:] = [x[i] for i in order]
            return
        if n > 1:
            x[...] = x[wrap(ps)]

    def seed(self, seed=None):
        self.seed_value = seed
        self.stream = f"rs{seed}"
        self.n = 0

    def get_state(self, *a, **k):
        return (self.stream, self.n)

    def set_state(self, st):
        self.stream, self.n = st

    def __deepcopy__(self, memo):
        r = RandomState.__new__(RandomState)
        r.seed_value, r.stream, r.n = self.seed_value, self.stream, self.n
        return r


def _budgeted(name):
    """after tags['sym_draws'] symbolic draws the generator continues concretely"""
    orig = getattr(RandomState, name)

    def f(self, *a, **k):
        c = core.CTX
        b = None if c is None else c.tags.get("sym_draws")
        if b is None or c.tags.get("ndraws", 0) < b or has_sym(list(a)) or has_sym(list(k.values())):
            return orig(self, *a, **k)
        tw = self.__dict__.get("_twin")
        if tw is None:
            seed = self.seed_value if isinstance(self.seed_value, (int, np.integer)) else sum(map(ord, self.stream))
            tw = self.__dict__["_twin"] = np.random.RandomState(seed)
        c.tags["conc_draws"] = c.tags.get("conc_draws", 0) + 1
        if name == "shuffle":
            n = len(a[0])
            order = tw.permutation(n)
            x = a[0]
            if isinstance(x, list):
                x[:] = [x[i] for i in order]
            else:
                x[...] = x[order].copy()
            return None
        a = [nat(v) if isinstance(v, SymArray) else v for v in a]
        k = {q: nat(v) if isinstance(v, SymArray) else v for q, v in k.items()}
        if name == "choice" and a and isinstance(a[0], (list, tuple)) and any(not isinstance(v, core.NUM) for v in a[0]):
            return a[0][int(tw.choice(len(a[0])))]
        return rewrap(getattr(tw, name)(*a, **k))

    f.__name__ = name
    return f


for _n in ("random_sample", "rand", "uniform", "normal", "randint", "choice", "permutation", "shuffle", "dirichlet", "multivariate_normal", "exponential"):
    setattr(RandomState, _n, _budgeted(_n))
for _n in ("random", "ranf", "sample"):
    setattr(RandomState, _n, RandomState.random_sample)


class RealRandomState(np.random.RandomState):
    """a concrete generator seen through the proxy (encoding self-check)"""


class ConcreteRandomState:
    """real random numbers, SymArray results: used by the encoding self-check"""

    def __init__(self, seed=None):
        self._rs = np.random.RandomState(seed)

    def __getattr__(self, name):
        f = getattr(self._rs, name)

        def g(*a, **k):
            if name == "shuffle":
                x = a[0]
                if isinstance(x, list):
                    return f(x)
                n = nat(x).copy()
                f(n)
                x[...] = wrap(n)
                return None
            return rewrap(f(*nat(tuple(a)), **nat(k)))

        return g


_IMPORT_RS = ConcreteRandomState(0)


class GlobalRandom(snp.ModuleProxy):
    """stands for the module numpy.random"""

    def __init__(self):
        super().__init__(np.random, "numpy.random")
        self.__dict__["_cache"]["RandomState"] = RandomState

    def _g(self):
        c = ctx()
        if "global_rs" not in c.tags:
            r = RandomState("GLOBAL" + c.tags.get("global_tag", ""))
            c.tags["global_rs"] = r
        c.tags.setdefault("global_used", []).append("numpy.random")
        return c.tags["global_rs"]

    def __getattr__(self, name):
        if name == "RandomState":
            return self.__dict__["_cache"]["RandomState"]
        if name in ("mtrand",):
            return self
        if name == "default_rng":
            return lambda seed=None: self.__dict__["_cache"]["RandomState"](seed)
        if hasattr(RandomState, name):
            def f(*a, **k):
                if core.CTX is None:  # import time
                    return getattr(_IMPORT_RS, name)(*a, **k)
                return getattr(self._g(), name)(*a, **k)

            return f
        return getattr(np.random, name)


# ---------------------------------------------------------------------------
# estimators
# ---------------------------------------------------------------------------


def rowkey(r):
    return tuple(v.e.get_id() if isinstance(v, S) else ("c", float(v)) for v in _to_obj(r).reshape(-1))


def conc_num(v):
    if isinstance(v, S):
        return int(v) if v.is_int() else v
    return v


def check_X(X, name="X", ensure_min=1):
    """the validation sklearn performs on its inputs"""
    X = wrap(X)
    if X.ndim != 2:
        raise ValueError(f"Expected 2D array, got {X.ndim}D array instead")
    if X.shape[0] < ensure_min:
        raise ValueError(f"Found array with {X.shape[0]} sample(s) while a minimum of {ensure_min} is required")
    if X.shape[1] < 1:
        raise ValueError("Found array with 0 feature(s) while a minimum of 1 is required")
    for v in X.view(np.ndarray).reshape(-1):
        if core.nonfinite(v):
            raise ValueError("Input contains NaN or infinity")
    return X


STOCHASTIC = {
    "KMeans", "MiniBatchKMeans", "MLPClassifier", "RandomForestClassifier", "DecisionTreeClassifier",
    "TSNE", "GaussianMixture", "IsolationForest", "PCA_randomized",
}


def note_unseeded(est):
    """an estimator with randomness of its own and no seed draws from numpy's
    process-wide generator"""
    c = core.CTX
    if c is None:
        return
    n = type(est).__name__
    p = est._p
    st = n in STOCHASTIC or (n == "SVC" and p.get("probability")) or (n in ("KFold", "StratifiedKFold") and p.get("shuffle")) or (n == "RepeatedStratifiedKFold")
    if st and p.get("random_state") is None:
        c.tags.setdefault("global_used", []).append(n)


class Est:
    """base of estimator stubs"""

    REAL = None
    DEFAULTS = {}

    def __init__(self, *args, **kw):
        names = list(self.DEFAULTS)
        p = dict(self.DEFAULTS)
        for n, v in zip(names, args):
            p[n] = v
        p.update(kw)
        self._p = p
        for k, v in p.items():
            setattr(self, k, v)
        self._real = None
        self._fit_key = None
        note_unseeded(self)

    def get_params(self, deep=False):
        if self.REAL is not None:
            return self.REAL(**{k: v for k, v in self._p.items()}).get_params()
        return dict(self._p)

    def set_params(self, **p):
        self._p.update(p)
        for k, v in p.items():
            setattr(self, k, v)
        return self

    def _mkreal(self):
        p = {k: conc_num(nat(v)) for k, v in self._p.items()}
        rs = p.get("random_state")
        if isinstance(rs, ConcreteRandomState):
            p["random_state"] = rs._rs
        elif rs is not None and not isinstance(rs, (int, np.integer)):
            # a symbolic generator: the estimator's own randomness is not modelled
            p["random_state"] = 0
            self._inner_random = True
        return self.REAL(**p)

    def _sync(self):
        for k, v in vars(self._real).items():
            if k.endswith("_") and not k.startswith("_"):
                if isinstance(getattr(type(self), k, None), property):
                    continue
                setattr(self, k, rewrap(v) if isinstance(v, (np.ndarray, list, tuple)) else v)


import sklearn.neighbors as _skn  # noqa: E402


class NearestNeighbors(Est):
    REAL = _skn.NearestNeighbors
    DEFAULTS = {"n_neighbors": 5, "radius": 1.0}

    def fit(self, X, y=None):
        X = check_X(X)
        self._X = X.copy()
        if not has_sym(X):
            self._real = self._mkreal().fit(nat(X))
        else:
            self._real = None
            self._fit_key = key_of(X)
            self._rows = {}
            for i, r in enumerate(X):
                self._rows.setdefault(rowkey(r), i)
        self.n_samples_fit_ = X.shape[0]
        return self

    def _lists(self, q, self_excl):
        """memoised neighbour list of one query row: [(idx, dist), ...]"""
        c = ctx()
        key = ("nn", self._fit_key if self._real is None else key_of(self._X), rowkey(q), self_excl)
        if key not in c.memo:
            c.memo[key] = ([], self._X, q)
        return c.memo[key][0]

    def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
        k = self.n_neighbors if n_neighbors is None else n_neighbors
        if isinstance(k, S):
            k = int(k)
        if isinstance(k, (float, np.floating)):
            raise TypeError("n_neighbors does not take float value")
        if k <= 0:
            raise ValueError("Expected n_neighbors > 0")
        if self._real is not None and (X is None or not has_sym(X)):
            return rewrap(self._real.kneighbors(None if X is None else nat(wrap(X)), k, return_distance))
        excl = X is None
        Q = self._X if excl else check_X(X)
        if Q.shape[1] != self._X.shape[1]:
            raise ValueError("X has different number of features than the fitted data")
        n = self._X.shape[0]
        if k > n - (1 if excl else 0):
            raise ValueError(f"Expected n_neighbors <= n_samples, but n_samples = {n}, n_neighbors = {k}")
        c = ctx()
        if self._real is not None:
            rows = {rowkey(r): i for i, r in enumerate(self._X)}
        else:
            rows = self._rows
        ind = np.empty((Q.shape[0], k), dtype=object)
        dist = np.empty((Q.shape[0], k), dtype=object)
        if c.tags.get("exact"):
            for qi, q in enumerate(Q):
                for j, (i, d) in enumerate(nearest(q, self._X, k, qi if excl else None)):
                    ind[qi, j] = np.int64(i)
                    dist[qi, j] = d
            if return_distance:
                return dist.view(SymArray), rewrap(ind.astype(int))
            return rewrap(ind.astype(int))
        for qi, q in enumerate(Q):
            lst = self._lists(q, excl)
            me = rows.get(rowkey(q))
            while len(lst) < k:
                j = len(lst)
                if j == 0 and me is not None and not excl:
                    lst.append((np.int64(me), np.float64(0.0)))
                    continue
                if n == 1:
                    v = np.int64(0)
                else:
                    v = z3.Int(c.fresh_name("nn"))
                    c.add(z3.And(v >= 0, v < n))
                    prev = [core.zval(p[0]) for p in lst]
                    if excl:
                        prev.append(z3.IntVal(qi))
                    for p in prev:
                        c.add(v != p)
                    v = S(v, True, (0, n - 1))
                d = z3.Real(c.fresh_name("nd"))
                c.add(d > 0)
                if lst and isinstance(lst[-1][1], S):
                    c.add(d >= lst[-1][1].e)
                lst.append((v, S(d, True)))
            for j in range(k):
                ind[qi, j] = lst[j][0]
                dist[qi, j] = lst[j][1]
        if return_distance:
            return dist.view(SymArray), ind.view(SymArray)
        return ind.view(SymArray)

    def radius_neighbors(self, X=None, radius=None, return_distance=True, sort_results=False):
        if self._real is not None and not has_sym(X) and not has_sym(radius):
            return rewrap_obj(self._real.radius_neighbors(nat(wrap(X)) if X is not None else None, radius, return_distance, sort_results))
        Q = self._X if X is None else check_X(X)
        r = self.radius if radius is None else radius
        n = self._X.shape[0]
        c = ctx()
        inds = np.empty(Q.shape[0], dtype=object)
        dists = np.empty(Q.shape[0], dtype=object)
        for qi, q in enumerate(Q):
            me, dd = [], []
            for i, f in enumerate(self._X):
                d = pair_distance(q, f)
                if X is None and i == qi:
                    continue
                if bool(d <= r):
                    me.append(i)
                    dd.append(d)
            w = wrap(me)
            w._kind = int
            inds[qi] = w
            dists[qi] = wrap(dd)
        if return_distance:
            return dists.view(SymArray), inds.view(SymArray)
        return inds.view(SymArray)


def rewrap_obj(r):
    if isinstance(r, tuple):
        return tuple(rewrap_obj(v) for v in r)
    if isinstance(r, np.ndarray) and r.dtype == object:
        out = np.empty(r.shape, dtype=object)
        for p in np.ndindex(r.shape):
            out[p] = rewrap(r[p])
        return out.view(SymArray)
    return rewrap(r)


def nearest(q, X, k, skip=None):
    """the k nearest rows of X in order, by forking on the (pairwise distinct) distances"""
    todo = [(i, pair_distance(q, r)) for i, r in enumerate(X) if i != skip]
    out = []
    while len(out) < k:
        b = 0
        for t in range(1, len(todo)):
            d, e = todo[t][1], todo[b][1]
            if d is not e and bool(d < e):
                b = t
        out.append(todo.pop(b))
    return out


def pair_distance(a, b):
    """abstract distance of two rows"""
    ka, kb = rowkey(a), rowkey(b)
    if ka == kb:
        return np.float64(0.0)
    if not has_sym(a) and not has_sym(b):
        return np.float64(np.linalg.norm(nat(wrap(a)) - nat(wrap(b))))
    c = ctx()
    key = ("D",) + (tuple(sorted([str(ka), str(kb)])))
    if key not in c.memo:
        d = z3.Real(c.fresh_name("D"))
        c.add(d > 0)
        if c.tags.get("exact"):
            for o in c.tags.setdefault("dists", []):
                c.add(d != o)
            c.tags["dists"].append(d)
        c.memo[key] = (S(d, True), a, b)
    return c.memo[key][0]


def pairwise_distances(X, Y=None, metric="euclidean", **k):
    import sklearn.metrics

    X = check_X(X)
    Y = X if Y is None else check_X(Y)
    if not has_sym(X) and not has_sym(Y):
        return rewrap(_REAL_PAIRWISE(nat(X), nat(Y), metric=metric, **k))
    out = np.empty((X.shape[0], Y.shape[0]), dtype=object)
    for i, a in enumerate(X):
        for j, b in enumerate(Y):
            out[i, j] = pair_distance(a, b)
    return out.view(SymArray)


import sklearn.metrics as _skm  # noqa: E402

_REAL_PAIRWISE = _skm.pairwise_distances


class Affine(Est):
    """per-feature affine scaler"""

    def fit(self, X, y=None):
        X = check_X(X)
        if not has_sym(X):
            self._real = self._mkreal().fit(nat(X))
            self._sync()
            self.n_features_in_ = X.shape[1]
            return self
        self._real = None
        d = X.shape[1]
        name = type(self).__name__
        self._a = snp.havoc_array(name + "_scale", (d,), X)
        self._b = snp.havoc_array(name + "_shift", (d,), X)
        for v in self._a:
            ctx().add(v.e > 0)
        self._a = wrap([S(v.e, True) for v in self._a])
        self.n_features_in_ = d
        return self

    def transform(self, X):
        X = check_X(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("X has a different number of features than the scaler was fitted with")
        if self._real is not None:
            if not has_sym(X):
                return rewrap(self._real.transform(nat(X)))
            a, b = self._coef()
            return (X - b) / a
        c = ctx()
        # t = (x - b) / a, inverse x = t*a + b recovers the same term
        out = np.empty(X.shape, dtype=object)
        for p in np.ndindex(*X.shape):
            j = p[1]
            x = X.view(np.ndarray)[p]
            key = ("aff", self._a[j].e.get_id(), x.e.get_id() if isinstance(x, S) else float(x))
            hit = c.memo.get(key)
            if hit is None:
                t = z3.Real(c.fresh_name("sc"))
                xe = core.to_real(core.zval(x))
                c.add_def(t * self._a[j].e == xe - self._b[j].e)
                ts = S(t)
                hit = c.memo[key] = (ts, x)
                c.memo[("affinv", self._a[j].e.get_id(), t.get_id())] = (x, ts)
            out[p] = hit[0]
        return out.view(SymArray)

    def inverse_transform(self, X):
        X = check_X(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError("operands could not be broadcast together")
        if self._real is not None:
            if not has_sym(X):
                return rewrap(self._real.inverse_transform(nat(X)))
            a, b = self._coef()
            return X * a + b
        c = ctx()
        out = np.empty(X.shape, dtype=object)
        for p in np.ndindex(*X.shape):
            j = p[1]
            t = X.view(np.ndarray)[p]
            hit = c.memo.get(("affinv", self._a[j].e.get_id(), t.e.get_id())) if isinstance(t, S) else None
            out[p] = hit[0] if hit is not None else t * self._a[j] + self._b[j]
        return out.view(SymArray)

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)


import sklearn.preprocessing as _skp  # noqa: E402


class StandardScaler(Affine):
    REAL = _skp.StandardScaler

    def _coef(self):
        return wrap(self._real.scale_), wrap(self._real.mean_)


class MinMaxScaler(Affine):
    REAL = _skp.MinMaxScaler

    def _coef(self):
        return wrap(1.0 / self._real.scale_), wrap(-self._real.min_ / self._real.scale_)


import sklearn.cluster as _skc  # noqa: E402


def _fresh_labels(name, n, lo, hi, *keys):
    c = ctx()
    key = ("lab", name, n, lo, hi) + key_of(*keys)
    if key not in c.memo:
        base = c.fresh_name(name)
        out = []
        for i in range(n):
            if hi - lo == 1:
                out.append(np.int64(lo))
                continue
            v = z3.Int(f"{base}_{i}")
            c.add(z3.And(v >= lo, v < hi))
            out.append(S(v, lo >= 0, (lo, hi - 1)))
        c.memo[key] = (out, keys)
    return wrap(list(c.memo[key][0]))


def _nonempty(labels, k):
    c = ctx()
    for j in range(k):
        terms = [core.zval(v) == j for v in labels]
        c.add(z3.Or(terms))


class KMeans(Est):
    REAL = _skc.KMeans
    DEFAULTS = {"n_clusters": 8}

    def fit(self, X, y=None, sample_weight=None):
        X = check_X(X)
        k = conc_num(self.n_clusters)
        if isinstance(k, (float, np.floating)):
            raise ValueError("The 'n_clusters' parameter of KMeans must be an int")
        if k < 1:
            raise ValueError("The 'n_clusters' parameter of KMeans must be an int in the range [1, inf)")
        if X.shape[0] < k:
            raise ValueError(f"n_samples={X.shape[0]} should be >= n_clusters={k}.")
        self._X = X
        k = int(k)
        self._k = k
        if not has_sym(X) and not has_sym(list(self._p.values())):
            self._real = self._mkreal().fit(nat(X))
            self._sync()
            return self
        self._real = None
        self.labels_ = _fresh_labels("km", X.shape[0], 0, k, X)
        _nonempty(self.labels_, k)
        self.cluster_centers_ = snp.havoc_array("kmc", (k, X.shape[1]), X)
        inert = snp.havoc_array("kmi", (1,), X)[0]
        ctx().add(inert.e >= 0)
        self.inertia_ = S(inert.e, True)
        self.n_iter_ = 1
        return self

    def predict(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.predict(nat(X)))
        if X is self._X or key_of(X) == key_of(self._X):
            return self.labels_.copy()
        return _fresh_labels("kmp", X.shape[0], 0, self._k, self._X, X)

    def fit_predict(self, X, y=None):
        return self.fit(X).labels_.copy()

    def transform(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.transform(nat(X)))
        r = snp.havoc_array("kmt", (X.shape[0], self._k), X)
        return r


class AgglomerativeClustering(Est):
    REAL = _skc.AgglomerativeClustering
    DEFAULTS = {"n_clusters": 2}

    def fit(self, X, y=None):
        X = check_X(X, ensure_min=2)
        if not has_sym(X):
            self._real = self._mkreal().fit(nat(X))
            self._sync()
            return self
        k = int(self.n_clusters)
        if k > X.shape[0]:
            raise ValueError("Cannot extract more clusters than samples")
        self.labels_ = _fresh_labels("agg", X.shape[0], 0, k, X)
        _nonempty(self.labels_, k)
        # an arbitrary merge tree would need 2n-1 nodes; the chain tree is one of
        # the trees the estimator can return
        n = X.shape[0]
        self.children_ = wrap([[0, 1]] + [[i + 2, n + i] for i in range(n - 2)])
        ctx().tags.setdefault("narrowed", set()).add("AgglomerativeClustering.children_ is the chain tree")
        return self

    def fit_predict(self, X, y=None):
        return self.fit(X).labels_.copy()


class DBSCAN(Est):
    REAL = _skc.DBSCAN
    DEFAULTS = {"eps": 0.5}

    def fit(self, X, y=None, sample_weight=None):
        X = check_X(X)
        if not has_sym(X) and not has_sym(list(self._p.values())):
            self._real = self._mkreal().fit(nat(X))
            self._sync()
            return self
        lab = _fresh_labels("db", X.shape[0], -1, X.shape[0], X, *[v for v in self._p.values() if isinstance(v, S)])
        # labels are numbered in order of first appearance
        c = ctx()
        prev = z3.IntVal(-1)
        for v in lab:
            e = core.zval(v)
            c.add(e <= prev + 1)
            prev = z3.If(e > prev, e, prev)
        self.labels_ = lab
        return self

    def fit_predict(self, X, y=None):
        return self.fit(X).labels_.copy()


class OPTICS(Est):
    REAL = _skc.OPTICS
    DEFAULTS = {"min_samples": 5}

    def fit(self, X, y=None):
        X = check_X(X, ensure_min=2)
        if not has_sym(X) and not has_sym(list(self._p.values())):
            self._real = self._mkreal().fit(nat(X))
            self._sync()
            return self
        n = X.shape[0]
        ms = self.min_samples
        if isinstance(ms, (int, np.integer)) and ms > n:
            raise ValueError("min_samples must be no greater than the number of samples")
        self.labels_ = _fresh_labels("opt", n, -1, max(n // 2, 1), X)
        for nm in ("core_distances_", "reachability_"):
            v = snp.havoc_array("o" + nm, (n,), X)
            for x in v:
                ctx().add(x.e >= 0)
            setattr(self, nm, wrap([S(x.e, True) for x in v]))
        self.ordering_ = wrap(list(range(n)))
        return self

    def fit_predict(self, X, y=None):
        return self.fit(X).labels_.copy()


class Embedding(Est):
    """PCA, TSNE, Isomap, LLE: arbitrary coordinates"""

    NAME = "emb"

    def fit(self, X, y=None):
        X = check_X(X, ensure_min=1)
        self._X = X
        if not has_sym(X):
            self._real = self._mkreal().fit(nat(X))
            self._sync()
            self._nc = None
            return self
        self._real = None
        nc = self._p.get("n_components")
        n, d = X.shape
        if nc is None:
            nc = min(n, d)
        nc = int(nc)
        self.check_components(nc, n, d)
        self._nc = nc
        self.components_ = snp.havoc_array(self.NAME + "_comp", (nc, d), X)
        self.mean_ = snp.mean(X, axis=0)
        ev = snp.havoc_array(self.NAME + "_ev", (nc,), X)
        for v in ev:
            ctx().add(v.e >= 0)
        self.explained_variance_ = wrap([S(v.e, True) for v in ev])
        er = snp.havoc_array(self.NAME + "_er", (nc,), X)
        for v in er:
            ctx().add(z3.And(v.e >= 0, v.e <= 1))
        self.explained_variance_ratio_ = wrap([S(v.e, True) for v in er])
        return self

    def check_components(self, nc, n, d):
        pass

    def transform(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.transform(nat(X)))
        if self._real is not None:
            if hasattr(self._real, "components_"):
                return snp.dot(X - wrap(self._real.mean_), wrap(self._real.components_.T))
            raise Unsupported("transform of symbolic rows by a concrete embedding")
        rows = [snp.havoc_array(self.NAME + "_t", (self._nc,), self._X, r) for r in X]
        return wrap([list(r) for r in rows])

    def inverse_transform(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.inverse_transform(nat(X)))
        if self._real is not None:
            return snp.dot(X, wrap(self._real.components_)) + wrap(self._real.mean_)
        rows = [snp.havoc_array(self.NAME + "_it", (self._X.shape[1],), self._X, r) for r in X]
        return wrap([list(r) for r in rows])

    def fit_transform(self, X, y=None):
        X = check_X(X)
        if not has_sym(X):
            self._X = X
            self._real = self._mkreal()
            r = self._real.fit_transform(nat(X))
            self._sync()
            return rewrap(r)
        return self.fit(X).transform(X)


import sklearn.decomposition as _skd  # noqa: E402
import sklearn.manifold as _skman  # noqa: E402


class PCA(Embedding):
    REAL = _skd.PCA
    NAME = "pca"
    DEFAULTS = {"n_components": None}

    def check_components(self, nc, n, d):
        if not 0 <= nc <= min(n, d):
            raise ValueError(f"n_components={nc} must be between 0 and min(n_samples, n_features)={min(n, d)}")


class TSNE(Embedding):
    REAL = _skman.TSNE
    NAME = "tsne"
    DEFAULTS = {"n_components": 2}

    def check_components(self, nc, n, d):
        if self._p.get("perplexity", 30.0) >= n:
            raise ValueError("perplexity must be less than n_samples")


class Isomap(Embedding):
    REAL = _skman.Isomap
    NAME = "iso"
    DEFAULTS = {"n_neighbors": 5}

    def fit(self, X, y=None):
        self._p.setdefault("n_components", 2)
        super().fit(X)
        if "embedding_" not in self.__dict__:
            self.embedding_ = self.transform(X)
        return self


class LocallyLinearEmbedding(Embedding):
    REAL = _skman.LocallyLinearEmbedding
    NAME = "lle"
    DEFAULTS = {"n_neighbors": 5}

    def fit(self, X, y=None):
        self._p.setdefault("n_components", 2)
        return super().fit(X)

    def check_components(self, nc, n, d):
        if nc > d:
            raise ValueError("output dimension must be less than or equal to input dimension")
        if int(self.n_neighbors) >= n:
            raise ValueError("Expected n_neighbors <= n_samples")


class Classifier(Est):
    NAME = "clf"
    SINGLE_OK = False

    def fit(self, X, y, sample_weight=None):
        X = check_X(X)
        y = wrap(y)
        if y.ndim != 1 or len(y) != len(X):
            raise ValueError("Found input variables with inconsistent numbers of samples")
        self._X, self._y = X.copy(), y.copy()
        if not has_sym(X) and not has_sym(y):
            self._real = self._mkreal().fit(nat(X), nat(y))
            self._sync()
            return self
        self._real = None
        self.classes_ = snp.unique(y)
        if len(self.classes_) < 2 and not self.SINGLE_OK:
            raise ValueError("This solver needs samples of at least 2 classes in the data")
        return self

    def predict(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.predict(nat(X)))
        cl = list(self.classes_)
        out = []
        if ctx().tags.get("exact") and self.NAME == "knn":
            for r in X:
                ls = [self._y[i] for i, _ in nearest(r, self._X, int(self._p.get("n_neighbors", 5)))]
                v, n = np.unique(ls, return_counts=True)
                out.append(v[np.argmax(n)])
            return wrap(np.array(out))
        for r in X:
            lab = _fresh_labels(self.NAME, 1, 0, len(cl), self._X, self._y, r)[0]
            out.append(_select(lab, cl))
        return wrap(out)

    def predict_proba(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.predict_proba(nat(X)))
        c = ctx()
        k = len(self.classes_)
        rows = []
        for r in X:
            key = ("proba", self.NAME) + key_of(self._X, self._y, r)
            v = snp.havoc_array(self.NAME + "_p", (k,), self._X, self._y, r)
            if key not in c.memo:
                c.memo[key] = (True, self._X, self._y, r)
                for x in v:
                    c.add(z3.And(x.e >= 0, x.e <= 1))
                c.add(z3.Sum([x.e for x in v]) == 1)
            rows.append([S(x.e, True) for x in v])
        return wrap(rows)

    def decision_function(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.decision_function(nat(X)))
        return wrap([snp.havoc_array(self.NAME + "_df", (1,), self._X, self._y, r)[0] for r in X])

    def score(self, X, y):
        p = self.predict(X)
        return snp.mean(p == wrap(y))

    def apply(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.apply(nat(X)))
        return _fresh_labels(self.NAME + "_leaf", len(X), 1, 4, self._X, self._y, X)

    def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
        nn = NearestNeighbors(n_neighbors=self._p.get("n_neighbors", 5)).fit(self._X)
        return nn.kneighbors(X, n_neighbors, return_distance)

    @property
    def support_(self):
        if self._real is not None:
            return rewrap(self._real.support_)
        m = snp.conc_mask(_fresh_labels(self.NAME + "_sv", len(self._X), 0, 2, self._X, self._y) == 1)
        if not m.any():
            raise core.PathAbort("no support vectors")
        return wrap(np.where(m)[0])

    @property
    def support_vectors_(self):
        return self._X[self.support_]


def _clf(real, name, single_ok=False, defaults=None):
    return type(real.__name__, (Classifier,), {"REAL": real, "NAME": name, "SINGLE_OK": single_ok, "DEFAULTS": defaults or {}})


import sklearn.svm as _sksvm  # noqa: E402
import sklearn.tree as _sktree  # noqa: E402
import sklearn.linear_model as _sklm  # noqa: E402
import sklearn.discriminant_analysis as _skda  # noqa: E402
import sklearn.ensemble as _ske  # noqa: E402
import sklearn.naive_bayes as _sknb  # noqa: E402
import sklearn.neural_network as _sknn  # noqa: E402
import sklearn.mixture as _skmix  # noqa: E402
import sklearn.model_selection as _skms  # noqa: E402
import sklearn.feature_selection  # noqa: E402

SVC = _clf(_sksvm.SVC, "svc")
DecisionTreeClassifier = _clf(_sktree.DecisionTreeClassifier, "dt", True)
LogisticRegression = _clf(_sklm.LogisticRegression, "lr")
LinearDiscriminantAnalysis = _clf(_skda.LinearDiscriminantAnalysis, "lda")
QuadraticDiscriminantAnalysis = _clf(_skda.QuadraticDiscriminantAnalysis, "qda")
RandomForestClassifier = _clf(_ske.RandomForestClassifier, "rf", True)
GaussianNB = _clf(_sknb.GaussianNB, "gnb", True)
MLPClassifier = _clf(_sknn.MLPClassifier, "mlp", True)
KNeighborsClassifier = _clf(_skn.KNeighborsClassifier, "knn", True, {"n_neighbors": 5})


class IsolationForest(Est):
    REAL = _ske.IsolationForest

    def fit(self, X, y=None):
        X = check_X(X)
        self._X = X
        if not has_sym(X):
            self._real = self._mkreal().fit(nat(X))
        return self

    def predict(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.predict(nat(X)))
        lab = _fresh_labels("isof", len(X), 0, 2, self._X, X)
        return lab * 2 - 1

    def fit_predict(self, X, y=None):
        return self.fit(X).predict(X)

    def decision_function(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.decision_function(nat(X)))
        return snp.havoc_array("isod", (len(X),), self._X, X)

    score_samples = decision_function


class LinearRegression(Est):
    REAL = _sklm.LinearRegression

    def fit(self, X, y):
        X = check_X(X)
        self._X, self._y = X, wrap(y)
        if not has_sym(X) and not has_sym(y):
            self._real = self._mkreal().fit(nat(X), nat(wrap(y)))
            self._sync()
            return self
        sh = (X.shape[1],) if self._y.ndim == 1 else (self._y.shape[1], X.shape[1])
        self.coef_ = snp.havoc_array("linreg", sh, X, y)
        self.intercept_ = snp.havoc_array("linregi", (1,), X, y)[0]
        return self

    def predict(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.predict(nat(X)))
        return snp.dot(X, wrap(self.coef_).T) + self.intercept_

    def score(self, X, y):
        return snp.havoc_array("linscore", (1,), X, y)[0]


class GaussianMixture(Est):
    REAL = _skmix.GaussianMixture
    DEFAULTS = {"n_components": 1}

    def fit(self, X, y=None):
        X = check_X(X, ensure_min=2)
        self._X = X
        if not has_sym(X):
            self._real = self._mkreal().fit(nat(X))
            self._sync()
            return self
        k = int(self.n_components)
        if X.shape[0] < k:
            raise ValueError("Expected n_samples >= n_components")
        self.means_ = snp.havoc_array("gmm", (k, X.shape[1]), X)
        return self

    def predict(self, X):
        X = check_X(X)
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.predict(nat(X)))
        return _fresh_labels("gmmp", len(X), 0, int(self.n_components), self._X, X)

    def fit_predict(self, X, y=None):
        return self.fit(X).predict(X)

    def bic(self, X):
        if self._real is not None and not has_sym(X):
            return rewrap(self._real.bic(nat(wrap(X))))
        return snp.havoc_array("gmmbic", (1,), self._X, X)[0]

    aic = bic

    def sample(self, n_samples=1):
        n = int(n_samples)
        if n < 1:
            raise ValueError("Invalid value for 'n_samples'")
        d = self._X.shape[1]
        k = ctx().fresh_name("gmmsample")
        return snp.havoc_array(k, (n, d), self._X), _fresh_labels(k + "l", n, 0, int(self.n_components), self._X)


class _Split(Est):
    def get_n_splits(self, *a):
        return self._mkreal().get_n_splits()

    def split(self, X, y=None, groups=None):
        Xn = np.zeros((len(X), 1))
        yn = None
        if y is not None:
            yw = wrap(y)
            if has_sym(yw):
                # the split depends only on which labels are equal
                u, inv = snp.unique(yw, return_inverse=True)
                yn = nat(inv)
            else:
                yn = nat(yw)
        for a, b in self._mkreal().split(Xn, yn):
            yield rewrap(a), rewrap(b)


class KFold(_Split):
    REAL = _skms.KFold
    DEFAULTS = {"n_splits": 5}


class StratifiedKFold(_Split):
    REAL = _skms.StratifiedKFold
    DEFAULTS = {"n_splits": 5}


class RepeatedStratifiedKFold(_Split):
    REAL = _skms.RepeatedStratifiedKFold


def _shuffled_split(*arrays, test_size=None, train_size=None, random_state=None, shuffle=True, stratify=None):
    n = len(arrays[0])
    st = None
    if stratify is not None:
        u, inv = snp.unique(wrap(stratify), return_inverse=True)
        st = nat(inv)
    a, b = _REAL_TTS(np.arange(n), test_size=test_size, train_size=train_size, random_state=random_state if isinstance(random_state, (int, type(None))) else 0, shuffle=shuffle, stratify=st)
    out = []
    for x in arrays:
        w = wrap(x)
        out.extend([w[wrap(a)], w[wrap(b)]])
    return out


_REAL_TTS = _skms.train_test_split
_REAL_CVS = _skms.cross_val_score
_REAL_AUC = _skm.roc_auc_score
_REAL_ACC = _skm.accuracy_score
_REAL_LL = _skm.log_loss


def cross_val_score(est, X, y=None, cv=None, **k):
    kf = cv if cv is not None and not isinstance(cv, int) else None
    n = cv if isinstance(cv, int) else (kf.get_n_splits() if kf is not None and hasattr(kf, "get_n_splits") else 5)
    r = snp.havoc_array("cvs", (int(n),), X, y)
    for v in r:
        ctx().add(z3.And(v.e >= 0, v.e <= 1))
    return r


def exact_auc(y, p):
    y, p = nat(wrap(y)), list(wrap(p))
    hi = np.unique(y)[-1]
    pos, neg = [p[i] for i in range(len(p)) if y[i] == hi], [p[i] for i in range(len(p)) if y[i] != hi]
    tot = z3.RealVal(0)
    for a in pos:
        for b in neg:
            ea, eb = core.to_real(core.zval(a)), core.to_real(core.zval(b))
            tot = tot + z3.If(ea > eb, z3.RealVal(1), z3.If(ea == eb, z3.Q(1, 2), z3.RealVal(0)))
    return S(tot / (len(pos) * len(neg)), True)


def _score01(name, real):
    def f(y_true, y_score, **k):
        if not has_sym(y_true) and not has_sym(y_score):
            return rewrap(real(nat(wrap(y_true)), nat(wrap(y_score)), **k))
        if name == "auc" and ctx().tags.get("exact") and not has_sym(y_true) and not k:
            return exact_auc(y_true, y_score)
        v = snp.havoc_array(name, (1,), y_true, y_score)[0]
        ctx().add(z3.And(v.e >= 0, v.e <= 1))
        return S(v.e, True)

    f.__name__ = real.__name__
    return f


roc_auc_score = _score01("auc", _REAL_AUC)
accuracy_score = _score01("accs", _REAL_ACC)


def log_loss(y_true, y_pred, **k):
    if not has_sym(y_true) and not has_sym(y_pred):
        return rewrap(_REAL_LL(nat(wrap(y_true)), nat(wrap(y_pred)), **k))
    v = snp.havoc_array("logloss", (1,), y_true, y_pred)[0]
    ctx().add(v.e >= 0)
    return S(v.e, True)


def mutual_info_regression(X, y, **k):
    X = wrap(X)
    v = snp.havoc_array("mi", (X.shape[1],), X, y)
    for x in v:
        ctx().add(x.e >= 0)
    return wrap([S(x.e, True) for x in v])


class MiniSom:
    def __init__(self, x, y, input_len, **kw):
        self.x, self.y, self.d = int(x), int(y), int(input_len)
        self.kw = kw
        self._data = None

    def train(self, data, num_iteration=None, *a, **k):
        self._data = wrap(data)

    train_random = train
    train_batch = train
    random_weights_init = train
    pca_weights_init = train

    def get_weights(self):
        return snp.havoc_array("som", (self.x, self.y, self.d), self._data)

    def winner(self, x):
        l = _fresh_labels("som", 2, 0, max(self.x, self.y), self._data, x)
        return int(l[0]) % self.x, int(l[1]) % self.y


import scipy.linalg as _sl  # noqa: E402
import scipy.stats as _st  # noqa: E402
import scipy.special as _ssp  # noqa: E402
import scipy.signal as _ssig  # noqa: E402
import scipy.spatial as _sspa  # noqa: E402
import scipy.optimize as _sopt  # noqa: E402
import scipy.stats.mstats as _mst  # noqa: E402
import scipy.sparse.linalg  # noqa: E402
import scipy.spatial.distance as _sdist  # noqa: E402


def _wrapfn(real, sym=None, name=None):
    nm = name or getattr(real, "__name__", "fn")

    def f(*a, **k):
        if has_sym(a) or has_sym(k):
            if sym is None:
                raise Unsupported(f"{nm} on symbolic data")
            return sym(*a, **k)
        r = real(*nat(tuple(a)), **nat(k))
        return rewrap(r)

    f.__name__ = nm
    return f


def _circulant(c):
    v = list(wrap(c))
    n = len(v)
    return wrap([[v[(i - j) % n] for j in range(n)] for i in range(n)])


def _skew(a, axis=0, **k):
    w = wrap(a)
    if w.ndim == 1:
        return snp.havoc_array("skew", (1,), w)[0]
    return snp.havoc_array("skew", (w.shape[1 - axis],), w)


def _expit(x):
    def one(v):
        if not isinstance(v, S):
            return np.float64(_ssp.expit(v))
        return snp.havoc_fn("expit", [v], lo=0, hi=1)

    w = wrap(x)
    if w.ndim == 0:
        return one(w[()])
    return snp._done(np.frompyfunc(one, 1, 1)(w.view(np.ndarray)))


def _gmean(a, axis=0, **k):
    w = wrap(a)
    if w.ndim == 1:
        v = snp.havoc_array("gmean", (1,), w)[0]
        return S(v.e)
    return snp.havoc_array("gmean", (w.shape[1 - axis],), w)


def _rankdata(a, **k):
    w = wrap(a)
    ps = snp.argsort(w)
    # rank of element i = position in the order + 1
    out = []
    for i in range(len(w)):
        r = np.int64(len(w))
        for pos in range(len(w) - 1, -1, -1):
            r = core.ite(ps[pos] == i, np.int64(pos + 1), r)
        out.append(r)
    return wrap(out)


def _find_peaks(x, **k):
    w = wrap(x)
    m = []
    for i in range(1, len(w) - 1):
        if bool(w[i] > w[i - 1]) and bool(w[i] > w[i + 1]):
            m.append(i)
    r = wrap(m)
    r._kind = int
    return r, {}


class _Problem(Exception):
    pass


def _lsq(*a, **k):
    raise Unsupported("optimiser on symbolic data")


def _lsa(cost, maximize=False):
    w = wrap(cost)
    n, m = w.shape
    k = min(n, m)
    perm = snp._sorted_perm  # not an order: arbitrary assignment
    c = ctx()
    base = c.fresh_name("lsa")
    cols = []
    for i in range(k):
        v = z3.Int(f"{base}_{i}")
        c.add(z3.And(v >= 0, v < m))
        cols.append(S(v, True, (0, m - 1)))
    if k > 1:
        c.add(z3.Distinct([v.e for v in cols]))
    return wrap(list(range(k))), wrap(cols)


PATCHES = None


def patch_table():
    """(module, attribute) -> replacement"""
    import minisom

    t = {
        ("sklearn.neighbors", "NearestNeighbors"): NearestNeighbors,
        ("sklearn.neighbors", "KNeighborsClassifier"): KNeighborsClassifier,
        ("sklearn.metrics", "pairwise_distances"): pairwise_distances,
        ("sklearn.metrics.pairwise", "pairwise_distances"): pairwise_distances,
        ("sklearn.metrics.pairwise", "euclidean_distances"): pairwise_distances,
        ("sklearn.metrics", "euclidean_distances"): pairwise_distances,
        ("sklearn.metrics", "roc_auc_score"): roc_auc_score,
        ("sklearn.metrics", "accuracy_score"): accuracy_score,
        ("sklearn.metrics", "log_loss"): log_loss,
        ("sklearn.feature_selection", "mutual_info_regression"): mutual_info_regression,
        ("sklearn.preprocessing", "StandardScaler"): StandardScaler,
        ("sklearn.preprocessing", "MinMaxScaler"): MinMaxScaler,
        ("sklearn.cluster", "KMeans"): KMeans,
        ("sklearn.cluster", "AgglomerativeClustering"): AgglomerativeClustering,
        ("sklearn.cluster", "DBSCAN"): DBSCAN,
        ("sklearn.cluster", "OPTICS"): OPTICS,
        ("sklearn.decomposition", "PCA"): PCA,
        ("sklearn.manifold", "TSNE"): TSNE,
        ("sklearn.manifold", "Isomap"): Isomap,
        ("sklearn.manifold", "LocallyLinearEmbedding"): LocallyLinearEmbedding,
        ("sklearn.svm", "SVC"): SVC,
        ("sklearn.tree", "DecisionTreeClassifier"): DecisionTreeClassifier,
        ("sklearn.linear_model", "LogisticRegression"): LogisticRegression,
        ("sklearn.linear_model", "LinearRegression"): LinearRegression,
        ("sklearn.discriminant_analysis", "LinearDiscriminantAnalysis"): LinearDiscriminantAnalysis,
        ("sklearn.discriminant_analysis", "QuadraticDiscriminantAnalysis"): QuadraticDiscriminantAnalysis,
        ("sklearn.ensemble", "RandomForestClassifier"): RandomForestClassifier,
        ("sklearn.ensemble", "IsolationForest"): IsolationForest,
        ("sklearn.naive_bayes", "GaussianNB"): GaussianNB,
        ("sklearn.neural_network", "MLPClassifier"): MLPClassifier,
        ("sklearn.mixture", "GaussianMixture"): GaussianMixture,
        ("sklearn.model_selection", "KFold"): KFold,
        ("sklearn.model_selection", "StratifiedKFold"): StratifiedKFold,
        ("sklearn.model_selection", "RepeatedStratifiedKFold"): RepeatedStratifiedKFold,
        ("sklearn.model_selection", "train_test_split"): _shuffled_split,
        ("sklearn.model_selection", "cross_val_score"): cross_val_score,
        ("minisom", "MiniSom"): MiniSom,
        ("scipy.linalg", "circulant"): _wrapfn(_sl.circulant, _circulant),
        ("scipy.stats", "skew"): _wrapfn(_st.skew, _skew),
        ("scipy.stats", "rankdata"): _wrapfn(_st.rankdata, _rankdata),
        ("scipy.stats.mstats", "gmean"): _wrapfn(_mst.gmean, _gmean),
        ("scipy.special", "expit"): _wrapfn(_ssp.expit, _expit),
        ("scipy.signal", "find_peaks"): _wrapfn(_ssig.find_peaks, _find_peaks),
        ("scipy.signal", "find_peaks_cwt"): _wrapfn(_ssig.find_peaks_cwt, lambda x, *a, **k: _find_peaks(x)[0]),
        ("scipy.optimize", "linear_sum_assignment"): _wrapfn(_sopt.linear_sum_assignment, _lsa),
    }
    return t
