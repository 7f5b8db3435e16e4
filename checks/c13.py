"""C13: with a metric tensor, distances and neighbours are those of the metric, in any memory chunks"""
import itertools

import numpy as np

from harness import fcheck as F
from harness.common import num, values
from symx import core, snp
from symx.core import S, z3
from symx.snp import wrap

ID = "C13"
T1 = {"id": [[1.0]], "w": [[2.5]]}
T2 = {"id": [[1.0, 0.0], [0.0, 1.0]], "full": [[2.0, 0.5], [0.5, 1.0]], "diag": [[0.25, 0.0], [0.0, 3.0]]}
T3 = {"full3": [[2.0, 0.5, -0.25], [0.5, 1.0, 0.125], [-0.25, 0.125, 1.5]]}
TENSORS = {**T1, **T2, **T3, "id1": [[1.0]]}
TENSORS["id2"] = T2["id"]


def form(x, y, T):
    """(x-y)' T (x-y)"""
    d = [a - b for a, b in zip(x, y)]
    tot = 0.0
    for i in range(len(d)):
        for j in range(len(d)):
            if isinstance(T[i][j], S) or T[i][j] != 0:
                tot = tot + d[i] * d[j] * T[i][j]
    return tot


class chunk:
    """the global memory limit of the distance computation, restored afterwards"""

    def __init__(self, mod, v):
        self.f, self.v = mod.config.distance_matrix_max_memory_chunk, v

    def __enter__(self):
        self.old = self.f()
        if self.v:
            self.f(self.v)

    def __exit__(self, *a):
        self.f(self.old)


def tol_of(*arrs):
    m = 1.0
    for a in arrs:
        for v in np.asarray(a, dtype=object).ravel():
            if not isinstance(v, S):
                m = max(m, abs(float(v)))
    return 1e-7 * m * m


def eq2(d, q, tol):
    """d is the root of q"""
    if core.nonfinite(d):
        return False
    return F.conj([F.near(d * d, q, tol), F.le(0.0, d)])


# -- distance matrices ---------------------------------------------------------------


def dist_goals(mod, cfg, X, Y, T):
    P = mod.base._metrictensor
    t = None if cfg["tensor"] is None else T
    Tq = np.eye(X.shape[1]).tolist() if t is None else t.view(np.ndarray) if hasattr(t, "view") else t
    tol = 0.0 if cfg.get("sym") else tol_of(X, Y, Tq)
    with chunk(mod, cfg.get("chunk")):
        if cfg["fn"] == "pairs":
            D = P.pairwise_distances_mahalanobis(X, Y=None if cfg["Y"] == 0 else Y, tensor=t)
        else:
            D = P.distances_mahalanobis(X, Y, tensor=t)
    Yq = X if cfg["fn"] == "pairs" and cfg["Y"] == 0 else Y
    D, Xv, Yv = wrap(D).view(np.ndarray), np.asarray(X).view(np.ndarray), np.asarray(Yq).view(np.ndarray)
    if cfg["fn"] == "pairs":
        if D.shape != (len(Xv), len(Yv)):
            return [("one distance per pair", False)]
        return [(f"distance {i},{j}", eq2(D[i, j], form(Xv[i], Yv[j], Tq), tol)) for i in range(len(Xv)) for j in range(len(Yv))]
    if D.shape != (len(Xv),):
        return [("one distance per row", False)]
    return [(f"distance {i}", eq2(D[i], form(Xv[i], Yv[i], Tq), tol)) for i in range(len(Xv))]


def sym_tensor(c, cfg, d):
    if cfg["tensor"] == "symbolic":
        t = np.empty((d, d), dtype=object)
        for i in range(d):
            for j in range(d):
                t[i, j] = F.real(c, f"w{i}", 1.5, 10.0) if i == j else np.float64(0.0)
        return wrap(t)
    if cfg["tensor"] in ("any+", "any-"):
        # diagonally dominant, never close to the identity
        t = np.empty((d, d), dtype=object)
        for i in range(d):
            t[i, i] = F.real(c, f"w{i}", 0.5, 4.0)
            for j in range(i):
                lo, hi = (0.01, 0.25) if cfg["tensor"] == "any+" else (-0.25, -0.01)
                t[i, j] = t[j, i] = F.real(c, f"o{i}{j}", lo, hi)
        return wrap(t)
    return None if cfg["tensor"] is None else wrap(np.array(TENSORS[cfg["tensor"]]))


def points(c, cfg, name, shape, seed):
    """any points, or fixed ones where the tensor is any"""
    if str(cfg["tensor"]).startswith("any"):
        return wrap(np.random.RandomState(seed).randint(-12, 13, shape) / 4.0)  # exact in floats
    return F.reals(c, name, shape, -100.0, 100.0)


def dist_unit(cfg, quick):
    d = cfg["d"]

    def body(env, c):
        X = points(c, cfg, "x", (cfg["n"], d), 1)
        Y = points(c, cfg, "y", (max(cfg["Y"], 1), d), 2)
        T = sym_tensor(c, cfg, d)

        def cases(m):
            if m is not None:
                yield {"kind": "dist", "cfg": cfg, "X": values(m, X), "Y": values(m, Y), "T": None if T is None else values(m, T)}
            yield rand_case("dist", cfg, X, Y, T)

        c.tags["cases"] = cases
        return dist_goals(env.sym, dict(cfg, sym=True), X, Y, T)

    nm = "dist:" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=20, bounds=f"{cfg['n']}x{max(cfg['Y'], 1)} points in {d} dimensions, any values, limit {cfg.get('chunk')}")


def rand_case(kind, cfg, X, Y, T, **k):
    r = np.random.RandomState(1)
    tv = None
    if T is not None:
        tv = [[float(v) if not isinstance(v, S) else 0.5 + i for v in row] for i, row in enumerate(T.view(np.ndarray))]
        if str(cfg["tensor"]).startswith("any"):
            o = 0.2 if cfg["tensor"] == "any+" else -0.2
            tv = [[1.0 if i == j else o for j in range(len(tv))] for i in range(len(tv))]
    return {"kind": kind, "cfg": cfg, "X": np.round(r.uniform(-5, 5, X.shape), 2).tolist(), "Y": np.round(r.uniform(-5, 5, Y.shape), 2).tolist(), "T": tv, **k}


def arrays(case):
    T = case["T"]
    return np.array(case["X"], dtype=float), np.array(case["Y"], dtype=float), None if T is None else np.array(T, dtype=float)


def real_dist(sv, case):
    X, Y, T = arrays(case)
    bad = [k for k, v in dist_goals(sv, case["cfg"], X, Y, T) if not bool(v)]
    return [("dist", f"{case['cfg']}: {bad[:3]} wrong for X={X.tolist()} Y={Y.tolist()}")] if bad else []


# -- neighbours ------------------------------------------------------------------------


def nn_goals(mod, cfg, Q, X, T, radius=None):
    """Q: query points, X: fitted points"""
    tol = 0.0 if cfg.get("sym") else tol_of(Q, X, T)
    kw = {"radius": radius} if cfg.get("own") else {}
    o = mod.base.NearestNeighborsWithMetricTensor(n_neighbors=cfg["k"], metric="precomputed", metric_tensor=T, **kw)
    with chunk(mod, cfg.get("chunk")):
        o.fit(X)
        if cfg["fn"] == "kneighbors":
            r = o.kneighbors(Q, cfg.get("ask"), True)
        else:
            r = o.radius_neighbors(Q) if kw else o.radius_neighbors(Q, radius, True)
    k = cfg.get("ask") or cfg["k"]
    D, I = r
    Qv, Xv = np.asarray(Q).view(np.ndarray), np.asarray(X).view(np.ndarray)
    Tq = np.asarray(T).view(np.ndarray)
    n = len(Xv)
    q = [[form(a, b, Tq) for b in Xv] for a in Qv]
    g = []
    if len(I) != len(Qv) or len(D) != len(Qv):
        return [("one row per query", False)]
    for i in range(len(Qv)):
        ii, dd = [int(v) for v in wrap(I[i]).view(np.ndarray).ravel()], list(wrap(D[i]).view(np.ndarray).ravel())
        if len(set(ii)) != len(ii) or len(dd) != len(ii) or any(v < 0 or v >= n for v in ii):
            return g + [(f"distinct neighbours in row {i}", False)]
        g += [(f"distance of neighbour {j} of {i}", eq2(dd[a], q[i][j], tol)) for a, j in enumerate(ii)]
        if cfg["fn"] == "kneighbors":
            g.append((f"{k} neighbours", len(ii) == min(k, n)))
            g += [(f"order in row {i}", F.le(q[i][a], q[i][b], tol)) for a, b in zip(ii, ii[1:])]
            g += [(f"nothing nearer left out in row {i}", F.le(q[i][ii[-1]], q[i][j], tol)) for j in range(n) if ii and j not in ii]
        else:
            r2 = radius * radius
            for j in range(n):
                if j in ii:
                    g.append((f"{j} within the radius of {i}", F.le(q[i][j], r2, tol)))
                else:
                    lt = r2 - tol < q[i][j] if tol else r2 < q[i][j]
                    g.append((f"{j} outside the radius of {i}", lt.e if isinstance(lt, S) else bool(lt)))
    return g


def nn_unit(cfg, quick):
    d = cfg["d"]

    def body(env, c):
        Q = points(c, cfg, "q", (cfg["m"], d), 3)
        X = points(c, cfg, "x", (cfg["n"], d), 4)
        T = sym_tensor(c, cfg, d)
        rad = F.real(c, "radius", 0.0, 50.0) if cfg["fn"] == "radius" else None

        def cases(m):
            if m is not None:
                yield {"kind": "nn", "cfg": cfg, "X": values(m, Q), "Y": values(m, X), "T": values(m, T), "radius": None if rad is None else num(m, rad.e)}
            yield rand_case("nn", cfg, Q, X, T, radius=None if rad is None else 4.0)

        c.tags["cases"] = cases
        return nn_goals(env.sym, dict(cfg, sym=True), Q, X, T, rad)

    nm = "nn:" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=30 if quick else 400, bounds=f"{cfg['m']} queries, {cfg['n']} points in {d} dimensions, any values")


def real_nn(sv, case):
    Q, X, T = arrays(case)
    bad = [k for k, v in nn_goals(sv, case["cfg"], Q, X, T, case.get("radius")) if not bool(v)]
    return [("nn", f"{case['cfg']}: not {bad[:3]} for queries {Q.tolist()} points {X.tolist()}")] if bad else []


# -- dissimilarity implied by a classifier -----------------------------------------------


class Leaves:
    """a fitted forest whose leaves are the ones given"""

    def __init__(self, *tables):
        self.t = list(tables)

    def apply(self, X):
        return self.t.pop(0)


def cid_goals(mod, A, B):
    o = mod.base.ClassifierImpliedDissimilarityMatrix()
    o.classifier_obj = Leaves(A, B)
    M = wrap(o.dissimilarity_matrix(A)).view(np.ndarray)
    N = wrap(o.transform_kneighbors(B)).view(np.ndarray)
    Av, Bv = np.asarray(A).view(np.ndarray), np.asarray(B).view(np.ndarray)
    t = Av.shape[1]

    def diff(a, b):
        tot = 0
        for x, y in zip(a, b):
            e = x != y
            tot = tot + (S(z3.If(e.e, z3.RealVal(1), z3.RealVal(0)), True) if isinstance(e, S) else 1.0 * bool(e))
        return tot

    if M.shape != (len(Av), len(Av)) or N.shape != (len(Bv), len(Av)):
        return [("one entry per pair", False)]
    g = [(f"dissimilarity {i},{j}", F.near(M[i, j] * t, diff(Av[i], Av[j]), 1e-9)) for i in range(len(Av)) for j in range(len(Av))]
    return g + [(f"dissimilarity to fitted {i},{j}", F.near(N[i, j] * t, diff(Bv[i], Av[j]), 1e-9)) for i in range(len(Bv)) for j in range(len(Av))]


def cid_unit(n, m, t, quick):
    def body(env, c):
        A = wrap(np.array([[F.integer(c, f"a{i}_{j}", 0, 3) for j in range(t)] for i in range(n)], dtype=object))
        B = wrap(np.array([[F.integer(c, f"b{i}_{j}", 0, 3) for j in range(t)] for i in range(m)], dtype=object))

        def cases(mo):
            if mo is not None:
                yield {"kind": "cid", "A": [[int(num(mo, v.e)) for v in r] for r in A.view(np.ndarray)], "B": [[int(num(mo, v.e)) for v in r] for r in B.view(np.ndarray)]}
            r = np.random.RandomState(2)
            yield {"kind": "cid", "A": r.randint(0, 3, (n, t)).tolist(), "B": r.randint(0, 3, (m, t)).tolist()}

        c.tags["cases"] = cases
        return cid_goals(env.sym, A, B)

    return F.unit(f"leaves:{n},{m},{t}", body, replay, quick=quick, max_paths=40 if quick else 400, bounds=f"{n} fitted and {m} further samples, {t} trees, any leaves")


def real_cid(sv, case):
    bad = [k for k, v in cid_goals(sv, np.array(case["A"]), np.array(case["B"])) if not bool(v)]
    return [("leaves", f"{bad[:3]} wrong for leaves {case['A']} and {case['B']}")] if bad else []


# -- border points ---------------------------------------------------------------------------


def border_goals(mod, cfg, X):
    y = np.array(cfg["lab"])
    n, k = len(y), cfg["k"]
    Xv = np.asarray(X).view(np.ndarray).copy()
    Xo, yo = mod.base.ClosestNeighborsInClasses(n_neighbors=k).fit_transform(X, wrap(y.copy()) if cfg.get("sym") else y.copy())
    Xo, yo = wrap(Xo).view(np.ndarray), [int(v) for v in wrap(yo).view(np.ndarray)]
    g = [("as many labels as points", len(Xo) == len(yo))]
    if len(Xo) != len(yo):
        return g
    at = {key(r): i for i, r in enumerate(Xv)}
    kept = [at.get(key(r)) for r in Xo]
    if None in kept or len(set(kept)) != len(kept):
        return g + [("samples, each once", False)]
    g.append(("each with its label", all(int(y[i]) == v for i, v in zip(kept, yo))))
    q = [[sum((a - b) * (a - b) for a, b in zip(Xv[i], Xv[j])) for j in range(n)] for i in range(n)]
    for i in range(n):
        others = [j for j in range(n) if j != i]
        opts = []
        for nb in itertools.combinations(others, min(k - 1, n - 1)):
            if any(y[j] != y[i] for j in nb) == (i in kept):
                opts.append(F.conj([F.le(q[i][a], q[i][b]) for a in nb for b in others if b not in nb]))
        g.append((f"sample {i} {'is' if i in kept else 'is not'} next to the other class", F.disj(opts)))
    return g


def key(r):
    return tuple(v.e.get_id() if isinstance(v, S) else float(v) for v in r)


def border_unit(lab, k, d, quick):
    cfg = {"lab": lab, "k": k}

    def body(env, c):
        X = F.reals(c, "x", (len(lab), d), -50.0, 50.0)
        c.tags["cases"] = lambda m: iter([{"kind": "border", "cfg": cfg, "X": values(m, X)}] if m is not None else [])
        c.add(z3.And([z3.Or([a.e != b.e for a, b in zip(X.view(np.ndarray)[i], X.view(np.ndarray)[j])]) for i in range(len(lab)) for j in range(i)]))
        return border_goals(env.sym, dict(cfg, sym=True), X)

    return F.unit(f"border:{lab},{k},{d}", body, replay, quick=quick, max_paths=30 if quick else 1000, bounds=f"classes {lab}, {k} neighbours, {d} features, any distinct points")


def real_border(sv, case):
    X = np.array(case["X"], dtype=float)
    if len(np.unique(X, axis=0)) != len(X):
        return []
    bad = [k for k, v in border_goals(sv, case["cfg"], X) if not bool(v)]
    return [("border", f"{case['cfg']}: not {bad[:3]} for {X.tolist()}")] if bad else []


def replay(sv, case):
    return {"border": real_border, "dist": real_dist, "nn": real_nn, "cid": real_cid}[case["kind"]](sv, case)


def units(env, quick):
    us = []
    for n, Y, d, t in [(3, 2, 2, "full"), (3, 0, 2, "symbolic"), (4, 3, 1, "w"), (2, 2, 3, "full3"), (3, 2, 2, None), (3, 2, 2, "id2"), (5, 2, 2, "diag"),
                       (3, 2, 2, "any+"), (3, 2, 3, "any-"), (3, 0, 2, "any+")]:
        for ch in (None, 1, 7, 13):
            us.append(dist_unit({"fn": "pairs", "n": n, "Y": Y, "d": d, "tensor": t, "chunk": ch}, quick))
    for n, d, t in [(3, 2, "full"), (2, 3, "full3"), (3, 2, None), (3, 1, "w"), (2, 2, "symbolic"), (3, 3, "any-"), (2, 2, "any+")]:
        us.append(dist_unit({"fn": "rows", "n": n, "Y": n, "d": d, "tensor": t}, quick))
    for m, n, d, t, k, ask, ch in [(2, 3, 1, "w", 2, None, None), (1, 4, 2, "full", 3, None, None), (2, 3, 2, "diag", 2, None, 5), (1, 3, 1, "symbolic", 3, 2, None),
                                   (2, 4, 1, "id1", 3, 1, 1), (1, 4, 1, "w", 2, 4, None), (1, 3, 3, "full3", 2, None, None),
                                   (2, 4, 2, "any+", 3, None, None), (2, 5, 3, "any-", 2, None, 11)]:
        us.append(nn_unit({"fn": "kneighbors", "m": m, "n": n, "d": d, "tensor": t, "k": k, "ask": ask, "chunk": ch}, quick))
    for m, n, d, t, ch in [(2, 2, 1, "w", None), (1, 4, 2, "full", None), (2, 3, 1, "id1", 2), (1, 3, 2, "diag", 4)]:
        us.append(nn_unit({"fn": "radius", "m": m, "n": n, "d": d, "tensor": t, "k": 3, "chunk": ch}, quick))
    us.append(nn_unit({"fn": "radius", "m": 1, "n": 3, "d": 1, "tensor": "w", "k": 3, "own": True}, quick))
    us += [cid_unit(3, 2, 2, quick), cid_unit(2, 3, 3, quick), cid_unit(2, 1, 1, quick)]
    us += [border_unit([0, 0, 1, 1], 2, 1, quick), border_unit([0, 1, 0, 1, 0], 2, 1, quick), border_unit([1, 0, 0, 0], 3, 1, quick), border_unit([0, 0, 1], 2, 2, quick)]
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
