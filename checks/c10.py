"""C10: noise filters remove exactly the samples their rule names"""
import itertools

import numpy as np

from harness import fcheck as F
from harness.common import num
from symx import core, stubs
from symx.core import S, z3

ID = "C10"
LABELS = {
    "a": [1, 0, 0, 1, 0], "b": [0, 0, 1, 1, 1], "c": [-3, 7, 7, 7, -3], "d": [2, 2, 2, 2, 1], "e": [1, 0, 0, 1, 0, 0], "f": [1, 0, 1, 0],
    "g": [5, 3, 3], "h": [3, 5], "i": [0, 1, 1, 1, 0, 1, 1], "j": [4, 4, 4, 2, 2, 2],
}
FILTERS = {
    "tomek_maj": ("TomekLinkRemoval", {}, "a c d e f g i j"),
    "tomek_both": ("TomekLinkRemoval", {"strategy": "remove_both"}, "a c e f g j"),
    "enn_both": ("EditedNearestNeighbors", {}, "a c d f g j"),
    "enn_min": ("EditedNearestNeighbors", {"remove": "min"}, "a c e h j"),
    "enn_maj": ("EditedNearestNeighbors", {"remove": "maj"}, "a b e f"),
    "ncr": ("NeighborhoodCleaningRule", {}, "a b c d e f"),
    "cnn": ("CondensedNearestNeighbors", {}, "a c d e f g h i j"),
    "oss": ("OneSidedSelection", {}, "a c e f i"),
    "cnntomek": ("CNNTomekLinks", {}, "a c e f i"),
}


# the oracles; d(i, j) is a distance (symbolic or not), lt an exact comparison, And/Or/Not work for both


class Ops:
    """boolean connectives that work on bools and z3 terms"""

    @staticmethod
    def lt(a, b):
        r = a < b
        return r.e if isinstance(r, S) else bool(r)

    conj = staticmethod(F.conj)
    disj = staticmethod(F.disj)

    @staticmethod
    def neg(a):
        return (not a) if isinstance(a, (bool, np.bool_)) else z3.Not(a)

    @staticmethod
    def iff(a, b):
        """b is a bool"""
        return a if b else Ops.neg(a)


def nearest_is(d, i, j, pool):
    return Ops.conj(Ops.lt(d[i][j], d[i][k]) for k in pool if k not in (i, j))


def majority_is(d, y, i, lab, pool, k=3):
    """most of the k nearest neighbours of i carry lab (k odd, two classes)"""
    others = [j for j in pool if j != i]
    opts = []
    for nb in itertools.combinations(others, min(k, len(others))):
        if 2 * sum(1 for j in nb if y[j] == lab) > k:
            rest = [j for j in others if j not in nb]
            opts.append(Ops.conj(Ops.lt(d[i][a], d[i][b]) for a in nb for b in rest))
    return Ops.disj(opts)


def among(d, i, j, pool, k=3):
    """j is one of the k nearest neighbours of i"""
    others = [a for a in pool if a not in (i, j)]
    opts = []
    for near in itertools.combinations(others, min(k - 1, len(others))):
        rest = [b for b in others if b not in near]
        opts.append(Ops.conj(Ops.lt(d[i][j], d[i][b]) for b in rest))
    return Ops.disj(opts)


def minorities(y):
    """the labels that may count as the minority: both when the classes are equally large"""
    lab, cnt = np.unique(y, return_counts=True)
    return [v for v, k in zip(lab, cnt) if k == min(cnt)]


def goals_for(flt, d, y, kept, mid=None):
    """what has to hold of the indices kept"""
    first = y if mid is None else [y[i] for i in sorted(mid)]
    if len(set(first)) == 1:
        return [("everything kept once a class is gone", sorted(kept) == sorted(mid))]
    opts = [goals_as(flt, d, y, kept, mid, mn) for mn in minorities(first)]
    if len(opts) == 1:
        return opts[0]
    return [("the rule, for either class as the minority", Ops.disj(Ops.conj(g for _, g in o) for o in opts))]


def tomek_removed(d, y, pool, strategy, mn):
    out = {}
    for i in pool:
        lk = [Ops.conj([nearest_is(d, i, j, pool), nearest_is(d, j, i, pool)]) for j in pool if y[j] != y[i]]
        out[i] = Ops.disj(lk) if strategy == "remove_both" or y[i] != mn else False
    return out


def goals_as(flt, d, y, kept, mid, mn):
    cls, par, _ = FILTERS[flt]
    n = len(y)
    pool = list(range(n))
    mj = [v for v in set(y) if v != mn][0]
    ks = set(kept)
    g = []
    if cls == "TomekLinkRemoval":
        rem = tomek_removed(d, y, pool, par.get("strategy"), mn)
    elif cls == "EditedNearestNeighbors":
        if n < 4:
            rem = {i: False for i in pool}
        else:
            r = par.get("remove", "both")
            rem = {i: majority_is(d, y, i, mj if y[i] == mn else mn, pool) if r == "both" or (r == "min") == (y[i] == mn) else False for i in pool}
    elif cls == "NeighborhoodCleaningRule":
        wrong = {i: majority_is(d, y, i, mj if y[i] == mn else mn, pool) for i in pool}
        rem = {}
        for i in pool:
            if y[i] == mn:
                rem[i] = False
            else:
                rem[i] = Ops.disj([wrong[i]] + [Ops.conj([wrong[m], among(d, m, i, pool)]) for m in pool if y[m] == mn])
    elif cls == "CNNTomekLinks":
        mk = sorted(mid)
        r = tomek_removed(d, {i: y[i] for i in mk}, mk, None, mn)
        rem = {i: True if i not in r else r[i] for i in pool}
    else:
        rem = None
    if rem is not None:
        for i in pool:
            g.append((f"sample {i} {'kept' if i in ks else 'removed'} by the rule", Ops.iff(rem[i], i not in ks)))
        return g
    # condensation, on the samples that survive the first step
    if cls == "OneSidedSelection":
        first = sorted(mid)
        g += [(f"sample {i} kept by the first step", i in set(first)) for i in kept]
    else:
        first = pool
    mins = [i for i in first if y[i] == mn]
    majs = [i for i in first if y[i] != mn]
    g += [(f"minority sample {i} kept", i in ks) for i in mins]
    g.append(("a majority sample kept", any(i in ks for i in majs)))
    for i in majs:
        if i not in ks:
            ok = Ops.disj(Ops.conj(Ops.lt(d[i][j], d[i][k]) for k in kept if k != j) for j in kept if y[j] != mn)
            g.append((f"removed sample {i} classified correctly by the samples kept", ok))
    km = [i for i in majs if i in ks]
    g.append(("nothing kept without need", Ops.disj(
        Ops.conj(Ops.disj(Ops.lt(d[i][j], d[i][s]) for j in mins) for i in km if i != s) for s in km)))
    return g


# -- symbolic run ----------------------------------------------------------------


def dists(c, X):
    n = len(X)
    d = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            d[i][j] = d[j][i] = stubs.pair_distance(X[i], X[j])
    return d


def locate(Xo, X):
    """index of every row of Xo in X, None where it is no row of X"""
    keys = {stubs.rowkey(r): i for i, r in enumerate(X)}
    return [keys.get(stubs.rowkey(r)) for r in Xo]


def body_of(flt, lab):
    cls, par, _ = FILTERS[flt]
    y0 = np.array(LABELS[lab])
    n = len(y0)

    def body(env, c):
        from symx.snp import wrap

        c.tags["exact"] = True
        X = F.reals(c, "x", (n, 2))
        y = wrap(y0.copy())
        d = dists(c, X)
        X0 = X.copy()

        def cases(m):
            if m is not None:
                yield {"filter": flt, "labels": lab, "d": [[num(m, v.e) if isinstance(v, S) else 0.0 for v in r] for r in d]}

        c.tags["cases"] = cases
        f = getattr(env.sym.noise_removal, cls)(**par)
        Xo, yo = f.remove_noise(X, y)
        Xo, yo = wrap(Xo), wrap(yo)
        mid = None
        if cls in ("OneSidedSelection", "CNNTomekLinks"):
            g = env.sym.noise_removal.TomekLinkRemoval() if cls == "OneSidedSelection" else env.sym.noise_removal.CondensedNearestNeighbors()
            mid = locate(wrap(g.remove_noise(X0.copy(), wrap(y0.copy()))[0]), X0)
            if None in mid:
                return [("the first step returns samples", False)]
        return shape_goals(locate(Xo, X0), [int(v) for v in yo], y0, locate(X, X0) == list(range(n)) and [int(v) for v in y] == list(y0)) or \
            goals_for(flt, d, y0, locate(Xo, X0), mid)

    return body


def shape_goals(kept, yo, y0, same):
    """goals that failed outright"""
    g = []
    if None in kept:
        g.append(("every sample returned is one of those passed in", False))
    if len(set(kept)) != len(kept):
        g.append(("no sample is returned twice", False))
    if len(yo) != len(kept) or any(k is not None and int(y0[k]) != v for k, v in zip(kept, yo)):
        g.append(("every sample keeps its label", False))
    if not same:
        g.append(("the arrays passed in are left alone", False))
    return g


# -- replay on the real code -------------------------------------------------------


def embed(d):
    """points in Euclidean space whose distances are ordered like d"""
    n = len(d)
    vals = sorted({d[i][j] for i in range(n) for j in range(i)})
    r = {v: k + 1 for k, v in enumerate(vals)}
    D2 = np.array([[0.0 if i == j else (1.0 + 0.3 / n * r[d[i][j]] / len(vals)) ** 2 for j in range(n)] for i in range(n)])
    J = np.eye(n) - 1.0 / n
    w, v = np.linalg.eigh(-0.5 * J @ D2 @ J)
    return v * np.sqrt(np.maximum(w, 0.0)) * 10


def replay(sv, case):
    y0 = np.array(LABELS[case["labels"]])
    X0 = embed(case["d"])
    d = np.linalg.norm(X0[:, None] - X0[None], axis=2).tolist()
    cls, par, _ = FILTERS[case["filter"]]
    X, y = X0.copy(), y0.copy()
    try:
        Xo, yo = getattr(sv.noise_removal, cls)(**par).remove_noise(X, y)
    except Exception as e:  # noqa: BLE001
        return [(f"{case['filter']}:raises", f"{case['filter']} labels={y0.tolist()}: raised {F.blame(e)}")]

    def loc(A):
        out = []
        for r in np.asarray(A):
            h = np.where(np.all(X0 == r, axis=1))[0]
            out.append(int(h[0]) if len(h) else None)
        return out

    kept = loc(Xo)
    mid = None
    if cls == "OneSidedSelection":
        mid = loc(sv.noise_removal.TomekLinkRemoval().remove_noise(X0.copy(), y0.copy())[0])
    elif cls == "CNNTomekLinks":
        mid = loc(sv.noise_removal.CondensedNearestNeighbors().remove_noise(X0.copy(), y0.copy())[0])
    g = shape_goals(kept, [int(v) for v in yo], y0, np.array_equal(X, X0) and np.array_equal(y, y0)) or goals_for(case["filter"], d, y0, kept, mid)
    bad = [k for k, v in g if not bool(v)]
    return [(f"{case['filter']}", f"{case['filter']} labels={y0.tolist()}: not {bad}, kept {kept}")] if bad else []


def main(tier, t0):
    def units(env, quick):
        us = []
        for flt, (_, _, labs) in FILTERS.items():
            for lab in labs.split():
                us.append(F.unit(f"{flt}:{lab}", body_of(flt, lab), replay, quick=quick, max_paths=80 if quick else 2000,
                                 bounds=f"{len(LABELS[lab])} samples labelled {LABELS[lab]}, every order of their pairwise distances"))
        return us

    return F.run(ID, tier, t0, units, assumptions=["pairwise distances are distinct", "sizes are the bounds named with each unit",
                                                    "sklearn's NearestNeighbors and 1-NN classifier are exact"])
