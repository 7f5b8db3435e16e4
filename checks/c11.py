"""C11: multiclass oversampling brings every class to the size of the largest, from its own samples"""
import numpy as np

from harness import fcheck as F
from harness.common import num, values
from symx import core, stubs
from symx.core import S, z3

ID = "C11"
STRATEGIES = ("eq_1_vs_many_successive", "equalize_1_vs_many")
# class sizes in order of the labels, and the labels
DATA = {
    "plain": ([5, 3, 2], [0, 1, 2]),
    "odd": ([3, 6, 4], [10, -1, 4]),
    "tie": ([4, 4, 3], [2, 0, 7]),
    "ties": ([3, 5, 3], [1, 2, 3]),
    "equal": ([3, 3, 3], [1, 0, 2]),
    "two": ([5, 3], [3, 1]),
    "four": ([6, 3, 4, 3], [0, 5, 2, 9]),
    "four_tie": ([3, 4, 4, 3], [8, 5, 2, 9]),
    "big": ([9, 3, 4], [0, 1, 2]),
    "one": ([5, 3, 1], [0, 1, 2]),
}
INSIDE = {"SMOTE", "distance_SMOTE"}  # their samples lie between samples of the class


def ylabels(dat, inter):
    sizes, labs = DATA[dat]
    y = [l for l, k in zip(labs, sizes) for _ in range(k)]
    if inter:
        y = [y[i] for i in np.random.RandomState(5).permutation(len(y))]
    return np.array(y)


def make_X(dat, y, d, seed=0):
    r = np.random.RandomState(seed)
    c = {l: 4.0 * i for i, l in enumerate(sorted(set(y.tolist())))}
    return np.round(np.array([c[v] + r.uniform(-3, 3, d) for v in y.tolist()]), 2)


def obj(mod, cfg):
    return mod.MulticlassOversampling(cfg["ov"], {"random_state": 5, **cfg.get("par", {})}, cfg["strategy"])


def goals(cfg, X, y, Xs, ys, same):
    """same(a, b): exact equality of two values as a goal"""
    n = len(y)
    lab, cnt = np.unique(y, return_counts=True)
    g = [("as many labels as samples", len(Xs) == len(ys))]
    if len(ys) < n or len(Xs) != len(ys):
        return g + [("the originals are there", False)]
    g.append(("the labels begin with the originals", [int(v) for v in ys[:n]] == y.tolist()))
    g += [(f"original {i} comes back", F.conj(same(Xs[i][j], X[i][j]) for j in range(X.shape[1]))) for i in range(n)]
    got = [int(v) for v in ys]
    for v, k in zip(lab, cnt):
        want = max(cnt) if k >= 3 else None
        if want is not None:
            g.append((f"class {v} has the size of the largest", got.count(int(v)) == want))
        else:
            g.append((f"class {v} is not above the largest", k <= got.count(int(v)) <= max(cnt)))
    g.append(("no other label", set(got) <= {int(v) for v in lab}))
    if cfg["ov"] in INSIDE:
        for i in range(n, len(ys)):
            m = y == got[i]
            for j in range(X.shape[1]):
                col = X[m, j] if m.any() else None
                if col is None:
                    continue
                lo, hi = (min(col), max(col)) if not any(isinstance(v, S) for v in col) else (None, None)
                if lo is not None:
                    g.append((f"sample {i} within its class", F.conj([F.le(lo, Xs[i][j], 1e-7), F.le(Xs[i][j], hi, 1e-7)])))
    return g


def sample_unit(cfg, quick):
    y = ylabels(cfg["data"], cfg.get("mix"))
    X = make_X(cfg["data"], y, 2)

    def body(env, c):
        from symx.snp import wrap

        def cases(m):
            for s in range(6):
                yield {"kind": "sample", "cfg": cfg, "seed": s}

        c.tags["cases"] = cases
        r, e = F.raised(lambda: obj(env.sym, cfg).sample(wrap(X.copy()), wrap(y.copy())))
        if e is not None:
            return [(f"no exception ({type(e).__name__}: {e})", False)]
        Xs, ys = wrap(r[0]).view(np.ndarray), wrap(r[1]).view(np.ndarray)
        return goals(cfg, X, y, Xs, ys, lambda a, b: F.near(a, b, 0.0))

    nm = "sample:" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=12 if quick else 200,
                  bounds=f"class sizes {DATA[cfg['data']][0]}, labels {DATA[cfg['data']][1]}, every draw of the oversampler")


def real_sample(sv, case):
    cfg = case["cfg"]
    y = ylabels(cfg["data"], cfg.get("mix"))
    X = make_X(cfg["data"], y, 2, case["seed"])
    o = sv.MulticlassOversampling(cfg["ov"], {"random_state": case["seed"], **cfg.get("par", {})}, cfg["strategy"])
    try:
        Xs, ys = o.sample(X.copy(), y.copy())
    except Exception as e:  # noqa: BLE001
        return [("sample", f"multiclass {cfg}: raised {e!r}")]
    bad = [k for k, v in goals(cfg, X, y, Xs, ys, lambda a, b: bool(a == b)) if not bool(v)]
    return [("sample", f"multiclass {cfg}: not {bad[:4]}, classes {dict(zip(*[v.tolist() for v in np.unique(ys, return_counts=True)]))}")] if bad else []


# -- the proportions, for every class size, with float rounding --------------------


def missing(strategy, n, i):
    """(majority size, minority size, samples missing) of the i-th two-class problem"""
    if strategy == STRATEGIES[0]:
        return n[0] * i, n[i], n[0] - n[i]
    return sum(n) - n[i], n[i], n[0] - n[i]


def prop(mod, strategy, n, i):
    m = mod.multiclassoversampling._multiclassoversampling
    f = m.proportion_1_vs_many_succ if strategy == STRATEGIES[0] else m.proportion_1_vs_many
    return f({k: v for k, v in enumerate(n)}, list(range(len(n))), 0, i)


def prop_unit(strategy, k, i, top, quick):
    def body(env, c):
        c.tags["rounding"] = True
        n = [F.integer(c, f"n{j}", 3, top) for j in range(k)]
        for a, b in zip(n, n[1:]):
            c.add(a.e >= b.e)

        def cases(m):
            base = [int(num(m, v.e)) for v in n] if m is not None else [7] * k
            yield {"kind": "prop", "strategy": strategy, "n": base, "i": i}
            for t in range(400):
                r = np.random.RandomState(t)
                v = sorted((int(x) for x in r.randint(3, top + 1, k)), reverse=True)
                yield {"kind": "prop", "strategy": strategy, "n": v, "i": i}

        c.tags["cases"] = cases
        p = prop(env.sym, strategy, n, i)
        maj, mnr, miss = missing(strategy, n, i)
        got = (maj - mnr) * p  # truncated by det_n_to_sample (C02)
        lo = F.le(miss, got)
        hi = got < miss + 1
        return [("as many as are missing", F.conj([lo, hi.e if isinstance(hi, S) else bool(hi)]))]

    return F.unit(f"proportion:{strategy},classes={k},class={i}", body, replay, quick=quick, timeout_ms=8000 if quick else 60000, wall_s=30 if quick else 200,
                  bounds=f"{k} classes of 3 to {top} samples, every rounding of the quotient and the product")


def real_prop(sv, case):
    n, i = case["n"], case["i"]
    want = missing(case["strategy"], n, i)[2]
    maj, mnr, _ = missing(case["strategy"], n, i)
    got = sv.SMOTE().det_n_to_sample(prop(sv, case["strategy"], n, i), maj, mnr)
    if got == want:
        return []
    return [("proportion", f"{case['strategy']}: class sizes {n}: {got} samples for class {i}, {want} are missing")]


# -- any oversampler: any samples, generated for the class asked for -------------------

CALLS = []


def stub(mod, values):
    """installs VArb: adds as many samples as asked for, with any values"""
    it = iter(values)

    class VArb:
        def __init__(self, proportion=1.0, extra=False, random_state=None):
            self.proportion, self.extra = proportion, extra

        def sample(self, X, y):
            n0, n1 = int((y == 0).sum()), int((y == 1).sum())
            k = int(self.proportion * (n0 - n1)) if n1 >= 3 else 0
            d = X.shape[1]
            new = [[next(it) for _ in range(d)] for _ in range(k)]
            lab = [1] * k
            if self.extra and k:
                new, lab = new + [[next(it) for _ in range(d)]], lab + [0]
            CALLS.append((X.copy(), [int(v) for v in y], new, lab))
            rows = [list(r) for r in np.asarray(X).view(np.ndarray)] + new
            if hasattr(X, "_kind"):
                from symx.snp import wrap

                return wrap(np.array(rows, dtype=object)), wrap(np.array([int(v) for v in y] + lab))
            return np.array(rows, dtype=float), np.array([int(v) for v in y] + lab)

        def get_params(self, deep=False):
            return {"proportion": self.proportion, "extra": self.extra}

    mod.VArb = VArb


def arb_goals(mod, cfg, X, y, vals):
    stub(mod, vals)
    CALLS.clear()
    kX, ky = X.copy(), y.copy()
    o = mod.MulticlassOversampling("VArb", {"extra": bool(cfg.get("extra"))}, cfg["strategy"])
    r, e = F.raised(lambda: o.sample(X, y))
    if e is not None:
        return [(f"no exception ({type(e).__name__}: {e})", False)]
    Xs, ys = r
    rows = lambda A: [list(r) for r in np.asarray(A).view(np.ndarray)]  # noqa: E731
    same = lambda a, b: F.conj([F.near(u, v, 0.0) for u, v in zip(a, b)])  # noqa: E731
    O, R, lo, lab = rows(kX), rows(Xs), [int(v) for v in ky], [int(v) for v in ys]
    n = len(O)
    if len(R) != len(lab) or len(R) < n:
        return [("as many labels as samples, originals included", False)]
    g = [("the labels begin with the originals", lab[:n] == lo)]
    g += [(f"original {i} comes back", same(O[i], R[i])) for i in range(n)]
    g.append(("the data are left alone", F.conj([same(a, b) for a, b in zip(rows(X), O)] + [[int(v) for v in y] == lo])))
    top = max(lo.count(v) for v in lo)
    for v in sorted(set(lo)):
        k = lo.count(v)
        want = top if k >= 3 else k
        g.append((f"class {v} has {want} samples", lab.count(v) == want))
    g.append(("no other label", set(lab) <= set(lo)))
    for i in range(n, len(R)):
        mine = [r for r, v in zip(O, lo) if v == lab[i]]
        alt = []
        for Xt, yt, new, nl in CALLS:
            mnr = [r for r, v in zip(rows(Xt), yt) if v == 1]
            if len(mnr) == len(mine):
                own = F.conj([F.disj([same(a, b) for b in mnr]) for a in mine])
                alt.append(F.conj([own, F.disj([same(R[i], r) for r, v in zip(new, nl) if v == 1])]))
        g.append((f"sample {i} was generated for its class", F.disj(alt)))
    return g


def arb_unit(cfg, quick):
    y0 = ylabels(cfg["data"], cfg.get("mix"))
    d = cfg.get("d", 1)
    top = max(DATA[cfg["data"]][0])
    need = d * (sum(top for _ in DATA[cfg["data"]][0]) + 4)

    def body(env, c):
        from symx.snp import wrap

        X = F.reals(c, "x", (len(y0), d), -100.0, 100.0)
        vals = list(F.reals(c, "g", need, -100.0, 100.0).view(np.ndarray))

        def cases(m):
            if m is not None:
                yield {"kind": "arb", "cfg": cfg, "X": values(m, X), "vals": [num(m, v.e) for v in vals]}
            r = np.random.RandomState(1)
            yield {"kind": "arb", "cfg": cfg, "X": r.uniform(-9, 9, (len(y0), d)).tolist(), "vals": r.uniform(-9, 9, need).tolist()}

        c.tags["cases"] = cases
        return arb_goals(env.sym, cfg, X, wrap(y0.copy()), vals)

    nm = "any:" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=40 if quick else 400,
                  bounds=f"class sizes {DATA[cfg['data']][0]}, any features, any samples generated by the oversampler")


def real_arb(sv, case):
    cfg = case["cfg"]
    y = ylabels(cfg["data"], cfg.get("mix"))
    bad = [k for k, v in arb_goals(sv, cfg, np.array(case["X"], dtype=float), y, case["vals"]) if not bool(v)]
    return [("any", f"multiclass {cfg}: not {bad[:4]} for X={case['X']}")] if bad else []


def replay(sv, case):
    return {"sample": real_sample, "prop": real_prop, "arb": real_arb}[case["kind"]](sv, case)


def configs(quick):
    out = []
    for st in STRATEGIES:
        for dat in DATA:
            out.append({"strategy": st, "data": dat, "ov": "SMOTE"})
        out.append({"strategy": st, "data": "odd", "ov": "distance_SMOTE"})
        out.append({"strategy": st, "data": "four", "ov": "distance_SMOTE", "mix": True})
        out.append({"strategy": st, "data": "ties", "ov": "SMOTE", "mix": True})
        out.append({"strategy": st, "data": "plain", "ov": "SMOTE", "par": {"proportion": 0.3, "n_neighbors": 2}})
        out.append({"strategy": st, "data": "odd", "ov": "Random_SMOTE", "mix": True})
    seen, res = set(), []
    for c in out:
        if str(c) not in seen:
            seen.add(str(c))
            res.append(c)
    return res


def main(tier, t0):
    def units(env, quick):
        us = [sample_unit(cfg, quick) for cfg in configs(quick)]
        for st in STRATEGIES:
            for dat, k in (("plain", {}), ("odd", {"mix": True}), ("ties", {}), ("four", {"mix": True}), ("tie", {"extra": True}), ("one", {"mix": True}), ("two", {"d": 2}), ("big", {"extra": True})):
                us.append(arb_unit({"strategy": st, "data": dat, **k}, quick))
        top = 1000 if quick else 100000
        us += [prop_unit(st, k, i, top, quick) for st in STRATEGIES for k in (2, 3, 4) for i in range(1, k)]
        return us

    return F.run(ID, tier, t0, units, assumptions=["a float quotient or product is within half an ulp of the exact value and on its side of every integer",
                                                   "sizes are the bounds named with each unit"])
