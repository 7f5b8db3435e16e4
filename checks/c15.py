"""C15: foldings partition the data set, describe themselves correctly and survive the cache"""
import itertools

import numpy as np

from harness import evalstub as E
from harness import fcheck as F
from harness import fsim
from harness.common import num, values
from symx import core
from symx.core import S, z3
from symx.snp import wrap

ID = "C15"
KEYS = ["X_train", "y_train", "X_test", "y_test"]


def arrays(f):
    return {k: f[k] for k in KEYS}



def fold_goals(sv, cfg, X, y, symbolic):
    """X: unknown values; y: labels"""
    n, ns, nr = len(X), cfg["splits"], cfg["repeats"]
    yl = list(wrap(y).view(np.ndarray))
    ds = {"data": X, "target": y, "name": "db"}
    vp = {"n_splits": ns, "n_repeats": nr, "random_state": cfg.get("seed", 3)}
    fs = fsim.FS(symbolic)
    g = []
    with fsim.mounted(fsim.modules(sv), fs):
        fo = sv.evaluation.Folding(ds, validator_params=dict(vp), cache_path="/cache" if cfg.get("ser") else None, serialization=cfg.get("ser", "json"))
        folds = list(fo.fold())
        g.append(("one folding per split and repeat", len(folds) == ns * nr))
        again = list(fo.fold())
        g.append(("the same foldings again", len(again) == len(folds) and F.conj([E.same(a, b) for a, b in zip(again, folds)])))
        if cfg.get("ser"):
            names = fo.folding_files()
            g.append(("one file per folding", len(names) == len(folds) and len(set(names)) == len(names)))
            if len(names) == len(folds):
                for i, nm in enumerate(names):
                    b = sv.base.load_dict(nm, cfg["ser"], KEYS)
                    want = {**folds[i], "y_train": folds[i]["y_train"] * 1.0, "y_test": folds[i]["y_test"] * 1.0}
                    got = {**b, "y_train": b["y_train"] * 1.0, "y_test": b["y_test"] * 1.0}
                    g.append((f"file {i} holds folding {i}", E.same(got, want)))
            E.SEEN.clear()
            writes = sum(1 for w in fs.log if w.startswith("open"))
            fo.folding_files()
            g.append(("existing files are reused", sum(1 for w in fs.log if w.startswith("open")) == writes))
    where = []
    for i, f in enumerate(folds):
        d = f["fold_descriptor"]
        where.append((d["repeat_idx"], d["fold_idx"]))
        g.append((f"indices of folding {i}", d["split_idx"] == i and d["repeat_idx"] == i // ns and d["fold_idx"] == i % ns))
        g.append((f"validation parameters of folding {i}", d["n_splits"] == ns and d["n_repeats"] == nr and d["name"] == "db"))
    g.append(("every folding has its own indices", sorted(where) == [(r, k) for r in range(nr) for k in range(ns)]))
    # partition: each sample tested exactly once per repeat, with its own label, and otherwise in training
    ids = [k for k in range(n)]
    row = {}
    for k in ids:
        row[str([v.e if isinstance(v, S) else float(v) for v in wrap(X).view(np.ndarray)[k]])] = k
    tested = []
    for i, f in enumerate(folds):
        parts = {}
        for w in ("train", "test"):
            Xw, yw = wrap(f["X_" + w]).view(np.ndarray), list(wrap(f["y_" + w]).view(np.ndarray))
            idx = [row.get(str([v.e if isinstance(v, S) else float(v) for v in r])) for r in Xw]
            if None in idx or len(idx) != len(yw):
                return g + [(f"folding {i} holds samples of the data set", False)]
            g.append((f"labels of folding {i}", E.same([yl[k] for k in idx], yw)))
            parts[w] = idx
        g.append((f"folding {i} is a partition", sorted(parts["train"] + parts["test"]) == ids))
        tested.append(parts["test"])
        for who in sorted(set(cfg["pat"])):
            mine = [k for k in ids if cfg["pat"][k] == who]
            got = sum(k in mine for k in parts["test"])
            g.append((f"class {who} in folding {i} has its share", len(mine) // ns <= got <= -(-len(mine) // ns)))
    for r in range(nr):
        g.append((f"every sample is tested once in repeat {r}", sorted(itertools.chain(*tested[r * ns:(r + 1) * ns])) == ids))
    # statistics
    for i, f in enumerate(folds):
        d = f["fold_descriptor"]
        one_ = [1 if not isinstance(v, S) and v == cfg["labels"][0] or isinstance(v, S) and v is cfg["sym"][0] else 0 for v in yl]
        a, b = sum(one_), n - sum(one_)
        lo, hi = min(a, b), max(a, b)
        g.append((f"statistics of folding {i}", d["db_n"] == n and d["db_n_attr"] == wrap(X).shape[1] and d["label_stats"] == {"min_label": lo, "maj_label": hi} and E.same(d["imbalance_ratio"], hi / lo)))
        if i:
            break
    return g


def fold_unit(cfg, quick):
    pat = cfg["pat"]

    def body(env, c):
        X = F.reals(c, "x", (len(pat), 2), -100.0, 100.0)
        # labels: any two different integers
        a, b = F.integer(c, "a", -1, 3), F.integer(c, "b", -1, 3)
        c.add(a.e != b.e)
        if cfg.get("ser"):
            a, b = np.int64(int(c.concretize(a.e))), np.int64(int(c.concretize(b.e)))
        y = wrap(np.array([a if p else b for p in pat], dtype=object if isinstance(a, S) else int))
        k = dict(cfg, labels=[int(a) if not isinstance(a, S) else None, None], sym=[a, b])
        # rows are told apart by their first value
        for i in range(len(pat)):
            for j in range(i):
                c.add(X[i, 0].e != X[j, 0].e)

        def cases(m):
            if m is not None:
                yield {"cfg": cfg, "X": values(m, X), "a": int(num(m, a.e)) if isinstance(a, S) else int(a), "b": int(num(m, b.e)) if isinstance(b, S) else int(b)}
            r = np.random.RandomState(2)
            for p, q in ((1, 0), (0, 1), (3, 7), (-1, 1)):
                yield {"cfg": cfg, "X": np.round(r.normal(size=X.shape), 3).tolist(), "a": p, "b": q}

        c.tags["cases"] = cases
        return fold_goals(env.sym, k, X, y, True)

    nm = "fold:" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=30 if quick else 300, wall_s=15 if quick else 120,
                  bounds=f"{len(pat)} samples of any value, any two integer labels, {cfg['splits']} splits, {cfg['repeats']} repeats")


def replay(sv, case):
    cfg = case["cfg"]
    X = np.array(case["X"], dtype=float)
    y = np.array([case["a"] if p else case["b"] for p in cfg["pat"]])
    try:
        g = fold_goals(sv, dict(cfg, labels=[case["a"], case["b"]], sym=[None, None]), X, y, False)
    except (core.Unsupported, core.BoundHit):
        raise
    except Exception as e:  # noqa: BLE001
        return [("raises", f"Folding with labels {case['a']}, {case['b']} and {cfg}: raised {F.blame(e)}")]
    bad = [k for k, v in g if not bool(v)]
    return [("folding", f"Folding with labels {y.tolist()} and {cfg}: not so: {bad[:3]}")] if bad else []


def units(env, quick):
    us = []
    P1, P2, P3 = [1, 0, 0, 1, 0, 0], [0, 0, 1, 1, 0, 1, 0, 0, 1], [1, 1, 0, 0]
    for pat, ns, nr, x in [(P1, 2, 1, {}), (P1, 2, 3, {}), (P2, 3, 2, {}), (P2, 4, 1, {}), (P3, 2, 2, {}), (P2, 2, 2, {"seed": 11}),
                           (P1, 2, 1, {"ser": "json"}), (P1, 2, 2, {"ser": "pickle"}), (P2, 3, 2, {"ser": "json"}), (P2, 4, 1, {"ser": "pickle"}), (P1, 2, 12, {"ser": "json"})]:
        us.append(fold_unit({"pat": pat, "splits": ns, "repeats": nr, **x}, quick))
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
