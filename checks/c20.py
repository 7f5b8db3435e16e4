"""C20: undersampling keeps the minority whole and as many different majority samples"""
import numpy as np

from harness import evalstub as E
from harness import fcheck as F
from harness.common import values
from symx import core
from symx.core import S
from symx.snp import wrap

ID = "C20"


def install(sv):
    class VTwo:
        """appends two rows the distances are measured from, or none"""

        def __init__(self, none=False, random_state=None):
            self.none = none

        def sample(self, X, y):
            if self.none:
                return X.copy(), y.copy()
            a = wrap(X).view(np.ndarray)
            n = [list(a[0] + 0.5), list(a[1] - 0.25)]
            r = [list(v) for v in a] + n
            l = list(y) + [y[0], y[0]]
            return (wrap(np.array(r, dtype=object)), wrap(l)) if isinstance(X, type(wrap(np.zeros(1)))) else (np.array(r, dtype=float), np.array(l))

    sv.VTwo = VTwo


def rows(X):
    return [list(r) for r in wrap(X).view(np.ndarray)]


def eq(a, b):
    return F.conj([F.conj([F.le(x, y, 0.0), F.le(y, x, 0.0)]) for x, y in zip(a, b)])


def neg(v):
    if isinstance(v, (bool, np.bool_)):
        return not v
    return core.z3.Not(v)


def implies(p, q):
    return F.disj([neg(p), q])


def away(new, b):
    if len(b) == 1:
        return abs(new[0] - b[0])
    s = [(x - y) ** 2 for x, y in zip(new, b)]
    r = sum(s[1:], s[0])
    return core.sqrt(r) if isinstance(r, S) else float(np.sqrt(r))


def goals(sv, cfg, X, y, again):
    install(sv)
    if cfg["cls"] == "random":
        mk = lambda: sv.undersampling.RandomUndersampling(random_state=cfg.get("seed", 7))  # noqa: E731
    else:
        spec = ("smote_variants", cfg.get("os", "VTwo"), cfg.get("op", {}))
        mk = lambda: sv.undersampling.OversamplingDrivenUndersampling(spec, mode=cfg["mode"], random_state=cfg.get("seed", 7))  # noqa: E731
    kX, ky = X.copy(), y.copy()
    Xs, ys = mk().sample(X, y)
    R, O, ls, lo = rows(Xs), rows(kX), [int(v) for v in ys], [int(v) for v in ky]
    mn, mj = cfg["labels"]
    nm = lo.count(mn)
    g = [("balanced", ls.count(mn) == nm and ls.count(mj) == nm and len(ls) == 2 * nm and len(R) == 2 * nm)]
    g.append(("the data are left alone", F.conj([E.same(X, kX), E.same(y, ky)])))
    for k, r in enumerate(R):
        g.append((f"row {k} is a sample with its own label", F.disj([F.conj([eq(r, o), ls[k] == l]) for o, l in zip(O, lo)])))
    g.append(("no sample twice", F.conj([neg(eq(R[i], R[j])) for i in range(len(R)) for j in range(i)])))
    if len(R) != 2 * nm:
        return g
    if cfg.get("mode") and cfg.get("os", "VTwo") == "VTwo" and not cfg.get("op"):
        new = [[v + 0.5 for v in O[0]], [v - 0.25 for v in O[1]]]
        maj = [o for o, l in zip(O, lo) if l == mj]

        def dist(o):
            return [away(n, o) for n in new]

        def closer(a, b):
            """a is at least as close to the generated samples as b"""
            A, B = dist(a), dist(b)
            return F.conj([F.disj([F.le(x, z, 1e-6) for x in A]) for z in B])

        kept = [F.disj([eq(o, r) for r in R]) for o in maj]
        if cfg["mode"] == "farthest":
            for i, a in enumerate(maj):
                for j, b in enumerate(maj):
                    if i != j:
                        g.append((f"{i} kept before {j}", F.disj([neg(kept[i]), kept[j], closer(a, b)])))
        elif len(maj) > nm:
            for i, a in enumerate(maj):
                # strictly the farthest of all: it is kept only if needed
                far = F.conj([F.conj([closer(b, a), neg(closer(a, b))]) for j, b in enumerate(maj) if j != i])
                g.append((f"{i} is not kept when it is the farthest", implies(far, neg(kept[i]))))
    if again:
        again()
        Xa, ya = mk().sample(kX.copy(), ky.copy())
        g.append(("the same seed gives the same samples", F.conj([E.same(np.asarray(wrap(Xa)), np.asarray(wrap(Xs))), [int(v) for v in ya] == ls])))
    return g


def unit(cfg, quick):
    pat, d = cfg["pat"], cfg.get("d", 1)
    y0 = np.array([cfg["labels"][0] if p else cfg["labels"][1] for p in pat])

    def body(env, c):
        X = F.reals(c, "x", (len(pat), d), -50.0, 50.0) if not cfg.get("conc") else wrap(np.round(np.random.RandomState(3).normal(size=(len(pat), d)), 2))
        y = wrap(y0.copy())
        if not cfg.get("conc"):
            for i in range(len(pat)):
                for j in range(i):
                    c.add(X[i, 0].e != X[j, 0].e)

        def cases(m):
            if m is not None:
                v = np.array(values(m, X), dtype=float)
                if len(np.unique(v, axis=0)) == len(v):
                    yield {"cfg": cfg, "X": v.tolist()}
            r = np.random.RandomState(2)
            for k in range(6):
                yield {"cfg": cfg, "X": (r.permutation(len(pat) * d).reshape(len(pat), d) * (1.0 if k % 2 else 0.37)).tolist()}

        c.tags["cases"] = cases

        def again():
            c.tags["ndraws"] = 0
            c.tags["conc_draws"] = 0

        return goals(env.sym, cfg, X, y, again)

    nm = ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=40 if quick else 600, wall_s=15 if quick else 150,
                  bounds=f"{len(pat)} samples with {d} features" + (" (listed values)" if cfg.get("conc") else " of any different values") + ", any random draws")


def replay(sv, case):
    """under the first seeds: the code is to hold for any draw"""
    for seed in range(5, 17):
        bad = replay_as(sv, case, dict(case["cfg"], seed=seed))
        if bad:
            return bad
    return []


def replay_as(sv, case, cfg):
    y = np.array([cfg["labels"][0] if p else cfg["labels"][1] for p in cfg["pat"]])
    try:
        g = goals(sv, cfg, np.array(case["X"], dtype=float), y, lambda: None)
    except (core.Unsupported, core.BoundHit):
        raise
    except Exception as e:  # noqa: BLE001
        return [(cfg["cls"], f"undersampling {cfg}: raised {F.blame(e)} for X={case['X']}")]
    bad = [k for k, v in g if not bool(v)]
    return [(cfg["cls"], f"undersampling {cfg}: not so: {bad[:3]} for X={case['X']}")] if bad else []


P5, P6, P7, PB = [0, 1, 0, 0, 1], [1, 0, 0, 1, 0, 0], [0, 0, 1, 0, 1, 0, 0], [1, 0, 0, 1]


def units(env, quick):
    us = []
    for pat, lab, x in ((P5, (1, 0), {}), (P6, (1, 0), {"d": 2}), (P7, (0, 1), {}), (P5, (5, 2), {"d": 2}), (PB, (1, 0), {}), (P6, (-1, 1), {}), ([0, 0, 1, 0], (3, 4), {}), (P7, (1, 0), {"d": 3, "conc": True})):
        us.append(unit({"cls": "random", "pat": pat, "labels": lab, **x}, quick))
    for mode in ("farthest", "random"):
        for pat, lab, x in (([0, 1, 0, 0], (1, 0), {}), (P5, (1, 0), {}), (P5, (0, 1), {"d": 2}), (P6, (7, 2), {}), (PB, (1, 0), {}), (P5, (1, 0), {"op": {"none": True}}),
                            (P7, (1, 0), {"d": 2, "conc": True}), ([0, 0, 1, 0, 1, 0, 1, 0], (1, 0), {"conc": True, "d": 2, "os": "SMOTE", "op": {"random_state": 5}}), ([0, 0, 1, 0, 1, 0, 1, 0], (-1, 1), {"conc": True, "d": 2, "os": "ADASYN", "op": {"random_state": 5}})):
            us.append(unit({"cls": "driven", "mode": mode, "pat": pat, "labels": lab, **x}, quick))
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
