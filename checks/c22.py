"""C22: the shared statistics, comparison and validation helpers compute what they are documented to compute"""
import itertools

import numpy as np

from harness import evalstub as E
from harness import fcheck as F
from harness.common import num, values
from symx import core
from symx.core import S
from symx.snp import wrap

ID = "C22"
z3 = core.z3


def z(v):
    return v.e if isinstance(v, S) else v


def neg(v):
    return not v if isinstance(v, (bool, np.bool_)) else z3.Not(v)


def iff(a, b):
    """both sides as goals"""
    return F.disj([F.conj([a, b]), F.conj([neg(a), neg(b)])])


def lt(a, b):
    r = a < b
    return r.e if isinstance(r, S) else bool(r)


def ex(a, b):
    return F.conj([F.le(a, b), F.le(b, a)])


# -- range checks: they raise exactly when the documented relation is violated ----------------------

CHECKS = {
    "check_in_range": (3, lambda P, a: P.check_in_range(a[0], "p", [a[1], a[2]]), lambda a: F.conj([F.le(a[1], a[0]), F.le(a[0], a[2])])),
    "check_out_range": (3, lambda P, a: P.check_out_range(a[0], "p", [a[1], a[2]]), lambda a: F.disj([lt(a[0], a[1]), lt(a[2], a[0])])),
    "check_less_or_equal": (2, lambda P, a: P.check_less_or_equal(a[0], "p", a[1]), lambda a: F.le(a[0], a[1])),
    "check_less_or_equal_par": (2, lambda P, a: P.check_less_or_equal_par(a[0], "p", a[1], "q"), lambda a: F.le(a[0], a[1])),
    "check_less": (2, lambda P, a: P.check_less(a[0], "p", a[1]), lambda a: lt(a[0], a[1])),
    "check_less_par": (2, lambda P, a: P.check_less_par(a[0], "p", a[1], "q"), lambda a: lt(a[0], a[1])),
    "check_greater_or_equal": (2, lambda P, a: P.check_greater_or_equal(a[0], "p", a[1]), lambda a: F.le(a[1], a[0])),
    "check_greater_or_equal_par": (2, lambda P, a: P.check_greater_or_equal_par(a[0], "p", a[1], "q"), lambda a: F.le(a[1], a[0])),
    "check_greater": (2, lambda P, a: P.check_greater(a[0], "p", a[1]), lambda a: lt(a[1], a[0])),
    "check_greater_par": (2, lambda P, a: P.check_greater_par(a[0], "p", a[1], "q"), lambda a: lt(a[1], a[0])),
    "check_equal": (2, lambda P, a: P.check_equal(a[0], "p", a[1]), lambda a: neg(ex(a[0], a[1]))),
    "check_equal_par": (2, lambda P, a: P.check_equal_par(a[0], "p", a[1], "q"), lambda a: neg(ex(a[0], a[1]))),
    "check_isin": (4, lambda P, a: P.check_isin(a[0], "p", list(a[1:])), lambda a: F.disj([ex(a[0], v) for v in a[1:]])),
}


def check_goals(sv, cfg, a):
    n, call, ok = CHECKS[cfg["f"]]
    r, e = F.raised(call, sv.base.ParametersMixin(), list(a["v"]))
    return [("raises ValueError or nothing", e is None or isinstance(e, ValueError)), ("exactly when violated", iff(ok(list(a["v"])), e is None)), ("returns nothing", r is None)]


def jobs_goals(sv, cfg, a):
    P = sv.base.ParametersMixin()
    v = a["i"]
    _, e = F.raised(P.check_n_jobs, v, "n_jobs")
    _, e2 = F.raised(P.check_n_jobs, None, "n_jobs")
    return [("exactly positive numbers", iff(lt(0, v), e is None)), ("not None", isinstance(e2, ValueError)), ("ValueError", e is None or isinstance(e, ValueError))]


# -- statistics ------------------------------------------------------------------------------------


def count(d, v):
    """how often v occurs in d, as a term"""
    if any(isinstance(x, S) for x in list(d) + [v]):
        return z3.Sum([z3.If(z(x) == z(v), 1, 0) for x in d])
    return sum(x == v for x in d)


def mode_goals(sv, cfg, a):
    d = list(wrap(a["d"]).view(np.ndarray))
    m = sv.base.mode(a["d"])
    g = [("one of the values", F.disj([ex(m, v) for v in d]))]
    sym = any(isinstance(x, S) for x in d)
    cm = count(d, m)
    for v in d:
        cv = count(d, v)
        if sym:
            g.append(("none is more frequent, and none as frequent is less", z3.And(cm >= cv, z3.Or(cm > cv, z(m) <= z(v)))))
        else:
            g.append(("none is more frequent, and none as frequent is less", bool(cm >= cv and (cm > cv or m <= v))))
    return g


def stat_goals(sv, cfg, a):
    o = sv.base.StatisticsMixin()
    y = a["y"]
    lab = cfg["pat"]
    o.class_label_statistics(y)
    n1, n0 = sum(lab), len(lab) - sum(lab)
    p, q = a["ab"]
    g = []
    mn, mj = o.min_label, o.maj_label
    if n1 != n0:
        lo, hi = (p, q) if n1 < n0 else (q, p)
        g += [("the smaller class is the minority", ex(mn, lo)), ("the larger class is the majority", ex(mj, hi))]
        g.append(("class sizes", o.class_stats[mn] == min(n1, n0) and o.class_stats[mj] == max(n1, n0)))
    else:
        g += [("two different classes", neg(ex(mn, mj))), ("of the two", F.conj([F.disj([ex(v, p), ex(v, q)]) for v in (mn, mj)]))]
    return g


def density_goals(sv, cfg, a):
    d = a["d"].copy()
    raw = list(wrap(a["d"]).view(np.ndarray))
    r = list(wrap(sv.base.fix_density(d)).view(np.ndarray))
    s = sum(r[1:], r[0])
    tot = sum([v for v in raw if not bad(v)], 0.0)
    g = [("as many", len(r) == len(raw)), ("sums to one", F.near(s, 1.0, 1e-9)), ("no negative weight", F.conj([F.le(0.0, v, 1e-12) for v in r]))]
    for i, v in enumerate(raw):
        w = 0.0 if bad(v) else v
        zero = ex(tot, 0.0)
        prop = F.near(r[i] * tot, w, 1e-6)
        flat = F.near(r[i], 1.0 / len(raw), 1e-9)
        g.append((f"weight {i} is proportional, or uniform when there is no density", F.disj([F.conj([zero, flat]), F.conj([neg(zero), prop])])))
    return g


def bad(v):
    return core.nonfinite(v)


def cov_goals(sv, cfg, a):
    X = a["X"]
    R = [list(r) for r in wrap(X).view(np.ndarray)]
    if cfg["rowvar"]:
        R = [list(c) for c in zip(*R)]
    n, d = len(R), len(R[0])
    C = wrap(sv.base.cov(X, rowvar=cfg["rowvar"]))
    g = [("a square matrix", C.shape == (d, d))]
    if C.shape != (d, d):
        return g
    mu = [sum([r[j] for r in R[1:]], R[0][j]) / n for j in range(d)]
    for i in range(d):
        for j in range(d):
            t = [(r[i] - mu[i]) * (r[j] - mu[j]) for r in R]
            g.append((f"entry {i}, {j}", F.near(C[i, j] * (n - 1), sum(t[1:], t[0]), 1e-6)))
    return g


def divide_goals(sv, cfg, a):
    x, y, d = a["v"]
    r = sv.base.safe_divide(x, y, d)
    r2 = sv.base.safe_divide(x, y)
    zero = ex(y, 0.0)
    g = [("quotient or default", F.disj([F.conj([zero, ex(r, d)]), F.conj([neg(zero), F.near(r * y, x, 1e-6)])]))]
    inf = not isinstance(r2, S) and r2 == np.inf
    g.append(("infinite by default", F.disj([F.conj([zero, inf]), F.conj([neg(zero), not inf])])))
    return g


def shuffle_goals(sv, cfg, a):
    X, y = a["X"], a["y"]
    kX, ky = X.copy(), y.copy()
    rs = a["rs"](sv)
    Xs, ys = sv.base.shuffle_training_set(X, y, random_state=rs)
    A, B = [list(r) for r in wrap(kX).view(np.ndarray)], [list(r) for r in wrap(Xs).view(np.ndarray)]
    la, lb = list(wrap(ky).view(np.ndarray)), list(wrap(ys).view(np.ndarray))
    g = [("as many", len(A) == len(B) and len(la) == len(lb))]

    def row(a_, b_):
        return F.conj([ex(x, v) for x, v in zip(a_, b_)])

    for i, r in enumerate(A):
        g.append((f"sample {i} is kept with its label", F.disj([F.conj([row(r, s), ex(la[i], lb[j])]) for j, s in enumerate(B)])))
    if rs is None:
        g += [(f"unshuffled {i}", F.conj([row(A[i], B[i]), ex(la[i], lb[i])])) for i in range(len(A))]
    g.append(("the data are left alone", F.conj([E.same(X, kX), E.same(y, ky)])))
    return g


# -- dictionaries -----------------------------------------------------------------------------------


def dict_eq(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)) or set(a) != set(b):
            return False
        return F.conj([dict_eq(a[k], b[k]) for k in a])
    if isinstance(a, (S, int, float)) and isinstance(b, (S, int, float)):
        return ex(a, b)
    return type(a) is type(b) and a == b


def dict_goals(sv, cfg, a):
    v = a["v"]
    A, B = cfg_dict(cfg["a"], v[:4]), cfg_dict(cfg["b"], v[4:])
    r = sv.base.equal_dicts(A, B)
    r2 = sv.base.equal_dicts(B, A)
    return [("equal exactly when they are", iff(dict_eq(A, B), bool(r))), ("whichever comes first", bool(r) == bool(r2))]


def cfg_dict(t, v):
    if isinstance(t, dict):
        return {k: cfg_dict(x, v) for k, x in t.items()}
    if isinstance(t, str) and t.startswith("$"):
        return v[int(t[1:])]
    return t


def coalesce_goals(sv, cfg, a):
    v = a["v"]
    A, B = cfg_dict(cfg["a"], v[:4]), cfg_dict(cfg["b"], v[4:])
    kA, kB = (None if A is None else dict(A)), dict(B)
    r = sv.base.coalesce_dict(A, B)
    want = {**kB, **(kA or {})}
    g = [("the given values over the defaults", set(r) == set(want) and F.conj([dict_eq(r[k], want[k]) for k in want if k in r]))]
    g.append(("the arguments are left alone", A == kA if A is None else set(A) == set(kA) and all(A[k] is kA[k] for k in kA)))
    g.append(("the defaults are left alone", set(B) == set(kB) and all(B[k] is kB[k] for k in kB)))
    g.append(("coalesce", sv.base.coalesce(v[0], v[1]) is v[0] and sv.base.coalesce(None, v[1]) is v[1] and sv.base.coalesce(0, v[1]) == 0 and sv.base.coalesce("", v[1]) == ""))
    return g


GOALS = {"check": check_goals, "jobs": jobs_goals, "mode": mode_goals, "stat": stat_goals, "density": density_goals, "cov": cov_goals, "divide": divide_goals, "shuffle": shuffle_goals,
         "dict": dict_goals, "coalesce": coalesce_goals}


def unit(kind, cfg, quick):
    def body(env, c):
        a, spec = {}, {}
        if kind in ("check", "divide", "dict", "coalesce"):
            n = {"check": CHECKS.get(cfg.get("f"), (3,))[0], "divide": 3}.get(kind, 8)
            f = (lambda i: F.integer(c, f"v{i}", -6, 6)) if cfg.get("int") else (lambda i: F.real(c, f"v{i}", -100.0, 100.0))
            a["v"] = [f(i) for i in range(n)]
            spec["v"] = lambda m: [num(m, x.e) for x in a["v"]]
        if kind == "jobs":
            a["i"] = F.integer(c, "i", -5, 20)
            spec["i"] = lambda m: int(num(m, a["i"].e))
        if kind in ("mode",):
            a["d"] = wrap(np.array([F.integer(c, f"d{i}", -2, 6) for i in range(cfg["n"])], dtype=object))
            spec["d"] = lambda m: [int(v) for v in values(m, a["d"])]
        if kind == "density":
            a["d"] = wrap(np.array([F.real(c, f"d{i}", 0.0, 50.0) if k == "r" else {"nan": np.nan, "inf": np.inf, "-inf": -np.inf, "0": 0.0}[k] for i, k in enumerate(cfg["d"])], dtype=object))
            spec["d"] = lambda m: [float(num(m, v.e)) if isinstance(v, S) else float(v) for v in a["d"].view(np.ndarray)]
        if kind == "stat":
            p, q = F.integer(c, "p", -3, 5), F.integer(c, "q", -3, 5)
            c.add(p.e != q.e)
            a["ab"] = [p, q]
            a["y"] = wrap(np.array([p if t else q for t in cfg["pat"]], dtype=object))
            spec["ab"] = lambda m: [int(num(m, p.e)), int(num(m, q.e))]
        if kind in ("cov", "shuffle"):
            a["X"] = F.reals(c, "x", cfg["shape"], -20.0, 20.0)
            spec["X"] = lambda m: values(m, a["X"])
        if kind == "shuffle":
            a["y"] = wrap(np.array([F.integer(c, f"y{i}", 0, 4) for i in range(cfg["shape"][0])], dtype=object))
            spec["y"] = lambda m: [int(v) for v in values(m, a["y"])]
            a["rs"] = (lambda sv: None) if cfg.get("none") else (lambda sv: sv._symx_np.random.RandomState(3) if hasattr(sv, "_symx_np") else np.random.RandomState(3))

        def cases(m):
            if m is not None:
                yield {"kind": kind, "cfg": cfg, "a": {k: f(m) for k, f in spec.items()}}

        c.tags["cases"] = cases
        return GOALS[kind](env.sym, cfg, a)

    nm = kind + ":" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=150 if quick else 2000, wall_s=15 if quick else 150, bounds=f"{kind}: any values in the sizes named with the unit")


def replay(sv, case):
    kind, cfg, a = case["kind"], case["cfg"], dict(case["a"])
    for k in ("X", "d"):
        if k in a:
            a[k] = np.array(a[k], dtype=int if k == "d" and kind == "mode" else float)
    if kind == "stat":
        a["y"] = np.array([a["ab"][0] if t else a["ab"][1] for t in cfg["pat"]])
    if kind == "shuffle":
        a["y"] = np.array(a["y"])
        a["rs"] = (lambda sv: None) if cfg.get("none") else (lambda sv: np.random.RandomState(3))
    try:
        with np.errstate(all="ignore"):
            g = GOALS[kind](sv, cfg, a)
    except (core.Unsupported, core.BoundHit):
        raise
    except Exception as e:  # noqa: BLE001
        return [(kind, f"{kind} {cfg}: raised {F.blame(e)} for {case['a']}")]
    bad_ = [k for k, v in g if not bool(v)]
    return [(kind + ":" + cfg.get("f", ""), f"{kind} {cfg}: not so: {bad_[:3]} for {case['a']}")] if bad_ else []


def units(env, quick):
    us = [unit("jobs", {}, quick), unit("divide", {}, quick)]
    for f in CHECKS:
        us.append(unit("check", {"f": f}, quick))
        us.append(unit("check", {"f": f, "int": True}, quick))
    for n in (1, 2, 3, 4) if quick else (1, 2, 3, 4, 5):
        us.append(unit("mode", {"n": n}, quick))
    for pat in ([1, 0, 0], [1, 1, 0], [0, 1, 0, 1, 0], [1, 0], [0, 1, 1, 1, 1, 0], [1, 0, 1, 0]):
        us.append(unit("stat", {"pat": pat}, quick))
    for d in (["r"], ["r", "r"], ["r", "r", "r"], ["r", "nan", "r"], ["inf", "r"], ["nan", "nan"], ["0", "0", "0"], ["r", "-inf", "r", "r"], ["0", "r", "inf"]):
        us.append(unit("density", {"d": d}, quick))
    for rv in (True, False):
        for sh in ((3, 2), (2, 3), (4, 1), (1, 4), (3, 3)):
            if (sh[1] if rv else sh[0]) > 1:
                us.append(unit("cov", {"rowvar": rv, "shape": sh}, quick))
    for x in ({"shape": (3, 2)}, {"shape": (4, 1)}, {"shape": (3, 1), "none": True}):
        us.append(unit("shuffle", x, quick))
    D = [{"p": "$0", "q": "$1"}, {"q": "$1", "p": "$0"}, {"p": "$0"}, {"p": {"r": "$0"}, "q": "$1"}, {"p": {"r": "$0", "s": "$2"}, "q": "$1"}, {"p": {"r": {"t": "$0"}}}, {"p": {"r": {"t": "$3", "u": 1}}}, {},
         {"p": "x", "q": "$1"}, {"p": "y", "q": "$1"}, {"p": None, "q": "$1"}, {"p": {}, "q": "$1"}]
    for x, y in itertools.combinations_with_replacement(range(len(D)), 2):
        us.append(unit("dict", {"a": D[x], "b": D[y]}, quick))
    for x, y in ((None, {"p": "$0"}), ({"p": "$0"}, {"p": "$1", "q": "$2"}), ({"r": "$0", "p": None}, {"p": "$1"}), ({}, {"p": "$1"}), ({"p": {"u": "$0"}}, {"p": {"u": "$1", "w": "$2"}})):
        us.append(unit("coalesce", {"a": x, "b": y}, quick))
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
