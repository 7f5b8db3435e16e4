"""C07: the simplex sampler draws inside the simplices it is given, with the weights it is given"""
import itertools

import numpy as np

from harness import fcheck as F
from harness.common import num, values
from symx import core, stubs
from symx.core import S, z3
from symx.snp import SymArray, wrap

ID = "C07"
X2 = np.array([[0.0, 0.0], [4.0, 1.0], [1.0, 5.0], [6.0, 7.0], [-3.0, 2.5]])
X3 = np.array([[0.0, 0.0, 1.0], [4.0, 1.0, 0.0], [1.0, 5.0, 2.0], [6.0, 7.0, -1.0], [-3.0, 2.5, 4.0]])
X1 = np.array([[0.0], [3.0], [10.0], [-7.5]])
V2 = np.array([[20.0, 1.0], [25.0, 8.0], [21.0, -9.0], [30.0, 3.0], [28.0, 5.5]])
IND = {
    "self": np.array([[0, 1, 2], [1, 3, 0], [2, 0, 4], [3, 1, 4]]),
    "wide": np.array([[0, 1, 2, 4], [1, 3, 0, 2], [2, 0, 4, 3]]),
    "one": np.array([[0, 1], [1, 2], [2, 3]]),
    "dup": np.array([[0, 1, 2], [1, 0, 2], [2, 1, 0]]),
}


class Rec:
    """a random source whose choices are concrete on each path and recorded; the rest is delegated"""

    def __init__(self, base, chooser):
        self._b = base
        self._chooser = chooser
        self.ps = []
        self.chosen = []
        self.arr = wrap if isinstance(base, stubs.RandomState) else np.asarray

    def choice(self, a, size=None, replace=True, p=None):
        n = int(a) if np.ndim(a) == 0 else len(a)
        dom = np.arange(n) if np.ndim(a) == 0 else np.asarray(a)
        self.ps.append((n, p))
        k = 1 if size is None else int(np.prod(size))
        out = np.array([int(dom[self._chooser(n)]) for _ in range(k)])
        self.chosen.append(list(out))
        return out[0] if size is None else self.arr(out.reshape(size))

    def __getattr__(self, k):
        return getattr(self._b, k)


def hull_goal(s, simplices, tol):
    """s is in the convex hull of one of the (concrete) simplices"""
    alts = []
    for pts in simplices:
        b = pts[0]
        D = (pts[1:] - b).T
        if D.shape[1] == 0:
            alts.append(F.conj(F.near(s[j], b[j], tol) for j in range(len(b))))
            continue
        P = np.linalg.pinv(D)
        R = np.eye(len(b)) - D @ P
        r = [s[j] - float(b[j]) for j in range(len(b))]
        co = [sum((float(P[i, j]) * r[j] for j in range(len(b))), 0.0) for i in range(D.shape[1])]
        res = [sum((float(R[i, j]) * r[j] for j in range(len(b))), 0.0) for i in range(len(b))]
        alts.append(F.conj([F.le(0.0, x, tol) for x in co] + [F.le(sum(co[1:], co[0]), 1.0, tol)] + [F.near(x, 0.0, tol) for x in res]))
    return F.disj(alts)


def simplices_of(X, ind, k, V=None):
    V = X if V is None else V
    out = []
    for b in range(len(ind)):
        for nb in itertools.combinations(ind[b][1:], min(k, len(ind[b])) - 1):
            out.append(np.vstack([X[b]] + [V[j] for j in nb]))
    return out


def make(mod, cfg, rs):
    o = mod.base.SimplexSamplingMixin(
        n_dim=cfg["n_dim"], simplex_sampling=cfg.get("simplex", "random"), within_simplex_sampling=cfg.get("within", "random"),
        gaussian_component=None, random_state=cfg.get("seed", 5),
    )
    if rs is not None:
        o.random_state = rs(o.random_state)
    return o


D2 = np.array([[0.0, 0.0], [0.0, 0.0], [1.0, 5.0], [1.0, 5.0], [-3.0, 2.5]])  # duplicated rows
DATA = {"X1": X1, "X2": X2, "X3": X3, "D2": D2}


# -- every row in the hull of a listed simplex ---------------------------------


def hull_kwargs(cfg, arr=np.array):
    X, ind = DATA[cfg["X"]], IND[cfg["ind"]]
    kw = {"indices": arr(ind.copy()), "n_to_sample": cfg["n"]}
    V = None
    if cfg.get("V"):
        V = V2[:, :X.shape[1]]
        kw["X_vertices"] = arr(V.copy())
    return X, ind, V, kw


def hull_unit(cfg, quick):
    def body(env, c):
        X, ind, V, kw = hull_kwargs(cfg, wrap)
        nb, nv = len(ind), len(X if V is None else V)
        vw = bw = None
        if cfg.get("vw"):
            vw = kw["vertex_weights"] = F.reals(c, "vw", nv, 0.0, 1.0)
        if cfg.get("bw"):
            bw = kw["base_weights"] = F.reals(c, "bw", nb, 0.0, 1.0)
            c.add(sum((w.e for w in bw.view(np.ndarray)), z3.RealVal(0)) > core.zval(0.01))
        rec = []

        def rs(base):
            rec.append(Rec(base, lambda n: F.pick(c, c.fresh_name("ch"), 0, n - 1)))
            return rec[0]

        def cases(m):
            d = {"kind": "hull", "cfg": cfg, "choices": [int(v) for r in rec[0].chosen for v in r] if rec else []}
            if m is not None:
                d["draws"] = [[k, values(m, v)] for _, k, _, v in c.draws]
                d["vw"] = None if vw is None else values(m, vw)
                d["bw"] = None if bw is None else values(m, bw)
            yield d
            for s in range(8):
                yield dict(d, seed=s, choices=None, draws=[])

        c.tags["cases"] = cases
        o = make(env.sym, cfg, rs)
        Xi = wrap(X[:max(nb, ind.max() + 1)] if V is None else X[:nb])
        out = wrap(o.sample_simplex(Xi, **kw))
        if out.shape != (cfg["n"], X.shape[1]):
            return [("rows", False)]
        sims = simplices_of(X, ind, cfg["n_dim"], V)
        return [(f"row {i} in a listed simplex", hull_goal(r, sims, 1e-7)) for i, r in enumerate(out.view(np.ndarray))]

    nm = "hull:" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, bounds=f"{nm}: every draw and weight, every selection of simplices", quick=quick,
                  max_paths=40 if quick else 400)


class Scripted(Rec):
    def __init__(self, base, choices, draws):
        it = iter(choices)
        super().__init__(base, lambda n: next(it) % n if choices else int(base.randint(n)))
        self._c = choices
        self._d = list(draws)

    def choice(self, a, size=None, replace=True, p=None):
        if not self._c:
            self.ps.append((0, p))
            return self._b.choice(a, size=size, replace=replace, p=None if p is None else np.asarray(p, dtype=float))
        try:
            return super().choice(a, size, replace, p)
        except (StopIteration, RuntimeError):
            return self._b.choice(a, size=size, replace=replace, p=p)

    def _take(self, f, size):
        if self._d:
            v = np.array(self._d[0][1], dtype=float)
            if v.shape == (() if size is None else tuple(np.atleast_1d(size))):
                self._d.pop(0)
                return v
        return f(size)

    def random_sample(self, size=None):
        return self._take(self._b.random_sample, size)


def real_hull(sv, case):
    cfg = case["cfg"]
    cfg = dict(cfg, seed=case.get("seed", 5))
    X, ind, V, kw = hull_kwargs(cfg)
    nb, nv = len(ind), len(X if V is None else V)
    rs = np.random.RandomState(cfg["seed"])
    if cfg.get("vw"):
        kw["vertex_weights"] = np.array(case["vw"]) if case.get("vw") else rs.rand(nv)
    if cfg.get("bw"):
        kw["base_weights"] = np.array(case["bw"]) if case.get("bw") else rs.rand(nb)
    o = make(sv, cfg, lambda b: Scripted(b, case.get("choices") or [], case.get("draws") or []))
    Xi = X[:max(nb, ind.max() + 1)] if V is None else X[:nb]
    key = "within=" + cfg.get("within", "random")
    try:
        out = np.asarray(o.sample_simplex(Xi.copy(), **kw))
    except Exception as e:  # noqa: BLE001
        return [(f"{key}:raises", f"the simplex sampler raised {type(e).__name__}: {e} for {cfg}")]
    if out.shape != (cfg["n"], X.shape[1]):
        return [(f"{key}:rows", f"the simplex sampler returned {out.shape[0]} of {cfg['n']} samples for {cfg}")]
    sims = simplices_of(X, ind, cfg["n_dim"], V)
    for r in out:
        if hull_goal([float(v) for v in r], sims, 1e-6) is not True:
            return [(f"{key}:hull", f"the simplex sampler drew {r.tolist()} outside every listed simplex ({cfg})")]
    return []


HULL = [
    dict(X="X2", ind="self", n_dim=2, n=2), dict(X="X2", ind="self", n_dim=2, n=1, vw=1), dict(X="X2", ind="self", n_dim=2, n=2, V=1),
    dict(X="X2", ind="self", n_dim=2, n=1, V=1, vw=1), dict(X="X2", ind="self", n_dim=2, n=1, bw=1), dict(X="X2", ind="wide", n_dim=3, n=1),
    dict(X="X3", ind="wide", n_dim=3, n=1), dict(X="X3", ind="self", n_dim=3, n=1, V=0, vw=1), dict(X="X2", ind="one", n_dim=3, n=2),
    dict(X="X2", ind="self", n_dim=1, n=2), dict(X="X1", ind="one", n_dim=2, n=2), dict(X="X2", ind="self", n_dim=2, n=4, within="deterministic"),
    dict(X="X2", ind="dup", n_dim=2, n=4, within="deterministic"), dict(X="X2", ind="self", n_dim=2, n=3, within="deterministic", V=1),
    dict(X="X2", ind="self", n_dim=2, n=2, within="deterministic", vw=1), dict(X="X2", ind="self", n_dim=2, n=3, within="deterministic", V=1, vw=1),
    dict(X="X2", ind="dup", n_dim=2, n=7, within="deterministic", simplex="deterministic"),
    dict(X="X2", ind="self", n_dim=1, n=3, within="deterministic"), dict(X="X2", ind="self", n_dim=2, n=2, simplex="volume"),
    dict(X="X2", ind="dup", n_dim=2, n=5, within="random", simplex="deterministic", bw=1),
    dict(X="D2", ind="self", n_dim=2, n=2, V=1), dict(X="D2", ind="self", n_dim=2, n=2), dict(X="D2", ind="self", n_dim=2, n=1, V=1, vw=1, bw=1),
    dict(X="D2", ind="wide", n_dim=2, n=3, V=1, within="deterministic"),
    dict(X="X3", ind="wide", n_dim=4, n=1), dict(X="X2", ind="self", n_dim=2, n=1, simplex="volume", V=1),
]


# -- weights: how likely each base and neighbour is -------------------------------


def prob_unit(cfg, quick):
    """the probabilities handed to the generator, with the simplex each choice stands for"""
    def body(env, c):
        X, ind, V, kw = hull_kwargs(cfg, wrap)
        nb = len(ind)
        bw = sw = None
        if cfg.get("bw"):
            bw = kw["base_weights"] = F.reals(c, "bw", nb, 0.0, 10.0)
            c.add(sum((w.e for w in bw.view(np.ndarray)), z3.RealVal(0)) > 0)
        if cfg.get("sw"):
            sw = kw["simplex_weights"] = F.reals(c, "sw", ind.shape, 0.0, 10.0, strict=True)

        def cases(m):
            d = {"kind": "prob", "cfg": cfg}
            if m is not None:
                d["bw"] = None if bw is None else values(m, bw)
                d["sw"] = None if sw is None else values(m, sw)
            yield d

        c.tags["cases"] = cases
        want, got = probabilities(env.sym, cfg, X, ind, V, kw, bw, sw, wrap)
        return [(f"P(base {b}, neighbours {k})", F.near(want[b, k], got[b, k], 1e-9)) for b, k in want]

    nm = "prob:" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, bounds=f"{nm}: every weight", quick=quick, timeout_ms=6000)


class Fixed(Rec):
    """always chooses index i, and puts all weight on vertex t"""

    def __init__(self, base, i, t):
        super().__init__(base, lambda n: i)
        self._t = t

    def random_sample(self, size=None):
        w = np.zeros(size)
        w[..., self._t if w.shape[-1] > self._t else 0] = 1.0
        return self.arr(w)


def which(row, P):
    d = [float(abs(row - p).sum()) for p in P]
    return int(np.argmin(d)) if min(d) < 1e-9 else None


def probabilities(mod, cfg, X, ind, V, kw, bw, sw, arr=np.array):
    nb = len(ind)
    k = min(cfg["n_dim"], ind.shape[1]) - 1
    Vx = X if V is None else V
    Xi = X[:max(nb, ind.max() + 1)] if V is None else X[:nb]
    want, tot = {}, 0
    for b in range(nb):
        for pos in itertools.combinations(range(1, ind.shape[1]), k):
            w = 1.0 if bw is None else bw[b]
            if cfg.get("simplex") == "volume" and bw is None:
                w = float(np.linalg.norm(X[b] - Vx[ind[b][pos[0]]]))
            for q in pos:
                if sw is not None:
                    w = w * sw[b, q]
            key = (b, tuple(sorted(int(ind[b][q]) for q in pos)))
            want[key] = want.get(key, 0) + w
            tot = tot + w
    want = {q: v / tot for q, v in want.items()}
    got = {q: 0.0 for q in want}
    n = None
    i = 0
    while n is None or i < n:
        p = None
        vs = []
        for t in range(k + 1):
            rec = []

            def rs(base, t=t, i=i, rec=rec):
                rec.append(Fixed(base, i, t))
                return rec[0]

            kk = dict(kw)
            kk["n_to_sample"] = 1
            kk["indices"] = arr(ind.copy())
            o = make(mod, cfg, rs)
            out = np.asarray(wrap(o.sample_simplex(arr(Xi), **kk)).view(np.ndarray)[0], dtype=float)
            if not rec[0].ps:
                raise core.Unsupported("no weighted choice was made")
            n, p = rec[0].ps[0]
            vs.append(which(out, X if t == 0 else Vx))
        key = (vs[0], tuple(sorted(v for v in vs[1:] if v is not None)))
        pi = (1.0 / n) if p is None else wrap(p)[i]
        got[key] = got.get(key, 0.0) + pi
        want.setdefault(key, 0.0)
        i += 1
    return want, got


def real_prob(sv, case):
    cfg = case["cfg"]
    X, ind, V, kw = hull_kwargs(cfg)
    bw = sw = None
    if case.get("bw") is not None:
        bw = kw["base_weights"] = np.array(case["bw"], dtype=float)
    if case.get("sw") is not None:
        sw = kw["simplex_weights"] = np.array(case["sw"], dtype=float)
    try:
        want, got = probabilities(sv, cfg, X, ind, V, kw, bw, sw)
    except core.Unsupported:
        return []
    bad = [q for q in want if abs(want[q] - got[q]) > 1e-6]
    if bad:
        q = bad[0]
        return [(f"probability:{cfg.get('simplex', 'random')}", f"the simplex of base {q[0]} and neighbours {q[1]} is drawn with probability {got[q]} "
                 f"instead of {want[q]} ({cfg}, base weights {case.get('bw')})")]
    return []


PROB = [
    dict(X="X2", ind="self", n_dim=2, n=1, bw=1), dict(X="X2", ind="self", n_dim=1, n=1, bw=1), dict(X="X2", ind="self", n_dim=2, n=1),
    dict(X="X2", ind="wide", n_dim=3, n=1, bw=1), dict(X="X2", ind="self", n_dim=2, n=1, sw=1), dict(X="X2", ind="self", n_dim=2, n=1, bw=1, sw=1),
    dict(X="X2", ind="self", n_dim=2, n=1, simplex="volume"), dict(X="X2", ind="wide", n_dim=2, n=1, simplex="volume", V=1),
    dict(X="X3", ind="wide", n_dim=3, n=1, sw=1), dict(X="X2", ind="wide", n_dim=2, n=1, V=1, bw=1),
]


# -- deterministic selection: counts follow the weights ------------------------------


def det_unit(nb, n, n_dim, quick):
    def body(env, c):
        ind = IND["self"][:nb]
        bw = F.reals(c, "bw", nb, 0.0, 1.0)
        s = sum((w.e for w in bw.view(np.ndarray)), z3.RealVal(0))
        c.add(s == 1)

        def cases(m):
            if m is not None:
                yield {"kind": "det", "nb": nb, "n": n, "n_dim": n_dim, "bw": values(m, bw)}

        c.tags["cases"] = cases
        o = make(env.sym, {"n_dim": n_dim, "simplex": "deterministic", "within": "random"}, lambda b: Fixed(b, 0, 0))
        out = wrap(o.sample_simplex(wrap(X2[:5]), indices=wrap(ind.copy()), n_to_sample=n, base_weights=bw))
        return det_goals(out, bw, nb, n, n_dim)

    nm = f"deterministic:{nb} bases,{n} samples,n_dim={n_dim}"
    return F.unit(nm, body, replay, bounds=f"{nm}: every weight vector", quick=quick, max_paths=150 if quick else 2000, wall_s=20 if quick else 120)


def det_goals(out, bw, nb, n, n_dim):
    if len(out) != n:
        return [("rows", False)]
    per = {1: 1, 2: 2}[n_dim]
    cnt = [0] * nb
    for r in out.view(np.ndarray):
        b = which(np.asarray(r, dtype=float), X2)
        if b is None or b >= nb:
            return [("bases only", False)]
        cnt[b] += 1
    return [(f"count of base {b}", F.conj([F.le(bw[b] * n, cnt[b] + per, 1e-9), F.le(cnt[b] - per, bw[b] * n, 1e-9)])) for b in range(nb)]


def real_det(sv, case):
    nb, n, n_dim = case["nb"], case["n"], case["n_dim"]
    bw = np.array(case["bw"], dtype=float)
    o = make(sv, {"n_dim": n_dim, "simplex": "deterministic", "within": "random"}, lambda b: Fixed(b, 0, 0))
    try:
        out = np.asarray(o.sample_simplex(X2[:5].copy(), indices=IND["self"][:nb].copy(), n_to_sample=n, base_weights=bw))
    except Exception as e:  # noqa: BLE001
        return [("deterministic:raises", f"deterministic selection raised {type(e).__name__} for weights {bw.tolist()}")]
    bad = [k for k, g in det_goals(wrap(out), bw, nb, n, n_dim) if g is not True]
    if bad:
        return [("deterministic:" + bad[0].split(" of")[0], f"deterministic selection of {n} samples does not follow the weights {bw.tolist()}: {bad}")]
    return []


# -- points between points ------------------------------------------------------------


def between_unit(kind, quick):
    def body(env, c):
        x, y = F.reals(c, "x", 2), F.reals(c, "y", 2)

        def cases(m):
            if m is not None:
                yield {"kind": "between", "what": kind, "x": values(m, x), "y": values(m, y), "draws": [[k, values(m, v)] for _, k, _, v in c.draws]}

        c.tags["cases"] = cases
        o = env.sym.base.RandomSamplingMixin(random_state=3)
        return between_goals(o, kind, x, y)

    return F.unit("between:" + kind, body, replay, bounds="all points in 2-D, all draws", quick=quick)


def between_goals(o, kind, x, y):
    if kind == "points":
        s = o.sample_between_points(x, y)
        cross = (s[0] - x[0]) * (y[1] - x[1]) - (s[1] - x[1]) * (y[0] - x[0])
        g = [("on the line", F.near(cross, 0.0, 1e-9))]
    elif kind == "componentwise":
        s = o.sample_between_points_componentwise(x, y)
        g = []
    elif kind == "mask":
        s = o.sample_between_points_componentwise(x, y, np.array([0.0, 1.0]))
        g = [("masked feature kept", F.near(s[0], x[0], 1e-9))]
    else:
        o2 = o.sample_by_jittering(x, 0.5) if kind == "jitter" else o.sample_by_jittering_componentwise(x, 0.5)
        return [("within the jitter", F.conj(F.conj([F.le(o2[j], x[j] + 0.5, 1e-9), F.le(x[j] - 0.5, o2[j], 1e-9)]) for j in range(2)))]
    for j in range(2):
        inside = F.disj([F.conj([F.le(x[j], s[j], 1e-9), F.le(s[j], y[j], 1e-9)]), F.conj([F.le(y[j], s[j], 1e-9), F.le(s[j], x[j], 1e-9)])])
        g.append((f"feature {j} between", inside))
    return g


def real_between(sv, case):
    o = sv.base.RandomSamplingMixin(random_state=3)
    if case.get("draws"):
        o.random_state = Scripted(o.random_state, [], case["draws"])
        v = np.array(case["draws"][0][1], dtype=float)
        o.random_state.random_sample = lambda size=None: (v if np.ndim(v) == (0 if size is None else 1) else np.random.RandomState(0).random_sample(size))
    x, y = np.array(case["x"], dtype=float), np.array(case["y"], dtype=float)
    sc = 1e-7 * (1 + np.abs(x).max() + np.abs(y).max()) ** 2
    bad = []
    for k, g in between_goals(o, case["what"], x / max(1, sc * 1e7), y / max(1, sc * 1e7)):
        if g is not True:
            bad.append(k)
    return [(f"between:{case['what']}", f"sampling between points: not {bad}")] if bad else []


# -- deterministic sampling within a simplex: evenly spread ------------------------------


def even_goals(mod, X, n, arr):
    """n samples of the only edge are its n inner division points"""
    o = mod.base.SimplexSamplingMixin(n_dim=2, simplex_sampling="random", within_simplex_sampling="deterministic", random_state=3)
    out = wrap(o.sample_simplex(X, indices=arr(np.array([[0, 1]])), n_to_sample=n)).view(np.ndarray)
    Xv = np.asarray(X).view(np.ndarray)
    if len(out) != n:
        return [("as many samples as asked for", False)]
    pts = [[Xv[0][j] + (Xv[1][j] - Xv[0][j]) * (t / (n + 1)) for j in range(Xv.shape[1])] for t in range(1, n + 1)]
    return [(f"division point {t + 1} of {n} is a sample", F.disj([F.conj([F.near(a, b, 1e-6) for a, b in zip(p, r)]) for r in out])) for t, p in enumerate(pts)]


def even_unit(n, d, quick):
    def body(env, c):
        X = F.reals(c, "x", (2, d), -50.0, 50.0)
        c.tags["cases"] = lambda m: iter([{"kind": "even", "n": n, "X": values(m, X)}] if m is not None else [])
        return even_goals(env.sym, X, n, wrap)

    return F.unit(f"even:{n},{d}", body, replay, quick=quick, bounds=f"{n} samples of one edge in {d} dimensions, any end points")


def real_even(sv, case):
    bad = [k for k, v in even_goals(sv, np.array(case["X"], dtype=float), case["n"], np.array) if not bool(v)]
    return [("even", f"deterministic samples of the edge {case['X']}: not {bad}")] if bad else []


def replay(sv, case):
    return {"even": real_even, "hull": real_hull, "prob": real_prob, "det": real_det, "between": real_between}[case["kind"]](sv, case)


def main(tier, t0):
    def units(env, quick):
        us = [prob_unit(g, quick) for g in PROB] + [hull_unit(g, quick) for g in HULL]
        us += [det_unit(3, 4, 1, quick), det_unit(4, 7, 1, quick), det_unit(3, 5, 2, quick)]
        us += [between_unit(k, quick) for k in ("points", "componentwise", "mask", "jitter", "jitter_c")]
        us += [even_unit(n, d, quick) for n, d in ((1, 1), (2, 2), (3, 1), (5, 2))]
        return us

    return F.run(ID, tier, t0, units)
