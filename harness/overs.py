"""
Symbolic runs of the oversamplers: data, configurations, replay.

mode "B": every feature value is a symbolic real, third-party estimators return
          arbitrary values of their documented contract
mode "A": features are the concrete reference data, estimators are the real
          ones, random draws are symbolic
In both modes the random draws and (where the class has one) the proportion
parameter are symbolic.
"""
import inspect
import itertools

import numpy as np

from symx import core, snp, stubs
from symx.core import S, SF, z3
from symx.snp import wrap

from . import common
from .common import num, values

# evolutionary / iterative classes: reduced iteration counts and a draw budget
LIGHT = {
    "DSRBF": {"n_init_pop": 3, "n_pop": 2, "n_iter": 1, "n_sampling_epoch": 1, "hidden_range": (2, 3)},
    "GASMOTE": {"n_pop": 4, "popl3": 2, "Ge": 2, "maxn": 3},
    "SSO": {"n_iter": 1, "h": 2},
    "SMOTE_PSO": {"n_pop": 2, "num_it": 1},
    "SMOTE_PSOBAT": {"maxit": 2},
    "IPADE_ID": {"max_it": 2, "OT": 2},
    "NEATER": {"h": 2},
    "SOMO": {"n_grid": 3, "n_iter": 10},
    "SMOTEWB": {"n_iters": 3, "max_depth": 3},
    "CE_SMOTE": {"h": 3},
    "DE_oversampling": {"n_clusters": 3},
    "DSMOTE": {"n_step": 3},
    "AMSCO": {"n_pop": 2, "n_iter": 1},
    "DEAGO": {"e": 2},
}
# classes whose draws enter long non-linear loops: only the first draws stay symbolic
DRAW_BUDGET = {
    "DSRBF": 4, "GASMOTE": 6, "SSO": 4, "SMOTE_PSO": 3, "SMOTE_PSOBAT": 1, "NEATER": 4, "DE_oversampling": 4,
    "E_SMOTE": 4, "AMSCO": 3, "KernelADASYN": 6, "Supervised_SMOTE": 6, "DSMOTE": 6, "CE_SMOTE": 8,
    "IPADE_ID": 6, "Lee": 16, "LLE_SMOTE": 6,
}
# no symbolic features for these (tensor library / geometry the encoding has no model for)
MODE_A_ONLY = {"DEAGO", "V_SYNTH", "AMSCO", "LLE_SMOTE"}
SLOW = {"DEAGO"}

LAYOUTS = {
    "a": [0, 1, 0, 1, 0, 1, 0, 1, 0, 0, 0],                       # 7 / 4
    "b": [1, 0, 0, 1, 0, 0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 0],        # 10 / 6
    "c": [0, 0, 1, 0, 1, 0, 0, 1, 0],                             # 6 / 3
    "d": [1, 1, 0, 0, 0, 0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 1, 1, 0, 0, 0, 1, 0],  # 14 / 8
    "e": [0, 0, 1, 0, 0, 0, 1, 0],                                # 6 / 2
    "f": [1, 0, 0, 0, 0, 0],                                      # 5 / 1
    "h": [0, 1, 0, 0, 1, 0, 1, 0, 0, 1, 0, 0, 1, 0],              # 9 / 5
    "g": [0, 1, 0, 1, 1, 0, 0, 1],                                # 4 / 4
    "i": [0, 1, 0, 1, 0, 1, 0],                                   # 4 / 3
}


def gen_X(style, lay, d, seed):
    """reference data of different geometry"""
    rs = np.random.RandomState(seed)
    n = len(lay)
    lab = np.array(lay)
    X = rs.normal(size=(n, d))
    if style == "overlap":
        X[lab == 1] += 0.7
    elif style == "sep":
        X[lab == 1] = X[lab == 1] * 0.5 + 4.0
    elif style == "grid":
        X = np.round(rs.normal(size=(n, d)) * 2.0)
        X[lab == 1] += 1
    elif style == "clusters":
        k = rs.randint(0, 2, size=n)
        X = X * 0.3 + 3.0 * k[:, None] + lab[:, None] * 0.4
    elif style == "scaled":
        X = X * np.power(10.0, rs.randint(-3, 4, size=d))[None, :] + lab[:, None] * 0.5
    elif style == "const":
        X[:, 0] = 1.5
        X[lab == 1] += 0.5
        X[:, 0] = 1.5
    elif style == "dupmin":
        X[lab == 1] += 0.5
        idx = np.where(lab == 1)[0]
        if len(idx) > 1:
            X[idx[-1]] = X[idx[0]]
    elif style == "inside":
        X[lab == 1] *= 0.3
    elif style == "isolated":  # every minority sample far from the others, the majority around them
        idx, maj = np.where(lab == 1)[0], np.where(lab == 0)[0]
        X[idx] = X[idx] * 0.1 + 10.0 * np.arange(1, len(idx) + 1)[:, None]
        if len(idx):
            X[maj] = X[idx[np.arange(len(maj)) % len(idx)]] + 0.3 * X[maj]
    else:
        raise ValueError(style)
    return X


STYLES = ["overlap", "clusters", "grid", "sep", "scaled", "const", "dupmin", "inside", "isolated"]


def param_space(cls):
    """parameter -> list of values, from the class's own parameter combinations"""
    sig = inspect.signature(cls.__init__).parameters
    vals = {}
    for p in cls.parameter_combinations():
        for k, v in p.items():
            if k in sig and k not in ("random_state", "proportion"):
                vals.setdefault(k, [])
                if not any(repr(v) == repr(w) for w in vals[k]):
                    vals[k].append(v)
    return vals


def configs(real_sv, name, count):
    """covering set of parameter settings: every listed value of every parameter
    appears within max(len) settings; the defaults come first"""
    cls = getattr(real_sv, name)
    space = param_space(cls)
    light = LIGHT.get(name, {})
    out = [dict(light)]
    width = max([len(v) for v in space.values()] + [1])
    for i in range(width):
        p = {}
        for j, (k, vs) in enumerate(sorted(space.items())):
            if k in light:
                continue
            p[k] = vs[(i + (j * (i + 1)) // max(width, 1)) % len(vs)]
        p.update(light)
        if all(repr(p) != repr(q) for q in out):
            out.append(p)
    return out[:count]


def largest(real_sv, name):
    """the largest of the numbers listed for every parameter"""
    light = LIGHT.get(name, {})
    out = {}
    for k, vs in param_space(getattr(real_sv, name)).items():
        if k not in light and all(isinstance(v, (int, float)) and not isinstance(v, bool) for v in vs):
            out[k] = max(vs)
    return out


def has_proportion(cls):
    return "proportion" in inspect.signature(cls.__init__).parameters


def default_proportion(cls):
    sig = inspect.signature(cls.__init__).parameters
    v = sig["proportion"].default if "proportion" in sig else 1.0
    return 1.0 if v is None or v is inspect.Parameter.empty else v


# ---------------------------------------------------------------------------
# symbolic side
# ---------------------------------------------------------------------------


class Run:
    """one symbolic call"""


def sym_inputs(c, job):
    lay, d = job["lay"], job["d"]
    lab = np.array(job["labels"])[np.array(lay)]
    ref = np.array(job["ref"], dtype=float)
    if job["mode"] == "B":
        X = wrap([[core.real(f"x{i}_{j}") for j in range(d)] for i in range(len(lay))])
    else:
        X = wrap(ref)
    y = wrap(lab)
    params = dict(job["params"])
    if job.get("prop") == "sym":
        v = core.real("proportion")
        lo, hi = job.get("prop_range", (0.0, 2.0))
        c.add(v.e >= z3.RealVal(str(lo)))
        c.add(v.e <= z3.RealVal(str(hi)))
        params["proportion"] = SF(v.e)
    elif job.get("prop") is not None:
        params["proportion"] = job["prop"]
    r = Run()
    r.X, r.y, r.params, r.ref = X, y, params, ref
    r.X0, r.y0 = X.copy(), y.copy()
    c.tags["max_draws"] = job.get("max_draws", 150)
    b = job.get("sym_draws")
    if b is not None:
        c.tags["sym_draws"] = b
    return r


def lay_diff(lay):
    return list(lay).count(0) - list(lay).count(1)


def model_case(c, job, run, model, tries=24, extra=None):
    """yields concrete cases for the real code, closest to the model first"""
    base = {"cls": job["cls"], "params": {}, "y": [job["labels"][t] for t in job["lay"]], "seed": job["seed"]}
    if extra:
        base.update(extra)
    if job.get("reuse"):
        base["reuse"] = True
        base["labels"] = list(job["labels"])
    for k, v in run.params.items():
        base["params"][k] = v if not isinstance(v, S) else num(model, v)
    if model is None:
        yield dict(base, X=run.ref.tolist())
        return
    xs = None
    if job["mode"] == "B":
        # prefer the reference data where the path leaves the features free
        s = c.solver
        r = s.check(*[run.X0[i, j].e == core.zval(float(run.ref[i, j])) for i in range(run.ref.shape[0]) for j in range(run.ref.shape[1])])
        if r == z3.sat:
            xs = run.ref.tolist()
        else:
            xs = values(model, run.X0)
    else:
        xs = run.ref.tolist()
    draws = []
    try:
        for stream, kind, info, v in c.draws:
            draws.append([kind, values(model, v)])
    except Exception:  # noqa: BLE001
        draws = []
    case = dict(base, X=xs)
    yield case
    if draws:
        yield dict(case, script=draws)
    if isinstance(run.params.get("proportion"), S):
        # the model may sit on a rounding boundary: the middle of the same count
        diff = lay_diff(job["lay"])
        if diff > 0:
            pr = (int(base["params"]["proportion"] * diff + 1e-9) + 0.5) / diff
            yield dict(case, params=dict(base["params"], proportion=pr))
    if extra_tries(job, tries):
        rs = np.random.RandomState(job["seed"] + 17)
        for t in range(tries):
            st = STYLES[t % len(STYLES)]
            lay = list(job["lay"]) * (4 if t % 3 == 2 else 1)  # some failures show only with more samples
            out = dict(base, X=gen_X(st, lay, job["d"], int(rs.randint(1 << 20))).tolist(), y=[job["labels"][v] for v in lay],
                       seed=int(rs.randint(1 << 20)))
            if t % 2 and isinstance(run.params.get("proportion"), S) and not (extra and "kind" in extra):
                out["params"] = dict(base["params"], proportion=1.0)
            yield out


def extra_tries(job, tries):
    return tries > 0


# ---------------------------------------------------------------------------
# real side
# ---------------------------------------------------------------------------


class ScriptedState(np.random.RandomState):
    """the real generator, returning the model's draws as long as they fit"""

    def __init__(self, seed, script):
        super().__init__(seed)
        self._q = list(script)

    def _take(self, kind, size):
        if self._q and self._q[0][0] == kind:
            v = self._q[0][1]
            sh = () if size is None else tuple(np.atleast_1d(size).astype(int))
            a = np.array(v)
            if a.shape == sh:
                self._q.pop(0)
                return a if sh else a[()]
        self._q = []
        return None

    def random_sample(self, size=None):
        v = self._take("random_sample", size)
        return super().random_sample(size) if v is None else v

    random = random_sample

    def rand(self, *dims):
        v = self._take("random_sample", dims or None)
        return super().rand(*dims) if v is None else v

    def uniform(self, low=0.0, high=1.0, size=None):
        sz = size if size is not None else (np.broadcast(low, high).shape or None)
        v = self._take("random_sample", sz)
        return super().uniform(low, high, size) if v is None else low + (np.asarray(high) - low) * v

    def normal(self, loc=0.0, scale=1.0, size=None):
        sz = size if size is not None else (np.broadcast(loc, scale).shape or None)
        v = self._take("normal", sz)
        return super().normal(loc, scale, size) if v is None else loc + np.asarray(scale) * v

    def choice(self, a, size=None, replace=True, p=None):
        v = self._take("choice", size)
        if v is None:
            return super().choice(a, size, replace, p)
        if isinstance(a, (int, np.integer)):
            return v
        return np.asarray(a)[v]

    def randint(self, low, high=None, size=None, dtype=int):
        v = self._take("randint", size)
        return super().randint(low, high, size, dtype) if v is None else v


def tuplify(v):
    if isinstance(v, list):
        return tuple(tuplify(x) for x in v)
    return v


def real_params(case):
    p = dict(case["params"])
    for k in ("classifier", "base_classifier", "dt_classifier", "ensemble", "hidden_range"):
        if k in p:
            p[k] = tuplify(p[k])
    return p


def real_object(sv, case, seed=None):
    rs = case["seed"] if seed is None else seed
    if case.get("script"):
        rs = ScriptedState(rs, case["script"])
    return getattr(sv, case["cls"])(random_state=rs, **real_params(case))


def other_data(d, labels):
    """a first data set for an object that is used twice: the other label is the minority"""
    rs = np.random.RandomState(99)
    lay = np.array([1, 1, 0, 1, 0, 1, 1, 0, 1, 1, 0, 1, 1])
    X = rs.normal(size=(len(lay), d)) * 3.0 - 2.0
    X[lay == 0] += 1.0
    return X, np.array(labels)[lay]


def real_sample(sv, case, X=None, y=None, seed=None):
    X = np.array(case["X"], dtype=float) if X is None else X
    y = np.array(case["y"]) if y is None else y
    o = real_object(sv, case, seed)
    Xs, ys = o.sample(X, y)
    return np.asarray(Xs), np.asarray(ys), o


# ---------------------------------------------------------------------------
# jobs
# ---------------------------------------------------------------------------


SPARE = 6  # further configurations of each class, explored by units that end early


def make_jobs(real_sv, names, tier, *, n_cfg=4, plans=None, prop="sym", budget=None):
    """one job per (class, configuration)"""
    plans = plans or [
        # mode, layout, d, style, labels, prop
        ("A", "a", 2, "overlap", (0, 1), "sym"),
        ("B", "a", 2, "overlap", (0, 1), "sym"),
        ("A", "b", 3, "clusters", (1, 0), "sym"),
        ("A", "h", 2, "overlap", (2, -1), None, {"reuse": True}),
        ("A", "e", 2, "overlap", (0, 1), None),
        ("B", "c", 1, "overlap", (3, -2), None),
        ("A", "d", 2, "grid", (1, 2), "sym"),
        ("A", "c", 1, "dupmin", (5, 7), None),
        ("A", "b", 4, "sep", (0, 1), None),
        ("B", "b", 2, "clusters", (1, 0), "sym"),
        ("A", "a", 3, "const", (2, 9), None),
    ]
    jobs = []
    for nm in names:
        cls = getattr(real_sv, nm)
        cfgs = configs(real_sv, nm, n_cfg)
        k = max(n_cfg, len(cfgs)) if tier == "quick" else len(plans) * len(cfgs)
        k = n_cfg + SPARE if tier == "quick" else min(k, 40)
        for i in range(k):
            mode, layn, d, style, labels, pr = plans[i % len(plans)][:6]
            params = cfgs[(i + i // len(plans)) % len(cfgs)]
            if nm in MODE_A_ONLY and mode == "B":
                mode = "A"
            lay = LAYOUTS[layn]
            if len(plans[i % len(plans)]) > 6 and "largest" in plans[i % len(plans)][6]:
                params = {**params, **largest(real_sv, nm)}
            if pr == "sym" and (prop != "sym" or not has_proportion(cls) or nm in ("MSYN",)):
                pr = None
            job = {
                "cls": nm, "mode": mode, "lay": lay, "d": d, "labels": labels, "params": params,
                "ref": gen_X(style, lay, d, common.SEED * 1000 + i).tolist(), "prop": pr, "seed": 5 + i,
                "sym_draws": DRAW_BUDGET.get(nm), "style": style,
                "name": f"{nm}#{i}:{mode}:{layn}{len(lay)}x{d}:{style}",
                "bounds": f"mode {mode}: {lay.count(0)} majority / {lay.count(1)} minority samples x {d} features",
            }
            if len(plans[i % len(plans)]) > 6:
                job.update(plans[i % len(plans)][6])
                job["name"] += ":" + ",".join(plans[i % len(plans)][6])
            job["spare"] = tier == "quick" and i >= n_cfg
            jobs.append(job)
    return jobs


ASSUMPTIONS = [
    "feature values and random draws are exact reals; rounding is covered only by the replays",
    "sample counts, feature counts, class layout and parameter settings are the listed bounds",
    "third-party estimators obey: " + "; ".join(f"{k}: {v}" for k, v in stubs.CONTRACTS.items()),
]
