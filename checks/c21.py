"""C21: queries return exactly the techniques asked for; parameter combinations are complete, valid and repeatable"""
import inspect
import itertools

import numpy as np

from harness import fcheck as F
from harness.common import num
from symx import core
from symx.core import S

ID = "C21"


# -- the n quickest ---------------------------------------------------------------------


class Runtimes:
    """the measured runtimes, some of them free"""

    def __init__(self, sv, new):
        self.sv, self.new = sv, new

    def __enter__(self):
        self.d = self.sv.queries._queries.runtimes
        self.old = {k: self.d[k] for k in self.new}
        self.d.update(self.new)
        return self.d

    def __exit__(self, *a):
        self.d.update(self.old)


def query(sv, cfg, n):
    q = {"all": sv.get_all_oversamplers, "prop": sv.get_proportion_oversamplers, "metric": sv.get_metric_learning_oversamplers, "multi": sv.get_multiclass_oversamplers,
         "simplex": lambda **k: sv.get_simplex_sampling_oversamplers(with_gaussian_component=True, **k)}[cfg["q"]]
    return q() if n is None else q(n_quickest=n)


def quick_goals(sv, cfg, rt, n):
    new = dict(zip(cfg["cls"], rt))
    with Runtimes(sv, new) as d:
        full = query(sv, cfg, None)
        sel = query(sv, cfg, n)
        g = [("all of them for -1", query(sv, cfg, -1) == full)]
        g.append(("as many as asked for, if there are", len(sel) == min(n, len(full))))
        g.append(("no one twice", len(set(sel)) == len(sel) and len(set(full)) == len(full)))
        g.append(("techniques of the query", all(o in full for o in sel)))
        rest = [o for o in full if o not in sel]
        t = {o: d[o.__name__] for o in full}
        fixed = lambda os: [t[o] for o in os if not isinstance(t[o], S)]  # noqa: E731
        free = lambda os: [t[o] for o in os if isinstance(t[o], S)]  # noqa: E731
        # it is enough to compare the extremes of the fixed ones
        a = ([max(fixed(sel))] if fixed(sel) else []) + free(sel)
        b = ([min(fixed(rest))] if fixed(rest) else []) + free(rest)
        g.append(("none left out is quicker", F.conj([F.le(x, y) for x in a for y in b])))
    return g


# -- filters -----------------------------------------------------------------------------


def ss_of(sv, o):
    p = o().get_params()
    return p["ss_params"] if "ss_params" in p else sv.base.SimplexSamplingMixin.get_params(o())["ss_params"]


def filter_goals(sv, opt):
    full = sv.get_all_oversamplers()
    names = [o.__name__ for o in full]
    got = sv.get_simplex_sampling_oversamplers(**opt)
    want = []
    for o in full:
        if "ss_params" not in inspect.signature(o).parameters:
            continue
        s = ss_of(sv, o)
        lst = lambda v: [v] if isinstance(v, (str, int)) else list(v)  # noqa: E731
        ok = True
        if opt.get("within_simplex_sampling") is not None:
            ok &= s["within_simplex_sampling"] in lst(opt["within_simplex_sampling"])
        if opt.get("exclude_within_simplex_sampling") is not None:
            ok &= s["within_simplex_sampling"] not in lst(opt["exclude_within_simplex_sampling"])
        if opt.get("with_gaussian_component") is not None:
            ok &= bool(s["gaussian_component"]) == opt["with_gaussian_component"]
        if opt.get("n_dim_range") is not None:
            ok &= s["n_dim"] in lst(opt["n_dim_range"])
        if ok:
            want.append(o)
    g = [("exactly the techniques with these properties", [o.__name__ for o in got] == [o.__name__ for o in want]), ("listed once", len(set(names)) == len(names))]
    return g


def family_goals(sv, _):
    full = sv.get_all_oversamplers()
    B = sv.base.OverSampling
    subs = set()

    def walk(c):
        for s in c.__subclasses__():
            if s.__module__.startswith("smote_variants.") and s not in subs:
                subs.add(s)
                walk(s)

    walk(B)
    leaves = [s for s in subs if not any(s in t.__mro__[1:] for t in subs) and s.__name__ != "NoSMOTE" and getattr(sv, s.__name__, None) is s]
    g = [("every technique is listed", all(s in full for s in leaves)), ("with proportion", sv.get_proportion_oversamplers() == [o for o in full if "proportion" in o().get_params()])]
    g.append(("with metric learning", sv.get_metric_learning_oversamplers() == [o for o in full if B.cat_metric_learning in o.categories]))
    multi = [o for o in full if B.cat_changes_majority not in o.categories and B.cat_dim_reduction not in o.categories and "proportion" in o().get_params()]
    for st in ("eq_1_vs_many_successive", "equalize_1_vs_many"):
        g.append((f"for multiclass {st}", sv.get_multiclass_oversamplers(strategy=st) == multi))
    nf = sv.get_all_noisefilters()
    g.append(("noise filters", {f.__name__ for f in nf} == {"TomekLinkRemoval", "CondensedNearestNeighbors", "OneSidedSelection", "CNNTomekLinks", "NeighborhoodCleaningRule", "EditedNearestNeighbors"}))
    return g


# -- combinations ---------------------------------------------------------------------------


def prod_goals(sv, cfg, vals):
    """vals: parameter -> list of values"""
    P = sv.base.ParametersMixin
    raw = P.generate_parameter_combinations(vals, True)
    out = P.generate_parameter_combinations(vals, False)
    keys = list(vals)
    want = list(itertools.product(*[vals[k] for k in keys]))
    g = [("raw is the space", raw == vals or raw is vals), ("as many as the product", len(out) == len(want))]
    g.append(("every parameter set", all(set(o) == set(keys) for o in out)))

    def eq(a, b):
        if a is b or isinstance(a, str) or isinstance(b, str):
            return a is b or a == b
        return F.conj([F.le(a, b), F.le(b, a)])

    for w in want:
        g.append(("each combination occurs", F.disj([F.conj([eq(o[k], v) for k, v in zip(keys, w)]) for o in out if set(o) == set(keys)])))
    got = [tuple(id(o[k]) if isinstance(o[k], S) else o[k] for k in keys) for o in out if set(o) == set(keys)]
    ref = [tuple(id(v) if isinstance(v, S) else v for v in w) for w in want]
    g.append(("each as often as in the product", sorted(map(str, got)) == sorted(map(str, ref))))
    return g


def stubs(sv, cfg):
    out = []
    for i, sp in enumerate(cfg["spaces"]):
        def mk(i, sp):
            class V(sv.base.ParametersMixin):
                def __init__(self, **p):
                    p.pop("class_name", None)
                    self.p = {"n_jobs": 1, **p}

                @classmethod
                def parameter_combinations(cls, raw=False):
                    return cls.generate_parameter_combinations({k: list(v) for k, v in sp.items()}, raw)

                def get_params(self, deep=False):
                    return {**self.p, "class_name": type(self).__name__}

            V.__name__ = f"VComb{i}"
            setattr(sv, V.__name__, V)
            return V

        out.append(mk(i, sp))
    return out


def comb_goals(sv, cfg, n, seed, again):
    classes = stubs(sv, cfg)
    a = sv.generate_parameter_combinations(classes, n_max_comb=n, random_seed=seed)
    again()
    b = sv.generate_parameter_combinations(classes, n_max_comb=n, random_seed=seed)
    again()
    d = sv.generate_parameter_combinations(classes, n_max_comb=n, random_seed=seed, result_format="dict")
    g = [("the same seed gives the same", a == b), ("both formats agree", [x[2] for x in a] == d)]
    i = 0
    for c in classes:
        space = c.parameter_combinations()
        k = min(n, len(space))
        mine = a[i:i + k]
        i += k
        g.append((f"{c.__name__}: as many as asked for, if there are", len(mine) == k and all(x[:2] == ("smote_variants", c.__name__) for x in mine)))
        if not all(x[1] == c.__name__ for x in mine):
            continue
        picked = []
        for x in mine:
            fit = [j for j, p in enumerate(space) if all(str(x[2].get(q)) == str(v) or (isinstance(v, dict) and all(x[2][q].get(z) == w for z, w in v.items())) for q, v in p.items())]
            g.append((f"{c.__name__}: one of its combinations", len(fit) >= 1))
            picked += fit[:1]
            o = sv.base.instantiate_obj(x)
            g.append((f"{c.__name__}: can be constructed with them", type(o) is c and sv.base.equal_dicts(o.get_params(), x[2])))
        g.append((f"{c.__name__}: no combination twice", len(set(picked)) == len(picked)))
    g.append(("nothing else", len(a) == i))
    return g


# -- units ------------------------------------------------------------------------------------


def goals(sv, kind, cfg, a, again=lambda: None):
    if kind == "quick":
        return quick_goals(sv, cfg, a["rt"], a["n"])
    if kind == "filter":
        return filter_goals(sv, a["opt"])
    if kind == "family":
        return family_goals(sv, None)
    if kind == "prod":
        return prod_goals(sv, cfg, a["vals"])
    return comb_goals(sv, cfg, a["n"], a["seed"], again)


CHOICES = {"within_simplex_sampling": [None, "random", "deterministic", ["random", "deterministic"], []], "exclude_within_simplex_sampling": [None, "random", "deterministic", ["random"]],
           "with_gaussian_component": [None, True, False], "n_dim_range": [None, 1, 2, 3, [1, 3], [2]]}


def unit(kind, cfg, quick):
    def body(env, c):
        a = {}
        if kind == "quick":
            a["n"] = F.pick(c, "n", 0, 12) if cfg.get("small") else F.pick(c, "n", 0, 100) if cfg.get("n") is None else cfg["n"]
            a["rt"] = [F.real(c, f"r{i}", 0.0, 20.0) for i in range(len(cfg["cls"]))]
        elif kind == "filter":
            a["opt"] = {}
            for k, v in CHOICES.items():
                if k in cfg["fix"]:
                    a["opt"][k] = v[cfg["fix"][k]]
                else:
                    a["opt"][k] = v[F.pick(c, k, 0, len(v) - 1)]
        elif kind == "prod":
            a["vals"] = {k: [F.real(c, f"{k}{i}", -5.0, 5.0) for i in range(m)] + w for k, (m, w) in cfg["space"].items()}
        elif kind == "comb":
            a["n"] = F.pick(c, "n", 0, 6)
            a["seed"] = F.pick(c, "seed", 0, 3)

        def cases(m):
            if m is not None:
                b = dict(a)
                if "rt" in b:
                    b["rt"] = [num(m, r.e) for r in b["rt"]]
                if "vals" in b:
                    b["vals"] = {k: [num(m, v.e) if isinstance(v, S) else v for v in vs] for k, vs in b["vals"].items()}
                yield {"kind": kind, "cfg": cfg, "a": b}

        c.tags["cases"] = cases

        def again():
            c.tags["ndraws"] = 0
            c.tags["conc_draws"] = 0

        return goals(env.sym, kind, cfg, a, again)

    nm = kind + ":" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=400 if quick else 4000, wall_s=15 if quick else 150,
                  bounds={"quick": f"runtimes of {cfg.get('cls')} anything in [0, 20]", "filter": "every combination of the listed options", "prod": "parameter values of any size", "comb": "up to 6 combinations per class, any shuffling",
                          "family": "the listed techniques"}[kind])


def replay(sv, case):
    a = case["a"]
    try:
        g = goals(sv, case["kind"], case["cfg"], a)
    except (core.Unsupported, core.BoundHit):
        raise
    except Exception as e:  # noqa: BLE001
        return [(case["kind"], f"{case['kind']} {case['cfg']} {a}: raised {F.blame(e)}")]
    bad = [k for k, v in g if not bool(v)]
    return [(case["kind"], f"{case['kind']} {case['cfg']} {a}: not so: {bad[:3]}")] if bad else []


def units(env, quick):
    us = [unit("family", {}, quick)]
    for q in ("all", "prop", "metric", "multi", "simplex"):
        us.append(unit("quick", {"q": q, "cls": []}, quick))
        us.append(unit("quick", {"q": q, "cls": ["SMOTE"], "n": 7}, quick))
    us.append(unit("quick", {"q": "all", "cls": ["SMOTE"], "n": 40}, quick))
    us.append(unit("quick", {"q": "all", "cls": ["SMOTE"], "n": 90}, quick))
    us.append(unit("quick", {"q": "all", "cls": ["ADASYN"], "n": 1}, quick))
    us.append(unit("quick", {"q": "simplex", "cls": ["Gaussian_SMOTE"], "small": True}, quick))
    us.append(unit("quick", {"q": "all", "cls": ["SMOTE", "ADASYN"], "n": 2}, quick))
    for g in range(3):
        us.append(unit("filter", {"fix": {"with_gaussian_component": g, "exclude_within_simplex_sampling": 0}}, quick))
        us.append(unit("filter", {"fix": {"with_gaussian_component": g, "within_simplex_sampling": 0}}, quick))
    for sp in ({"a": (3, []), "b": (2, [])}, {"b": (1, ["u", "v"]), "a": (2, []), "c": (1, [])}, {"z": (4, [])}, {}, {"a": (2, []), "b": (0, [])}, {"p": (1, []), "q": (1, []), "r": (1, []), "s": (2, [])}):
        us.append(unit("prod", {"space": sp}, quick))
    A, B, C = {"u": [1, 2, 3]}, {"u": [1, 2], "w": ["a", "b"]}, {"v": [5]}
    for sp in ([A], [C, A], [A, C, {"w": ["x", "y"]}], [B, C]):
        us.append(unit("comb", {"spaces": sp}, quick))
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
