"""C09: parameters are accepted exactly within their documented ranges and reported as given"""
import json
import os

import numpy as np

from harness import fcheck as F
from harness.common import num
from harness.oprops import eq
from symx import core
from symx.core import S, z3

ID = "C09"
with open(os.path.join(os.path.dirname(__file__), "c09_ranges.json")) as f:
    RANGES = json.load(f)  # allowed values per class and parameter
SEEDED = {"random_state": 3}


def allowed(rule, v):
    op, b = rule[0], rule[1]
    if op == "in":
        return F.conj([F.le(b[0], v), F.le(v, b[1])])
    if op == "ge":
        return F.le(b, v)
    r = v > b
    return r.e if isinstance(r, S) else bool(r)


def same(a, b):
    if isinstance(a, S) or isinstance(b, S):
        return eq(a, b)
    if isinstance(a, dict) or isinstance(b, dict):
        if not isinstance(a, dict) or not isinstance(b, dict) or set(a) != set(b):
            return False
        return F.conj(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple, np.ndarray)) and isinstance(b, (list, tuple, np.ndarray)):
        return len(a) == len(b) and F.conj(same(x, y) for x, y in zip(a, b))
    return a is b or bool(a == b)


def goals_of(mod, cls, p, v, rule):
    o, e = F.raised(getattr(mod, cls), **{p: v}, **SEEDED)
    ok = allowed(rule, v)
    if e is not None:
        if not isinstance(e, ValueError):
            return [("ValueError", False)]
        return [("accepted", ok is not True if isinstance(ok, bool) else z3.Not(ok))]
    g = [("rejected", ok)]
    q, e = F.raised(o.get_params)
    if e is not None:
        return g + [("reported", False)]
    g.append(("reported", F.conj([same(q.get(p), v)]) if p in q else False))
    o2, e = F.raised(getattr(mod, cls), **q)
    if e is not None:
        return g + [("clone", False)]
    q2, e = F.raised(o2.get_params)
    g.append(("clone", e is None and same(q, q2)))
    return g


def unit(cls, p, rule, quick):
    def body(env, c):
        v = F.integer(c, "v", -1000, 1000) if rule[-1] == "int" else F.real(c, "v", -1000, 1000)

        def cases(m):
            if m is not None:
                yield {"cls": cls, "p": p, "v": num(m, v)}

        c.tags["cases"] = cases
        return goals_of(env.sym, cls, p, v, rule)

    return F.unit(f"{cls}.{p}", body, replay, bounds=f"every value of {p} in [-1000, 1000]", quick=quick, max_paths=24)


def replay(sv, case):
    cls, p, v = case["cls"], case["p"], case["v"]
    rule = RANGES[cls][p]
    if rule[-1] == "int":
        v = int(v)
    if abs(v - (rule[1][0] if rule[0] == "in" else rule[1])) < 1e-12 and not float(v).is_integer():
        return []
    bad = [k for k, g in goals_of(sv, cls, p, v, rule) if g is not True]
    text = {
        "ValueError": f"{cls}({p}={v}) raised something other than ValueError", "accepted": f"{cls}({p}={v}) rejected an allowed value",
        "rejected": f"{cls}({p}={v}) accepted a value outside {rule}", "reported": f"{cls}({p}={v}) does not report {p} in get_params()",
        "clone": f"{cls} rebuilt from get_params() has other parameters ({p}={v})",
    }
    return [(f"{cls}.{p}:{k}", text[k]) for k in bad]


def main(tier, t0):
    def units(env, quick):
        have = {c.__name__ for c in env.real.get_all_oversamplers()}
        return [unit(c, p, r, quick) for c in sorted(RANGES) if c in have for p, r in sorted(RANGES[c].items())]

    return F.run(ID, tier, t0, units)
