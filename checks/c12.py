"""C12: every score equals its definition"""
import itertools
import math

import numpy as np

from harness import fcheck as F
from harness.common import num, values
from symx import core, snp, stubs
from symx.core import S, z3
from symx.snp import wrap

ID = "C12"
LOGS = ("l", "ltp", "lfp", "lfn", "ltn", "lp", "ln", "uc")


def met(mod):
    return mod.base._metrics if hasattr(mod.base, "_metrics") else mod.base


# -- the definitions, on numbers or symbolic values (x/y via cross-multiplication) --


def eqv(a, b, tol=1e-9):
    if a is None or b is None:
        return a is None and b is None
    if not isinstance(a, S) and not isinstance(b, S) and not (math.isfinite(a) and math.isfinite(b)):
        return False
    if isinstance(a, S) or isinstance(b, S):
        if core.nonfinite(a) or core.nonfinite(b):
            return False
        return F.near(a, b, 1e-9)
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


def quot(v, num_, den):
    """v == num_/den, with 0 where den is 0"""
    if not isinstance(den, S):
        return eqv(v, num_ / den if den else 0.0) if not isinstance(v, S) else F.conj([F.near(v * den, num_, 0.0)]) if den else F.near(v, 0.0, 0.0)
    z = (den == 0)
    z = z.e if isinstance(z, S) else z3.BoolVal(bool(z))
    ok1, ok2 = F.near(v, 0.0, 0.0), F.near(v * den, num_, 0.0)
    f = lambda x: z3.BoolVal(x) if isinstance(x, bool) else x  # noqa: E731
    return z3.If(z, f(ok1), f(ok2))


def label_goals(r, tp, tn, fp, fn):
    p, n = tp + fn, fp + tn
    g = [
        ("p", eqv(r["p"], p)), ("n", eqv(r["n"], n)),
        ("acc", quot(r["acc"], tp + tn, p + n)), ("sens", quot(r["sens"], tp, p)), ("spec", quot(r["spec"], tn, n)),
        ("ppv", quot(r["ppv"], tp, tp + fp)), ("npv", quot(r["npv"], tn, tn + fn)),
        ("fpr", quot(r["fpr"], fp, n)), ("fnr", quot(r["fnr"], fn, p)),
        ("fdr", eqv(r["fdr"], 1.0 - r["ppv"])),
        ("bacc", eqv(r["bacc"] * 2, r["sens"] + r["spec"])),
        ("gacc", F.conj([eqv(r["gacc"] * r["gacc"], r["sens"] * r["spec"]), F.le(0.0, r["gacc"])])),
        ("f1", quot(r["f1"], 2 * tp, 2 * tp + fp + fn)),
        ("informedness", eqv(r["informedness"], r["sens"] + r["spec"] - 1)),
        ("markedness", eqv(r["markedness"], r["ppv"] + r["npv"] - 1)),
    ]
    a, b, c, d = tp + fp, tp + fn, fp + tn, fn + tn
    cov, den = tp * tn - fp * fn, a * b * c * d
    if r["mcc"] is None:
        g.append(("mcc is missing only where it is undefined", F.disj([eqv(a, 0), eqv(b, 0), eqv(c, 0), eqv(d, 0)])))
    else:
        m = r["mcc"]
        same = F.disj([F.conj([F.le(0.0, m), F.le(0.0, cov)]), F.conj([F.le(m, 0.0), F.le(cov, 0.0)])])
        if isinstance(m, S) or isinstance(den, S):
            g.append(("mcc", eqv(m * core.sqrt(den), cov)))
        else:
            g.append(("mcc", F.conj([eqv(m * m * den, cov * cov), same])))
    return g


def log_defs(ln, tp, tn, fp, fn):
    """the uncertainty coefficient and its terms, with the logarithm passed in"""
    a, b, c, d = tp + fp, tp + fn, fp + tn, fn + tn
    p, n = b, c

    def term(k, x, y):
        return None if not (x * y > 0) or not (k > 0) else k * ln(k / (x * y))

    r = {"l": (p + n) * ln(p + n), "ltp": term(tp, a, b), "lfp": term(fp, a, c), "lfn": term(fn, b, d), "ltn": term(tn, c, d),
         "lp": p * ln(p / (p + n)), "ln": n * ln(n / (p + n))}
    t = [r[k] for k in ("ltp", "lfp", "lfn", "ltn")]
    r["uc"] = None if None in t else (r["l"] + sum(t)) / (r["l"] + r["lp"] + r["ln"])
    return r


# -- scores of a confusion matrix -------------------------------------------------


def labels_unit(top, logs, quick):
    def body(env, c):
        at = {k: F.real(c, k, 0.0, float(top)) for k in ("tp", "tn", "fp", "fn")}
        tp, tn, fp, fn = (at[k] for k in ("tp", "tn", "fp", "fn"))
        c.add(tp.e + fn.e > 0)
        c.add(tn.e + fp.e > 0)

        def cases(m):
            if m is not None:
                yield {"kind": "labels", "atoms": {k: float(num(m, v.e)) for k, v in at.items()}, "logs": logs}
            for t in range(12):
                r = np.random.RandomState(t).randint(0, 9, 4)
                yield {"kind": "labels", "atoms": dict(zip(("tp", "tn", "fp", "fn"), map(int, r + (t % 2)))), "logs": logs}

        c.tags["cases"] = cases
        m = met(env.sym)
        r = m.calculate_label_scores(dict(at))
        if not logs:
            return label_goals(r, tp, tn, fp, fn)
        o = log_defs(lambda x: snp.wrap([x]).view(np.ndarray)[0] and snp._f_log(x), tp, tn, fp, fn)
        return [(k, eqv(r[k], o[k])) for k in LOGS]

    return F.unit("logs" if logs else "labels", body, replay, quick=quick, max_paths=200, wall_s=40 if quick else 200, timeout_ms=4000 if quick else 20000,
                  bounds=f"every confusion matrix with (real) entries 0..{top} and both classes present")


def real_labels(sv, case):
    at = case["atoms"]
    if at["tp"] + at["fn"] == 0 or at["tn"] + at["fp"] == 0:
        return []
    r = met(sv).calculate_label_scores(dict(at))
    if case["logs"]:
        o = log_defs(lambda x: float(np.log(x)), **at)
        bad = [k for k in LOGS if not eqv(r[k], o[k])]
    else:
        bad = [k for k, v in label_goals(r, **at) if not bool(v)]
    return [("labels", f"scores {bad} of {at} are not their definitions: { {k: r.get(k) for k in bad} }")] if bad else []


# -- atoms, predicted labels, scores of probabilities -------------------------------


def atoms_goals(at, t, p, mn):
    """t, p: lists of labels"""
    one = lambda x: z3.If(x.e if isinstance(x, S) else z3.BoolVal(bool(x)), 1, 0)  # noqa: E731
    cnt = {k: [] for k in ("tp", "tn", "fp", "fn")}
    for a, b in zip(t, p):
        m, e = a == mn, b == a
        me = m.e if isinstance(m, S) else z3.BoolVal(bool(m))
        ee = e.e if isinstance(e, S) else z3.BoolVal(bool(e))
        for k, f in (("tp", z3.And(me, ee)), ("tn", z3.And(z3.Not(me), ee)), ("fp", z3.And(z3.Not(me), z3.Not(ee))), ("fn", z3.And(me, z3.Not(ee)))):
            cnt[k].append(z3.If(f, 1, 0))
    out = []
    for k, v in cnt.items():
        tot = z3.simplify(z3.Sum(v))
        got = at[k]
        f = z3.simplify((got.e if isinstance(got, S) else z3.IntVal(int(got))) == tot)
        out.append((k, True if z3.is_true(f) else False if z3.is_false(f) else f))
    return out


def atoms_unit(n, labs, quick):
    def body(env, c):
        t = [F.integer(c, f"t{i}", 0, 1) for i in range(n)]
        p = [F.integer(c, f"p{i}", 0, 1) for i in range(n)]
        lab = lambda v: stubs._select(v, list(labs))  # noqa: E731
        T, P = wrap([lab(v) for v in t]), wrap([lab(v) for v in p])

        def cases(m):
            if m is not None:
                yield {"kind": "atoms", "labs": labs, "t": [int(num(m, v.e)) for v in t], "p": [int(num(m, v.e)) for v in p]}

        c.tags["cases"] = cases
        at = met(env.sym).calculate_atoms(T, P, labs[1])
        return atoms_goals(at, list(T.view(np.ndarray)), list(P.view(np.ndarray)), labs[1])

    return F.unit(f"atoms:labels={labs}", body, replay, quick=quick, max_paths=150, bounds=f"{n} samples, every true and predicted label, labels {labs}")


def real_atoms(sv, case):
    labs = case["labs"]
    t, p = np.array([labs[i] for i in case["t"]]), np.array([labs[i] for i in case["p"]])
    bad = [k for k, v in atoms_goals(met(sv).calculate_atoms(t, p, labs[1]), t.tolist(), p.tolist(), labs[1]) if v is not True]
    return [("atoms", f"atoms {bad} wrong for true {t.tolist()} predicted {p.tolist()} minority {labs[1]}")] if bad else []


def pred_goals(lab, p, half):
    """half: which entries are exactly 0.5"""
    g = []
    for i, (a, b) in enumerate(zip(lab, p)):
        if half[i]:
            g.append((f"label {i} is 0 or 1", F.disj([a == 0, a == 1])))
        else:
            hi = b > 0.5
            he = hi.e if isinstance(hi, S) else z3.BoolVal(bool(hi))
            ae = a.e if isinstance(a, S) else z3.IntVal(int(a))
            f = z3.simplify(ae == z3.If(he, 1, 0))
            g.append((f"label {i}", True if z3.is_true(f) else False if z3.is_false(f) else f))
    k = sum(half)
    if k > 1:
        ones = sum((a for a, h in zip(lab, half) if h), 0)
        g.append(("undecided samples are shared evenly", F.conj([F.le(k // 2, ones), F.le(ones, k - k // 2)])))
    return g


def pred_unit(n, quick):
    def body(env, c):
        p = F.reals(c, "p", n, 0.0, 1.0)

        def cases(m):
            if m is not None:
                yield {"kind": "pred", "p": values(m, p)}

        c.tags["cases"] = cases
        lab = met(env.sym).prediction_labels(p.copy())
        half = [bool(v == 0.5) for v in p.view(np.ndarray)]
        if len(lab) != n:
            return [("one label per sample", False)]
        return pred_goals(list(wrap(lab).view(np.ndarray)), list(p.view(np.ndarray)), half)

    return F.unit(f"prediction labels:n={n}", body, replay, quick=quick, max_paths=100 if quick else 1000, bounds=f"{n} samples, every probability")


def real_pred(sv, case):
    p = np.array(case["p"], dtype=float)
    lab = met(sv).prediction_labels(p.copy())
    bad = [k for k, v in pred_goals(list(map(int, lab)), p.tolist(), [v == 0.5 for v in p]) if not bool(v)]
    return [("pred", f"labels {list(map(int, lab))} for probabilities {p.tolist()}: not {bad}")] if bad else []


def prob_goals(r, y, p, ll):
    n = len(y)
    k = max(int(0.2 * n), 1)
    g = [("brier", eqv(r["brier"] * n, sum(((a - b) * (a - b) for a, b in zip(p, y)), 0.0)))]
    # some set of k samples with the highest probabilities has that share of minority samples
    alts = []
    for top in itertools.combinations(range(n), k):
        rest = [i for i in range(n) if i not in top]
        share = sum(1 for i in top if y[i] == 1) / k
        alts.append(F.conj([eqv(r["p_top20"], share)] + [F.le(p[j], p[i]) for i in top for j in rest]))
    g.append(("p_top20", F.disj(alts)))
    pos, neg = [p[i] for i in range(n) if y[i] == 1], [p[i] for i in range(n) if y[i] != 1]
    tot = 0.0
    for a in pos:
        for b in neg:
            if isinstance(a, S) or isinstance(b, S):
                ea, eb = core.to_real(core.zval(a)), core.to_real(core.zval(b))
                tot = tot + S(z3.If(ea > eb, z3.RealVal(1), z3.If(ea == eb, z3.Q(1, 2), z3.RealVal(0))), True)
            else:
                tot += 1.0 if a > b else 0.5 if a == b else 0.0
    g.append(("auc", eqv(r["auc"] * (len(pos) * len(neg)), tot)))
    g.append(("log_loss", eqv(r["log_loss"], ll)))
    return g


PATTERNS = {8: [[0, 1, 0, 0, 1, 0, 1, 0]], 5: [[1, 0, 0, 1, 0], [0, 1, 1, 1, 0]], 6: [[0, 0, 1, 0, 1, 1]], 10: [[0, 1, 0, 0, 1, 0, 1, 0, 0, 0]], 11: [[0, 1, 0, 0, 1, 0, 1, 0, 0, 0, 1]]}


def prob_unit(y, free, whole, quick):
    """free: how many probabilities are symbolic; the rest is fixed and spread out"""
    n = len(y)

    def body(env, c):
        c.tags["exact"] = True
        p = F.reals(c, "p", n, 0.0, 1.0)
        for i in range(free, n):
            p[i] = round(((7 * i) % n + 0.5) / n, 4)

        def cases(m):
            if m is not None:
                yield {"kind": "prob", "y": list(y), "p": values(m, p), "whole": whole}

        c.tags["cases"] = cases
        Y = wrap(np.array(y))
        m = met(env.sym)
        r = (m.calculate_all_scores if whole else m.calculate_prob_scores)(Y, p.copy())
        g = prob_goals(r, y, list(p.view(np.ndarray)), stubs.log_loss(Y, p))
        if whole:
            lab = m.prediction_labels(p.copy())
            lab = wrap(lab)
            at = m.calculate_atoms(Y, lab)
            g += [(k, eqv(r[k], at[k])) for k in ("tp", "tn", "fp", "fn")]
        return g

    return F.unit(f"{'all' if whole else 'prob'} scores:y={y},free={free}", body, replay, quick=quick, max_paths=60 if quick else 600,
                  bounds=f"{n} samples, {free} of the probabilities arbitrary")


def real_prob(sv, case):
    from sklearn.metrics import log_loss

    y, p = np.array(case["y"]), np.array(case["p"], dtype=float)
    m = met(sv)
    r = (m.calculate_all_scores if case["whole"] else m.calculate_prob_scores)(y.copy(), p.copy())
    bad = [k for k, v in prob_goals(r, y.tolist(), p.tolist(), float(log_loss(y, p))) if not bool(v)]
    if case["whole"]:
        at = m.calculate_atoms(y, m.prediction_labels(p.copy()))
        bad += [k for k in at if r[k] != at[k]]
    return [("prob", f"scores {bad} of labels {y.tolist()} probabilities {p.tolist()} are not their definitions")] if bad else []


def replay(sv, case):
    return {"labels": real_labels, "atoms": real_atoms, "pred": real_pred, "prob": real_prob}[case["kind"]](sv, case)


def main(tier, t0):
    def units(env, quick):
        us = [labels_unit(50 if quick else 1000, False, quick), labels_unit(50, True, quick)]
        us += [atoms_unit(3, (0, 1), quick), atoms_unit(3, (5, -2), quick), atoms_unit(3, (1, 0), quick)]
        us += [pred_unit(n, quick) for n in (1, 2, 3, 4, 5)]
        for ys in PATTERNS.values():
            for y in ys:
                us.append(prob_unit(y, len(y) if len(y) < 7 else 3, False, quick))
        us.append(prob_unit(PATTERNS[5][0], 3, True, quick))
        us.append(prob_unit(PATTERNS[10][0], 2, True, quick))
        return us

    return F.run(ID, tier, t0, units, assumptions=["values are exact reals", "sklearn's log_loss is a function of its two arguments; roc_auc_score counts ordered pairs",
                                                   "the logarithm is a function"])
