"""driver of the checks that quantify over the oversampling classes"""
import logging
import time
import os
import warnings

import numpy as np

from symx import load
from symx.snp import wrap

from . import common, overs
from .common import Path

NCFG = {"quick": 4, "thorough": 16}


class Messages(logging.Handler):
    """warnings the package issues or logs during a call"""

    def __init__(self):
        super().__init__(logging.INFO)
        self.out = []

    def emit(self, rec):
        msg = str(rec.msg)  # not formatted: the arguments may be symbolic
        # some refusals to sample are logged as information only
        if rec.levelno >= logging.WARNING or "returning copies" in msg or "not enough dimensions" in msg:
            self.out.append(msg)

    def __enter__(self):
        self.log = logging.getLogger("smote_variants")
        self.lev, self.hs, self.pr = self.log.level, self.log.handlers[:], self.log.propagate
        self.log.handlers[:] = [self]
        self.log.propagate = False
        self.log.setLevel(logging.INFO)
        self.cw = warnings.catch_warnings(record=True)
        self.rec = self.cw.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.cw.__exit__(*a)
        self.out += [str(w.message) for w in self.rec if "returning copies" in str(w.message)]
        self.log.handlers[:] = self.hs
        self.log.setLevel(self.lev)
        self.log.propagate = self.pr


class SymCall:
    """what one symbolic call did"""


def sym_call(env, c, job):
    """runs the class on symbolic inputs; job may ask for a first call on other data"""
    run = overs.sym_inputs(c, job)
    c.tags["cases"] = lambda m: overs.model_case(c, job, run, m, extra=job.get("extra"))
    r = SymCall()
    r.run = run
    o = getattr(env.sym, job["cls"])(random_state=job["seed"], **run.params)
    if job.get("reuse"):
        keep = c.tags.get("sym_draws")
        c.tags["sym_draws"] = 0
        X1, y1 = overs.other_data(job["d"], job["labels"])
        o.sample(wrap(X1), wrap(y1))
        if keep is None:
            c.tags.pop("sym_draws", None)
        else:
            c.tags["sym_draws"] = keep + len(c.draws)
    with Messages() as rec:
        Xs, ys = o.sample(run.X, run.y)
    r.obj = o
    r.warned = rec.out
    r.rawX, r.rawy = Xs, ys
    r.Xs, r.ys = wrap(Xs), wrap(ys)
    return r


def real_call(sv, case, X=None, y=None, seed=None):
    X = np.array(case["X"], dtype=float) if X is None else X
    y = np.array(case["y"]) if y is None else y
    o = overs.real_object(sv, case, seed)
    r = SymCall()
    if case.get("reuse"):
        X1, y1 = overs.other_data(X.shape[1], case["labels"])
        o.sample(X1, y1)
    with Messages() as rec:
        Xs, ys = o.sample(X, y)
    r.obj = o
    r.warned = rec.out
    r.rawX, r.rawy = Xs, ys
    r.Xs, r.ys = np.asarray(Xs), np.asarray(ys)
    return r


def unit(job, body, replay, quick, chain=(), chain_s=1.2):
    def one(j, env, spent=0.0):
        return common.explore(
            j["name"], lambda c: Path(body(env, c, j)), lambda case: replay(env.real, case), bounds=j["bounds"],
            max_paths=j.get("max_paths", 12 if quick else 80), wall_s=max(0.5, j.get("wall_s", 2.8 if quick else 40) - spent), timeout_ms=1500,
        )

    def go(env):
        t = time.time()
        out = one(job, env)
        for j in chain:
            if time.time() - t > chain_s or out["violations"]:
                break
            common.absorb(out, one(j, env, time.time() - t))
        return out

    return go


def run(ID, tier, t0, jobs_of, body, replay, *, level="model_checking", deadline=None, assumptions=None, setup=None):
    """jobs_of(real) -> jobs; body(env, c, job) -> goals"""
    real, sym = load.load_both()
    env = common.Env(real, sym)
    if setup:
        setup(env)
    quick = tier == "quick"
    jobs = jobs_of(real)
    main = [j for j in jobs if not j.get("spare")]
    chains = {}
    for cls in {j["cls"] for j in jobs}:
        ms, ss = [j for j in main if j["cls"] == cls], [j for j in jobs if j.get("spare") and j["cls"] == cls]
        for i, j in enumerate(ss):
            if ms:
                chains.setdefault(ms[i % len(ms)]["name"], []).append(j)
    res = common.run_units(
        [(j["name"], unit(j, body, replay, quick, chains.get(j["name"], ()))) for j in main], env,
        unit_timeout=40 if quick else 150, deadline_s=deadline or (260 if quick else 2700),
    )
    return common.finish(ID, tier, res, t0=t0, level=level, assumptions=assumptions or overs.ASSUMPTIONS)
