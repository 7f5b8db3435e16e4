"""C17: the job pool runs every job once, returns results in order, honours the timeout, never hangs"""
import itertools
import json
import os
import subprocess
import sys

from harness import fcheck as F
from harness import sim
from harness.common import num
from symx import core
from symx.core import S, z3

ID = "C17"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))



class Job:
    """a job of the pool: its result, its fallback, how often each was asked for"""

    def __init__(self, i, act=None):
        self.i, self.act = i, act
        self.runs = self.falls = 0

    def execute(self):
        self.runs += 1
        if self.act:
            self.act()
        return ("result", self.i)

    def timeout(self):
        self.falls += 1
        return ("fallback", self.i)


class Lk:
    """the lock the manager releases once its process has started"""

    def __init__(self):
        self.n = 0

    def acquire(self, *a, **k):
        pass

    def release(self):
        self.n += 1


# -- one job, every timing -----------------------------------------------------------


def timing(mod, cfg, work, linger, big, limit, delay):
    P = mod.evaluation._parallelization
    w = sim.Timing(cfg["outcome"], work, linger, big, delay)
    job, res, lk = Job(1), ["before", "empty", "after"], Lk()
    g = []
    with sim.patched(P, w.fakes()):
        try:
            P.process_manager(job, 1, res, lk, limit)
        except sim.Deadlock as e:
            return [(f"it never ends: {e}", False)]
    g.append(("the start was announced once", lk.n == 1))
    g.append(("only its own slot is written", res[0] == "before" and res[2] == "after"))
    p = w.procs[0] if w.procs else None
    g.append(("one process", len(w.procs) == 1))
    R, T = ("result", 1), ("fallback", 1)
    g.append(("the result or the fallback", res[1] in (R, T)))
    if p is None:
        return g
    g.append(("no process is left running", p._exited()))
    got = res[1] == R
    if cfg["outcome"] == "ok":
        g.append(("ran once", job.runs <= 1))
        if limit is None or not isinstance(limit, S) and limit <= 0:
            g.append(("without a limit the result is returned", got))
        else:
            # the result is there before the limit is up (started at start_t)
            in_time = p.start_t + work <= p.start_t + limit
            g.append(("a result in time is returned", got or F.disj([z3.Not(in_time.e) if isinstance(in_time, S) else not in_time])))
    else:
        g.append(("without a result the fallback is returned", res[1] == T))
    if not got:
        g.append(("the fallback was asked for once", job.falls == 1))
    if cfg.get("prompt") and not (limit is None or not isinstance(limit, S) and limit <= 0):
        late = p.start_t + limit + 1.0
        g.append(("ends within a second of the limit", F.le(w.now, late, 1e-9) if not (got and cfg["outcome"] == "ok") else True))
    return g


def timing_unit(cfg, quick):
    def body(env, c):
        work = F.real(c, "work", 0.0, 1000.0)
        linger = F.real(c, "linger", 0.0, 5.0)
        big = bool(F.pick(c, "big", 0, 1)) if cfg["outcome"] == "ok" else False
        limit = {"none": None, "negative": -1, "zero": 0}.get(cfg["limit"])
        if cfg["limit"] == "set":
            limit = F.real(c, "limit", 0.0, 100.0, strict=True)
        ds = []
        n = [0]

        def delay():
            n[0] += 1
            if cfg.get("prompt"):
                return 0.0
            if n[0] > cfg.get("ops", 60):
                raise core.BoundHit("operations of the manager")
            ds.append(F.real(c, f"delay{len(ds)}", 0.0, 1000.0))
            return ds[-1]

        def cases(m):
            if m is not None:
                yield {"kind": "timing", "cfg": cfg, "work": num(m, work.e), "linger": num(m, linger.e), "big": big,
                       "limit": num(m, limit.e) if isinstance(limit, S) else limit, "delays": [num(m, d.e) for d in ds]}
            for wk in (0.0, 0.2, 3.0):
                yield {"kind": "timing", "cfg": cfg, "work": wk, "linger": 0.1, "big": big, "limit": 0.5 if isinstance(limit, S) else limit, "delays": []}

        c.tags["cases"] = cases
        return timing(env.sym, cfg, work, linger, big, limit, delay)

    nm = "timing:" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=150 if quick else 3000, wall_s=15 if quick else 150, max_forks=60,
                  bounds="one job: every moment at which its result is put and it exits, every limit, every delay of the manager; polls up to the path bound")


def real_timing(sv, case):
    ds = iter(case["delays"])
    steps = [0]

    def delay():
        steps[0] += 1
        if steps[0] > 200000:
            raise sim.Deadlock("polls for ever")
        return next(ds, 0.0)

    bad = [k for k, v in timing(sv, case["cfg"], case["work"], case["linger"], case["big"], case["limit"], delay) if not bool(v)]
    if bad:
        return [("timing", f"process_manager: not so: {bad[:3]}; the job {case['cfg']['outcome']}, result after {case['work']}, exit {case['linger']} later, "
                 f"large result {case['big']}, limit {case['limit']}, delays {case['delays'][:12]}")]
    return []


# -- the pool, every interleaving ----------------------------------------------------


def pool_goals(mod, cfg, outcomes, choose, preempt):
    P = mod.evaluation._parallelization
    s = sim.Sim(choose, preempt)

    def act(kind):
        def f():
            if kind == "hang":
                s.hang()
            if kind == "die":
                raise ValueError("the job fails")
        return f

    jobs = [Job(i, act(k)) for i, k in enumerate(outcomes)]
    out = {}

    class Pool(P.ThreadTimeoutProcessPool):
        """every look at the shared counter is a step of the schedule"""

        @property
        def idx(self):
            if s.cur is not None:
                s.switch()
            return self._i

        @idx.setter
        def idx(self, v):
            if s.cur is not None:
                s.switch()
            self._i = v

    fk = s.fakes()
    with sim.patched(P, fk):
        def main():
            pool = Pool(cfg["n_jobs"], cfg["timeout"])
            if cfg.get("apply"):
                out["r"] = pool.apply(lambda j: j.execute(), jobs)
            else:
                out["r"] = pool.execute(jobs)
            if cfg.get("again"):
                out["r2"] = pool.execute(jobs)

        try:
            s.run(main)
        except sim.Deadlock as e:
            return [(f"the pool never ends: {e}", False)]
    r = out.get("r")
    fb = (lambda i: None) if cfg.get("apply") else (lambda i: ("fallback", i))
    want = [("result", i) if k == "ok" else fb(i) for i, k in enumerate(outcomes)]
    g = [("one result per job, in order", r == want)]
    if cfg.get("again"):
        g.append(("the same again", out.get("r2") == want))
    n = 2 if cfg.get("again") else 1
    g.append(("every job is started once", all(j.runs == n for j in jobs)))
    g.append(("no more processes at a time than allowed", s.most <= cfg["n_jobs"]))
    g.append(("all processes ended", s.alive == 0))
    return g


def pool_unit(cfg, quick):
    kinds = ["ok", "hang", "die"] if cfg["timeout"] and cfg["timeout"] > 0 else ["ok", "die"]
    n = cfg["jobs"]
    pre = cfg["pre"] if quick else cfg["pre"] + 1

    def body(env, c):
        outcomes = [kinds[F.pick(c, f"job{i}", 0, len(kinds) - 1)] for i in range(n)]
        made = []

        def choose(k):
            made.append(F.pick(c, f"next{len(made)}", 0, k - 1))
            return made[-1]

        def cases(m):
            yield {"kind": "pool", "cfg": cfg, "outcomes": outcomes, "choices": list(made), "pre": pre}
            if m is not None and cfg.get("processes"):
                yield {"kind": "processes", "cfg": cfg, "outcomes": outcomes}

        c.tags["cases"] = cases
        return pool_goals(env.sym, cfg, outcomes, choose, pre)

    nm = "pool:" + ",".join(f"{k}={v}" for k, v in cfg.items())
    return F.unit(nm, body, replay, quick=quick, max_paths=600 if quick else 20000, wall_s=15 if quick else 200, max_forks=2000,
                  bounds=f"{n} jobs that succeed, fail or hang, {cfg['n_jobs']} threads, every schedule with at most {pre} preemptions")


def real_pool(sv, case):
    it = iter(case["choices"])
    g = pool_goals(sv, case["cfg"], case["outcomes"], lambda n: min(next(it, 0), n - 1), case["pre"])
    bad = [k for k, v in g if not bool(v)]
    return [("pool", f"ThreadTimeoutProcessPool({case['cfg']['n_jobs']}, {case['cfg']['timeout']}): not so: {bad[:3]} for jobs {case['outcomes']}, schedule {case['choices']}")] if bad else []


# -- the same with real processes --------------------------------------------------------

SCRIPT = r"""
import json, sys, time, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
cfg = json.loads(sys.argv[2])
from smote_variants.evaluation import ThreadTimeoutProcessPool, TimeoutJobBase
class J(TimeoutJobBase):
    def __init__(self, i, k):
        self.i, self.k = i, k
    def execute(self):
        if self.k == "hang":
            time.sleep(60)
        if self.k == "die":
            sys.stderr = open("/dev/null", "w")
            raise ValueError("fails")
        return ["result", self.i, "x" * (300000 if self.k == "big" else 1)]
    def timeout(self):
        return ["fallback", self.i]
r = ThreadTimeoutProcessPool(cfg["n_jobs"], cfg["timeout"]).execute([J(i, k) for i, k in enumerate(cfg["outcomes"])])
print(json.dumps([x[:2] if x else x for x in r]))
"""


def real_processes(sv, case):
    o = case["outcomes"]
    cfg = {"n_jobs": case["cfg"]["n_jobs"], "timeout": 12 if "hang" in o else -1, "outcomes": o}
    root = os.path.dirname(os.path.dirname(os.path.abspath(sv.__file__)))
    p = subprocess.Popen([sys.executable, "-c", SCRIPT, root, json.dumps(cfg)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, start_new_session=True)
    try:
        txt, _ = p.communicate(timeout=90)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return [("processes", f"the pool did not end within 90 s for jobs {o}")]
    if p.returncode:
        raise core.Unsupported("the child interpreter failed")
    got = json.loads(txt)
    want = [["fallback" if k in ("hang", "die") else "result", i] for i, k in enumerate(o)]
    return [] if got == want else [("processes", f"jobs {o} with real processes gave {got}")]


def processes_unit(outcomes, n_jobs, quick):
    """the stand-ins against real processes: one schedule, replayed as it is"""
    cfg = {"jobs": len(outcomes), "n_jobs": n_jobs, "timeout": 2, "pre": 0}

    def body(env, c):
        def cases(m):
            yield {"kind": "processes", "cfg": cfg, "outcomes": outcomes}

        c.tags["cases"] = cases
        return pool_goals(env.sym, cfg, ["ok" if k == "big" else k for k in outcomes], lambda n: 0, 0)

    return F.unit(f"processes:{','.join(outcomes)}", body, replay, quick=quick, max_paths=4, wall_s=120, bounds="one schedule, compared with real processes")


def replay(sv, case):
    try:
        return {"timing": real_timing, "pool": real_pool, "processes": real_processes}[case["kind"]](sv, case)
    except (core.Unsupported, core.BoundHit):
        raise
    except Exception as e:  # noqa: BLE001
        return [(case["kind"], f"{case['kind']} {case['cfg']}: raised {F.blame(e)}")]


def units(env, quick):
    us = [processes_unit(["ok", "big", "die"], 2, quick), processes_unit(["hang", "ok"], 2, quick)]
    for o, lim in itertools.product(("ok", "die", "hang"), ("none", "negative", "zero", "set")):
        if o == "hang" and lim != "set":
            continue
        us.append(timing_unit({"outcome": o, "limit": lim}, quick))
        us.append(timing_unit({"outcome": o, "limit": lim, "prompt": True}, quick))
    for jobs, n_jobs, t, pre, k in [(3, 2, -1, 1, {}), (2, 2, 1.0, 2, {}), (3, 2, 1.0, 1, {}), (2, 3, -1, 2, {}), (4, 1, 1.0, 1, {}), (1, 2, 1.0, 3, {}), (0, 2, -1, 2, {}),
                                    (2, 2, -1, 1, {"apply": True}), (2, 2, 0.5, 1, {"again": True}), (4, 3, -1, 1, {}), (2, 1, None, 2, {})]:
        us.append(pool_unit({"jobs": jobs, "n_jobs": n_jobs, "timeout": t, "pre": pre, **k}, quick))
    return us


def main(tier, t0):
    return F.run(ID, tier, t0, units)
